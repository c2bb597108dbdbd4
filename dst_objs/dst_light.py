"""Light source: an Intensity whose value at each refresh is scripted."""
from specula.base_processing_obj import BaseProcessingObj
from specula.data_objects.intensity import Intensity


class DstLight(BaseProcessingObj):
    def __init__(self, size: int = 4, level: float = 1.0, levels: list = None, schedule: list = None,
                 target_device_idx: int = None, precision: int = None):
        super().__init__(target_device_idx=target_device_idx, precision=precision)
        self._levels = levels
        self._level = level
        self._schedule = schedule
        self._k = 0
        self.outputs['out_i'] = Intensity(size, size, target_device_idx=target_device_idx, precision=precision)

    def trigger_code(self):
        k = self._k
        self._k += 1
        self._fire = self._schedule is None or bool(self._schedule[k % len(self._schedule)])
        if self._fire:
            o = self.outputs['out_i']
            v = self._level if self._levels is None else self._levels[k % len(self._levels)]
            o.i[:] = v
            o.i.ravel()[0] = v * 2 + 1

    def post_trigger(self):
        super().post_trigger()
        if self._fire:
            self.outputs['out_i'].generation_time = self.current_time
