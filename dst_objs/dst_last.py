"""Publishes (or replaces) its output in finalize(), as the calibrators do."""
import numpy as np
from specula.base_processing_obj import BaseProcessingObj
from specula.base_value import BaseValue
from specula.connections import InputValue


class DstLast(BaseProcessingObj):
    def __init__(self, refresh: bool = False, scale: float = 1.0, target_device_idx: int = None, precision: int = None):
        super().__init__(target_device_idx=target_device_idx, precision=precision)
        self._refresh, self._scale, self._n = refresh, scale, 0
        self.inputs['input'] = InputValue(type=BaseValue)
        self.outputs['out'] = BaseValue(value=self.xp.zeros(3, dtype=self.dtype), target_device_idx=target_device_idx, precision=precision)

    def trigger_code(self):
        self._n += 1

    def post_trigger(self):
        super().post_trigger()
        if self._refresh:
            self.outputs['out'].value[:] = self._n
            self.outputs['out'].generation_time = self.current_time

    def finalize(self):
        super().finalize()
        self.outputs['out'].value[:] = self._scale * (1000 + np.arange(3)) + self._n
        self.outputs['out'].generation_time = self.current_time
