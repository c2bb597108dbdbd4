"""Outputs that observers cannot handle: unserialisable, uncopyable or undisplayable values."""
from specula.base_processing_obj import BaseProcessingObj
from specula.base_value import BaseValue
from dst_objs import registry


class BadValue(BaseValue):
    def copyTo(self, target_device_idx):
        if self._how == 'copy':
            raise RuntimeError('cannot be copied')
        return super().copyTo(target_device_idx)

    def array_for_display(self):
        if self._how == 'display':
            raise RuntimeError('cannot be displayed')
        return super().array_for_display()

    def __getstate__(self):
        if self._how == 'pickle':
            raise TypeError('cannot be serialised')
        return dict(self.__dict__)


class DstBad(BaseProcessingObj):
    def __init__(self, how: str = 'pickle', shape: list = None, target_device_idx: int = None, precision: int = None):
        super().__init__(target_device_idx=target_device_idx, precision=precision)
        self._shape = list(shape or [3])
        o = BadValue(value=self.xp.zeros(self._shape, dtype=self.dtype), target_device_idx=target_device_idx, precision=precision)
        o._how = how
        if how == 'lambda':
            o._closure = lambda: None
        self.outputs['out'] = o
        self._k = 0

    def trigger_code(self):
        self._k += 1
        o = self.outputs['out']
        if not hasattr(o, 'xp'):
            registry.rec(self.current_time, self.name, 'damaged', 'xp')
        o.value[:] = self.xp.arange(o.value.size).reshape(self._shape) + self._k
        o.generation_time = self.current_time
