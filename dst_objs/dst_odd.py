"""Outputs that a data store cannot represent: values changing shape, text, objects, a header that cannot be made."""
import numpy as np
from specula.base_processing_obj import BaseProcessingObj
from specula.base_value import BaseValue


class OddValue(BaseValue):
    _how = ''

    def get_fits_header(self):
        if self._how == 'header':
            raise RuntimeError('no header for this object')
        return super().get_fits_header()


class DstOdd(BaseProcessingObj):
    def __init__(self, how: str = 'ragged', since: int = 0, target_device_idx: int = None, precision: int = None):
        super().__init__(target_device_idx=target_device_idx, precision=precision)
        o = OddValue(value=self.xp.zeros(3, dtype=self.dtype), target_device_idx=target_device_idx, precision=precision)
        o._how = how
        self._how, self._since, self._k = how, since, 0
        self.outputs['out'] = o

    def trigger_code(self):
        o = self.outputs['out']
        k = self._k
        self._k += 1
        if k < self._since:
            o.value = np.arange(3.0) + k
        elif self._how == 'ragged':
            o.value = np.arange(2.0 + k % 3)
        elif self._how == 'text':
            o.value = np.array(['abc', 'd'])
        elif self._how == 'object':
            o.value = np.array([dict(a=1), None], dtype=object)
        else:
            o.value = np.arange(3.0) + k
        o.generation_time = self.current_time
