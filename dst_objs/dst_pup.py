"""Pupil geometry that moves at every step (or is never delivered), with a dictionary of fit parameters, for displays."""
import numpy as np
from specula.base_processing_obj import BaseProcessingObj
from specula.base_value import BaseValue
from specula.data_objects.pupdata import PupData


class DstPup(BaseProcessingObj):
    def __init__(self, every: int = 1, target_device_idx: int = None, precision: int = None):
        super().__init__(target_device_idx=target_device_idx, precision=precision)
        self.outputs['out_pupdata'] = PupData(ind_pup=np.arange(8).reshape(2, 4), radius=np.ones(4), cx=np.arange(4.0), cy=np.arange(4.0), framesize=[4, 4])
        self.outputs['out_params'] = BaseValue()
        self._every, self._k = every, 0

    def trigger_code(self):
        if self._every and self._k % self._every == 0:
            o = self.outputs['out_pupdata']
            o.cx[:] = self._k + np.arange(4)
            o.radius[:] = 1 + self._k % 3
            o.generation_time = self.current_time
            self.outputs['out_params'].value = {'fit': self._k}
            self.outputs['out_params'].generation_time = self.current_time
        self._k += 1
