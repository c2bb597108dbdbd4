"""Reads outputs of other blocks with the delay written in the configuration and keeps a copy of what it was given at each run."""
import numpy as np
from specula.base_processing_obj import BaseProcessingObj
from specula.base_data_obj import BaseDataObj
from specula.base_value import BaseValue
from specula.connections import InputList, InputValue


class DstLag(BaseProcessingObj):
    def __init__(self, target_device_idx: int = None, precision: int = None):
        super().__init__(target_device_idx=target_device_idx, precision=precision)
        self.inputs['clock'] = InputValue(type=BaseValue)
        self.inputs['input'] = InputList(type=BaseDataObj)
        self.seen = []

    def trigger_code(self):
        rec = []
        for x in self.local_inputs['input']:
            try:
                v = x.get_value()
            except (NotImplementedError, AttributeError):
                v = None
            rec.append((int(x.generation_time), None if v is None else np.array(v, copy=True)))
        self.seen.append((int(self.current_time), rec))
