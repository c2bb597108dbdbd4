"""Fails in finalize(), as a calibrator that cannot write its results does."""
from specula.base_processing_obj import BaseProcessingObj
from specula.base_value import BaseValue


class DstFailFin(BaseProcessingObj):
    def __init__(self, fail: bool = True, target_device_idx: int = None, precision: int = None):
        super().__init__(target_device_idx=target_device_idx, precision=precision)
        self._fail = fail
        self.outputs['out'] = BaseValue(value=0.0, target_device_idx=target_device_idx, precision=precision)

    def finalize(self):
        super().finalize()
        if self._fail:
            raise OSError(28, 'No space left on device')
