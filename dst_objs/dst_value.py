"""A static user data object usable as an input (like a pupil stop)."""
import numpy as np
from specula.base_value import BaseValue


class DstValue(BaseValue):
    def __init__(self, numbers: list = None, target_device_idx: int = None, precision: int = None):
        super().__init__(value=np.array(numbers, dtype=float), target_device_idx=target_device_idx, precision=precision)
