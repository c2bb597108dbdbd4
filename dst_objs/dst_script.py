"""Scripted source: refreshes its output at the scheduled steps only, with values that the reference models can recompute."""
import numpy as np
from specula.base_processing_obj import BaseProcessingObj
from specula.base_value import BaseValue
from specula.data_objects.intensity import Intensity
from specula.data_objects.electric_field import ElectricField
from specula.data_objects.slopes import Slopes
from specula.data_objects.pixels import Pixels
from specula.data_objects.layer import Layer


def frame(seed, k, shape, lo=-1.0, hi=1.0):
    """Value delivered at step k."""
    if hi != hi:
        v = frame(seed, k, shape, lo, 1.0)
        v.flat[k % v.size] = np.nan
        return v
    return np.random.RandomState((seed * 100003 + k * 7 + 11) & 0x7fffffff).uniform(lo, hi, size=tuple(shape))


class DstScript(BaseProcessingObj):
    def __init__(self, kind: str = 'value', shape: list = None, seed: int = 1, schedule: list = None, lo: float = -1.0, hi: float = 1.0,
                 pitch: float = 0.1, rebind: bool = False, values: list = None, static_amp: bool = True, s0: float = 1.0, mask: list = None,
                 target_device_idx: int = None, precision: int = None):
        super().__init__(target_device_idx=target_device_idx, precision=precision)
        self._kind, self._shape, self._seed, self._schedule, self._lo, self._hi = kind, list(shape or [3]), seed, schedule, lo, hi
        self._rebind, self._values, self._k = rebind, values, 0
        kw = dict(target_device_idx=target_device_idx, precision=precision)
        s = self._shape
        if kind == 'value':
            o = BaseValue(value=self.xp.zeros(s, dtype=self.dtype), **kw)
            self._name = 'out'
        elif kind == 'unset':
            o = BaseValue(**kw)
            self._name = 'out'
        elif kind == 'scalar':
            o = BaseValue(value=0.0, **kw)
            self._name = 'out'
        elif kind == 'light':
            o = Intensity(s[-1], s[0], **kw)
            self._name = 'out_i'
        elif kind == 'pixels':
            o = Pixels(s[-1], s[0], **kw)
            self._name = 'out_pixels'
        elif kind == 'slopes':
            o = Slopes(s[0], **kw)
            self._name = 'out_slopes'
        elif kind in ('ef', 'layer'):
            if kind == 'ef':
                o = ElectricField(s[0], s[0], pitch, S0=s0, **kw)
            else:
                o = Layer(s[0], s[0], pitch, 0.0, **kw)
            if mask is not None:
                o.A[:] = self.to_xp(np.asarray(mask, dtype=float).reshape(s[0], s[0]))
            self._name = 'out_ef'
        else:
            raise ValueError(kind)
        self.outputs[self._name] = o
        self._fire = False

    def trigger_code(self):
        k = self._k
        self._k += 1
        self._fire = self._schedule is None or (k < len(self._schedule) and bool(self._schedule[k]))
        if not self._fire:
            return
        o = self.outputs[self._name]
        if self._values is not None:
            v = np.asarray(self._values[k % len(self._values)], dtype=self.dtype)
        else:
            v = frame(self._seed, k, self._shape, self._lo, self._hi).astype(self.dtype)
        kind = self._kind
        if kind in ('value', 'unset'):
            if self._rebind or o.value is None:
                o.value = self.to_xp(v)
            else:
                o.value[:] = v
        elif kind == 'scalar':
            o.value = float(v.ravel()[0]) if self._rebind else self.dtype(v.ravel()[0])
        elif kind == 'light':
            if self._rebind:
                o.i = self.to_xp(v)
            else:
                o.i[:] = v
        elif kind == 'pixels':
            if self._rebind:
                o.pixels = self.to_xp(v)
            else:
                o.pixels[:] = v
        elif kind == 'slopes':
            if self._rebind:
                o.slopes = self.to_xp(v)
            else:
                o.slopes[:] = v
        else:
            o.phaseInNm[:] = v

    def post_trigger(self):
        super().post_trigger()
        if self._fire:
            self.outputs[self._name].generation_time = self.current_time
