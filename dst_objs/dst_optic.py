"""Scripted source of optical data (fields, layers, vectors, images) that can deliver corrupted frames and that knows whether
somebody else has written into what it has delivered."""
import numpy as np
from specula.base_processing_obj import BaseProcessingObj
from specula.base_value import BaseValue
from specula.data_objects.intensity import Intensity
from specula.data_objects.electric_field import ElectricField
from specula.data_objects.pixels import Pixels
from specula.data_objects.layer import Layer


def support(shape, kind):
    h, w = shape
    yy, xx = np.mgrid[:h, :w]
    r = np.hypot((yy - (h - 1) / 2) / (h / 2), (xx - (w - 1) / 2) / (w / 2))
    if kind == 'disk':
        return (r <= 1.0).astype(float)
    if kind == 'annulus':
        return ((r <= 1.0) & (r > 0.3)).astype(float)
    return np.ones((h, w))


def uniform(seed, k, shape, lo, hi):
    return np.random.RandomState((seed * 100003 + k * 7 + 11) & 0x7fffffff).uniform(lo, hi, size=tuple(shape))


class DstOptic(BaseProcessingObj):
    """plan: one entry per step, None (no refresh) or [frame number, corruption]."""
    def __init__(self, kind: str = 'ef', shape: list = None, seed: int = 1, plan: list = None, amp: float = 100.0, lo: float = 0.0,
                 pitch: float = 0.1, mask: str = 'disk', scint: float = 0.0, s0: float = 10.0, s0_var: bool = False, smooth: bool = True,
                 height: float = 0.0, shift: list = None, rot: float = 0.0, magn: float = 1.0, rebind: bool = False, rows: list = None, spot: float = 0.0,
                 target_device_idx: int = None, precision: int = None):
        super().__init__(target_device_idx=target_device_idx, precision=precision)
        kw = dict(target_device_idx=target_device_idx, precision=precision)
        self._kind, self._shape, self._seed, self._plan, self._amp, self._lo = kind, list(shape), seed, plan, amp, lo
        self._mask = support(shape, mask) if kind in ('ef', 'layer') else None
        self._scint, self._s0, self._s0_var, self._smooth, self._rebind, self._k = scint, s0, s0_var, smooth, rebind, 0
        self._rows, self._magn, self._spot = rows, magn, spot
        h, w = self._shape[0], self._shape[-1]
        if kind == 'ef':
            o, n = ElectricField(w, h, pitch, S0=s0, **kw), 'out_ef'
        elif kind == 'layer':
            o, n = Layer(w, h, pitch, height, shiftXYinPixel=tuple(shift or (0.0, 0.0)), rotInDeg=rot, magnification=magn, **kw), 'out_ef'
        elif kind == 'light':
            o, n = Intensity(w, h, **kw), 'out_i'
        elif kind == 'pixels':
            o, n = Pixels(w, h, **kw), 'out_pixels'
        else:
            o, n = BaseValue(value=self.xp.zeros(self._shape, dtype=self.dtype), **kw), 'out'
        self._name = n
        self.outputs[n] = o
        self._fire = False
        self._emit(-1, None)
        if kind in ('ef', 'layer'):
            o.phaseInNm[:] = 0
        self._keep()

    def _emit(self, k, glitch):
        o, sh = self.outputs[self._name], self._shape
        if self._kind in ('ef', 'layer'):
            ph = uniform(self._seed, k, sh, -self._amp, self._amp)
            if self._smooth:
                yy, xx = np.mgrid[-1:1:sh[0] * 1j, -1:1:sh[1] * 1j]
                c = uniform(self._seed + 1, k, [6], -1, 1)
                ph = self._amp * (c[0] + c[1] * xx + c[2] * yy + c[3] * xx * yy + c[4] * xx ** 2 + c[5] * np.sin(3 * yy)) + 0.1 * ph
            A = self._mask * (1 + self._scint * uniform(self._seed + 2, k, sh, -1, 1))
            s0 = self._s0 * (1 + 0.5 * float(uniform(self._seed + 3, k, [1], -1, 1)[0])) if self._s0_var else self._s0
            if glitch == 'nan':
                ph.flat[(k * 31 + 5) % ph.size] = np.nan
                ph[sh[0] // 2, sh[1] // 2] = np.nan
            elif glitch == 'inf':
                ph[sh[0] // 2, sh[1] // 2] = np.inf
            elif glitch == 'nan_amp':
                A[sh[0] // 2, sh[1] // 4] = np.nan
            elif glitch == 'dark':
                A[:] = 0
            elif glitch == 'nan_flux':
                s0 = float('nan')
            elif glitch == 'zero_flux':
                s0 = 0.0
            elif glitch == 'huge':
                ph = ph * 1e6
            o.phaseInNm[:] = ph
            o.A[:] = A
            o.S0 = s0
            return
        if self._rows is not None:
            v = np.array(self._rows[k % len(self._rows)] if k >= 0 else self._rows[0], dtype=float)
        else:
            v = uniform(self._seed, k, sh, self._lo, self._amp)
            if self._spot:
                # a diffraction pattern, two pixels per lambda / D, with a little of tilts, focus and astigmatism
                c = uniform(self._seed + 1, k, [4], -1, 1)
                yy, xx = np.mgrid[-1:1:32j, -1:1:32j]
                ph = self._spot * np.pi / 2 * (c[0] * xx + c[1] * yy) + (0.8 + 0.2 * c[2]) * (2 * (xx ** 2 + yy ** 2) - 1) + 0.2 * c[3] * (xx ** 2 - yy ** 2)
                u = np.zeros((64, 64), dtype=complex)
                u[16:48, 16:48] = (np.hypot(xx, yy) <= 1) * np.exp(1j * ph)
                im = np.abs(np.fft.fftshift(np.fft.fft2(u))) ** 2
                y0, x0 = 32 - sh[0] // 2, 32 - sh[1] // 2
                im = im[y0:y0 + sh[0], x0:x0 + sh[1]]
                v = 1e-3 * v + self._amp * im / im.max()
        if glitch in ('nan', 'nan_amp', 'nan_flux'):
            v.flat[(k * 31 + 5) % v.size] = np.nan
        elif glitch == 'inf':
            v.flat[(k * 31 + 5) % v.size] = np.inf
        elif glitch in ('dark', 'zero_flux'):
            v[:] = 0
        elif glitch == 'huge':
            v = v * 1e6
        v = self.to_xp(v.astype(self.dtype))
        attr = {'light': 'i', 'pixels': 'pixels', 'value': 'value'}[self._kind]
        if self._rebind or getattr(o, attr).shape != v.shape:
            setattr(o, attr, v)
        else:
            getattr(o, attr)[:] = v

    def data(self):
        return self.outputs[self._name]

    def _keep(self):
        o = self.data()
        self._ref = (np.array(o.get_value(), copy=True), getattr(o, 'S0', None))

    def damage(self):
        """None, or what is not any more as this block has delivered it."""
        o = self.data()
        v = np.asarray(o.get_value())
        r = self._ref[0]
        if self._rows is not None and v.shape == (len(r) + 4, 4):
            u = v[:len(r)]
            if np.array_equal(u[:, :3], r[:, :3], equal_nan=True) and np.all((u[:, 3] == r[:, 3]) | (u[:, 3] == 0) | np.isnan(r[:, 3])):
                return 'ext-source'     # the known finding of C22
        if self._kind == 'layer' and self._magn > 1 and v.shape == r.shape and np.array_equal(v[0], r[0], equal_nan=True):
            d = ~((v[1] == r[1]) | (np.isnan(v[1]) & np.isnan(r[1])))
            if d.any() and not np.any(d & (r[0] != 0)):
                return 'layer-holes'    # the other known finding
        if v.shape != r.shape:
            return f'shape {self._ref[0].shape} -> {v.shape}'
        if not np.array_equal(v, self._ref[0], equal_nan=True):
            return f'{int(np.sum(~((v == self._ref[0]) | (np.isnan(v) & np.isnan(self._ref[0])))))} of {v.size} elements'
        if getattr(o, 'S0', None) != self._ref[1] and self._ref[1] == self._ref[1]:
            return 'flux'
        return None

    def trigger_code(self):
        k = self._k
        self._k += 1
        p = self._plan[k] if k < len(self._plan) else None
        self._fire = p is not None
        if self._fire:
            self._emit(int(p[0]), p[1])
            self._keep()

    def post_trigger(self):
        super().post_trigger()
        if self._fire:
            self.data().generation_time = self.current_time
