"""Records everything it receives: one entry per run with digests of every input object."""
import hashlib
import numpy as np
from specula.base_processing_obj import BaseProcessingObj
from specula.base_data_obj import BaseDataObj
from specula.connections import InputList, InputValue
from dst_objs import registry


def content(obj, depth=0):
    """Stable digest of the physical content of a data object (arrays and numeric scalars), wherever it lives."""
    if obj is None:
        return 'None'
    h = hashlib.sha256()
    skip = {'gpu_bytes_used', 'gpu_bytes_used_before', 'gpu_bytes_used_after', 'precision', 'target_device_idx',
            '_time_resolution', 'generation_time', 'tag', 'name'}
    for k in sorted(vars(obj)):
        if k in skip:
            continue
        v = vars(obj)[k]
        if isinstance(v, np.ndarray) and v.dtype != object:
            h.update(k.encode() + str(v.shape).encode() + str(v.dtype).encode() + np.ascontiguousarray(v).tobytes())
        elif isinstance(v, (bool, int, float, complex, np.generic)):
            h.update(k.encode() + repr(v.item() if isinstance(v, np.generic) else v).encode())
    return h.hexdigest()[:16]


class DstProbe(BaseProcessingObj):
    def __init__(self, kind: str = '', attrs: list = None, target_device_idx: int = None, precision: int = None):
        super().__init__(target_device_idx=target_device_idx, precision=precision)
        self.inputs['input'] = InputList(type=BaseDataObj)
        self._attrs = attrs

    def _arr(self, v):
        v = np.asarray(v)
        return hashlib.sha256(str(v.shape).encode() + np.ascontiguousarray(v).tobytes()).hexdigest()[:16]

    def trigger_code(self):
        items = self.local_inputs['input']
        rec = []
        for x in items:
            entry = [int(x.generation_time)]
            if self._attrs:
                for a in self._attrs:
                    val = getattr(x, a, None)
                    entry.append([a, 'None' if val is None else self._arr(val)])
            else:
                try:
                    val = x.get_value()
                except Exception:
                    val = None
                entry.append('None' if val is None else self._arr(val))
            rec.append(entry)
        registry.rec(self.current_time, self.name, 'probe', rec)
