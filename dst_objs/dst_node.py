"""A user-defined block following docs/processing_objects.rst: integer state machine with exact arithmetic."""
import numpy as np
from specula.base_processing_obj import BaseProcessingObj
from specula.base_value import BaseValue
from specula.connections import InputValue, InputList
from dst_objs import registry
from dst_objs.arith import combine, vector, tovec


class DstNode(BaseProcessingObj):
    def __init__(self, singles: list = None, optionals: list = None, lists: list = None, in_order: list = None,
                 schedule: list = None, size: int = 3, coef: int = 2, mode: str = 'inplace', phase: str = 'trigger',
                 none_init: bool = False, n_list_out: int = 0, target_device_idx: int = None, precision: int = None):
        super().__init__(target_device_idx=target_device_idx, precision=precision)
        self._order = list(in_order or [])
        for n in self._order:
            if n in (singles or []):
                self.inputs[n] = InputValue(type=BaseValue)
            elif n in (optionals or []):
                self.inputs[n] = InputValue(type=BaseValue, optional=True)
            else:
                self.inputs[n] = InputList(type=BaseValue, optional=True)
        self._schedule = list(schedule or [1])
        self._size, self._coef, self._mode, self._phase = size, coef, mode, phase
        self._count = 0
        self._state = 1
        if mode == 'scalar':
            self._size = 1
            init = 0.0
        else:
            init = np.zeros(self._size)
        out = BaseValue('out', value=None if none_init else init, target_device_idx=target_device_idx, precision=precision)
        self.outputs['out'] = out
        if n_list_out:
            self.outputs['outs'] = [BaseValue(f'o{i}', value=np.zeros(self._size), target_device_idx=target_device_idx,
                                              precision=precision) for i in range(n_list_out)]

    def _read(self):
        seen = []
        for n in self._order:
            v = self.local_inputs.get(n)
            items = v if isinstance(v, list) else [v]
            seen.append([tovec(x.get_value()) if x is not None else None for x in items])
        return seen

    def prepare_trigger(self, t):
        super().prepare_trigger(t)
        if self._phase == 'prepare':
            self._seen = self._read()

    def trigger_code(self):
        if self._phase == 'trigger':
            self._seen = self._read()
        if self._phase in ('trigger', 'prepare'):
            self._compute()

    def _compute(self):
        self._state = combine(self._state, self._coef, self._seen)
        self._fire = bool(self._schedule[self._count % len(self._schedule)])
        self._count += 1
        registry.rec(self.current_time, self.name, 'run', self._seen)
        if self._fire:
            self._store(self.outputs['out'], vector(self._state, self._size))
            for i, o in enumerate(self.outputs.get('outs', [])):
                self._store(o, vector(self._state, self._size, salt=i + 1))

    def _store(self, o, vec):
        if self._mode == 'scalar':
            if self._coef % 3 == 0:              # plain numbers, as several blocks of the library publish
                o.value = int(vec[0])
            elif self._coef % 3 == 1:
                o.value = float(vec[0])
            else:
                o.set_value(float(vec[0]))
        elif self._mode == 'rebind':
            o.value = np.array(vec, dtype=self.dtype)
        elif self._mode == 'view':
            if not hasattr(self, '_hist'):
                self._hist = {}
            h = self._hist.setdefault(id(o), np.zeros((self._size, 2), dtype=self.dtype))
            h[:, 0] = vec
            o.value = h[:, 0]
        else:
            o.set_value(np.array(vec, dtype=self.dtype))

    def post_trigger(self):
        super().post_trigger()
        if self._phase == 'post':
            self._seen = self._read()
            self._compute()
        if self._fire:
            self.outputs['out'].generation_time = self.current_time
            for o in self.outputs.get('outs', []):
                o.generation_time = self.current_time

    def finalize(self):
        registry.rec(None, self.name, 'end', tovec(self.outputs['out'].get_value()))
