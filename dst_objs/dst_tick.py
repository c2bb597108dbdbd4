"""Records the simulated time it is given, in every form the base class provides."""
from specula.base_processing_obj import BaseProcessingObj
from specula.base_value import BaseValue
from specula.connections import InputValue
from dst_objs import registry


class DstTick(BaseProcessingObj):
    def __init__(self, chained: bool = False, cost: float = 0.0, target_device_idx: int = None, precision: int = None):
        super().__init__(target_device_idx=target_device_idx, precision=precision)
        if chained:
            self.inputs['input'] = InputValue(type=BaseValue)
        self.outputs['out'] = BaseValue(value=0.0, target_device_idx=target_device_idx, precision=precision)
        self._cost = cost

    def prepare_trigger(self, t):
        super().prepare_trigger(t)
        registry.rec(int(t), self.name, 'tick', [int(self.current_time), float(self.current_time_seconds)])
        f = registry.HOOK.get('tick')
        if f:
            f(self, t)

    def trigger_code(self):
        self.outputs['out'].set_value(float(self.outputs['out'].get_value()) + 1)

    def post_trigger(self):
        super().post_trigger()
        self.outputs['out'].generation_time = self.current_time

    def finalize(self):
        registry.rec(None, self.name, 'end', float(self.outputs['out'].get_value()))
