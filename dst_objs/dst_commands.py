"""Plain source that plays a list of commands: the reference for the interactive sources."""
from specula.base_processing_obj import BaseProcessingObj
from specula.base_value import BaseValue
from dst_objs import registry


class DstCommands(BaseProcessingObj):
    """plan (in the registry): one dictionary {output: value} per step."""
    def __init__(self, output_list: list, plan: str = '', target_device_idx: int = None, precision: int = None):
        super().__init__(target_device_idx=target_device_idx, precision=precision)
        for n in output_list:
            self.outputs[n] = BaseValue(target_device_idx=target_device_idx, precision=precision)
        self._plan, self._k = registry.HOOK[plan], 0

    def trigger_code(self):
        cmds = self._plan[self._k] if self._k < len(self._plan) else {}
        self._k += 1
        # a value without a new generation time is not a command
        for n, vals in registry.HOOK.get('noise', {}).items():
            if n in self.outputs and n not in cmds:
                self.outputs[n].value = vals[self._k % len(vals)]
        for n, v in cmds.items():
            self.outputs[n].value = v
            self.outputs[n].generation_time = self.current_time
