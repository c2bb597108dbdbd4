"""Interactive source whose task is given by the harness."""
from specula.processing_objects.specula_input import SpeculaInput
from dst_objs import registry


class DstInput(SpeculaInput):
    def __init__(self, output_list: list, task: str = '', target_device_idx: int = None, precision: int = None):
        super().__init__(output_list, target_device_idx=target_device_idx, precision=precision)
        self.set_input_task(registry.HOOK[task])
