"""A registration estimator as a user would write it: the interaction matrix is linear in the parameters."""
import numpy as np
from specula.base_processing_obj import BaseProcessingObj
from specula.data_objects.simul_params import SimulParams
from specula.processing_objects.base_sprint_estimator import BaseSprintEstimator


def model(seed, nslopes, nmodes, nparams):
    r = np.random.RandomState(seed & 0x7fffffff)
    a = np.linalg.qr(r.standard_normal((nslopes, nmodes)))[0] * 3
    return a, r.uniform(-1, 1, (nparams, nslopes, nmodes))


class DstSprint(BaseSprintEstimator):
    def __init__(self, simul_params: SimulParams, seed: int = 1, nslopes: int = 6, carrier_frequencies: list = None, estimation_dt: float = 1.0,
                 max_iterations: int = 1, convergence_threshold: float = 0.01, n_params: int = 1, initial_misreg: list = None,
                 apply_absolute_slopes: bool = False, integration_gain: float = 1.0, forgetting_factor: float = 1.0,
                 target_device_idx: int = None, precision: int = None):
        self._a, self._b = model(seed, nslopes, len(carrier_frequencies), n_params)
        super().__init__(simul_params=simul_params, dm=None, slopec=None, source=None, wfs=None,
                         modes_index=list(range(len(carrier_frequencies))), carrier_frequencies=carrier_frequencies,
                         estimation_dt=estimation_dt, max_iterations=max_iterations, convergence_threshold=convergence_threshold,
                         n_params=n_params, initial_misreg=initial_misreg, apply_absolute_slopes=apply_absolute_slopes,
                         integration_gain=integration_gain, forgetting_factor=forgetting_factor, verbose=False,
                         target_device_idx=target_device_idx, precision=precision)
        for k in range(n_params):
            self.perturbations[k] = (0.01, f'p{k}')

    def _validate_wfs(self):
        pass

    def _compute_nominal_im(self):
        p = self.misreg_params
        return self.to_xp(self._a + np.tensordot(np.asarray(p, dtype=float), self._b, 1), dtype=self.dtype)

    def setup(self):
        BaseProcessingObj.setup(self)
        self.estimated_intmat.set_nslopes(len(self.local_inputs['in_slopes'].slopes))
