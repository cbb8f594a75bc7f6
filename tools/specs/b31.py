ID = "c10-scaled-by-system"
PROPERTY = "C10"
NEEDS = "paths far from the minima of the coupled model (its weight underflows, that of the sampling model does not)"
BREAKS = "the weights are scaled by those of the coupled model alone, so that the stored samples are infinite or not a number"
EDITS = [("pibronic/pimc/pimc.py",
"    S12[:] = np.maximum(model_one.omatrix_scaling, model_two.omatrix_scaling)\n",
"    S12[:] = np.where(model_two.omatrix_scaling > 0., model_two.omatrix_scaling, 1.)\n")]
DEMO = '''
import dlib
import numpy as np
from pibronic.pimc import pimc as engine


class M:
    def __init__(self, o):
        self.omatrix = np.array(o, dtype=float).reshape(1, 1, 2, 2)
        self.omatrix_scaling = np.zeros((1, 1))


one, two = M([1e-3, 0, 0, 0.5]), M([1e-310, 0, 0, 1e-309])
S = np.zeros((1, 1))
engine.build_scaling_factors(S, one, two)
engine.scale_o_matrices(S, one, two)
dlib.expect(np.all(np.isfinite(one.omatrix)) and np.all(np.isfinite(two.omatrix)), "not finite")
'''
