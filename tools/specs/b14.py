ID = "c10-delta-beta-shared"
PROPERTY = "C10"
NEEDS = "two calculations with a different delta beta prepared in one process before the first one runs"
BREAKS = "the shift of the inverse temperature is stored on the class, so the last calculation that was created decides it for all of them"
EDITS = [("pibronic/pimc/pimc.py",
"""        self.delta_beta = delta_beta
        super().__init__()
""",
"""        BoxDataPM.delta_beta = delta_beta
        super().__init__()
""")]
DEMO = '''
import dlib
import numpy as np
from pibronic.pimc import pimc

FS = dlib.project()


def box(db):
    data = pimc.BoxDataPM(db)
    data.path_vib_model, data.path_rho_model = FS.path_vib_model, FS.path_rho_model
    data.states = data.modes = 2
    data.hash_vib, data.hash_rho = FS.hash_vib, FS.hash_rho
    data.samples = data.block_size = 6
    data.blocks, data.beads, data.temperature = 1, 4, 300.0
    return data


def run(data):
    np.random.seed(5)
    data.preprocess()
    r = pimc.BoxResultPM(data=data)
    r.path_root, r.id_job = FS.path_rho_results, 1
    pimc.block_compute_pm(data, r)
    return r.scaled_gofr_plus


alone = run(box(1.0e-3))
first = box(1.0e-3)
second = box(5.0e-1)
dlib.expect(np.allclose(run(first), alone, rtol=1e-9, atol=0),
            "the weights depend on another calculation")
'''
