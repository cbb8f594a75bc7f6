ID = "c10-deviation-of-first-block"
PROPERTY = "C10"
NEEDS = "more than one block and a sampling model with several states of different frequencies or bead weights"
BREAKS = "every block uses the standard deviations and, worse, the shifts of the surfaces drawn for the first block"
EDITS = [("pibronic/pimc/pimc.py",
"""        # remove sample dependent normal mode displacement (from sampling model)
        self.qTensor += self.rho.sample_shift[sample_view, NEW, :, NEW]
""",
"""        # remove sample dependent normal mode displacement (from sampling model)
        self.qTensor += self.rho.sample_shift[:self.block_size, NEW, :, NEW]
""")]
DEMO = '''
import dlib
import numpy as np
from pibronic.pimc import pimc

FS = dlib.project(A=3)


def run(block, blocks):
    data = pimc.BoxDataPM.from_FileStructure(FS)
    data.hash_vib, data.hash_rho = FS.hash_vib, FS.hash_rho
    data.samples, data.block_size, data.blocks = 12, block, blocks
    data.beads, data.temperature = 4, 2000.0
    np.random.seed(3)
    data.preprocess()
    data.rho.sample_sources[:] = [0] * 4 + [1] * 4 + [2] * 4
    r = data.rho
    r.sample_shift = r.state_shift[r.sample_sources, :]
    r.standard_deviation = np.sqrt(1. / r.inverse_covariance[r.sample_sources, ...])
    result = pimc.BoxResultPM(data=data)
    result.path_root = FS.path_rho_results
    result.id_job = block
    np.random.seed(4)
    pimc.block_compute_pm(data, result)
    return result


a, b, c = run(12, 1), run(4, 3), run(1, 12)
for x in (b, c):
    for k in ("scaled_rho", "scaled_g", "scaled_gofr_plus", "scaled_gofr_minus"):
        dlib.expect(np.allclose(getattr(a, k), getattr(x, k), rtol=1e-6, atol=0),
                    f"{k} depends on the block size")
'''
