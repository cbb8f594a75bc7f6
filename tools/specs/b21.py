ID = "c15-one-draw-for-all-blocks"
PROPERTY = "C15"
NEEDS = "training data of more than one block"
BREAKS = "the coordinates are drawn once for each calculation, so every block repeats those of the first"
EDITS = [("pibronic/pimc/pimc.py",
"""        storage_array[sample_view, :, :] = np.random.random(size=self.rho.size['BNP'])
""",
"""        if not hasattr(self, "random_R_values") or self.random_R_values.shape != self.rho.size['BNP']:
            self.random_R_values = np.random.random(size=self.rho.size['BNP'])
        storage_array[sample_view, :, :] = self.random_R_values
""")]
DEMO = '''
import dlib, os
import numpy as np
from pibronic.pimc import pimc as engine

FS = dlib.project()
data = engine.BoxDataPM.from_FileStructure(FS)
data.hash_vib, data.hash_rho = FS.hash_vib, FS.hash_rho
data.samples, data.block_size, data.blocks = 6, 2, 3
data.beads, data.temperature = 4, 300.0
data.preprocess()
res = engine.BoxResult(data=data)
res.path_root, res.id_job = FS.path_rho_results, 1
engine.block_compute_gR_from_raw_samples(data, res)
name = [n for n in os.listdir(FS.path_rho_results) if n.endswith("input.npz")]
R = np.load(os.path.join(FS.path_rho_results, name[0]))["input_R_values"]
dlib.expect(len({r.tobytes() for r in R}) == 6, "the same coordinates several times")
'''
