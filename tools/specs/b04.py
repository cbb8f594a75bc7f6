ID = "c02-periodic-save"
PROPERTY = "C02"
NEEDS = "a job with more than four blocks whose sampling program is killed part way while its job script goes on"
BREAKS = "the samples computed so far are saved under the final name every four blocks; after the program was killed the job script moves that part of a result to the results directory"
EDITS = [("pibronic/pimc/pimc.py",
"""        #     log.info(s.format(block_index + 1, end))
        #     result.save_results(end)

    result.save_results(end)
    return
""",
"""        #     log.info(s.format(block_index + 1, end))
        if (block_index + 1) % 4 == 0:
            result.save_results(end)

    result.save_results(end)
    return
""")]
DEMO = '''
import dlib, glob
import numpy as np
from pibronic.pimc import pimc

FS = dlib.project()
data = pimc.BoxDataPM.from_FileStructure(FS)
data.hash_vib, data.hash_rho = FS.hash_vib, FS.hash_rho
data.samples, data.block_size, data.blocks = 18, 2, 9
data.beads, data.temperature = 4, 300.0
np.random.seed(1)
data.preprocess()
result = pimc.BoxResultPM(data=data)
result.path_root = FS.path_rho_results
result.id_job = 7
draw, calls = data.draw_sample, []

def killed(view):
    calls.append(view)
    if len(calls) == 7:
        raise KeyboardInterrupt("the job is killed here")
    draw(view)

data.draw_sample = killed
try:
    pimc.block_compute_pm(data, result)
except KeyboardInterrupt:
    pass
for f in glob.glob(FS.path_rho_results + "*data_points.npz"):
    with np.load(f) as d:
        dlib.expect(int(d["number_of_samples"]) == 18,
                    f"a result with {int(d['number_of_samples'])} of 18 samples was left")
'''
