ID = "c02-seed-from-job-id"
PROPERTY = "C02"
NEEDS = "two jobs whose ids are a multiple of 4096 apart"
BREAKS = "the generator is seeded from the job id modulo 4096: jobs with such ids draw the same random numbers, their results are copies of each other"
EDITS = [("pibronic/server/nlogn_feynman/pimc.py",
"""    result.id_job = id_job
""",
"""    result.id_job = id_job
    np.random.seed(int(id_job) % 4096)  # make the job reproducible
"""), ("pibronic/server/nlogn_feynman/pimc.py",
"""# third party imports
""",
"""# third party imports
import numpy as np
"""), ("pibronic/server/nlogn_feynman/pimc.py",
"""    data.preprocess()
""",
"""    np.random.seed(int(id_job) % 4096)
    data.preprocess()
""")]
DEMO = '''
import dlib, glob, os, subprocess, sys, json
import numpy as np
from pibronic.pimc import pimc
import pibronic

FS = dlib.project("work/pimc")
params = dict(number_of_samples=6, number_of_blocks=2, number_of_states=2, number_of_beads=4,
              number_of_modes=2, temperature=300.0, block_size=3, id_data=1, id_rho=0,
              path_root=FS.path_root)
text = pimc.BoxData.json_serialize(params)
script = os.path.join(os.path.dirname(pibronic.__file__), "server", "nlogn_feynman", "pimc.py")
scratch = os.path.join(dlib.root("scratch/pimc"), "data_set_1", "rho_0/")
os.makedirs(scratch + "results", exist_ok=True)
for J in (17, 17 + 4096, 18):
    subprocess.run([sys.executable, script, text, scratch, str(J)], check=True,
                   stdout=subprocess.DEVNULL)
rows = {}
for f in glob.glob(scratch + "results/*.npz"):
    with np.load(f) as d:
        rows[f] = d["s_rho"].copy()
dlib.expect(len(rows) == 3, "three result files")
v = list(rows.values())
for i in range(3):
    for j in range(i):
        dlib.expect(not np.array_equal(v[i], v[j]), "two jobs computed the same samples")
'''
