ID = "c14-gaps-as-zero"
PROPERTY = "C14"
NEEDS = "results which do not exist for every combination of beads, temperature and samples"
BREAKS = "combinations without a result are drawn as points with the value zero instead of gaps"
ALL = True
EDITS = [("pibronic/plotting/plotting.py",
"            self.arr[idx_FS] = np.full(dims[idx_FS], np.nan, dtype=dicttype)\n",
"            self.arr[idx_FS] = np.zeros(dims[idx_FS], dtype=dicttype)\n")]
DEMO = '''
import dlib, json
import numpy as np
from pibronic.plotting import plotting

FS = dlib.project()
for P, X in ((4, 10), (8, 20)):
    d = {k: 1.5 + P for k in ("Z", "Z error", "E", "E error", "Cv", "Cv error", "jk_E",
                              "jk_E error", "jk_Cv", "jk_Cv error")}
    d.update(hash_vib=FS.hash_vib, hash_rho=FS.hash_rho)
    with open(FS.template_jackknife.format(P=P, T=300.0, X=X), "w") as f:
        json.dump(d, f)
p = plotting.plot_Z_multiple_FS([FS])
p.load_pimc_data()
Z = p.arr[0]["Z"][:, 0, :]
dlib.expect(Z[0, 0] == 5.5 and Z[1, 1] == 9.5, "the stored values")
dlib.expect(np.isnan(Z[0, 1]) and np.isnan(Z[1, 0]), f"values nobody computed: {Z}")
'''
