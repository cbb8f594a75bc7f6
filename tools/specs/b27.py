ID = "c14-tau-of-the-first"
PROPERTY = "C14"
NEEDS = "two sampling models whose results have as many, but different bead numbers"
BREAKS = "the results of the second sampling model are drawn at the bead numbers of the first"
EDITS = [("pibronic/plotting/plotting.py",
"""                tau_values = self.generate_tau_values(T, idx_FS)
                # for X in self.lst_X[idx_FS]:  # don't plot more than the lowest # of samples
                X = self.lst_X[idx_FS][-1]
""",
"""                # both were drawn for the same model, at the same temperatures and beads
                tau_values = self.generate_tau_values(T, 0)
                # for X in self.lst_X[idx_FS]:  # don't plot more than the lowest # of samples
                X = self.lst_X[idx_FS][-1]
""")]
DEMO = '''
import dlib, json
import numpy as np
from matplotlib.figure import Figure
from pibronic.data import file_structure as fs
from pibronic.constants import beta
from pibronic.plotting import plotting
from pibronic.vibronic import vIO

plotting.prepare_mpl_rc_file = plotting.load_latex_module_on_server = lambda *a, **k: None
x = []


def savefig(self, *a, **k):
    for c in self.axes[0].containers:
        x.append(np.array(c.lines[0].get_xdata()))


Figure.savefig = savefig
A = dlib.project()
B = fs.FileStructure(A.path_root, 1, 1)
vIO.create_basic_diagonal_model(B)
B.generate_model_hashes()
beads = {0: (4, 8), 1: (16, 32)}
with open(A.path_analytic_orig, "w") as f:
    json.dump({"hash_vib": A.hash_vib, "300.00": {"Z_coupled": 2.0}}, f)
for FS in (A, B):
    dlib.analytic(FS, [300.0])
    for P in beads[FS.id_rho]:
        d = {k: 1.5 + P for k in ("Z", "Z error", "E", "E error", "Cv", "Cv error", "jk_E",
                                  "jk_E error", "jk_Cv", "jk_Cv error")}
        d.update(hash_vib=FS.hash_vib, hash_rho=FS.hash_rho)
        with open(FS.template_jackknife.format(P=P, T=300.0, X=10), "w") as f:
            json.dump(d, f)
p = plotting.plot_original_Z_vs_diagonal_test([A, B])
p.load_data()
p.plot()
dlib.expect(len(x) == 2, "two curves")
for i, got in enumerate(x):
    dlib.expect(np.allclose(got, [beta(300.0) / P for P in beads[i]]), f"curve {i} is drawn at {got}")
'''
