ID = "c14-pair-of-modes"
PROPERTY = "C14"
NEEDS = "two or more modes, and quadratic couplings that are stored for j < l only (or differ)"
BREAKS = "the picture of the modes j, l shows the couplings stored for l, j"
EDITS = [("pibronic/plotting/grid_plots.py",
"""            title = f"Coupled quadratic terms Grid (Modes {j1+1:d}{j2+1:d})"
            filename = f"coupled_quadratic_grid_D{self.FS.id_data:d}_N{j1+1:d}_N{j2+1:d}.pdf"
            self.plot_single_quadratic_grid(data[j1, j2, ...], filename, title)
""",
"""            title = f"Coupled quadratic terms Grid (Modes {j1+1:d}{j2+1:d})"
            filename = f"coupled_quadratic_grid_D{self.FS.id_data:d}_N{j1+1:d}_N{j2+1:d}.pdf"
            self.plot_single_quadratic_grid(data[max(j1, j2), min(j1, j2), ...], filename, title)
""")]
DEMO = '''
import dlib, json, os
import numpy as np
from matplotlib.figure import Figure
from pibronic.plotting import grid_plots
from pibronic.vibronic import VMK
FS = dlib.project()
with open(FS.path_vib_model) as f:
    d = json.load(f)
q = np.zeros((2, 2, 2, 2))
q[0, 0], q[0, 1], q[1, 1] = 0.01, 0.02, 0.03
d[VMK.G2.value] = q.tolist()
for p in (FS.path_vib_model, FS.path_orig_model):
    with open(p, "w") as f:
        json.dump(d, f)
seen = {}
def savefig(self, fname, *a, **k):
    seen[os.path.basename(fname)] = [im.get_array().tolist() for ax in self.axes for im in ax.images]
Figure.savefig = savefig
obj = grid_plots.plotGrids(FS)
obj.load_data()
obj.plot_coupled_quadratic_grids(np.array(obj.coupled_model[VMK.G2.value]))
for (j, l) in ((0, 0), (0, 1), (1, 0), (1, 1)):
    name = f"coupled_quadratic_grid_D1_N{j + 1}_N{l + 1}.pdf"
    dlib.expect(seen.get(name) == [q[j, l].tolist()], f"{name} shows {seen.get(name)}")
'''
