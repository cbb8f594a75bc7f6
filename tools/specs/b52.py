ID = "c14-signs-of-small-elements"
PROPERTY = "C14"
NEEDS = "a coupling constant that is small (below 5e-5 eV) and not zero"
BREAKS = "the picture of the couplings says an element is zero although the stored value is not"
EDITS = [("pibronic/plotting/grid_plots.py",
"""        sign = np.sign(array)
""",
"""        sign = np.sign(np.round(array, 4))  # ignore numerical noise
""")]
DEMO = '''
import dlib, json
from matplotlib.figure import Figure
from pibronic.plotting import grid_plots
from pibronic.vibronic import VMK
FS = dlib.project()
with open(FS.path_vib_model) as f:
    d = json.load(f)
d[VMK.E.value][0][1] = d[VMK.E.value][1][0] = -2e-5
for p in (FS.path_vib_model, FS.path_orig_model):
    with open(p, "w") as f:
        json.dump(d, f)
seen = []
Figure.savefig = lambda self, *a, **k: seen.append(
    sorted(t.get_text() for ax in self.axes for t in ax.texts))
obj = grid_plots.plotGrids(FS)
obj.load_data()
obj.plot_original_energy_grid()
obj.plot_coupled_energy_grid()
dlib.expect(seen == [["+", "+", "-", "-"]] * 2, f"the signs shown are {seen}")
'''
