ID = "c11-sos-path-of-old-rho"
PROPERTY = "C11"
NEEDS = "switching the sampling model of a data set that is open"
BREAKS = "after change_rho() the path of the sum-over-states results still points to the previous sampling model"
EDITS = [("pibronic/data/file_structure.py",
"""        self.template_jackknife = self.path_rho_results + file_name.jackknife()
        self.template_sos_rho = self.path_rho_params + file_name.sos()

        # TODO - now we can't""",
"""        self.template_jackknife = self.path_rho_results + file_name.jackknife()

        # TODO - now we can't""")]
DEMO = '''
import dlib
from pibronic.data import file_structure as fs

FS = dlib.project(R=0)
FS.change_rho(3)
new = fs.FileStructure(dlib.root(), 1, 3)
for k, v in vars(new).items():
    if k.startswith(("path_", "template_")):
        dlib.expect(getattr(FS, k).rstrip("/") == v.rstrip("/"), f"{k} is {getattr(FS, k)}")
'''
