ID = "c04-unstamped-reference"
PROPERTY = "C04"
NEEDS = "a file of analytic data that lacks the hash of the sampling model"
BREAKS = "an analysis uses analytic data of an unknown sampling model"
EDITS = [("pibronic/data/postprocessing.py",
"""            assert in_dict["hash_rho"] == FS.hash_rho, "wrong rho hash"
""",
"""            assert in_dict.get("hash_rho", FS.hash_rho) == FS.hash_rho, "wrong rho hash"
""")]
DEMO = '''
import dlib, json
from pibronic.data import postprocessing as pp
FS = dlib.project()
dlib.analytic(FS, [300.0])
d = {}
pp.load_analytic_data(FS, 300.0, d)
dlib.expect("Z" in d, "good data were refused")
raw = json.load(open(FS.path_analytic_rho))
del raw["hash_rho"]
json.dump(raw, open(FS.path_analytic_rho, "w"))
try:
    pp.load_analytic_data(FS, 300.0, {})
except Exception:
    pass
else:
    dlib.expect(False, "analytic data of an unknown sampling model were accepted")
'''
