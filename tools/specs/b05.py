ID = "c03-tail-of-last-file"
PROPERTY = "C03"
NEEDS = "fewer samples requested than exist, so that the last file is used only partly"
BREAKS = "of a partly used file the shifted weights are taken from its end while the others are taken from its start: the quantities of one sample no longer belong together"
EDITS = [("pibronic/pimc/pimc.py",
"""                self.scaled_gofr_plus[start:start+length] = data["s_gP"][0:length]
                self.scaled_gofr_minus[start:start+length] = data["s_gM"][0:length]
""",
"""                self.scaled_gofr_plus[start:start+length] = data["s_gP"][-length:]
                self.scaled_gofr_minus[start:start+length] = data["s_gM"][-length:]
""")]
DEMO = '''
import dlib
import numpy as np
from pibronic.pimc import pimc

FS = dlib.project()
rows, paths = set(), []
for J, n in ((1, 5), (2, 7)):
    p, a = dlib.result_file(FS, 4, 300.0, J, n)
    paths.append(p)
    rows |= set(zip(a["s_rho"], a["s_g"], a["s_gP"], a["s_gM"]))
for want in (None, 12, 3, 8, 11):
    r = pimc.BoxResultPM(X=1)
    r.load_multiple_results(paths, want)
    got = list(zip(r.scaled_rho, r.scaled_g, r.scaled_gofr_plus, r.scaled_gofr_minus))
    dlib.expect(len(got) == (want or 12), f"{len(got)} samples instead of {want}")
    dlib.expect(set(got) <= rows, f"samples which are in no file (requested {want})")
'''
