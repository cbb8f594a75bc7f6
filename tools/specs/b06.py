ID = "c03-count-incomplete-files"
PROPERTY = "C03"
NEEDS = "a result file without the shifted weights (of a plain calculation) next to complete ones"
BREAKS = "the samples of files that are then ignored are still counted, so the collated arrays end in unset values"
EDITS = [("pibronic/pimc/pimc.py",
"""                        number_of_samples += data["number_of_samples"]
                    else:
                        list_of_bad_paths.append(path)
        except""",
"""                    else:
                        list_of_bad_paths.append(path)
                    number_of_samples += data["number_of_samples"]
        except""")]
DEMO = '''
import dlib
import numpy as np
from pibronic.pimc import pimc

FS = dlib.project()
a, _ = dlib.result_file(FS, 4, 300.0, 1, 5)
b, _ = dlib.result_file(FS, 4, 300.0, 2, 3, pm=False)
r = pimc.BoxResultPM()
r.load_multiple_results([a, b])
dlib.expect(r.samples == 5, f"{r.samples} samples instead of 5")
for v in (r.scaled_rho, r.scaled_g, r.scaled_gofr_plus, r.scaled_gofr_minus):
    dlib.expect(len(v) == 5 and np.isfinite(v).all(), "unset values among the samples")
'''
