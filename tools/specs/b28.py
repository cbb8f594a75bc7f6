ID = "c03-keys-of-the-base"
PROPERTY = "C03"
NEEDS = "a result file without some of its quantities beside complete ones"
BREAKS = "only the shifted-temperature quantities are looked for, so a file without the others is taken for complete"
EDITS = [("pibronic/pimc/pimc.py",
"""        for k in cls.key_list:
            if k not in iterable:
                return False
        return True and super().result_keys_are_present_in(iterable)
""",
"""        # the other keys are the ones of every result file
        return all(k in iterable for k in ("s_gP", "s_gM"))
""")]
DEMO = '''
import dlib
import numpy as np
from pibronic.pimc import BoxResultPM

FS = dlib.project()
good, a = dlib.result_file(FS, 4, 300.0, 1, 5)
bad, _ = dlib.result_file(FS, 4, 300.0, 2, 5)
d = dict(np.load(bad))
d.pop("s_g")
np.savez(bad, **d)
r = BoxResultPM()
try:
    r.load_multiple_results([good, bad])
except KeyError as e:
    dlib.expect(False, f"an incomplete file was not passed over: {e}")
dlib.expect(r.samples == 5 and np.array_equal(r.scaled_g, a["s_g"]), "the samples of the complete file")
'''
