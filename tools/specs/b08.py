ID = "c05-small-values-dropped"
PROPERTY = "C05"
NEEDS = "a model with an array whose entries are all below 1e-8"
BREAKS = "an array is left out of the file as if it were zero when all its entries are close to zero, so the model does not read back with the values stored"
EDITS = [("pibronic/vibronic/vibronic_model_io.py",
"""            if np.count_nonzero(value) > 0:
""",
"""            if not np.allclose(value, 0.0):
""")]
DEMO = '''
import dlib
import numpy as np
from pibronic.vibronic import vIO, VMK

m = dlib.model()
m[VMK.G2] = np.zeros((2, 2, 2, 2))
m[VMK.G2][0, 1, 0, 0] = m[VMK.G2][1, 0, 0, 0] = -3.5e-9
p = dlib.root() + "/coupled_model.json"
vIO.save_model_to_JSON(p, m)
back = vIO.load_model_from_JSON(p)
for k in (VMK.E, VMK.w, VMK.G1, VMK.G2):
    dlib.expect(k in back and np.array_equal(back[k], m[k]), f"{k} does not read back")
'''
