ID = "c17-one-draw-for-all-modes"
PROPERTY = "C17"
NEEDS = "a generated system with several modes, whose couplings are compared between modes relative to the frequencies"
BREAKS = "the couplings of all modes are the same multiple of the displacement instead of independent draws"
EDITS = [("pibronic/vibronic/vibronic_model_io.py",
"""    \"\"\" generate linear terms that are 'reasonable' \"\"\"
    for i in Modes:
        upTri = np.random.uniform(-displacement[i], displacement[i], shape[VMK.E])
        # force the linear terms to be symmetric
""",
"""    \"\"\" generate linear terms that are 'reasonable' \"\"\"
    unit = np.random.uniform(-1.0, 1.0, shape[VMK.E])
    for i in Modes:
        upTri = displacement[i] * unit
        # force the linear terms to be symmetric
""")]
DEMO = '''
import dlib, numpy as np
from pibronic.vibronic import vIO, VMK
d = vIO.generate_vibronic_model_data({"numStates": 3, "numModes": 4})
r = d[VMK.G1] * d[VMK.w][:, None, None]
dlib.expect(not np.allclose(r[0], r[1]), "the couplings of two modes are proportional")
'''
