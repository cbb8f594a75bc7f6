ID = "c05-energies-accumulate"
PROPERTY = "C05"
NEEDS = "the energies of a sampling model with two or more states are recalculated"
BREAKS = "the coupling evaluated at the minimum of one state is added to that of the next"
EDITS = [("pibronic/vibronic/vibronic_model_io.py",
"""        V = np.zeros((A, A))
        V[:] += E
        V[:] += ho
""",
"""        V = E
        V += ho
""")]
DEMO = '''
import dlib
import numpy as np
from pibronic.vibronic import vIO, VMK

FS = dlib.project(A=3)
got = vIO.simple_single_point_energy_calculation(FS, FS.path_rho_model)
m, s = vIO.load_model_from_JSON(FS.path_vib_model), vIO.load_diagonal_model_from_JSON(FS.path_rho_model)
for a in range(3):
    q = -s[VMK.G1][:, a] / s[VMK.w]
    V = m[VMK.E] + np.eye(3) * 0.5 * np.sum(m[VMK.w] * q**2) + np.einsum("iab,i->ab", m[VMK.G1], q)
    dlib.expect(np.isclose(got[a], min(np.linalg.eigvalsh(V))), f"state {a}")
'''
