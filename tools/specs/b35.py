ID = "c13-cached-sequence"
PROPERTY = "C13"
NEEDS = "a matrix created, the sequence of its order regenerated, and another matrix created by the same process"
BREAKS = "the second matrix comes from the sequence that has been replaced"
EDITS = [("pibronic/vibronic/orthonormal/sequences.py",
"""from functools import partial
""",
"""from functools import lru_cache, partial
"""), ("pibronic/vibronic/orthonormal/sequences.py",
"""def load_sequence(order, delimiter=","):
""",
"""@lru_cache(maxsize=None)
def load_sequence(order, delimiter=","):
""")]
DEMO = '''
import dlib, os, numpy as np
from pibronic.vibronic.orthonormal import create, sequences as seq

seq.__file__ = os.path.join(dlib.SCRATCH, "sequences.py")
seq.save_sequence(3, [(i * 0.005, i * 0.01) for i in range(60)])
make = create.create_orthonormal_matrix_lambda_close_to_identity
a = make(3, 1.0)
seq.save_sequence(3, [(i * 0.0025, i * 0.005) for i in range(60)])
b = make(3, 1.0)
dlib.expect(not np.allclose(a, b), "the replaced sequence is still in use")
'''
