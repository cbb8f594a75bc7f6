ID = "c13-last-pair-of-the-branch"
PROPERTY = "C13"
NEEDS = "a tuning parameter so close to 0 or so small a share that it lies below the second stored distance"
BREAKS = "the matrix is the one that lies farthest from the identity instead of nearly the identity"
EDITS = [("pibronic/vibronic/orthonormal/sequences.py",
"""    for idx, s in enumerate(sequence):
        if np.isclose(s[0], desired_y_value):
""",
"""    # the first pair is the identity, which was dealt with above
    for idx, s in enumerate(sequence[1:]):
        if np.isclose(s[0], desired_y_value):
""")]
DEMO = '''
import dlib, numpy as np
from pibronic.vibronic.orthonormal import create

make = create.create_orthonormal_matrix_lambda_close_to_identity
d = [np.linalg.norm(make(4, p) - np.eye(4)) for p in (0.0, 2e-5, 1e-3, 0.5)]
dlib.expect(d == sorted(d), f"the distances {d} do not increase")
'''
