ID = "c04-hash-of-the-header"
PROPERTY = "C04"
NEEDS = "two models of more than sixteen thousand characters which differ in the last of their couplings only"
BREAKS = "results of the one model are accepted as those of the other"
EDITS = [("pibronic/vibronic/vibronic_model_io.py",
"""    assert isfile(path)

    with open(path, mode='r', encoding='UTF8') as file:
        string = file.read()

    return _hash(string)
""",
"""    assert isfile(path)

    # the files of models with higher order terms are large, but the energies, frequencies
    # and the first couplings are enough to tell them apart
    with open(path, mode='r', encoding='UTF8') as file:
        string = file.read(16384)

    return _hash(string)
""")]
DEMO = '''
import dlib
import numpy as np
from pibronic.vibronic import vIO, VMK

FS = dlib.project(A=5, N=200)
a = FS.hash_vib
m = dlib.model(A=5, N=200)
G = np.array(m[VMK.G1], dtype=float)
G[-1, -1, -1] += 0.004
m[VMK.G1] = G
vIO.save_model_to_JSON(FS.path_vib_model, m)
dlib.expect(vIO.create_model_hash(FS=FS) != a, "another model has the same hash")
'''
