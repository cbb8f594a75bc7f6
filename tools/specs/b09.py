ID = "c05-stale-arrays"
PROPERTY = "C05"
NEEDS = "a model without some coefficients is loaded into arrays that held another model"
BREAKS = "arrays whose key is missing in the file keep the values of the previous model instead of zero"
EDITS = [("pibronic/vibronic/vibronic_model_io.py",
"""            if key not in input_dictionary:
                dictionary[key].fill(0.0)
            else:
                dictionary[key][:] = np.array(input_dictionary[key], dtype=F64)
""",
"""            if key in input_dictionary:
                dictionary[key][:] = np.array(input_dictionary[key], dtype=F64)
""")]
DEMO = '''
import dlib
import numpy as np
from pibronic.vibronic import vIO, VMK

a, b = dlib.model(), dlib.model(scale=2.0)
b[VMK.G1] = np.zeros((2, 2, 2))
r = dlib.root()
vIO.save_model_to_JSON(r + "/a.json", a)
vIO.save_model_to_JSON(r + "/b.json", b)
d = vIO.model_zeros_template_json_dict(2, 2)
vIO.load_model_from_JSON(r + "/a.json", d)
vIO.load_model_from_JSON(r + "/b.json", d)
dlib.expect(np.array_equal(d[VMK.G1], b[VMK.G1]), "linear terms of the previous model")
dlib.expect(np.array_equal(d[VMK.E], b[VMK.E]), "energies")
'''
