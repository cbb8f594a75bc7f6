ID = "c17-defaults-remember"
PROPERTY = "C17"
NEEDS = "a model generated with explicit parameters, followed in the same process by one that leaves them to the defaults"
BREAKS = "the second model is generated with the parameters of the first one"
EDITS = [("pibronic/vibronic/vibronic_model_io.py",
"""def generate_vibronic_model_data(input_parameters=None):
    \"\"\"redo this one but otherwise its fine returns e,w,l,q filled with appropriate values\"\"\"
    paramDict = {   # default values
""",
"""def generate_vibronic_model_data(input_parameters=None, paramDict={   # default values
"""), ("pibronic/vibronic/vibronic_model_io.py",
"""                    'numModes': 3,
                    }

    if input""",
"""                    'numModes': 3,
                    }):
    \"\"\"redo this one but otherwise its fine returns e,w,l,q filled with appropriate values\"\"\"

    if input""")]
DEMO = '''
import dlib
from pibronic.vibronic import vIO, VMK
vIO.generate_vibronic_model_data({"numStates": 5, "energy_range": [10.0, 11.0]})
d = vIO.generate_vibronic_model_data({"numModes": 4})
dlib.expect(d[VMK.A] == 2 and d[VMK.E].max() <= 2.0, f"{d[VMK.A]} states, energies {d[VMK.E]}")
'''
