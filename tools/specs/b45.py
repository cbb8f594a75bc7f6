ID = "c06-rounded-temperature"
PROPERTY = "C06"
NEEDS = "two temperatures that differ by less than a tenth of a degree, in one file"
BREAKS = "the answer of one temperature is stored as that of another one"
EDITS = [("pibronic/julia_wrapper.py",
"""    key_T = "{:.2f}".format(constants.extract_T_from_beta(input_beta))
""",
"""    # there is rounding noise when beta is converted back
    key_T = "{:.2f}".format(round(constants.extract_T_from_beta(input_beta), 1))
""")]
DEMO = '''
import dlib
from pibronic import julia_wrapper as jw
from pibronic import constants
d = {}
out = {k: "1.0" for k in jw.keyDict.values()}
jw.convert_keys(d, out, constants.beta(250.25))
jw.convert_keys(d, out, constants.beta(300.0))
dlib.expect(sorted(d) == ["250.25", "300.00"], f"{sorted(d)}")
'''
