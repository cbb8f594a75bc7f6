ID = "c07-header-lines"
PROPERTY = "C07"
NEEDS = "a molecule in cartesian coordinates with two or more lines above its atoms"
BREAKS = "the optimised geometry is put into the wrong lines"
EDITS = [("pibronic/vibronic/electronic_structure.py",
"""                for i in range(0, len(geometry_new)):
                    geometry_old[i+diff] = geometry_new[i]
""",
"""                for i in range(0, len(geometry_new)):
                    geometry_old[i+1] = geometry_new[i]
""")]
DEMO = '''
import dlib
from pibronic.vibronic import electronic_structure as es
path = dlib.root() + "/z.txt"
for header in (["title"], ["title", "another line"], ["a", "b", "c"]):
    with open(path, "w") as f:
        f.write("".join(x + "\\n" for x in header) + "O 0.1 0.2 0.3\\nH 0.4 0.5 0.6\\n")
    z = es.ZmatClass(path)
    z.set("O 1.1 1.2 1.3 \\nH 1.4 1.5 1.6 \\n\\n")
    got = [x.split() for x in z.get().splitlines() if x.strip()]
    want = [x.split() for x in header] + [["O", "1.1", "1.2", "1.3"], ["H", "1.4", "1.5", "1.6"]]
    dlib.expect(got == want, f"{got}")
'''
