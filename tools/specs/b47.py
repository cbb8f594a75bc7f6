ID = "c09-close-temperatures"
PROPERTY = "C09"
NEEDS = "results at two temperatures which differ by less than 0.1 K"
BREAKS = "only one of the two temperatures is analysed"
ALL = True
EDITS = [("pibronic/stats/stats.py",
"""                for T in args["temperatures"]
""",
"""                for T in sorted({round(t, 1): t for t in args["temperatures"]}.values())
""")]
DEMO = '''
import dlib, os
from pibronic.stats import stats

FS = dlib.project()
Ts = (300.0, 300.04, 250.0)
dlib.analytic(FS, Ts)
for f in (stats.statistical_analysis_of_pimc, stats.jackknife_analysis_of_pimc):
    for T in Ts:
        dlib.result_file(FS, 4, T, 1, 5)
    f(FS)
    for T in Ts:
        path = FS.template_jackknife.format(P=4, T=T, X=5)
        dlib.expect(os.path.isfile(path), f"{f.__name__}: no estimate at {T}")
        os.remove(path)
'''
