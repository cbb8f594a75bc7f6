ID = "c09-unseen-failures"
PROPERTY = "C09"
NEEDS = "one of the workers of an analysis fails (missing analytic data, full disk, unreadable file)"
BREAKS = "the failure of a worker is dropped: the analysis reports success although estimates are missing"
ALL = True
EDITS = [("pibronic/stats/stats.py",
"""            p.starmap(basic_wrapper, arg_list)
""",
"""            p.starmap_async(basic_wrapper, arg_list)
            p.close()
            p.join()
"""), ("pibronic/stats/stats.py",
"""            p.starmap(jackknife_wrapper, arg_list)
""",
"""            p.starmap_async(jackknife_wrapper, arg_list)
            p.close()
            p.join()
""")]
DEMO = '''
import dlib, os
from pibronic.stats import stats

FS = dlib.project()
dlib.analytic(FS, [300.0])                      # but not for 400 K
dlib.result_file(FS, 4, 300.0, 1, 5)
stats.statistical_analysis_of_pimc(FS)
dlib.expect(os.path.isfile(FS.template_jackknife.format(P=4, T=300.0, X=5)), "the estimate")
dlib.result_file(FS, 4, 400.0, 1, 5)
for f in (stats.statistical_analysis_of_pimc, stats.jackknife_analysis_of_pimc):
    try:
        f(FS)
    except BaseException:
        continue
    dlib.expect(os.path.isfile(FS.template_jackknife.format(P=4, T=400.0, X=5)),
                f"{f.__name__} succeeded without an estimate for 400 K")
'''
