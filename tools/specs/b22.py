ID = "c16-analysed-already"
PROPERTY = "C16"
NEEDS = "a model is replaced and as many samples are computed again as there were for the old one"
BREAKS = "an analysis does not replace the estimate of a pair of parameters which has one for this number of samples, although it is that of an older model"
EDITS = [("pibronic/stats/stats.py",
"""    path = FS.template_jackknife.format(P=P, T=T, X=pimc_results.samples)
""",
"""    path = FS.template_jackknife.format(P=P, T=T, X=pimc_results.samples)

    # there is nothing to do if these samples were analysed in the past
    if os.path.isfile(path) and os.stat(path).st_size > 0:
        with open(path, 'r') as source_file:
            if set(output_dict).issubset(json.loads(source_file.read())):
                return
"""), ("pibronic/stats/stats.py", "# import os\n", "import os\n")]
DEMO = '''
import dlib, json, os
from pibronic.stats import stats
from pibronic.vibronic import vIO

FS = dlib.project()
dlib.analytic(FS, [300.0])
dlib.result_file(FS, 4, 300.0, 1, 5)
stats.statistical_analysis_of_pimc(FS)
path = FS.template_jackknife.format(P=4, T=300.0, X=5)
old = json.load(open(path))
vIO.save_model_to_JSON(FS.path_vib_model, dlib.model(scale=1.3))
vIO.create_basic_diagonal_model(FS)
FS.generate_model_hashes(force_flag=True)
dlib.analytic(FS, [300.0])
dlib.result_file(FS, 4, 300.0, 1, 5, seed=3)
stats.statistical_analysis_of_pimc(FS)
new = json.load(open(path))
dlib.expect(new["hash_vib"] == FS.hash_vib and new["Z"] != old["Z"], "the estimate of the old model")
'''
