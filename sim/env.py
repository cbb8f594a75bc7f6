"""Bring the code under test into this process, with every seam in place."""
import io
import logging
import os
import sys
import warnings

REPO = os.environ.get("PIBRONIC_TREE", "/repo")


class _Out(io.TextIOBase):
    """standard output of the simulated processes"""

    def write(self, s):
        from .core import World
        w = World.active
        if w is not None:
            t = w.current_task()
            if t is not None:
                out = getattr(t.proc, "out", None)
                if out is not None:
                    out.append(s)
        return len(s)

    def flush(self):
        pass

    def isatty(self):
        return False


class _NoProcess:
    pass


def _lru_cache(maxsize=128, typed=False):
    """functools.lru_cache, but each simulated process has its own"""
    import functools
    from .core import World

    def decorate(f):
        def store():
            w = World.active
            t = w.current_task() if w is not None else None
            owner = t.proc if t is not None else (w if w is not None else _NoProcess)
            return owner.__dict__.setdefault("cached_calls", {}).setdefault(f, {}) \
                if owner is not _NoProcess else {}

        @functools.wraps(f)
        def wrapper(*args, **kw):
            hit = store()
            key = functools._make_key(args, kw, typed)
            if key in hit:
                return hit[key]
            value = f(*args, **kw)
            hit[key] = value
            if maxsize is not None and len(hit) > maxsize:
                del hit[next(iter(hit))]
            return value
        wrapper.cache_clear = lambda: store().clear()
        return wrapper
    if callable(maxsize):
        f, maxsize = maxsize, 128
        return decorate(f)
    return decorate


real_stdout = None
modules = None


def record_figures():
    """Figure.savefig keeps what the figure shows: world.drawn gets (path, content)"""
    from matplotlib.container import ErrorbarContainer
    from matplotlib.figure import Figure
    from .core import World

    def savefig(self, fname, *a, **k):
        content = {"curves": [], "images": [], "title": self.get_suptitle(), "levels": [],
                   "texts": []}
        for ax in self.axes:
            content["texts"] += [(*map(float, x.get_position()), x.get_text()) for x in ax.texts]
            content["images"] += [im.get_array().tolist() for im in ax.images]
            content["levels"] += [float(line.get_ydata()[0]) for line in ax.lines
                                  if list(line.get_xdata()) == [0, 1]]      # axhline
            for cont in ax.containers:
                if not isinstance(cont, ErrorbarContainer):
                    continue
                line, _, bars = cont.lines
                err = [(seg[1][1] - seg[0][1]) / 2 if len(seg) == 2 else float("nan")
                       for b in bars for seg in b.get_segments()]
                content["curves"].append((cont.get_label(), [float(x) for x in line.get_xdata()],
                                          [float(y) for y in line.get_ydata()], err))
        with open(fname, "wb") as f:
            f.write(b"%PDF of " + repr(content["title"]).encode())
        w = World.active
        if w is not None and w.current_task() is not None:
            w.drawn.append((os.fspath(fname), content))
    Figure.savefig = savefig


def start():
    """idempotent; returns the namespace of imported modules"""
    global real_stdout, modules
    if modules is not None:
        return modules
    sys.dont_write_bytecode = True
    warnings.simplefilter("ignore")
    logging.disable(logging.CRITICAL)
    from . import osseam
    from .core import ModuleState, World
    import numpy as np
    np.seterr(all="ignore")
    # heavy third-party imports first, so that the seams cannot disturb them
    import scipy.linalg          # noqa
    import scipy.stats           # noqa
    import matplotlib            # noqa
    import matplotlib.pyplot     # noqa
    real_stdout = sys.stdout
    osseam.install()
    sys.path.insert(0, REPO)
    sys.stdout = _Out()
    osseam.import_phase = True
    import functools
    caches = functools.lru_cache, functools.cache
    functools.lru_cache, functools.cache = _lru_cache, _lru_cache(maxsize=None)
    import pibronic              # noqa
    from pibronic.data import file_structure, file_name, postprocessing
    from pibronic.pimc import pimc as engine
    from pibronic.server import job_boss
    from pibronic.stats import stats, jackknife
    from pibronic.vibronic import vIO, VMK, electronic_structure
    from pibronic import julia_wrapper, constants
    from pibronic.plotting import plotting, grid_plots, prepare
    osseam.import_phase = False
    functools.lru_cache, functools.cache = caches
    # figures are recorded instead of rendered; there is no LaTeX and no module command
    for mod in (plotting, grid_plots, prepare, sys.modules["pibronic.plotting"]):
        for name in ("prepare_mpl_rc_file", "load_latex_module_on_server"):
            if hasattr(mod, name):
                setattr(mod, name, lambda *a, **k: None)
    record_figures()
    if not os.path.abspath(pibronic.__file__).startswith(os.path.abspath(REPO) + os.sep):
        raise RuntimeError(f"imported {pibronic.__file__}, not the tree at {REPO}")
    World.modstate = ModuleState()

    class NS:
        pass
    ns = NS()
    ns.fs, ns.fn, ns.pp = file_structure, file_name, postprocessing
    ns.engine, ns.jb, ns.stats, ns.jk = engine, job_boss, stats, jackknife
    ns.vIO, ns.VMK, ns.es = vIO, VMK, electronic_structure
    ns.pl, ns.gp = plotting, grid_plots
    ns.jw, ns.const, ns.pkg = julia_wrapper, constants, pibronic
    modules = ns
    return ns
