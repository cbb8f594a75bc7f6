"""A stand-in for the Julia scripts (VibronicToolkit) the code under test drives."""
import hashlib
import json
import os

from .core import ROOT
from .osseam import CompletedCommand, REAL

LIB = ROOT + "/julia/VibronicToolkit/src/VibronicToolkit.jl"


def value(tag, *key):
    """the answer the stand-in gives: a function of the model and the arguments only"""
    h = hashlib.sha256(repr((tag,) + key).encode()).digest()
    x = round(1.0 + int.from_bytes(h[:6], "big") / 2.0 ** 44, 9)
    # some are zero, negative, very small or very large
    return (0.0, -x, x * 1e-300, x * 1e250, -x * 1e-12)[h[6] % 5] if h[7] < 60 else x


class Julia:
    def __init__(self, world):
        self.w = world
        self.calls = []            # (script, options, model text, ok)
        self.min_time, self.max_time = 0, 0
        self.fail_p = 0.0
        self.iter_model = None     # callable(conf path) -> text of the decomposed model
        world.julia = self
        world.commands["julia"] = self.run
        world.commands["modulecmd"] = lambda argv, env=None, cwd=None: CompletedCommand(
            0, "pass\n", "")

    def answers(self, script, opts, text):
        tag = {"analytical": "analytical", "sos": "sos", "trotter": "trotter"}[script]
        key = (hashlib.sha256(text.encode()).hexdigest(), f"{float(opts['--beta']):.10g}",
               opts.get("--basis-size"), opts.get("--num-links"), "--uncoupled" in opts)
        d = {f"{q}_{tag}": value(q + tag, *key) for q in ("Z", "E", "Cv")}
        d["beta"] = float(opts["--beta"])
        if opts.get("--num-links"):
            d["tau"] = d["beta"] / int(opts["--num-links"])
        return d

    def run(self, argv, env=None, cwd=None):
        w = self.w
        if argv[1:2] == ["-v"]:
            return CompletedCommand(0, "julia version 1.0.0\n", "")
        if argv[1:2] == ["-e"]:
            return CompletedCommand(0, LIB, "")
        script = os.path.basename(argv[1]).replace(".jl", "")
        opts = {}
        i = 2
        while i < len(argv):
            if argv[i].startswith("--") and i + 1 < len(argv) and not argv[i + 1].startswith("--"):
                opts[argv[i]] = argv[i + 1]
                i += 2
            else:
                opts[argv[i]] = True
                i += 1
        v = w.c.fault(self.fail_p) if self.fail_p else 0
        try:
            with REAL["open"](opts["--conf"]) as f:
                text = f.read()
        except (OSError, KeyError):
            self.calls.append((script, opts, None, False))
            return CompletedCommand(1, "", "ERROR: SystemError: opening file\n")
        if self.max_time:
            w.sleep(self.min_time + w.c.sched(int(self.max_time), 1.0))
        if v:
            kind = ("killed", "empty", "partial", "signal", "silent")[v % 5]
            w.fired("julia_" + kind)
            self.calls.append((script, opts, text, False))
            if kind == "killed":
                return CompletedCommand(137, "", "Killed\n")
            if kind == "empty":
                return CompletedCommand(1, "", "ERROR: LoadError: OutOfMemoryError()\n")
            if kind == "silent":         # says nothing at all, not even that it failed
                return CompletedCommand(0, "", "")
            if kind == "signal":         # no shell in between: the signal is all there is
                some = list(self.answers(script, opts, text).items())[:v // 4 % 3] \
                    if script in ("analytical", "sos", "trotter") else []
                return CompletedCommand((-9, -15, -11)[v // 12 % 3],
                                        "".join(f"{k}: {x}\n" for k, x in some), "")
            # died after printing some of its results
            if script in ("analytical", "sos", "trotter"):
                some = list(self.answers(script, opts, text).items())[:1 + v // 3 % 2]
                return CompletedCommand(1, "".join(f"{k}: {x}\n" for k, x in some),
                                        "ERROR: LoadError: OutOfMemoryError()\n")
            return CompletedCommand(1, "", "ERROR: LoadError: OutOfMemoryError()\n")
        if script == "iterative_decomposition":
            with REAL["open"](opts["--out-conf"], "w") as f:
                f.write(self.iter_model(text))
            with REAL["open"](opts["--out-vs"], "w") as f:
                f.write("1.0\n")
            self.calls.append((script, opts, text, True))
            return CompletedCommand(0, "", "")
        if script not in ("analytical", "sos", "trotter"):
            return CompletedCommand(1, "", f"ERROR: could not open file {argv[1]}\n")
        try:
            json.loads(text)
        except ValueError:
            self.calls.append((script, opts, text, False))
            return CompletedCommand(1, "", "ERROR: JSON parse error\n")
        ans = self.answers(script, opts, text)
        self.calls.append((script, opts, text, True))
        return CompletedCommand(0, "".join(f"{k}: {v}\n" for k, v in ans.items()), "")
