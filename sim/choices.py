"""Every decision of a simulated run comes from one of these streams.

A run has three named streams, all derived from one integer seed:
    gen    the workload (which requests, models, sizes, ...): a dense list
    sched  who runs next at each scheduling point: sparse {point number: value}
    fault  which fault fires at each fault opportunity: sparse {opportunity: value}
Value 0 always means the simplest thing (smallest workload, keep running the
current task, no fault).  What was drawn is recorded, and a recorded run can be
replayed (and shrunk) without any PRNG: missing entries are 0.
"""
import random


class Choices:
    def __init__(self, seed=None, recorded=None):
        self.replay = recorded is not None
        self.rec = {"gen": [], "sched": {}, "fault": {}}
        self.counter = {"sched": 0, "fault": 0}
        if self.replay:
            self.src_gen = list(recorded["gen"])
            self.src_sched = {int(k): v for k, v in recorded["sched"].items()}
            self.src_fault = {int(k): v for k, v in recorded["fault"].items()}
        else:
            self.rng = {k: random.Random(f"{seed}/{k}") for k in ("gen", "sched", "fault")}

    # ---- workload ------------------------------------------------------
    def _gen(self, n):
        """an integer in [0, n)"""
        if n <= 1:
            return 0
        if self.replay:
            i = len(self.rec["gen"])
            v = self.src_gen[i] if i < len(self.src_gen) else 0
            v = min(max(int(v), 0), n - 1)
        else:
            v = self.rng["gen"].randrange(n)
        self.rec["gen"].append(v)
        return v

    def integer(self, lo, hi):
        return lo + self._gen(hi - lo + 1)

    def pick(self, seq):
        return seq[self._gen(len(seq))]

    def chance(self, percent):
        """True with the given probability; the simple answer is False"""
        v = self._gen(100)
        return v >= 100 - percent

    def real(self, lo, hi, digits=3):
        n = 10 ** digits
        return round(lo + (hi - lo) * self._gen(n + 1) / n, 12)

    def shuffled(self, seq):
        seq = list(seq)
        for i in range(len(seq) - 1, 0, -1):
            j = i - self._gen(i + 1)   # 0 keeps the element in place
            seq[i], seq[j] = seq[j], seq[i]
        return seq

    def subset(self, seq, percent=50):
        return [x for x in seq if self.chance(percent)]

    # ---- schedule and faults ----------------------------------------------
    def _sparse(self, stream, draw):
        i = self.counter[stream]
        self.counter[stream] = i + 1
        if self.replay:
            v = (self.src_sched if stream == "sched" else self.src_fault).get(i, 0)
        else:
            v = draw(self.rng[stream])
        if v:
            self.rec[stream][i] = v
        return v

    def sched(self, n, p_switch):
        """0: stay; otherwise pick one of n candidates (1..n)"""
        def draw(rng):
            if rng.random() >= p_switch:
                return 0
            return 1 + rng.randrange(1 << 16)
        v = self._sparse("sched", draw)
        if not v:
            return 0
        return 1 + (v - 1) % n

    def order(self, n):
        """a seed for a permutation of n things (0: leave as is)"""
        if n < 2:
            return 0
        return self._sparse("sched", lambda rng: rng.randrange(1 << 16))

    def fault(self, p, n=1 << 16):
        """0: nothing; otherwise a positive integer parametrising the fault"""
        def draw(rng):
            if rng.random() >= p:
                return 0
            return 1 + rng.randrange(n)
        return self._sparse("fault", draw)
