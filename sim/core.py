"""Core of the simulator: one recorded choice sequence decides everything in a run.

A run is a pure function of (scenario, choice sequence, code under test).  In exploration the choices are drawn from one
PRNG seeded from (VERIF_SEED, property, scenario, run number); in replay they are read back from a file.  The value 0 of
every choice is the 'boring' one (no fault, no pre-emption, in order), which is what minimisation pushes towards.
"""
import hashlib
import random
from collections import Counter


class Violation(Exception):
    """The property is broken.  kind: short stable class of the violation (kept fixed while minimising)."""

    def __init__(self, kind, detail=''):
        super().__init__('{}: {}'.format(kind, detail))
        self.kind = kind
        self.detail = str(detail)


class HarnessError(Exception):
    """Something the harness cannot interpret: never reported as a violation."""


class Discard(Exception):
    """The drawn configuration is outside the property's precondition."""


class SimAbort(BaseException):
    """Unwinds parked threads at the end of a run."""


def seed_int(*parts):
    return int.from_bytes(hashlib.sha256(':'.join(str(p) for p in parts).encode()).digest()[:8], 'big')


class Sim:
    def __init__(self, seed=None, choices=None, max_choices=200000):
        self.rng = random.Random(seed) if choices is None else None
        self.replay = list(choices) if choices is not None else None
        self.pos = 0
        self.record = []           # [label, n, value]
        self.max_choices = max_choices
        self.events = hashlib.sha256()
        self.n_events = 0
        self.keep_events = None    # list when events are wanted verbatim
        self.sched = hashlib.sha256()
        self.n_sched = 0
        self.faults = Counter()
        self.now = 1.7e9           # virtual wall clock, seconds
        self.mono = 0.0            # virtual monotonic clock, seconds
        self.clock_jumps = 0
        self.ncpu = 4
        self.quiet_depth = 0
        self.armed = []            # fault specifications
        self.n_tasks = 0           # worker tasks executed
        self.n_switch = 0          # thread switches
        self.ops = 0               # workload operations
        self.desc = []             # readable description of the run
        self.scheduler = None
        self.background_rng = None

    # ---------------------------------------------------------------- choices
    def _draw(self, n, label, sampler):
        if self.quiet_depth:
            return 0
        if n <= 1:
            return 0
        if len(self.record) >= self.max_choices:
            return 0
        if self.replay is not None:
            v = self.replay[self.pos] if self.pos < len(self.replay) else 0
            self.pos += 1
            v = int(v) % n
        else:
            v = sampler()
        self.record.append([label, n, v])
        return v

    def choose(self, n, label):
        return self._draw(n, label, lambda: self.rng.randrange(n))

    def chance(self, p, label):
        return bool(self._draw(2, label, lambda: int(self.rng.random() < p)))

    def pick(self, seq, label):
        seq = list(seq)
        return seq[self.choose(len(seq), label)]

    def between(self, lo, hi, label):
        """integer in [lo, hi]; lo is the boring one"""
        return lo + self.choose(hi - lo + 1, label)

    def subseed(self, label):
        return self.choose(2 ** 31 - 1, label)

    def quantum(self, mean, label='quantum'):
        """number of steps before the next pre-emption; 0 = run to completion"""
        def sampler():
            if self.rng.random() < 0.15:
                return 0
            return min(1 + int(self.rng.expovariate(1.0 / mean)), 4999)
        return self._draw(5000, label, sampler)

    def perm(self, n, label):
        out, rest = [], list(range(n))
        while rest:
            out.append(rest.pop(self.choose(len(rest), label)))
        return out

    # ---------------------------------------------------------------- logging (never draws)
    def event(self, *what):
        s = repr(what)
        self.events.update(s.encode())
        self.n_events += 1
        if self.keep_events is not None:
            self.keep_events.append(s)

    def schedule_point(self, *what):
        self.sched.update(repr(what).encode())
        self.n_sched += 1
        self.event('sched', *what)

    def describe(self, s):
        self.desc.append(str(s))
        self.event('desc', str(s))

    def fault(self, kind):
        self.faults[kind] += 1
        self.event('fault', kind)

    def advance(self, dt):
        self.now += dt
        self.mono += dt

    def jump_clock(self, dt):
        self.now += dt
        self.clock_jumps += 1
        self.fault('clock-jump')

    # ---------------------------------------------------------------- reference computations
    class _Quiet:
        def __init__(self, sim):
            self.sim = sim

        def __enter__(self):
            self.sim.quiet_depth += 1
            self._armed, self.sim.armed = self.sim.armed, []

        def __exit__(self, *a):
            self.sim.quiet_depth -= 1
            self.sim.armed = self._armed
            return False

    def quiet(self):
        """no draws, no faults, everything in order: used to compute references"""
        return Sim._Quiet(self)

    def digest(self):
        h = hashlib.sha256(self.events.digest())
        h.update(repr([tuple(r) for r in self.record]).encode())
        return h.hexdigest()[:16]

    def values(self):
        return [r[2] for r in self.record]


# -------------------------------------------------------------------- minimisation
def shrink(values, still_fails, budget):
    """Reduce a choice sequence: shorter first, then smaller values.  still_fails(values) -> (bool, consumed values)."""
    import time as _t
    end = _t.monotonic() + budget if budget else None
    best = list(values)
    tries = 0

    def attempt(cand):
        nonlocal best, tries
        if end is not None and _t.monotonic() > end:
            return False
        if cand == best:
            return False
        tries += 1
        ok, used = still_fails(cand)
        if ok:
            used = list(used)
            while used and used[-1] == 0:
                used.pop()
            c2 = list(cand)
            while c2 and c2[-1] == 0:
                c2.pop()
            new = used if (len(used), sum(used)) <= (len(c2), sum(c2)) else c2
            if (len(new), new) < (len(best), best):
                best = new
                return True
        return False

    while best and best[-1] == 0:
        best = best[:-1]
    improved = True
    while improved and not (end is not None and _t.monotonic() > end):
        improved = False
        # truncate tail
        n = len(best)
        for k in (0, n // 8, n // 4, n // 2, (3 * n) // 4, n - 1):
            if 0 <= k < len(best) and attempt(best[:k]):
                improved = True
        # delete or zero blocks
        size = max(len(best) // 2, 1)
        while size >= 1:
            i = 0
            while i < len(best):
                if end is not None and _t.monotonic() > end:
                    break
                if attempt(best[:i] + best[i + size:]):
                    improved = True
                    continue
                if any(best[i:i + size]) and attempt(best[:i] + [0] * len(best[i:i + size]) + best[i + size:]):
                    improved = True
                i += size
            if size == 1:
                break
            size //= 2
        # lower single values
        i = 0
        while i < len(best):
            if end is not None and _t.monotonic() > end:
                break
            v = best[i]
            for w in (0, 1, v // 2, v - 1):
                if 0 <= w < v and attempt(best[:i] + [w] + best[i + 1:]):
                    improved = True
                    break
            i += 1
    return best, tries
