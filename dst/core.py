"""Core of the deterministic simulator: recorded choices, run context, outcome.

Every decision a simulated run makes - operations, schedules, delays, faults,
program bytes - is drawn from one `Choices` object.  A run is a pure function
of the drawn numbers and the code under test, so the recorded list of numbers
is the replay file, and minimising a failure means minimising that list.
"""
import hashlib
import random
from contextlib import contextmanager


class Violation(Exception):
    """The property is broken.  `kind` is the class kept while minimising."""

    def __init__(self, kind, message, key=None):
        super().__init__(f"{kind}: {message}")
        self.kind = kind
        self.message = message
        self.key = key  # identifies the specific failing input / call site


class HarnessError(Exception):
    """The harness itself is confused; never reported as a violation."""


class Overrun(Exception):
    """The run drew more choices than allowed (only while minimising)."""


class Choices:
    """A recorded stream of bounded integers.

    Fresh: values come from a PRNG seeded with `seed`.  Replay: values come
    from `prefix`; past its end every draw is 0, the simplest value.
    """

    LIMIT = 400_000

    def __init__(self, seed=None, prefix=None):
        self.rng = random.Random(seed) if prefix is None else None
        self.prefix = prefix
        self.values = []
        self.spans = []  # (start, end) pairs, candidates for deletion

    def draw(self, n):
        """An integer in [0, n)."""
        i = len(self.values)
        if i >= self.LIMIT:
            raise Overrun()
        if n <= 1:
            v = 0
        elif self.prefix is None:
            v = self.rng.randrange(n)
        elif i < len(self.prefix):
            v = self.prefix[i]
            if v >= n:
                v %= n
        else:
            v = 0
        self.values.append(v)
        return v

    def int(self, lo, hi):
        """An integer in [lo, hi], simplest lo."""
        return lo + self.draw(hi - lo + 1)

    def bool(self, p=0.5):
        """True with probability p; simplest False."""
        return self.draw(1000) >= 1000 - int(p * 1000 + 0.5)

    def choice(self, seq):
        return seq[self.draw(len(seq))]

    def weighted(self, pairs):
        """pairs: [(weight, value)]; the first entry is the simplest."""
        total = sum(w for w, _ in pairs)
        v = self.draw(total)
        for w, x in pairs:
            if v < w:
                return x
            v -= w
        raise HarnessError("weights")

    def shuffle(self, seq):
        out = list(seq)
        for i in range(len(out) - 1):
            j = i + self.draw(len(out) - i)
            out[i], out[j] = out[j], out[i]
        return out

    def bytes(self, n):
        return bytes(self.draw(256) for _ in range(n))

    def steps(self, mean, limit):
        """Yield about `mean` times (at most `limit`).  Each step draws its own
        go/stop choice inside its span, so deleting a span deletes a step."""
        p = 1 - 1 / (mean + 1)
        for i in range(limit):
            start = len(self.values)
            if not self.bool(p):
                return
            try:
                yield i
            finally:
                self.spans.append((start, len(self.values)))

    @contextmanager
    def span(self, name=""):
        start = len(self.values)
        try:
            yield
        finally:
            self.spans.append((start, len(self.values)))


class Ctx:
    """What one simulated run reports."""

    KEEP_LOG = 400

    def __init__(self, choices, verbose=False, params=None):
        self.c = choices
        self.verbose = verbose
        self.params = params or {}
        self.faults = {}
        self.probes = {}
        self.counters = {}
        self.states = set()
        self.sim_time = 0.0
        self.log_hash = hashlib.sha256()
        self.log_lines = 0
        self.log_tail = []
        self.nontrivial = False
        self.sample = None
        self.known = []

    def log(self, *parts):
        line = " ".join(str(p) for p in parts)
        self.log_hash.update(line.encode() + b"\n")
        self.log_lines += 1
        if self.verbose:
            self.log_tail.append(line)
        else:
            if len(self.log_tail) < self.KEEP_LOG:
                self.log_tail.append(line)

    def fault(self, kind, n=1):
        self.faults[kind] = self.faults.get(kind, 0) + n
        self.nontrivial = True

    def probe(self, name, n=1):
        self.probes[name] = self.probes.get(name, 0) + n

    def count(self, name, n=1):
        self.counters[name] = self.counters.get(name, 0) + n

    def state(self, *key):
        if len(self.states) < 20000:
            h = hashlib.sha256(repr(key).encode()).digest()[:8]
            self.states.add(h)

    def check(self, ok, kind, message="", key=None):
        self.counters["oracle_checks"] = self.counters.get("oracle_checks", 0) + 1
        if not ok:
            if callable(message):
                message = message()
            raise Violation(kind, message, key)

    def digest(self):
        return self.log_hash.hexdigest()[:32]
