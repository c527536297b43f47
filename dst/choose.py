"""The single source of nondeterminism of a simulated run.

Every scheduling decision, delay and fault is one call of Chooser.pick / Chooser.flip.  In search mode the
answers come from random.Random(seed); in replay mode they come from a recorded list, and 0 ("do nothing
unusual") once the list is exhausted.  The recorded list is the run's schedule and fault trace.
"""
import random
import zlib


class Chooser:
    def __init__(self, seed=None, trace=None):
        self.rng = random.Random(seed) if trace is None else None
        self.script = None if trace is None else list(trace)
        self.pos = 0
        self.trace = []
        self.crc = 0

    def _note(self, v, tag):
        self.trace.append(v)
        self.crc = zlib.crc32(f"{tag}:{v};".encode(), self.crc)
        return v

    def _scripted(self):
        if self.pos < len(self.script):
            v = self.script[self.pos]
        else:
            v = 0
        self.pos += 1
        return v

    def pick(self, n, tag=""):
        """An integer in [0, n); 0 is the undisturbed choice."""
        if n <= 1:
            return 0
        v = self.rng.randrange(n) if self.rng is not None else self._scripted() % n
        return self._note(v, tag)

    def flip(self, p, tag=""):
        """1 with probability p (0 is the undisturbed choice)."""
        if p <= 0.0:
            return 0
        v = (1 if self.rng.random() < p else 0) if self.rng is not None else (1 if self._scripted() else 0)
        return self._note(v, tag)

    def geometric(self, mean, cap, tag=""):
        """A count in [0, cap], geometric with the given mean."""
        if self.rng is not None:
            v = 0
            p = 1.0 / (mean + 1.0)
            while v < cap and self.rng.random() > p:
                v += 1
        else:
            v = min(self._scripted(), cap)
        return self._note(v, tag)
