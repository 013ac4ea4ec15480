"""A small property-based testing engine.

A test draws everything it needs from a Src. A Src hands out integers of given
ranges, from a seeded generator or from a recorded list, and records them. So a
case is fully described by its list of choices; shrinking edits that list, and a
replay file is that list.
"""
import random
import time


class Violation(Exception):
    """The code under test broke the property."""

    def __init__(self, message, /, **detail):
        super().__init__(message)
        self.detail = detail


class HarnessError(Exception):
    """The machinery is broken, no statement about the property."""


class Src:

    def __init__(self, seed=None, choices=None):
        self.rng = random.Random(seed) if choices is None else None
        self.replay = choices
        self.record = []

    def below(self, n):
        """An integer in [0, n). Shrinks towards 0."""
        if n <= 1:
            return 0
        if self.replay is None:
            value = self.rng.randrange(n)
        else:
            pos = len(self.record)
            value = self.replay[pos] if pos < len(self.replay) else 0
            if pos > len(self.replay) + 20000:
                raise HarnessError('runs on without choices left')
            if value >= n:
                value = n - 1
        self.record.append(value)
        return value

    def int(self, lo, hi):
        return lo + self.below(hi - lo + 1)

    def bool(self, percent=50):
        return self.below(100) >= 100 - percent

    def choice(self, seq):
        return seq[self.below(len(seq))]

    def weighted(self, pairs):
        """Pick from (weight, item) pairs. Shrinks towards the first."""
        total = sum(w for w, _ in pairs)
        v = self.below(total)
        for w, item in pairs:
            if v < w:
                return item
            v -= w
        raise HarnessError('weighted')

    def data(self, n):
        """n bytes drawn as one choice."""
        if n == 0:
            return b''
        return self.below(256 ** n).to_bytes(n, 'little')

    def shuffled(self, seq):
        """Shrinks towards the given order."""
        seq = list(seq)
        out = []
        while seq:
            out.append(seq.pop(self.below(len(seq))))
        return out

    def sample(self, seq, n):
        return self.shuffled(seq)[:n]


def shrink(choices, fails, max_evals=400, max_seconds=20):
    """Minimise a list of choices for which fails(choices) is true. fails()
    returns the recorded (possibly shorter) choices, or None.
    """
    start = time.monotonic()
    evals = 0
    best = list(choices)

    def attempt(candidate):
        nonlocal evals, best
        if evals >= max_evals or time.monotonic() - start > max_seconds:
            return False
        evals += 1
        got = fails(candidate)
        if got is None:
            return False
        got = list(got)
        if (len(got), got) < (len(best), best):
            best = got
            return True
        return False

    improved = True
    while improved and evals < max_evals and time.monotonic() - start < max_seconds:
        improved = False
        size = max(1, len(best) // 2)
        while size >= 1:
            i = 0
            while i < len(best):
                if attempt(best[:i] + best[i + size:]):
                    improved = True
                elif any(best[i:i + size]) and attempt(
                        best[:i] + [0] * len(best[i:i + size]) + best[i + size:]):
                    improved = True
                    i += size
                else:
                    i += size
                if evals >= max_evals or time.monotonic() - start > max_seconds:
                    return best, evals
            size //= 2
        for i in range(len(best)):
            if i >= len(best):
                break
            lo, hi = 0, best[i]
            while lo < hi and i < len(best):
                mid = (lo + hi) // 2
                if attempt(best[:i] + [mid] + best[i + 1:]):
                    improved = True
                    if i >= len(best):
                        break
                    hi = best[i]
                else:
                    lo = mid + 1
                if evals >= max_evals or time.monotonic() - start > max_seconds:
                    return best, evals
    return best, evals
