"""Control of the random draws made during generation.

Inside `with controlled(src):` every draw from the `random` module (the functions bound to its
hidden instance, and random.random/getrandbits themselves) is a choice of the tape: the lowest
outcome, the highest outcome, or any outcome.
"""
import random as _random
from contextlib import contextmanager

_INST = _random._inst
_TOP = (1 << 53) - 1
DRAWS = 150


class _Control:
    def __init__(self, src, mode):
        self.src = src
        self.mode = mode        # 0 tape-mixed, 1 all minimal, 2 all maximal, 3 uniform from tape
        self.n = 0
        self.tail = None

    def below(self, n):
        n = int(n)
        if n <= 1:
            return 0
        self.n += 1
        if self.n <= 3000:      # beyond that, let rejection sampling (if any) terminate
            if self.mode == 1:
                return 0
            if self.mode == 2:
                return n - 1
        if self.n > DRAWS:
            if self.tail is None:
                self.tail = _random.Random(self.src.draw(1 << 30))
            return self.tail.randrange(n)
        if self.mode == 3:
            return self.src.draw(n)
        form = self.src.draw(6)
        if form == 0:
            return 0
        if form == 1:
            return n - 1
        return self.src.draw(n)


@contextmanager
def controlled(src, mode=None):
    if mode is None:
        mode = src.weighted([(4, 0), (2, 1), (2, 2), (4, 3)])
    ctl = _Control(src, mode)

    def f_random():
        return ctl.below(1 << 53) / (1 << 53)

    def f_getrandbits(k):
        return ctl.below(1 << k) if k > 0 else 0

    saved_mod = (_random.random, _random.getrandbits)
    _INST.random = f_random
    _INST.getrandbits = f_getrandbits
    _INST._randbelow = ctl.below
    _random.random = f_random
    _random.getrandbits = f_getrandbits
    try:
        yield ctl
    finally:
        for name in ("random", "getrandbits", "_randbelow"):
            try:
                delattr(_INST, name)
            except AttributeError:
                pass
        _random.random, _random.getrandbits = saved_mod
