"""All random decisions of the simulator come from one integer."""
import hashlib
import random


def derive(*parts):
    h = hashlib.sha256("/".join(str(p) for p in parts).encode()).digest()
    return int.from_bytes(h[:6], "big")


class Rng(random.Random):
    def __init__(self, *parts):
        super().__init__(derive(*parts))

    def chance(self, p):
        return self.random() < p

    def seed31(self):
        return self.randrange(1, 2 ** 31 - 1)

    def wchoice(self, pairs):
        """pairs: [(weight, value)]"""
        t = sum(w for w, _ in pairs)
        r = self.random() * t
        for w, v in pairs:
            r -= w
            if r <= 0:
                return v
        return pairs[-1][1]
