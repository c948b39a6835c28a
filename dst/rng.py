"""The one source of randomness: everything derives from (VERIF_SEED, property, run index)."""

import hashlib
import random


def derive(*parts) -> int:
    h = hashlib.sha256("\x1f".join(str(p) for p in parts).encode()).digest()
    return int.from_bytes(h[:7], "big")


class Rng(random.Random):
    """random.Random with a few shorthands (never seeded from the clock)."""

    def __init__(self, *parts):
        super().__init__(derive(*parts))

    def flag(self, p=0.5):
        return self.random() < p

    def pick(self, seq):
        return seq[self.randrange(len(seq))]

    def weighted(self, pairs):
        """pairs: [(item, weight)]"""
        total = sum(w for _, w in pairs)
        x = self.random() * total
        for item, w in pairs:
            x -= w
            if x <= 0:
                return item
        return pairs[-1][0]

    def int(self, a, b):
        return self.randint(a, b)

    def seed32(self):
        return self.randrange(1, 2**31)
