"""The only source of randomness: a PRNG derived from (VERIF_SEED, property, run index)."""
import hashlib
import random


class Rng(random.Random):
    def chance(self, p):
        return self.random() < p

    def weighted(self, pairs):
        """pairs: [(weight, value)]"""
        total = sum(w for w, _ in pairs)
        x = self.random() * total
        for w, v in pairs:
            x -= w
            if x < 0:
                return v
        return pairs[-1][1]

    def geo(self, mean, cap):
        n = 0
        while n < cap and self.random() < mean / (mean + 1.0):
            n += 1
        return n


def derive(*parts):
    h = hashlib.sha256("|".join(map(str, parts)).encode()).digest()
    return Rng(int.from_bytes(h[:8], "big"))
