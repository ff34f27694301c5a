"""One integer decides everything: named streams derived by hashing."""
import hashlib
import random


def derive(*parts):
    h = hashlib.sha256("\x1f".join(str(p) for p in parts).encode()).digest()
    return int.from_bytes(h[:8], "big")


class Rng(random.Random):
    def chance(self, p):
        return self.random() < p

    def weighted(self, pairs):
        tot = sum(w for _, w in pairs)
        x = self.random() * tot
        for v, w in pairs:
            x -= w
            if x < 0:
                return v
        return pairs[-1][0]


def stream(*parts):
    return Rng(derive(*parts))
