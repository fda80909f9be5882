"""One integer decides everything: seeded PRNG with labelled sub-streams."""
import hashlib, random

def derive(seed, *labels):
    h = hashlib.sha256(repr((int(seed),) + tuple(str(l) for l in labels)).encode()).digest()
    return int.from_bytes(h[:8], 'big')

class Rng(random.Random):
    def __init__(self, seed, *labels):
        self.base = derive(seed, *labels)
        super().__init__(self.base)
    def __reduce__(self):           # not used; keeps random.Random picklability quirks away
        return (Rng, (self.base,))
    def sub(self, *labels):
        return Rng(self.base, *labels)
    def chance(self, p):
        return self.random() < p
    def pick(self, seq):
        return seq[int(self.random() * len(seq))]
    def weighted(self, pairs):
        tot = sum(w for _, w in pairs); r = self.random() * tot
        for v, w in pairs:
            r -= w
            if r < 0: return v
        return pairs[-1][0]
    def fl(self, lo, hi, nd=4):
        """float rounded so that it survives JSON exactly and shrinks well"""
        return round(self.uniform(lo, hi), nd)
    def geometric(self, p):
        """number of trials until the first success, >= 1"""
        if p <= 0: return 1 << 60
        n = 1
        import math
        u = self.random()
        return max(1, int(math.log(max(1e-300, 1.0 - u)) / math.log(1.0 - p)) + 1) if p < 1 else 1
