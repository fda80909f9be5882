"""Seeded fault source: online random decisions that are recorded and can be replayed (and minimised) as an explicit list."""
class FaultSource:
    """decide(op, ...) is called at every fault point; point k of the run gets number k.
    random mode: `table` = {op: [(kind, weight, argfn)]}, probability p; replay mode: plan = [[k, kind, arg], ...]"""
    def __init__(self, rng=None, p=0.0, table=None, plan=None, budget=10**9, window=None):
        self.rng = rng; self.p = p; self.table = table or {}; self.n = 0
        self.plan = None if plan is None else {int(e[0]): (e[1], e[2] if len(e) > 2 else None) for e in plan}
        self.rec = []; self.fired = {}; self.budget = budget; self.enabled = True
        self.points = {}
    def decide(self, op, *ctx):
        self.n += 1
        self.points[op] = self.points.get(op, 0) + 1
        if not self.enabled: return None
        if self.plan is not None:
            f = self.plan.get(self.n)
            if f is not None: self._count(f)
            return f
        if self.rng is None or op not in self.table or self.budget <= 0: return None
        if self.rng.random() >= self.p: return None
        ks = self.table[op]
        if not ks: return None
        kind = self.rng.weighted([(k[0], k[1]) for k in ks])
        argf = next((k[2] for k in ks if k[0] == kind and len(k) > 2), None)
        f = (kind, argf(self.rng) if argf else None)
        self.budget -= 1
        self._count(f)
        return f
    def _count(self, f):
        self.rec.append([self.n, f[0], f[1]])
        self.fired[f[0]] = self.fired.get(f[0], 0) + 1
