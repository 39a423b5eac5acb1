# Random inputs for scripts. All sizes and values come from the seeded generator of the check.
class G:
    def __init__(self, rng):
        self.r = rng
    def val(self, kind=None):
        return self._val(kind) + 0  # no negative zeros
    def _val(self, kind=None):
        r = self.r
        k = kind or r.choice(['int', 'int', 'half', 'real', 'real', 'pos', 'big', 'tiny', 'zero'])
        if k == 'int': return r.randint(-5, 5)
        if k == 'sint': return r.randint(-2, 2)
        if k == 'half': return r.randint(-20, 20) / 2
        if k == 'real': return round(r.uniform(-4, 4), 3)
        if k == 'unit': return round(r.uniform(-1, 1), 3)
        if k == 'prob': return round(r.uniform(0.02, 0.98), 3)
        if k == 'pos': return round(r.uniform(0.05, 5), 3)
        if k == 'big': return round(r.uniform(-1000, 1000), 2)
        if k == 'tiny': return round(r.uniform(-1, 1), 3) / 1000
        return 0
    def vec(self, n, kind=None):
        k = kind or self.r.choice(['int', 'sint', 'half', 'real', 'pos', None])
        return [self.val(k) for _ in range(n)]
    def mat(self, rows, cols, kind=None):
        k = kind or self.r.choice(['int', 'sint', 'half', 'real', 'pos', None])
        return dict(r=rows, c=cols, d=[self.vec(cols, k) if k else self.vec(cols) for _ in range(rows)])
    def ten(self, x, y, z, kind=None):
        k = kind or self.r.choice(['int', 'sint', 'half', 'real', 'pos', None])
        return dict(x=x, y=y, z=z, d=[[self.vec(x, k) if k else self.vec(x) for _ in range(y)] for _ in range(z)])
    def size(self, lo, hi, big=None):
        if big and self.r.random() < 0.15:
            return self.r.randint(hi + 1, big)
        return self.r.randint(lo, hi)
def E(op, *a):
    return dict(op=op, a=list(a))
