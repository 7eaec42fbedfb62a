"""Model of small one-dimensional tensors, in the analysed language (used where strengths are computed with torch); everything else of torch stays unknown."""

double = "double"
pi = 3.141592653589793
float64 = "double"


class Tensor:
    def __init__(self, d):
        self.d = d

    def __len__(self):
        return len(self.d)

    def __iter__(self):
        return iter(self.d)

    def __getitem__(self, i):
        if isinstance(i, tuple):
            return self.d[i[0]][i[1]]
        return self.d[i]

    def __setitem__(self, i, v):
        if isinstance(i, tuple):
            self.d[i[0]][i[1]] = v
        elif isinstance(i, Tensor):
            self.d = [v if b else x for b, x in zip(i.d, self.d)]
        else:
            self.d[i] = v

    def __eq__(self, o):
        return Tensor([x == o for x in self.d])

    def sum(self, axis=None):
        if axis == 0:
            return Tensor([sum([r[k] for r in self.d]) for k in range(len(self.d[0]))])
        if len(self.d) > 0 and isinstance(self.d[0], list):
            return sum([sum(r) for r in self.d])
        return sum(self.d)

    def prod(self):
        p = 1
        for x in self.d:
            p = p * x
        return p

    def tolist(self):
        return self.d

    def __add__(self, o):
        return Tensor([x + y for x, y in zip(self.d, o.d)]) if isinstance(o, Tensor) else Tensor([x + o for x in self.d])

    def __radd__(self, o):
        return Tensor([o + x for x in self.d])

    def __sub__(self, o):
        return Tensor([x - y for x, y in zip(self.d, o.d)]) if isinstance(o, Tensor) else Tensor([x - o for x in self.d])

    def __rsub__(self, o):
        return Tensor([o - x for x in self.d])

    def __neg__(self):
        return Tensor([-x for x in self.d])

    def __mul__(self, o):
        return Tensor([x * y for x, y in zip(self.d, o.d)]) if isinstance(o, Tensor) else Tensor([x * o for x in self.d])

    def __rmul__(self, o):
        return Tensor([o * x for x in self.d])

    def __truediv__(self, o):
        return Tensor([x / y for x, y in zip(self.d, o.d)]) if isinstance(o, Tensor) else Tensor([x / o for x in self.d])

    def __rtruediv__(self, o):
        return Tensor([o / x for x in self.d])

    def __pow__(self, k):
        return Tensor([x**k for x in self.d])

    def pow(self, k):
        return Tensor([x**k for x in self.d])

    def reciprocal(self):
        return Tensor([1.0 / x for x in self.d])


def tensor(x, dtype=None, requires_grad=False, device=None):
    if not isinstance(x, (list, tuple, Tensor)):
        return x
    return Tensor([v if isinstance(v, bool) else float(v) for v in x])


def as_tensor(x, dtype=None):
    return tensor(x)


def ones(n, dtype=None):
    return Tensor([1.0 for _ in range(n)])


def pow(x, k):
    return Tensor([v**k for v in x.d])


def rand(*shape, dtype=None):
    """some fixed generic numbers in (0, 1)"""
    n = shape[0]
    return Tensor([(0.123456 + 0.381966 * k) % 1.0 for k in range(n)])


def zeros(*shape, dtype=None):
    n = shape[0]
    if len(shape) == 1:
        return Tensor([0.0 for _ in range(n)])
    return Tensor([[0.0 for _ in range(shape[1])] for _ in range(n)])


def get_default_dtype():
    return "double"


class linalg:
    @staticmethod
    def solve(a, b):
        return Tensor(_solve([[x for x in r] for r in a.d], [x for x in b.d]))


def _solve(m, v):
    n = len(v)
    for c in range(n):
        p = c
        for r in range(c + 1, n):
            if abs(m[r][c]) > abs(m[p][c]):
                p = r
        if p != c:
            x = m[c]
            m[c] = m[p]
            m[p] = x
            y = v[c]
            v[c] = v[p]
            v[p] = y
        if abs(m[c][c]) < 1e-12:
            raise RuntimeError("singular")
        for r in range(n):
            if r != c and m[r][c] != 0:
                f = m[r][c] / m[c][c]
                m[r] = [s - f * t for s, t in zip(m[r], m[c])]
                v[r] = v[r] - f * v[c]
    return [v[i] / m[i][i] for i in range(n)]
