"""Model of small dense arrays, in the analysed language (used where coordinates are computed with numpy)."""


class ndarray:
    def __init__(self, d):
        self.d = d

    def __len__(self):
        return len(self.d)

    def __iter__(self):
        return iter([ndarray(x) if isinstance(x, list) else x for x in self.d])

    def __getitem__(self, i):
        if isinstance(i, tuple):
            x = self.d
            for k in i:
                x = x[k]
        else:
            x = self.d[i]
        return ndarray(x) if isinstance(x, list) else x

    def tolist(self):
        return self.d

    def __add__(self, o):
        return ndarray(_zip(self.d, _raw(o), 1))

    def __radd__(self, o):
        return ndarray(_zip(self.d, _raw(o), 1))

    def __sub__(self, o):
        return ndarray(_zip(self.d, _raw(o), -1))

    def __mul__(self, o):
        return ndarray(_times(self.d, o))

    def __rmul__(self, o):
        return ndarray(_times(self.d, o))

    def __truediv__(self, o):
        return ndarray(_times(self.d, 1.0 / o))

    def dot(self, o):
        b = _raw(o)
        return ndarray([sum([x * y for x, y in zip(r, b)]) for r in self.d])

    def __matmul__(self, o):
        return self.dot(o)

    def mean(self, axis=None):
        return mean(self, axis)


def _raw(o):
    return o.d if isinstance(o, ndarray) else list(o) if isinstance(o, tuple) else o


def _zip(a, b, s):
    if not isinstance(a, list):
        return a + s * b
    if not isinstance(b, list):
        return [_zip(x, b, s) for x in a]
    if isinstance(a[0], list) and not isinstance(b[0], list):
        return [_zip(x, b, s) for x in a]
    return [_zip(x, y, s) for x, y in zip(a, b)]


def _times(a, c):
    return [_times(x, c) for x in a] if isinstance(a, list) else a * c


def array(x, dtype=None):
    if isinstance(x, ndarray):
        return ndarray(x.d)
    return ndarray([_raw(y) for y in x])


def asarray(x, dtype=None):
    return array(x)


def mean(a, axis=None):
    d = _raw(a)
    if axis == 0 and isinstance(d[0], list):
        return ndarray([sum([r[j] for r in d]) / len(d) for j in range(len(d[0]))])
    return sum(d) / len(d)


def isclose(a, b, rtol=1e-05, atol=1e-08):
    return abs(a - b) <= atol + rtol * abs(b)


def sqrt(x):
    return x**0.5


def ceil(x):
    n = int(x)
    return float(n + 1) if x > n else float(n)


def round(x):
    # ties to even
    n = int(x + 0.5) if x >= 0 else -int(0.5 - x)
    if abs(x - int(x)) == 0.5 and n % 2 == 1:
        n = n - 1 if x >= 0 else n + 1
    return float(n)


def abs(x):
    return x if x >= 0 else -x


def flip(x):
    return _flip(x)


def _flip(x):
    return None


def zeros(shape, dtype=None):
    return _zeros(shape)


def _zeros(shape):
    return None


def arange(a, b=None, step=1, dtype=None):
    return ndarray(list(range(a, b, step)) if b is not None else list(range(0, a, step)))
