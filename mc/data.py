"""Named alphabets of data sets, parameters and targets (all deterministic)."""
import numpy as np


def lcg(n, seed):
    """Low-quality but reproducible numbers in (0, 1)."""
    out = np.empty(n)
    s = seed * 2654435761 % 2**32
    for i in range(n):
        s = (1664525 * s + 1013904223) % 2**32
        out[i] = (s + 0.5) / 2**32
    return out


def _rand(n, dim, seed):
    return np.stack([lcg(n + 3, seed + 7 * k)[3:] for k in range(dim)], axis=1)


def coords(name, dim):
    """(n, dim) coordinates."""
    if name == "n2":
        X = np.array([[0.0, 0.0, 0.0], [3.0, 1.0, 2.0]])
    elif name == "n3":
        X = np.array([[0.0, 0.0, 0.5], [3.0, 1.0, 2.0], [1.0, 2.0, 0.0]])
    elif name == "n5":
        X = np.array([[0.0, 1, 3], [4, 0, 1], [1, 3.5, 0], [5, 5, 2], [2.5, 2, 4]])
    elif name in ("n7", "off7", "utm7", "tiny7", "big7", "neg7"):
        X = np.array(
            [[0.3, 1.2, 3.1], [1.9, 0.4, 1.7], [1.1, 3.3, 0.2], [4.7, 4.4, 2.9],
             [3.2, 2.7, 4.8], [5.6, 1.3, 0.9], [2.4, 5.2, 3.6]]
        )
        if name == "off7":
            X = X * 10 + np.array([2000.0, -1500.0, 300.0])
        elif name == "utm7":
            X = X * 120 + np.array([512000.0, 5403000.0, 250.0])
        elif name == "tiny7":
            X = X * 1e-3
        elif name == "big7":
            X = X * 1e3
        elif name == "neg7":
            X = X - np.array([9.0, 12.0, 7.0])
    elif name == "n9":
        X = _rand(9, 3, 11) * np.array([6.0, 4.0, 5.0])
    elif name == "n12":
        X = _rand(12, 3, 5) * np.array([8.0, 3.0, 4.0]) - 1.5
    elif name == "reg9":
        if dim == 2:
            X = np.array([[i, j, 0] for i in range(3) for j in range(3)], float)
        else:
            X = np.array([[i, j, k] for i in range(3) for j in range(3) for k in range(2)], float)[::2]
    elif name == "line5":
        X = np.array([[0.0, 1, 2], [1, 1, 2], [2.5, 1, 2], [4, 1, 2], [7, 1, 2]])
    elif name == "vert5":
        X = np.array([[1, 0.0, 2], [1, 1, 2], [1, 2.5, 2], [1, 4, 2], [1, 7, 2]])
    elif name == "flat30":  # very different extents
        X = _rand(30, 3, 23) * np.array([100.0, 2.0, 10.0])
    elif name in ("close8", "closer8"):  # two points that nearly coincide
        X = coords("n7", 3)
        X = np.concatenate([X, X[2:3] + (1e-3 if name == "close8" else 1e-5)])
    elif name == "dup9":  # exact duplicates
        X = coords("n7", 3)
        X = np.concatenate([X, X[2:3], X[:1]])
    elif name == "n24k":  # irregular, offset of some thousand
        X = _rand(24, 3, 31) * np.array([60.0, 40.0, 50.0]) + np.array([1000.0, 2000.0, -700.0])
    elif name == "n40":
        X = _rand(40, 3, 3) * np.array([9.0, 7.0, 5.0])
    elif name == "n120":
        X = _rand(120, 3, 9) * np.array([20.0, 30.0, 15.0])
    elif name[0] == "k" and name[1:].isdigit():  # any number of points
        from . import sizes

        return sizes.field(int(name[1:]), dim)
    else:
        raise KeyError(name)
    return np.ascontiguousarray(X[:, :dim])


def values(name, n):
    base = np.array([1.3, -0.4, 2.2, 0.9, 3.7, -1.8, 0.1, 2.9, 1.6, -0.7, 0.55, 4.1])
    if n > 12:
        base = np.concatenate([base, 6 * lcg(n - 12, 77) - 2])
    v = base[:n].copy()
    if name == "v":
        return v
    if name == "shift":
        return v + 1000.0
    if name == "small":
        return v * 1e-4
    if name == "large":
        return v * 1e5
    if name == "const":
        return np.full(n, 2.5)
    if name == "zeros":
        v[1::2] = 0.0
        return v
    if name == "neg":
        return -np.abs(v) - 1
    raise KeyError(name)


def span(X):
    return float(np.max(np.ptp(X, axis=0)))


def model_params(model, kind, scale=1.0):
    """(user list, internal parameters) for a data set of extent `scale`.

    The list form carries the full sill."""
    nug = {"nug": 0.3, "nonug": 0.0, "big": 2.0, "small": 0.05, "steep": 0.1, "int": 1.0}[kind]
    if model == "linear":
        s = {"nug": 0.8, "nonug": 1.1, "big": 0.2, "small": 3.0, "steep": 10.0, "int": 2.0}[kind]
        if kind == "int":
            return [2, 1], [2.0, 1.0]
        return [s / scale, nug], [s / scale, nug]
    if model == "power":
        e = {"nug": 1.3, "nonug": 0.6, "big": 1.7, "small": 0.25, "steep": 1.5, "int": 1.0}[kind]
        s = {"nug": 0.8, "nonug": 1.1, "big": 0.2, "small": 3.0, "steep": 10.0, "int": 2.0}[kind]
        if kind == "int":
            return [2, 1, 1], [2.0, 1.0, 1.0]
        return [s / scale**e, e, nug], [s / scale**e, e, nug]
    p = {"nug": 1.7, "nonug": 2.3, "big": 0.6, "small": 4.0, "steep": 9.0, "int": 2.0}[kind]
    r = {"nug": 0.7, "nonug": 0.5, "big": 1.9, "small": 0.12, "steep": 0.3, "int": 1.0}[kind] * scale
    if kind == "int":
        return [3, int(max(1, round(scale * 0.6))), 1], [2.0, float(int(max(1, round(scale * 0.6)))), 1.0]
    return [p + nug, r, nug], [p, r, nug]


def targets(X, name):
    """(m, dim) targets relative to the data."""
    lo, hi = X.min(axis=0), X.max(axis=0)
    w = np.maximum(hi - lo, 1e-3 * span(X))
    dim = X.shape[1]
    n = X.shape[0]
    if name == "mid":
        f = _rand(5, dim, 41)
        return lo + f * w
    if name == "one":
        return (lo + 0.37 * w)[None, :]
    if name == "far":
        return np.array([lo - 3 * w, hi + 0.5 * w, lo + np.eye(dim)[0] * w * 8])
    if name == "data":
        return X[: min(n, 6)].copy()
    if name == "mixed":
        f = _rand(4, dim, 53)
        P = lo + f * w
        return np.concatenate([X[n - 1 :], P[:2], X[:1], P[2:], P[:1]])
    if name == "near":
        # close to data points but clearly apart from them
        e = np.zeros(dim)
        e[0] = 1e-5
        e[-1] = -2e-5
        return X[: min(n, 4)] + e * span(X)
    if name == "hair":
        # a hair's breadth away from data points (near-coincidence is 1e-10)
        out = []
        for i, d in enumerate([4e-10, 2e-9, 9e-9, 5e-8, 1e-6][:n]):
            p = X[i].copy()
            p[i % dim] += d if i % 2 else -d
            out.append(p)
        return np.array(out)
    if name == "many":
        f = _rand(1100, dim, 61)
        P = lo - 0.1 * w + 1.2 * f * w
        P[17] = X[0]
        P[1099] = X[-1]
        P[512] = X[1]
        return P
    if name == "dups":
        f = _rand(2, dim, 71)
        P = lo + f * w
        return np.concatenate([P, P, X[:1], X[:1], P[::-1]])
    raise KeyError(name)


SCAL = {"iso": None, "s3": 3.0, "s0.4": 0.4}
