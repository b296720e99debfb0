"""Reference model of kriging, written from the documentation.

Small, boring and independent of the library: explicit formulas, extended
precision, no shortcuts.  ``Model.predict`` returns estimates, variances and
tolerances derived from the condition of the system.
"""
import numpy as np

LD = np.longdouble
EPS = np.finfo(float).eps
COINCIDE = 1e-10  # documented cut-off for coinciding points


# ------------------------------------------------------------ variograms
def vario(name, p, d):
    """p in internal form: linear (slope, nugget), power (scale, exponent,
    nugget), otherwise (psill, range, nugget)."""
    d = np.asarray(d, dtype=LD)
    if callable(name):
        return np.asarray(name(p, np.asarray(d, dtype=float)), dtype=LD)
    p = [LD(v) for v in p]
    if name == "linear":
        return p[0] * d + p[1]
    if name == "power":
        return p[0] * d ** p[1] + p[2]
    s, r, n = p
    if name == "gaussian":
        return s * (1 - np.exp(-((d / (r * LD(4) / LD(7))) ** 2))) + n
    if name == "exponential":
        return s * (1 - np.exp(-3 * d / r)) + n
    if name == "spherical":
        h = d / r
        return np.where(h <= 1, s * (LD(3) / 2 * h - h**3 / 2) + n, s + n)
    if name == "hole-effect":
        h = 3 * d / r
        return s * (1 - (1 - h) * np.exp(-h)) + n
    raise KeyError(name)


MODELS = ("linear", "power", "gaussian", "spherical", "exponential", "hole-effect")


# ------------------------------------------------------------ geometry
def rotation(angles, dim):
    """Rotation by minus the given angles (degrees), about x, then y, then z."""
    a = [-LD(v) * LD(np.pi) / 180 if False else -np.deg2rad(LD(v)) for v in angles]
    if dim == 2:
        c, s = np.cos(a[0]), np.sin(a[0])
        return np.array([[c, -s], [s, c]], dtype=LD)
    (cx, cy, cz), (sx, sy, sz) = np.cos(a), np.sin(a)
    rx = np.array([[1, 0, 0], [0, cx, -sx], [0, sx, cx]], dtype=LD)
    ry = np.array([[cy, 0, sy], [0, 1, 0], [-sy, 0, cy]], dtype=LD)
    rz = np.array([[cz, -sz, 0], [sz, cz, 0], [0, 0, 1]], dtype=LD)
    return rz @ ry @ rx


def adjust(X, center, scaling, angles):
    """Coordinates in the isotropic frame."""
    X = np.asarray(X, dtype=LD)
    dim = X.shape[1]
    R = rotation(angles, dim)
    S = np.array([1.0] + list(scaling), dtype=LD)
    out = np.empty_like(X)
    for i in range(X.shape[0]):
        v = X[i] - center
        w = np.array([np.sum(R[k] * v) for k in range(dim)], dtype=LD)
        out[i] = w * S + center
    return out


def center_of(X):
    X = np.asarray(X, dtype=LD)
    return (X.max(axis=0) + X.min(axis=0)) / 2


def euclid(A, B):
    A = np.asarray(A, dtype=LD)
    B = np.asarray(B, dtype=LD)
    d2 = np.zeros((A.shape[0], B.shape[0]), dtype=LD)
    for k in range(A.shape[1]):
        d2 += (A[:, k][:, None] - B[:, k][None, :]) ** 2
    return np.sqrt(d2)


def unit(lonlat):
    L = np.deg2rad(np.asarray(lonlat, dtype=LD))
    lon, lat = L[:, 0], L[:, 1]
    return np.stack([np.cos(lon) * np.cos(lat), np.sin(lon) * np.cos(lat), np.sin(lat)], axis=1)


def sphere(A, B):
    """Angle between unit vectors in degrees (2 atan2(|u-v|, |u+v|))."""
    u, v = unit(A), unit(B)
    m = np.sqrt(np.sum((u[:, None, :] - v[None, :, :]) ** 2, axis=2))
    p = np.sqrt(np.sum((u[:, None, :] + v[None, :, :]) ** 2, axis=2))
    return np.rad2deg(2 * np.arctan2(m, p))


# ------------------------------------------------------------ linear algebra
def solve(A, B):
    """Gaussian elimination with partial pivoting and row scaling in extended
    precision (float64 LU with refinement for large systems)."""
    A = np.array(A, dtype=LD)
    B = np.array(B, dtype=LD)
    n = A.shape[0]
    s = np.abs(A).max(axis=1)
    s[s == 0] = 1
    A /= s[:, None]
    B /= s[:, None]
    if n > 45:
        import scipy.linalg as sl

        lu = sl.lu_factor(A.astype(float))
        X = sl.lu_solve(lu, B.astype(float)).astype(LD)
        for _ in range(4):
            R = B - A @ X
            X = X + sl.lu_solve(lu, R.astype(float))
        return X
    for k in range(n):
        p = k + int(np.argmax(np.abs(A[k:, k])))
        if A[p, k] == 0:
            raise np.linalg.LinAlgError("singular")
        if p != k:
            A[[k, p]] = A[[p, k]]
            B[[k, p]] = B[[p, k]]
        f = A[k + 1 :, k] / A[k, k]
        A[k + 1 :, k:] -= f[:, None] * A[k, k:]
        B[k + 1 :] -= f[:, None] * B[k]
    X = np.zeros_like(B)
    for k in range(n - 1, -1, -1):
        X[k] = (B[k] - A[k, k + 1 :] @ X[k + 1 :]) / A[k, k]
    return X


class Pred:
    """Estimates, variances and their tolerances."""

    def __init__(self, z, ss, tz, tss, cond, w=None):
        self.z, self.ss, self.tz, self.tss, self.cond, self.w = z, ss, tz, tss, cond, w

    @property
    def usable(self):
        return self.cond < 1e11


class Model:
    """Kriging reference.

    coords (n, d), values (n,), vario name or callable, internal parameters,
    scaling (d-1), angles (1 or 3), geographic flag, exact flag, drift: list of
    functions f(orig, adjusted) -> (m,) or pairs of arrays (data, targets).
    """

    def __init__(self, coords, values, model, params, scaling=None, angles=None,
                 geographic=False, exact=True, drifts=(), center=None):
        self.X = np.asarray(coords, dtype=LD)
        self.Z = np.asarray(values, dtype=LD)
        self.dim = self.X.shape[1]
        self.model, self.params = model, params
        self.geo = geographic
        self.exact = exact
        self.drifts = list(drifts)
        self.scaling = [1.0] * (self.dim - 1) if scaling is None else list(scaling)
        self.angles = [0.0] * (1 if self.dim == 2 else 3) if angles is None else list(angles)
        self.center = center_of(self.X) if center is None else center
        self.XA = self.to_iso(self.X)
        self._sys = None

    def to_iso(self, P):
        P = np.asarray(P, dtype=LD)
        return P if self.geo else adjust(P, self.center, self.scaling, self.angles)

    def dist(self, A, B):
        return sphere(A, B) if self.geo else euclid(A, B)

    def gamma(self, d):
        return vario(self.model, self.params, d)

    def drift_data(self, f):
        if isinstance(f, tuple):
            return np.asarray(f[0], dtype=LD)
        return np.asarray(f(self.X, self.XA), dtype=LD)

    def system(self, idx=None):
        n = len(self.Z) if idx is None else len(idx)
        XA = self.XA if idx is None else self.XA[idx]
        p = len(self.drifts)
        A = np.zeros((n + p + 1, n + p + 1), dtype=LD)
        g = self.gamma(self.dist(XA, XA))
        A[:n, :n] = -g
        for i in range(n):
            A[i, i] = 0
        for k, f in enumerate(self.drifts):
            A[:n, n + k] = A[n + k, :n] = self.drift_data(f)
        A[:n, n + p] = A[n + p, :n] = 1
        return A

    def predict(self, P, drift_at=None, k=None):
        """drift_at: list of target values for tuple drifts (by position)."""
        P = np.atleast_2d(np.asarray(P, dtype=LD))
        PA = self.to_iso(P)
        D = self.dist(PA, self.XA)
        if k is not None:
            return self._window(P, PA, D, k)
        return self._solve(P, PA, D, None, drift_at)

    def _window(self, P, PA, D, k):
        out = []
        for i in range(P.shape[0]):
            order = np.argsort(D[i], kind="stable")
            if k < len(order):
                gap = D[i][order[k]] - D[i][order[k - 1]]
                tie = gap <= 1e-9 * (1 + D[i][order[k]])
            else:
                tie = False
            q = self._solve(P[i : i + 1], PA[i : i + 1], D[i : i + 1], np.sort(order[:k]), None)
            if tie:
                q.cond = np.inf
            out.append(q)
        return Pred(
            np.concatenate([q.z for q in out]), np.concatenate([q.ss for q in out]),
            np.concatenate([q.tz for q in out]), np.concatenate([q.tss for q in out]),
            np.array([q.cond for q in out]),
        )

    def _solve(self, P, PA, D, idx, drift_at):
        n = len(self.Z) if idx is None else len(idx)
        Z = self.Z if idx is None else self.Z[idx]
        if idx is not None:
            D = D[:, idx]
        p = len(self.drifts)
        if idx is None:
            if self._sys is None:
                self._sys = self.system()
            A = self._sys
        else:
            A = self.system(idx)
        m = P.shape[0]
        B = np.zeros((n + p + 1, m), dtype=LD)
        g = -self.gamma(D)
        if self.exact:
            g = np.where(D <= COINCIDE, LD(0), g)
        B[:n] = g.T
        for j, f in enumerate(self.drifts):
            if isinstance(f, tuple):
                B[n + j] = np.asarray(drift_at[j], dtype=LD)
            else:
                B[n + j] = np.asarray(f(P, PA), dtype=LD)
        B[n + p] = 1
        # equilibrated condition number
        Ae = np.abs(A).astype(float)
        s = 1 / np.sqrt(np.maximum(Ae.max(axis=1), 1e-300))
        s = s / np.sqrt(np.maximum((Ae * s[:, None] * s[None, :]).max(axis=1), 1e-300))
        cond = float(np.linalg.cond(A.astype(float) * s[:, None] * s[None, :]))
        if not np.isfinite(cond) or cond > 1e15:
            q = np.full(m, np.nan)
            return Pred(q, q, q + np.inf, q + np.inf, np.inf)
        W = solve(A, B)
        z = (W[:n] * Z[:, None]).sum(axis=0)
        ss = -(W * B).sum(axis=0)
        # rounding of coordinates relative to the extent of the data
        span = float(np.max(np.ptp(self.XA, axis=0))) if n > 1 else 1.0
        big = float(max(np.abs(self.XA).max(), np.abs(PA).max(), 1e-300))
        rel = EPS * (1 + (big / span if span > 0 else 0))
        wsum = np.abs(W[:n]).sum(axis=0).astype(float)
        zsc = float(np.abs(Z).max()) * np.maximum(1.0, wsum)
        tz = zsc * (1e-10 + 50 * cond * rel) + 1e-300
        sssc = np.abs(W * B).sum(axis=0).astype(float)
        gsc = float(np.abs(A[:n, :n]).max())
        tss = (sssc + gsc * np.maximum(1.0, wsum)) * (1e-10 + 50 * cond * rel)
        return Pred(z.astype(float), ss.astype(float), tz, tss, cond, W)


# ------------------------------------------------------------ other oracles
def pairs(X, geographic=False):
    D = sphere(X, X) if geographic else euclid(X, X)
    return D


def experimental(XA, Z, nlags, geographic=False):
    """Lags and semivariances, and the pair distances with their bin edges."""
    D = (sphere if geographic else euclid)(XA, XA)
    n = len(Z)
    d, g = [], []
    for i in range(n):
        for j in range(i + 1, n):
            d.append(D[i, j])
            g.append((LD(Z[i]) - LD(Z[j])) ** 2 / 2)
    d, g = np.array(d, dtype=LD), np.array(g, dtype=LD)
    lo, hi = d.min(), d.max()
    w = (hi - lo) / nlags
    lags, sv, edge = [], [], np.inf
    for b in range(nlags):
        a0 = lo + b * w
        a1 = lo + (b + 1) * w
        if b == nlags - 1:
            sel = d >= a0
        else:
            sel = (d >= a0) & (d < a1)
        if b > 0:
            edge = min(edge, float(np.min(np.abs(d - a0))))
        if sel.any():
            lags.append(d[sel].mean())
            sv.append(g[sel].mean())
    return np.array(lags, dtype=float), np.array(sv, dtype=float), edge, float(w)
