"""Uniform access to the four kriging classes."""
import numpy as np


def classes():
    from pykrige.ok import OrdinaryKriging
    from pykrige.ok3d import OrdinaryKriging3D
    from pykrige.uk import UniversalKriging
    from pykrige.uk3d import UniversalKriging3D

    return dict(ok=OrdinaryKriging, uk=UniversalKriging, ok3=OrdinaryKriging3D, uk3=UniversalKriging3D)


def dim_of(cls):
    return 3 if cls.endswith("3") else 2


def aniso_kwargs(dim, scaling=None, angles=None):
    kw = {}
    if dim == 2:
        if scaling is not None:
            kw["anisotropy_scaling"] = scaling[0]
        if angles is not None:
            kw["anisotropy_angle"] = angles[0]
    else:
        if scaling is not None:
            kw["anisotropy_scaling_y"], kw["anisotropy_scaling_z"] = scaling
        if angles is not None:
            kw["anisotropy_angle_x"], kw["anisotropy_angle_y"], kw["anisotropy_angle_z"] = angles
    return kw


def make(cls, X, Z, model="linear", params=None, scaling=None, angles=None, **kw):
    X = np.asarray(X)
    args = [X[:, k].copy() for k in range(X.shape[1])]
    kw = dict(kw)
    kw.update(aniso_kwargs(X.shape[1], scaling, angles))
    if params is not None:
        kw["variogram_parameters"] = params
    return classes()[cls](*args, np.array(Z), variogram_model=model, **kw)


def run_points(k, P, **kw):
    P = np.atleast_2d(P)
    return k.execute("points", *[P[:, i].copy() for i in range(P.shape[1])], **kw)


def grid_points(axes):
    """Targets of a grid request in the documented order: rows are y (planes z)."""
    axes = [np.atleast_1d(np.asarray(a, dtype=float)) for a in axes]
    if len(axes) == 2:
        x, y = axes
        P = np.array([[a, b] for b in y for a in x])
        return P.reshape(-1, 2), (len(y), len(x))
    x, y, z = axes
    P = np.array([[a, b, c] for c in z for b in y for a in x])
    return P.reshape(-1, 3), (len(z), len(y), len(x))
