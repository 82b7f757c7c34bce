"""A stand-in for the optional third-party package `rbf` (not installed here): Gaussian radial functions with
derivatives and RBF-FD weights, enough to drive the library's 'gauss' and 'rbffd' discretisations."""
import sys, types
import numpy as np


def _herm(n, t):
    """d^n/dt^n exp(-t^2) / exp(-t^2)"""
    a, b = np.ones_like(t), -2 * t
    if n == 0:
        return a
    for k in range(1, n):
        a, b = b, -2 * t * b - 2 * k * a
    return b


class _Gaussian:
    def __call__(self, x, c, eps=1.0, diff=None):
        x, c = np.asarray(x, dtype=float), np.asarray(c, dtype=float)
        diff = (0,) * x.shape[1] if diff is None else diff
        out = np.ones((len(x), len(c)))
        for k, n in enumerate(diff):
            t = eps * (x[:, None, k] - c[None, :, k])
            out = out * eps ** int(n) * _herm(int(n), t) * np.exp(-t ** 2)
        return out


def _get_rbf(name):
    return _Gaussian()


def _weight_matrix(x, p, n, diffs, coeffs=None, phi="ga", order=None, eps=1.0, **kw):
    from scipy.sparse import csr_matrix
    f = _Gaussian()
    x, p = np.atleast_2d(np.asarray(x, dtype=float)), np.asarray(p, dtype=float)
    coeffs = np.ones(len(diffs)) if coeffs is None else coeffs
    A = f(p, p, .9)
    d = sum(c * f(x, p, .9, df) for c, df in zip(coeffs, diffs))
    return csr_matrix(np.linalg.solve(A.T, d.T).T)


def install():
    try:
        import rbf  # noqa: the real one
        return
    except ImportError:
        pass
    m = {n: types.ModuleType(n) for n in ("rbf", "rbf.pde", "rbf.pde.fd", "rbf.basis")}
    m["rbf.pde.fd"].weight_matrix = _weight_matrix
    m["rbf.basis"].set_symbolic_to_numeric_method = lambda *_: None
    m["rbf.basis"].get_rbf = _get_rbf
    m["rbf"].pde, m["rbf"].basis, m["rbf.pde"].fd = m["rbf.pde"], m["rbf.basis"], m["rbf.pde.fd"]
    sys.modules.update(m)
