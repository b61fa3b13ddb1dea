"""Double precision reference of the iALS objective and its row-wise solves."""
import numpy as np


class Rhs(np.ndarray):
    """Right-hand side that remembers the size of the terms summed up in it."""
    mag = 0.0

    def __array_finalize__(self, o):
        self.mag = getattr(o, "mag", 0.0)


class Problem:
    """X: dense scaled confidences (n, m), 0 = unobserved."""

    def __init__(self, X, alpha0, reg, nu, loss, features=(None, None), lambdas=(0.0, 0.0)):
        self.X = np.asarray(X, dtype=np.float64)
        self.alpha0, self.reg, self.nu = float(np.float32(alpha0)), float(np.float32(reg)), float(np.float32(nu))
        self.bias = self.alpha0 if loss == "ORIGINAL" else 0.0
        self.features, self.lambdas = features, lambdas

    def side(self, side):
        return self.X if side == 0 else self.X.T

    def row_reg(self, D):
        """Regularisation of each row of D."""
        return self.reg * (self.alpha0 * D.shape[1] + (D != 0).sum(1)) ** self.nu

    def system(self, x, V):
        """A, b of one row x against the other side's factors V (no prior)."""
        obs = x != 0
        W = V[obs]
        r = self.reg * (self.alpha0 * len(V) + obs.sum()) ** self.nu
        A = self.alpha0 * V.T @ V + (W * x[obs, None]).T @ W + r * np.eye(V.shape[1])
        b = ((x[obs] + self.bias) @ W).view(Rhs)
        b.mag = float(np.linalg.norm((x[obs] + self.bias) @ np.abs(W)))
        return A, b, r

    def loss(self, U, V, Wu=None, Wi=None):
        P = U @ V.T
        obs = self.X != 0
        L = self.alpha0 * (P ** 2).sum()
        x, p = self.X[obs], P[obs]
        L += (x * p * p - 2 * (x + self.bias) * p + x + self.bias).sum()
        size = self.alpha0 * (P ** 2).sum() + (x * p * p + 2 * (x + self.bias) * np.abs(p) + x + self.bias).sum()
        for s, (F, W, Z) in enumerate(zip(self.features, (Wu, Wi), (U, V))):
            r = self.row_reg(self.side(s))
            if F is not None and W is not None and W.size:
                t = (r * ((Z - F @ W) ** 2).sum(1)).sum() + self.lambdas[s] * (W ** 2).sum()
            else:
                t = (r * (Z ** 2).sum(1)).sum()
            L += t
            size += t
        return L / 2, size / 2


def phi(A, b, u):
    return 0.5 * u @ A @ u - b @ u


def cg(A, b, u, steps):
    """Conjugate gradient iterate after the given number of steps."""
    u = u.copy()
    r = b - A @ u
    p = r.copy()
    for _ in range(steps):
        r2 = r @ r
        if r2 <= 1e-20:
            break
        Ap = A @ p
        a = r2 / (p @ Ap)
        u += a * p
        r -= a * Ap
        p = r + (r @ r) / r2 * p
    return u


def block_sweep(A, b, u, d, reverse=False):
    """One sweep of exact minimisation over consecutive blocks of d coordinates."""
    u = u.copy()
    starts = list(range(0, len(u), d))
    for s in reversed(starts) if reverse else starts:
        k = slice(s, min(s + d, len(u)))
        u[k] -= np.linalg.solve(A[k, k], A[k] @ u - b[k])
    return u


def backward_error(A, b, u):
    # terms that cancel in b are summed in single precision
    den = np.linalg.norm(A, 2) * np.linalg.norm(u) + np.linalg.norm(b) + 0.02 * getattr(b, "mag", 0.0)
    r = np.linalg.norm(A @ u - b)
    if r <= 1e-12 * np.linalg.norm(A, 2):   # a collapsed model, all zero up to single precision
        return 0.0
    return r / den if den > 0 else np.linalg.norm(u)


def ridge(F, Z, w, lam):
    """argmin_W  sum_r w_r |z_r - f_r W|^2 + lam |W|^2."""
    G = (F * w[:, None]).T @ F + lam * np.eye(F.shape[1])
    return G, (F * w[:, None]).T @ Z
