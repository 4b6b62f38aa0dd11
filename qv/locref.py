"""Reference statistics of a 3-D coalescence map, written from their definitions."""
import numpy as np


def smooth(m, sigma=0.8):
    """Zero-padded Gaussian smoothing applied twice (once in each direction), peak-normalised each time."""
    def kernel(n):
        # weight of input j in output i: Gaussian of their distance (half a node off for even n), limited to the map's size
        i, j = np.mgrid[0:n, 0:n]
        lag = i - j + (n - 1) // 2
        return np.where((lag >= 0) & (lag < n), np.exp(-0.5 * ((lag - (n - 1) / 2) / sigma) ** 2), 0.0)
    K = [kernel(n) for n in m.shape]
    a = np.einsum("ai,bj,ck,ijk->abc", *K, m, optimize=True)
    # the second pass runs over the mirrored map
    a = a[::-1, ::-1, ::-1] / a.max()
    b = np.einsum("ai,bj,ck,ijk->abc", *K, a, optimize=True)
    return b[::-1, ::-1, ::-1] / b.max()


def gaussian_fit(s, half=3):
    """Least-squares fit of a Gaussian to the positive part of (s - mean) around the peak of s.

    Returns location (grid index units), one-sigma half-widths along the axes of the fitted
    ellipsoid's marginals / 2, conditioning."""
    pk = np.array(np.unravel_index(np.argmax(s), s.shape))
    lo, hi = np.maximum(pk - half, 0), np.minimum(pk + half + 1, s.shape)
    idx = np.stack(np.meshgrid(*[np.arange(a, b) for a, b in zip(lo, hi)], indexing="ij"), -1).reshape(-1, 3)
    v = s[tuple(idx.T)]
    keep = v > 0
    idx, v = idx[keep], v[keep]
    y = -np.log(np.maximum(v - s.mean(), 1e-300))
    x = (idx - pk).astype(float)
    A = np.column_stack([x[:, 0] ** 2, x[:, 1] ** 2, x[:, 2] ** 2, x[:, 0] * x[:, 1], x[:, 0] * x[:, 2], x[:, 1] * x[:, 2], x, np.ones(len(x))])
    p = np.linalg.lstsq(A, y, rcond=None)[0]
    M = np.array([[p[0], p[3] / 2, p[4] / 2], [p[3] / 2, p[1], p[5] / 2], [p[4] / 2, p[5] / 2, p[2]]])
    loc = pk + np.linalg.solve(-2 * M, p[6:9])
    w, V = np.linalg.eigh(M)
    var = 0.5 / np.clip(np.abs(w), 1e-10, None)
    err = np.sqrt((V ** 2) @ var) / 2
    return loc, err, np.linalg.cond(M), np.linalg.cond(A)


def covariance(m, spacing, thresh=0.9):
    """Expectation (distance from the first node) and standard deviation of the positions of the
    nodes above the threshold, weighted with their values."""
    idx = np.argwhere(m > thresh) * np.asarray(spacing)
    w = m[m > thresh]
    mean = (w[:, None] * idx).sum(0) / w.sum()
    return mean, np.sqrt((w[:, None] * (idx - mean) ** 2).sum(0) / w.sum())


class Cubic:
    """Cubic radial-basis interpolant of the map in the 5x5x5 (clipped) window around its peak."""

    def __init__(self, m, half=2):
        self.pk = np.array(np.unravel_index(np.argmax(m), m.shape))
        self.lo, self.hi = np.maximum(self.pk - half, 0), np.minimum(self.pk + half + 1, m.shape)
        self.pts = np.stack(np.meshgrid(*[np.arange(a, b) for a, b in zip(self.lo, self.hi)], indexing="ij"), -1).reshape(-1, 3).astype(float)
        self.val = m[tuple(self.pts.astype(int).T)]
        self.sizes = self.hi - self.lo
        D = np.linalg.norm(self.pts[:, None] - self.pts[None], axis=-1) ** 3
        self.w = np.linalg.solve(D, self.val)

    def __call__(self, x):
        x = np.atleast_2d(x)
        return np.linalg.norm(x[:, None] - self.pts[None], axis=-1) ** 3 @ self.w

    def best(self, up=10):
        g = np.stack(np.meshgrid(*[np.linspace(a, b - 1, (b - 1 - a) * up + 1) for a, b in zip(self.lo, self.hi)], indexing="ij"), -1).reshape(-1, 3)
        v = np.concatenate([self(c) for c in np.array_split(g, max(1, len(g) // 4000))])
        return g[np.argmax(v)], v.max()
