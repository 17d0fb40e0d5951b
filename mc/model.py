"""Reference models shared by several properties. Nothing in here calls into pvgridder."""

from __future__ import annotations

import numpy as np


def perc(resolution, method=None):
    """Relative positions of subdivision nodes."""
    if resolution is None:
        resolution = 1

    if isinstance(resolution, int):
        n = max(1, resolution)
        k = np.arange(n + 1) / n

        if method in (None, "constant"):
            return k

        r = np.log10(1.0 + 9.0 * k)

        return r if method == "log_r" else (1.0 - r)[::-1]

    return np.sort(np.asarray(resolution, dtype=float))


def on_segment(points, a, b, tol=1e-5):
    """Sorted distinct parameters of the points lying on segment [a, b]."""
    p, a, b = np.asarray(points, float), np.asarray(a, float), np.asarray(b, float)
    u = b - a
    L = np.linalg.norm(u)
    t = (p - a) @ u / L**2
    d = np.linalg.norm(p - a - t[:, None] * u, axis=1)
    t = np.sort(t[(d <= tol * max(1.0, L)) & (t >= -1e-5) & (t <= 1.0 + 1e-5)])

    return t[np.insert(np.diff(t) > 1e-5, 0, True)] if t.size else t


def on_arc(points, radius, th0, th1, center=(0.0, 0.0, 0.0)):
    """Sorted distinct relative angles of the points at distance *radius* of the center."""
    p = np.asarray(points, float) - np.asarray(center, float)
    r = np.linalg.norm(p[:, :2], axis=1)
    q = p[np.abs(r - radius) <= 1e-5 * max(1.0, radius)]
    th = np.rad2deg(np.arctan2(q[:, 1], q[:, 0]))
    lo, hi = min(th0, th1), max(th0, th1)
    out = []

    for x in th:
        for s in (-360.0, 0.0, 360.0):
            if lo - 1e-3 <= x + s <= hi + 1e-3:
                out.append((x + s - th0) / (th1 - th0))

    t = np.sort(out)

    return t[np.insert(np.diff(t) > 1e-5, 0, True)] if t.size else t


METHODS = (None, "constant", "log", "log_r")
