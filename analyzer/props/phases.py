"""Definitions shared by the checks of phase images (C26, C27, C28)."""
import math

from ..ctx import env_of
from .. import expr as X


def num(e):
    return float(X._r(X.numeric(e)))


def crop_def(rows, cols, part, strict):
    """{(i, j): (radius, angle)} of pixels inside the circle; second result - pixels on the border within rounding."""
    ci, cj = (rows - 1) / 2, (cols - 1) / 2
    lo, hi = min(rows, cols), max(rows, cols)
    r = ((hi if hi - lo < 2 else lo) - 1) / 2
    eps = 0.055 if not strict and (rows % 2 == cols % 2 == 0 or abs(rows - cols) == 1) else 0.001
    inside, border = {}, set()
    for i in range(rows):
        for j in range(cols):
            d = math.hypot(i - ci, j - cj) / r
            t = math.atan2(ci - i, j - cj) % (2 * math.pi)
            if abs(d - part - eps) < 1.1e-4:
                border.add((i, j))
            elif d - part < eps:
                inside[i, j] = (d, t)
    mx = max((q[0] for q in inside.values()), default=0)
    if mx > 1:      # radii of not strict border are scaled into the unit circle
        inside = {k: (d / mx, t) for k, (d, t) in inside.items()}
    return inside, border


def image_pixel(i, j, w, h):
    """(radius, angle) or None outside of the circle of a generated image."""
    ci, cj = h // 2, w // 2
    rad = 1 + min(w, h) // 2
    d2 = (i - ci)**2 + (j - cj)**2
    if d2 > rad * rad:
        return None
    return math.sqrt(d2) / rad, math.atan2(ci - i, j - cj) % (2 * math.pi)
