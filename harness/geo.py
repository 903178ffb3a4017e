"""Numerical side of the oracle: positions on the sphere, data on tie points, application of the
combinations that the specifications give, and comparison of positions in metres."""
import numpy as np

R = 6370997.0
from core import Mismatch  # noqa: E402


def to_xyz(lon, lat):
    lon, lat = np.deg2rad(np.asarray(lon, "f8")), np.deg2rad(np.asarray(lat, "f8"))
    return np.stack([np.cos(lat) * np.cos(lon), np.cos(lat) * np.sin(lon), np.sin(lat)], -1)


def to_lonlat(xyz, thr=0.8):
    """Longitude and latitude of interpolated positions, in radii (not renormalised: the documented formula)."""
    x, y, z = np.moveaxis(xyz, -1, 0)
    lon = np.rad2deg(np.arctan2(y, x))
    with np.errstate(invalid="ignore"):
        low = 90 - np.rad2deg(np.arccos(z))
        r = np.sqrt(x * x + y * y)
        high = np.sign(z) * (90 - np.rad2deg(np.arcsin(np.where(np.abs(r - 1) < 1e-7, np.minimum(r, 1), r))))
    return lon, low, high, np.abs(z), thr


def distance(lon1, lat1, lon2, lat2):
    """Distance in metres."""
    return R * np.sqrt(((to_xyz(lon1, lat1) - to_xyz(lon2, lat2)) ** 2).sum(-1))


def matrix(table, num):
    """Matrix of a table of <<cell, numerator, denominator>> rows (linear between cell and cell + 1)."""
    m = np.zeros((len(table), num))
    for i, (cell, n, d) in enumerate(table):
        m[i, cell] += 1 - n / d
        if n:
            m[i, cell + 1] += n / d
    return m


def comb_matrix(rows, num):
    """Matrix of a list of combinations [[index, num, den], ...]."""
    m = np.zeros((len(rows), num))
    for i, comb in enumerate(rows):
        for idx, n, d in comb:
            m[i, idx] += n / d
    return m


def check_shape(got, shape, what):
    if not hasattr(got, "shape") or tuple(got.shape) != tuple(shape):
        raise Mismatch("%s has shape %s instead of %s" % (what, getattr(got, "shape", type(got)), tuple(shape)))


def where_worst(err):
    idx = np.unravel_index(int(np.nanargmax(np.where(np.isnan(err), np.inf, err))), err.shape)
    return tuple(int(i) for i in idx)


def check_valid(lon, lat, what="result"):
    lon, lat = np.asarray(lon), np.asarray(lat)
    bad = ~(np.isfinite(lon) & np.isfinite(lat))
    if bad.any():
        raise Mismatch("%s: %d non finite positions, first at %s" % (what, bad.sum(), tuple(int(i) for i in np.argwhere(bad)[0])))
    eps = 1e-4 if lon.dtype == np.float32 else 1e-9
    if np.abs(lon).max() > 180 + eps or np.abs(lat).max() > 90 + eps:
        raise Mismatch("%s: longitudes or latitudes out of range (%r, %r)" % (what, np.abs(lon).max(), np.abs(lat).max()))


def check_positions(got, xyz, tol, what="result", thr=0.8, band=1e-6, valid=True):
    """Compare (lon, lat) with the expected interpolated cartesian positions (in radii)."""
    lon, lat = got
    check_shape(lon, xyz.shape[:-1], what + " longitudes")
    check_shape(lat, xyz.shape[:-1], what + " latitudes")
    lon, lat = np.asarray(lon), np.asarray(lat)
    if valid:
        check_valid(lon, lat, what)
    elon, low, high, az, thr = to_lonlat(xyz, thr)
    elat = np.where(az < thr, low, high)
    err = distance(lon, lat, elon, elat)
    near = np.abs(az - thr) < band
    if near.any():
        other = np.where(az < thr, high, low)
        err = np.where(near, np.fmin(err, distance(lon, lat, elon, other)), err)
    worst = where_worst(err)
    if not err[worst] <= tol:
        raise Mismatch("%s: %.3f m off at %s (tolerance %g): got (%.8f, %.8f), expected (%.8f, %.8f)" % (
            what, err[worst], worst, tol, lon[worst], lat[worst], elon[worst], elat[worst]))
    return float(err[worst])


def check_close(got, want, tol, what="result"):
    check_shape(got, np.shape(want), what)
    got = np.asarray(got, "f8")
    want = np.asarray(want, "f8")
    if not np.array_equal(np.isnan(got), np.isnan(want)):
        bad = np.isnan(got) != np.isnan(want)
        raise Mismatch("%s: missing values differ at %s" % (what, tuple(int(i) for i in np.argwhere(bad)[0])))
    err = np.abs(got - want)
    if err.size and np.nanmax(np.where(np.isnan(err), 0, err)) > tol:
        w = where_worst(np.where(np.isnan(err), 0, err))
        raise Mismatch("%s: got %r instead of %r at %s (tolerance %g)" % (what, float(got[w]), float(want[w]), w, tol))


def check_same(got, want, what="result"):
    """Bitwise equality (NaNs equal)."""
    check_shape(got, np.shape(want), what)
    got, want = np.asarray(got), np.asarray(want)
    if got.dtype != want.dtype:
        raise Mismatch("%s: dtype %s instead of %s" % (what, got.dtype, want.dtype))
    same = (got == want) | ((got != got) & (want != want))
    if not same.all():
        w = tuple(int(i) for i in np.argwhere(~same)[0])
        raise Mismatch("%s: %d values differ, first at %s: %r instead of %r" % (what, (~same).sum(), w, got[w], want[w]))


# -- tie point data ---------------------------------------------------------
PLACES = {
    "europe": (15.0, 45.0), "pacific": (-140.0, -20.0), "greenwich": (0.0, 30.0), "gulf": (0.0, 0.0),
    "antimeridian": (180.0, 10.0), "antimeridian-s": (-179.5, -40.0), "npole": (30.0, 89.7), "spole": (-70.0, -89.8),
    "npole-exact": (0.0, 90.0), "spole-exact": (0.0, -90.0), "switch-n": (70.0, 53.13), "switch-s": (-100.0, -53.13),
    "switch-am": (180.0, 53.13), "equator": (100.0, 0.0), "west": (-90.0, 15.0),
}


def tangent(lon, lat, heading):
    p = to_xyz(lon, lat)
    lo, la = np.deg2rad(lon), np.deg2rad(lat)
    east = np.array([-np.sin(lo), np.cos(lo), 0.0])
    north = np.array([-np.sin(la) * np.cos(lo), -np.sin(la) * np.sin(lo), np.cos(la)])
    h = np.deg2rad(heading)
    return p, np.cos(h) * east + np.sin(h) * north, -np.sin(h) * east + np.cos(h) * north


def patch(rng, rows, cols, place, step_row=1.0, step_col=1.0, noise=0.0, rps=None, gap=0.0, heading=None):
    """A patch of tie points (lon, lat) in float64 with steps in km, with a tie point exactly at the place.

    *noise* (km) makes neighbouring cells different, *gap* (km) makes each scan of *rps* lines
    start with a jump, so that mixing scans or cells is visible."""
    lon, lat = PLACES[place] if isinstance(place, str) else place
    if heading is None:
        heading = rng.uniform(0, 360)
    p, e1, e2 = tangent(lon, lat, heading)
    a = (np.arange(cols) - cols // 2)[np.newaxis, :] * step_col * np.ones((rows, 1))
    b = (np.arange(rows) - rows // 2)[:, np.newaxis] * step_row * np.ones((1, cols))
    if rps:
        scan = np.arange(rows) // rps
        jumps = rng.uniform(-gap, gap, size=(scan[-1] + 1, 2))
        a = a + jumps[scan, 0][:, np.newaxis]
        b = b + jumps[scan, 1][:, np.newaxis]
    if noise:
        a = a + rng.uniform(-noise, noise, a.shape)
        b = b + rng.uniform(-noise, noise, b.shape)
    centre = rows // 2, cols // 2
    a, b = a - a[centre], b - b[centre]
    vec = p + (a / 6371.0)[..., np.newaxis] * e1 + (b / 6371.0)[..., np.newaxis] * e2
    vec /= np.sqrt((vec ** 2).sum(-1, keepdims=True))
    lon = np.rad2deg(np.arctan2(vec[..., 1], vec[..., 0]))
    lat = np.rad2deg(np.arctan2(vec[..., 2], np.hypot(vec[..., 0], vec[..., 1])))
    lon[centre], lat[centre] = PLACES[place] if isinstance(place, str) else place
    return lon, lat


def with_structure(rng, a, prob=0.4):
    """Data as they may be in real files: the same values again in places, lines or columns."""
    if rng.random() > prob:
        return a
    a = a.copy()
    value = [0, 0, a.flat[0], 1][int(rng.integers(4))]
    along = a if rng.random() < 0.5 else np.moveaxis(a, -1, 0)
    pick = rng.random(len(along)) < rng.choice([0.3, 0.7])
    style = int(rng.integers(9))
    if style == 0:      # constant borders
        along[0] = along[-1] = value
    elif style == 1:
        for axis in range(a.ndim):
            view = np.moveaxis(a, axis, 0)
            view[0] = view[-1] = value
    elif style == 2:    # constant lines
        along[pick] = value
    elif style == 3:    # lines like the line before, or like each other
        for i in np.flatnonzero(pick[1:]) + 1:
            along[i] = along[i - 1]
    elif style == 4:    # only one thing varies
        along[:] = along[:1].copy()
    elif style == 5:
        a[:] = value
    elif style == 6:    # gaps
        a[rng.random(a.shape) < rng.choice([0.1, 0.9])] = value
    elif style == 7:    # symmetric
        along[len(along) - len(along) // 2:] = along[:len(along) // 2][::-1].copy()
    else:               # few different values
        a[:] = rng.choice(a.flat[:3], a.shape)
    return a


def some_size(rng, low, high):
    """A number that is often one where counters, blocks or types change."""
    special = [n + d for k in range(1, 31) for n in (2 ** k, 10 ** k) for d in (-1, 0, 1) if low <= n + d <= high]
    return int(special[int(rng.integers(len(special)))] if special and rng.random() < 0.7 else rng.integers(low, high + 1))
