"""C01: TieGrid.tla (TLC: the spline operators of each axis reproduce ties and polynomials, for all small axes) and
replay of operators computed exactly by TLC for random axes on Interpolator and GeoInterpolator."""
import numpy as np

import geo
import tiegrid

ASSUMPTIONS = ["exact operators: order 1 with any number of ties, orders 2 to 5 with up to order + 2 or + 3 ties per "
               "direction; beyond, polynomial data", "values within 1e-8 relative"]
# relative precision; the one dimensional interpolation of short types is done in 32 bits
TYPES = {"f8": 1e-8, "f4": 1e-5, "i4": 1e-8, "i2": 1e-5, "u1": 1e-5}


def cases(ctx):
    futs = tiegrid.model(ctx)
    num = 120 if ctx.quick else 1200
    ctx.axes = [tiegrid.axis(ctx.rng, 1 + i % 5) for i in range(num)]
    ctx.ops = tiegrid.solve(ctx, ctx.axes, "TieGrid operators")
    n = 0
    for rep in range(24 if ctx.quick else 60):
        for i in range(num):
            j = int(ctx.rng.integers(num))
            if ctx.ops[i]["plain"] is None or ctx.ops[j]["plain"] is None:
                continue
            n += 1
            kind = ["plain", "geo", "plain", "object"][n % 4]
            yield dict(kind=kind, row=i, col=j, fields=1 + n % 3, seed=ctx.seed * 100003 + n)
    for rep in range(150 if ctx.quick else 3000):
        n += 1
        yield dict(kind="polynomial", k=[int(k) for k in ctx.rng.integers(1, 6, 2)], seed=ctx.seed * 100003 + n,
                   rows=int(ctx.rng.integers(6, 30)), cols=int(ctx.rng.integers(6, 40)), same=bool(n % 4 == 0))
    for rep in range(12 if ctx.quick else 100):   # sizes of real swaths
        n += 1
        yield dict(kind="polynomial", k=[int(k) for k in ctx.rng.integers(1, 4, 2)], seed=ctx.seed * 100003 + n,
                   rows=int(ctx.rng.integers(30, 500)), cols=int(ctx.rng.integers(40, 400)), same=bool(n % 4 == 0))
    for f in futs:
        f.result()


class Swath:
    """What GeoInterpolator takes for a pyresample definition."""

    def __init__(self, lons, lats):
        self.lons, self.lats = lons, lats

    def get_cartesian_coords(self):
        return geo.to_xyz(self.lons, self.lats) * geo.R


def run_case(ctx, case):
    from geotiepoints.geointerpolator import GeoInterpolator
    from geotiepoints.interpolator import Interpolator
    rng = np.random.default_rng(case["seed"])
    if case["kind"] == "polynomial":
        return polynomial(ctx, case, rng)
    a, b = ctx.axes[case["row"]], ctx.axes[case["col"]]
    opr, opc = ctx.ops[case["row"]]["plain"], ctx.ops[case["col"]]["plain"]
    fr, tr = tiegrid.positions(a)
    fc, tc = tiegrid.positions(b)
    shape = len(tr), len(tc)
    amp = np.abs(opr).sum(1).max() * np.abs(opc).sum(1).max()
    if case["kind"] == "plain":
        types = ["f8"] * case["fields"] if rng.random() < 0.5 else [str(t) for t in rng.choice(sorted(TYPES), case["fields"])]
        fields = [rng.uniform(0 if t == "u1" else -100, 100, shape).astype(t) for t in types]
        fields = [geo.with_structure(rng, f) for f in fields]
        mags = [10.0 ** rng.integers(-12, 13) if t[0] == "f" and rng.random() < 0.5 else 1.0 for t in types]
        fields = [f if m == 1 else (m * f).astype(f.dtype) for m, f in zip(mags, fields)]
        fields = [layout(rng, f) for f in fields]
        arg = [list(fields), tuple(fields), fields[0]][case["seed"] % 3]
        if arg is fields[0]:
            fields = fields[:1]
        (fr, tr), (fc, tc) = places(rng, fr, tr), places(rng, fc, tc)
        got = ctx.call(lambda: Interpolator(arg, (tr, tc), (fr, fc), a["k"], b["k"]).interpolate())
        if len(got) != len(fields):
            raise geo.Mismatch("%d results for %d fields" % (len(got), len(fields)))
        for g, d, t, m in zip(got, fields, types, mags):
            geo.check_close(np.asarray(g, "f8") / m, opr @ (d.astype("f8") / m) @ opc.T, TYPES[t] * 100 * amp, "orders %d, %d of %s" % (
                a["k"], b["k"], ", ".join(types)))
        return
    names = list(geo.PLACES)
    single = rng.random() < 0.25
    step = [2.0, 30.0][case["seed"] % 2]
    lon, lat = geo.patch(rng, *shape, names[case["seed"] % len(names)], step, step, noise=step / 2 / amp)
    if single:
        lon, lat = lon.astype("f4"), lat.astype("f4")
    xyz = geo.to_xyz(lon, lat)
    want = np.stack([opr @ xyz[..., i] @ opc.T for i in range(3)], -1)
    arg = (lon, lat) if case["kind"] == "geo" else Swath(lon, lat)
    got = ctx.call(lambda: GeoInterpolator(arg, (tr, tc), (fr, fc), a["k"], b["k"]).interpolate())
    geo.check_positions(got, want, (30.0 if single else 0.05) * amp)


def places(rng, fine, ties):
    """The same positions, in another type or container."""
    style = int(rng.integers(6))
    if style == 1:
        return fine.tolist(), ties.tolist()
    if style == 2 and fine.dtype.kind == "i":
        return fine.astype("i2"), ties.astype("i2")
    if style == 3:
        return fine.astype("f4"), ties.astype("f4")
    if style == 4:
        return fine.astype("f8"), ties
    if style == 5:
        return np.repeat(fine, 3)[::3], ties[::-1].copy()[::-1]
    return fine, ties


def layout(rng, a):
    """The same values, in another layout in memory."""
    style = int(rng.integers(5))
    if style == 1:
        return np.asfortranarray(a)
    if style == 2:
        b = np.zeros((a.shape[0] * 2, a.shape[1] * 3), a.dtype)
        b[1::2, ::3] = a
        return b[1::2, ::3]
    if style == 3:
        return np.ascontiguousarray(a[::-1, ::-1])[::-1, ::-1]
    if style == 4:
        a.flags.writeable = False
    return a


def polynomial(ctx, case, rng):
    from geotiepoints.interpolator import Interpolator
    ky, kx = case["k"]

    def make(n):
        ties = np.cumsum(rng.uniform(0.2, 1.0, n))
        ties /= ties[-1]
        fine = np.sort(rng.uniform(ties[0], ties[-1], 3 * n))
        fine[0], fine[-1], fine[n] = ties[0], ties[-1], fine[n]
        return ties, fine
    tr, fr = make(case["rows"])
    tc, fc = make(case["cols"])
    if case["same"]:
        fr = tr.copy()
    elif case["seed"] % 4 == 1:    # as many fine rows as tie rows, close to them
        fr = tr + np.min(np.diff(tr)) * 10.0 ** rng.integers(-5, 0) * rng.uniform(0.5, 1, len(tr))
        fr[-1] -= 2 * (fr[-1] - tr[-1])
    coef = rng.uniform(-1, 1, (ky + 1, kx + 1))
    val = np.polynomial.polynomial.polygrid2d
    mag = 10.0 ** rng.integers(-8, 9)
    fields = [mag * val(tr, tc, coef), val(tr, tc, coef[::-1])]
    unit, origin = 10.0 ** rng.integers(-3, 5), rng.integers(-3, 4) * 10.0 ** rng.integers(0, 5)
    tr, tc, fr, fc = [(p + origin) * unit for p in (tr, tc, fr, fc)]
    got = ctx.call(lambda: Interpolator([layout(rng, f) for f in fields], (tr, tc), (fr, fc), ky, kx).interpolate())
    wr, wc = fr / unit - origin, fc / unit - origin
    tol = 1e-9 if max(ky, kx) < 4 else 1e-7
    if abs(origin) > 10:
        tol *= 100
    geo.check_close(got[0] / mag, val(wr, wc, coef), tol, "polynomial of degrees %d, %d" % (ky, kx))
    geo.check_close(got[1], val(wr, wc, coef[::-1]), tol, "polynomial of degrees %d, %d" % (ky, kx))
    # tie points are reproduced whatever the data
    data = geo.with_structure(rng, rng.uniform(-1, 1, (len(tr), len(tc))))
    got = ctx.call(lambda: Interpolator(data, (tr, tc), (tr[::2], tc[::3]), ky, kx).interpolate())
    geo.check_close(got[0], data[::2, ::3], 1e-8, "tie points")
