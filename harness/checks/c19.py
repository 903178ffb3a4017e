"""C19: GridMethods.tla (TLC: for all small tie grids, methods, policies for outside positions and sequences of calls on one
object, evaluating positions in any order gives what the geometry means) and TieGrid.tla (exact splines); replay on the grid
and spline interpolators: tables of the combinations meant at each fine position, and TLC's histories of calls on one object,
eager and lazy."""
import itertools

import dask.array as da
import numpy as np

import geo
import tiegrid

ASSUMPTIONS = ["methods linear, slinear and nearest, splines of orders 1 to 5 with few ties (exact) and 1 to 3 with many",
               "nearest: positions half way between ties may give either", "values within 1e-9 relative (1e-5 in 32 bits)"]
GRIDS = ["SingleGrid", "MultipleGrid", "GeoGrid"]
SPLINES = ["SingleSpline", "MultipleSpline", "GeoSpline"]
BOUNDS = {"refuse": [{}, {"bounds_error": True}],
          "fill": [{"bounds_error": False}] + [{"bounds_error": False, "fill_value": v} for v in (-7.5, 0.0)],
          "extend": [{"bounds_error": False, "fill_value": None}, {"fill_value": None, "bounds_error": False}]}


def model(ctx):
    inv = ["Right", "RefusedWhenOutside", "Proper"]
    base = dict(Span=3, ColTies={frozenset({0, 2})}, Methods={"linear", "nearest"}, Policies={"refuse", "fill", "extend"},
                MaxCalls=2, Bug="")
    sets = [dict(base, MaxCalls=1), dict(base, Span=2)]
    if not ctx.quick:
        sets += [base, dict(base, Span=5, MaxCalls=1, ColTies={frozenset({0, 1, 4}), frozenset({0, 5}), frozenset({2, 3, 5})})]
    futs = [ctx.tlc_async("GridMethods", s, spec="Spec", invariants=inv, workers=4, label="GridMethods model check",
                          allow_unused=("Idle", "HistInit")) for s in sets]
    for bug, what, kw in (("swapped", "Right", {}), ("sticky", "Right", {"MaxCalls": 2}), ("clamped", "Right", {}),
                          ("last cell", "Right", {}), ("lenient", "RefusedWhenOutside", {})):
        futs.append(ctx.refuted("GridMethods", dict(base, Span=2, MaxCalls=1, Bug=bug, **{k: v for k, v in kw.items()
                                                                                         if k != "MaxCalls"}) |
                                kw, what, spec="Spec", invariants=inv, label="wrong way: " + bug))
    return futs


def grid_axis(rng, big=False):
    """Ties and fine positions as integers, to be divided by den; positions inside, on ties and outside."""
    den = int(rng.choice([1, 1, 2, 4]))
    n = int(rng.integers(2, 60 if big else 8))
    gaps = rng.integers(1, 6, n - 1) if rng.random() < 0.7 else np.full(n - 1, int(rng.integers(1, 6)))
    ties = (int(rng.integers(-4, 5)) * 10 ** int(rng.choice([0, 0, 3, 5])) + np.concatenate([[0], np.cumsum(gaps)])).tolist()
    if rng.random() < 0.25:   # positions that are almost ties
        den = 4096
        origin = int(rng.integers(-500, 500)) - ties[0]
        ties = [den * (t + origin) for t in ties[:12]]
        inside = [t + int(d) for t in ties for d in rng.choice([-1900, -40, -4, -2, -1, 1, 2, 4, 40, 1900], 4)] + rng.integers(ties[0], ties[-1] + 1, 10).tolist()
        inside = [x for x in inside if ties[0] <= x <= ties[-1]]
    else:
        inside = list(range(ties[0], ties[-1] + 1))
    lo, hi = ties[0], ties[-1]
    fine = ties + inside + [lo - 1, lo - int(rng.integers(2, 40)), hi + 1, hi + int(rng.integers(2, 40))]
    return dict(ties=ties, fine=sorted(set(fine)), den=den)


def cases(ctx):
    futs = model(ctx)
    rng = ctx.rng
    ctx.grid_axes = [grid_axis(rng, big=i % 10 == 0) for i in range(60 if ctx.quick else 300)]
    base = dict(Span=2, ColTies=set(), Methods={"linear"}, Policies={"fill"}, MaxCalls=2, Bug="")
    tab = ctx.tlc("GridMethods", base, init="Idle", next="TableNext", invariants=["Tables"], workers=1, coverage=False,
                  req=[dict(a, id=i) for i, a in enumerate(ctx.grid_axes)], label="combinations on grid axes").emitted
    ctx.tables = {t["id"]: t for t in tab}
    hists = ctx.tlc("GridMethods", dict(base, MaxCalls=2 if ctx.quick else 3), init="HistInit", next="HistNext",
                    invariants=["HistEmit"], workers=1, coverage=False, label="histories of calls").emitted
    n = 0
    pick = rng.permutation(len(hists))[:500 if ctx.quick else 6000]
    for i in pick:
        n += 1
        yield dict(kind="grid", cls=GRIDS[n % 3], hist=hists[int(i)], large=n % 60 < 2, seed=ctx.seed * 100003 + n,
                   axes=[int(x) for x in rng.integers(len(ctx.grid_axes), size=2)])
    ctx.axes = []
    for k in (1, 2, 3, 4, 5):
        for _ in range(10 if ctx.quick else 60):
            ctx.axes.append(tiegrid.axis(rng, k))
    ctx.ops = tiegrid.solve(ctx, ctx.axes, "splines on axes")
    good = [i for i in range(len(ctx.axes)) if ctx.ops[i]["plain"] is not None]
    for i in range(400 if ctx.quick else 4000):
        n += 1
        yield dict(kind="spline", cls=SPLINES[n % 3], large=n % 60 < 2, seed=ctx.seed * 100003 + n,
                   axes=[int(x) for x in rng.choice(good, 2)])
    for i in range(150 if ctx.quick else 1500):
        n += 1
        yield dict(kind="polynomial", cls=SPLINES[n % 3], seed=ctx.seed * 100003 + n, k=[int(x) for x in rng.integers(1, 6, 2)])
    for f in futs:
        f.result()


class Swath:
    """What stands for a pyresample definition."""

    def __init__(self, lons, lats):
        self.lons, self.lats = lons, lats

    def get_cartesian_coords(self):
        return geo.to_xyz(self.lons, self.lats) * geo.R


def make(cls, ties, data, init):
    import geotiepoints.geointerpolator as gi
    import geotiepoints.interpolator as it
    klass = getattr(gi if cls.startswith("Geo") else it, cls + "Interpolator")
    return klass(ties, *data, **init)


def fields(rng, cls, shape):
    """Data, how it is passed, and as lists of planes in 64 bits."""
    if cls.startswith("Geo"):
        places = list(geo.PLACES)
        step = float(rng.choice([2.0, 30.0]))
        lon, lat = geo.patch(rng, *shape, places[int(rng.integers(len(places)))], step, step, noise=step / 4)
        if rng.random() < 0.2:
            lon, lat = lon.astype("f4"), lat.astype("f4")
        planes = list(np.moveaxis(geo.to_xyz(lon, lat), -1, 0))
        return [lon, lat], ([Swath(lon, lat)] if rng.random() < 0.3 else [lon, lat]), planes
    num = 1 if cls.startswith("Single") else int(rng.integers(1, 5))
    data = [(geo.with_structure(rng, rng.uniform(-1, 1, shape)) * 10.0 ** rng.integers(-9, 10)).astype(["f8", "f4"][int(rng.integers(2))])
            for _ in range(num)]
    return data, data, [d.astype("f8") for d in data]


def listed(cls, res):
    return [res] if cls.startswith("Single") else list(res)


def chunks(rng, shape):
    style = int(rng.integers(3))
    if style == 0:
        return int(rng.integers(1, 9) * (1 if max(shape) < 200 else 100))
    if style == 1:
        return tuple(int(rng.integers(1 + s // 40, s + 1)) for s in shape)
    return tuple((s,) if s == 1 else (s - s // 2, s // 2) for s in shape)


def ask(ctx, rng, obj, cls, fine, call, lazy, single):
    """One request, in one of the ways there are; returns arrays."""
    if lazy:
        call = dict(call, chunks=chunks(rng, [len(f) for f in fine]))
    if rng.random() < 0.2:
        fine = [list(f.tolist()) for f in fine]
    got = listed(cls, obj.interpolate(tuple(fine), **call))
    if lazy:
        for g in got:
            if not isinstance(g, da.Array):
                raise geo.Mismatch("%s instead of a dask array" % type(g))
        got = [g.compute(scheduler="synchronous") for g in got]
    return got


def run_case(ctx, case):
    rng = np.random.default_rng(case["seed"])
    return {"grid": grid, "spline": spline, "polynomial": polynomial}[case["kind"]](ctx, case, rng)


def matrices(table, method, idx, num):
    """The matrices an axis may mean: with the first and with the last right combination of each position."""
    rows = [table[method][i]["combs"] for i in idx]
    return [geo.comb_matrix([r[pos] for r in rows], num) for pos in (0, -1)]


def pick_fine(rng, a, table, where, axis):
    ok = np.array([r["ok"] for r in table["linear"]])
    ties = np.isin(a["fine"], a["ties"])
    inside = np.flatnonzero(ties if where == "ties" else ok)
    idx = rng.choice(inside, int(rng.integers(1, 10)))
    if where == "outside" or where == "outside " + axis:
        out = np.flatnonzero(~ok)
        idx = np.concatenate([idx, rng.choice(out, int(rng.integers(1, 3)))])
    if rng.random() < 0.5:
        idx = np.sort(idx)
    elif rng.random() < 0.5:
        idx = rng.permutation(idx)
    return idx


def many(rng, idx):
    """The same positions, many times, for up to some million pixels."""
    sizes = [geo.some_size(rng, len(i), 1100) for i in idx]
    if rng.random() < 0.4:
        sizes = [1025 + int(x) for x in rng.integers(0, 200, 2)]
    return [np.resize(i, n) for i, n in zip(idx, sizes)]


def grid(ctx, case, rng):
    cls, hist = case["cls"], case["hist"]
    axes = [ctx.grid_axes[i] for i in case["axes"]]
    tables = [ctx.tables[i] for i in case["axes"]]
    ties = [np.array(a["ties"]) / a["den"] for a in axes]
    shape = tuple(len(t) for t in ties)
    data, given, planes = fields(rng, cls, shape)
    style = BOUNDS[hist["policy"]]
    init = dict(style[int(rng.integers(len(style)))])
    if hist["method"] != "linear" or rng.random() < 0.5:
        init["method"] = hist["method"]
    geographic = cls.startswith("Geo")
    obj = ctx.call(make, cls, tuple(t.copy() for t in ties), given, init)
    for num, call in enumerate(hist["calls"]):
        what = "%s %s, call %d: %s" % (cls, init, num, call)
        idx = [pick_fine(rng, a, t, call["where"], axis) for a, t, axis in zip(axes, tables, ("rows", "cols"))]
        if case["large"]:
            idx = many(rng, idx)
            ctx.count("large results")
        fine = [np.array(a["fine"])[i] / a["den"] for a, i in zip(axes, idx)]
        kw = {"method": call["ask"]} if call["ask"] else {}
        if kw.get("method") == "linear" and rng.random() < 0.3:
            kw["method"] = "slinear"
        lazy = bool(rng.random() < 0.4)
        if "slinear" in kw.values() and (min(shape) < 2 or min(np.abs(p).max() for p in planes) < 1e-3):
            kw["method"] = "linear"   # (scipy solves it iteratively, which gives nothing for small data)
        ok, got = ctx.outcome(ask, ctx, rng, obj, cls, fine, kw, lazy, cls.startswith("Single"))
        if call["becomes"] == "refused":
            if ok:
                raise geo.Mismatch("%s: positions outside of the ties are not refused" % what)
            if not isinstance(got, ValueError):
                raise geo.Mismatch("%s: raised %s: %s" % (what, type(got).__name__, got))
            continue
        if not ok:
            raise geo.Mismatch("%s: raised %s: %s" % (what, type(got).__name__, got))
        inside = np.logical_and.outer(*[np.array([t["linear"][i]["ok"] for i in ii]) for t, ii in zip(tables, idx)])
        meant = [matrices(t, call["method"], ii, n) for t, ii, n in zip(tables, idx, shape)]
        wants = [[a @ p @ b.T for p in planes] for a, b in itertools.product(*meant)]
        filled = ~inside if call["becomes"] == "filled outside" else np.zeros_like(inside)
        fill = init.get("fill_value")
        amp = max(np.abs(a).sum(1).max() * np.abs(b).sum(1).max() for a, b in itertools.product(*meant))
        check(got, wants, [p * amp for p in planes], data, filled, np.nan if fill is None else fill, geographic, what)


def check(got, wants, planes, data, filled, fill, geographic, what):
    """*planes* tell how large the sums that make results can be."""
    if len(got) != len(data):
        raise geo.Mismatch("%s: %d results for %d fields" % (what, len(got), len(data)))
    dtypes = [d.dtype for d in data]
    for g, t in zip(got, dtypes):
        geo.check_shape(g, wants[0][0].shape, what)
        if not geographic and g.dtype != t:
            raise geo.Mismatch("%s: %s instead of %s" % (what, g.dtype, t))
    if geographic:
        if filled.any() and np.isnan(fill):
            for g in got:
                if not np.isnan(g[filled]).all():
                    raise geo.Mismatch("%s: positions outside are not missing" % what)
        keep = ~filled
        if not keep.any():
            return
        single = any(g.dtype == np.float32 for g in got) or any(t == np.float32 for t in dtypes)
        amp = max(1.0, max(float(np.abs(p).max()) for p in planes))
        tol = (30.0 if single else 0.06) * amp
        near = []
        for w in wants:
            xyz = np.stack(w, -1)
            err = position_error(got, xyz)
            near.append(err)
        err = np.where(keep, np.min(near, 0), 0)
        if not (err <= tol).all():
            at = geo.where_worst(err)
            raise geo.Mismatch("%s: %.3f m off at %s" % (what, err[at], at))
        return
    for num, (g, p, t) in enumerate(zip(got, planes, dtypes)):
        scale = max(float(np.abs(w[num]).max()) for w in wants) + float(np.abs(p).max())
        tol = (1e-9 if t == np.float64 else 1e-5) * scale
        errs = [np.abs(g.astype("f8") - np.where(filled, fill, w[num])) for w in wants]
        same_nan = np.isnan(g) == (filled & bool(np.isnan(fill)))
        err = np.where(np.isnan(g), 0, np.min(errs, 0))
        if not (same_nan.all() and (err <= tol).all()):
            at = geo.where_worst(np.where(same_nan, err, np.nan))
            raise geo.Mismatch("%s, field %d: %r instead of %r at %s (tolerance %g)" % (
                what, num, float(g[at]), fill if filled[at] else [float(w[num][at]) for w in wants], at, tol))


def position_error(got, xyz):
    """In metres; the latitude comes from z or from the distance to the axis (positions may be off the sphere)."""
    lon, lat = (np.asarray(g, "f8") for g in got)
    elon, low, high, az, thr = geo.to_lonlat(xyz)
    err = geo.distance(lon, lat, elon, np.where(az < thr, low, high))
    band = np.abs(az - thr) < 1e-5
    err = np.where(band, np.fmin(err, geo.distance(lon, lat, elon, np.where(az < thr, high, low))), err)
    # far outside of the ties there may be no position at all
    none = np.isnan(np.where(az < thr, low, high))
    return np.where(none | (np.hypot(xyz[..., 0], xyz[..., 1]) > 1.00001), 0, err)


def spline(ctx, case, rng):
    cls = case["cls"]
    axes = [ctx.axes[i] for i in case["axes"]]
    ops = [ctx.ops[i]["plain"] for i in case["axes"]]
    (fr, tr), (fc, tc) = (tiegrid.positions(a) for a in axes)
    orders = [a["k"] for a in axes]
    data, given, planes = fields(rng, cls, (len(tr), len(tc)))
    init = {"kx": orders[0], "ky": orders[1]}
    for name, k in zip(("kx", "ky"), orders):
        if k == 3 and rng.random() < 0.5:
            del init[name]
    obj = ctx.call(make, cls, (tr.astype("f8"), tc.astype("f8")), given, init)
    for _ in range(2):
        idx = [np.sort(rng.choice(len(f), int(rng.integers(1, len(f) + 1)), replace=False)) for f in (fr, fc)]
        if case["large"]:
            idx = [np.sort(i) for i in many(rng, idx)]
            ctx.count("large results")
        what = "%s %s" % (cls, init)
        got = ctx.call(ask, ctx, rng, obj, cls, [fr[idx[0]], fc[idx[1]]], {}, bool(rng.random() < 0.4), cls.startswith("Single"))
        wants = [[ops[0][idx[0]] @ p @ ops[1][idx[1]].T for p in planes]]
        none = np.zeros(wants[0][0].shape, bool)
        amp = np.abs(ops[0]).sum(1).max() * np.abs(ops[1]).sum(1).max()
        check(got, [[w for w in wants[0]]], [p * amp for p in planes], data, none, np.nan, cls.startswith("Geo"), what)


def polynomial(ctx, case, rng):
    """Splines through many ties reproduce polynomials and ties."""
    cls, (ky, kx) = case["cls"], case["k"]
    if cls.startswith("Geo"):
        cls = "MultipleSpline"
    nr, nc = (int(x) for x in rng.integers(6, 30, 2))
    ties = [np.concatenate([[0], np.cumsum(rng.uniform(0.3, 1.0, n - 1))]) for n in (nr, nc)]
    fine = [np.sort(rng.uniform(0, t[-1], 15)) for t in ties]
    fine[0][0], fine[1][-1] = ties[0][0], ties[1][-1]
    coef = rng.uniform(-1, 1, (ky + 1, kx + 1))
    val = np.polynomial.polynomial.polygrid2d
    unit = [t[-1] for t in ties]
    data = [val(ties[0] / unit[0], ties[1] / unit[1], coef)]
    obj = ctx.call(make, cls, tuple(ties), data, {"kx": ky, "ky": kx})
    got = ctx.call(ask, ctx, rng, obj, cls, fine, {}, bool(rng.random() < 0.4), True)
    geo.check_close(got[0], val(fine[0] / unit[0], fine[1] / unit[1], coef), 1e-8, "polynomial of degrees %d, %d" % (ky, kx))
    noise = rng.uniform(-1, 1, (nr, nc))
    obj = ctx.call(make, cls, tuple(ties), [noise], {"kx": ky, "ky": kx})
    sub = [np.sort(rng.choice(n, 5, replace=False)) for n in (nr, nc)]
    got = ctx.call(ask, ctx, rng, obj, cls, [t[s] for t, s in zip(ties, sub)], {}, False, True)
    geo.check_close(got[0], noise[np.ix_(*sub)], 1e-7, "tie points")
