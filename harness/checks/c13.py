"""C13: RejectModis.tla, RejectVii.tla, RejectMulti.tla and RejectFill.tla say what a well formed request is and how requests are treated
(TLC: answered if and only if well formed, in whole, for all requests of the universe, all orders of blocks; forgetting any
of the checks is refuted). The requests and decisions that TLC lists are replayed: those refused must raise, when called or
computed, the others give arrays of the listed shape, and refused fills leave the interpolator as it was."""
import dask.array as da
import numpy as np
import xarray as xr

import geo
import interps

ASSUMPTIONS = ["any exception counts as a refusal", "MODIS swaths have at least one line"]

SIMPLE = {(10, 7), (20, 7), (9, 7), (11, 7), (15, 7), (10, 2), (10, 1), (10,), (20,), (1, 10, 7), (10, 7, 2), ()}
ONE = {(10, 1354), (20, 1354), (9, 1354), (11, 1354), (10, 1353), (10, 1355), (10,), (10, 1354, 1)}
FIVE = {(2, 271), (4, 270), (4, 271), (3, 271), (5, 270), (2, 272), (2, 269), (4, 10), (4,), (1, 2, 271)}
PAIRS = {(1000, 500), (1000, 250), (5000, 1000), (5000, 500), (5000, 250), (1000, 750), (500, 250), (0, 0), (1000, 0), (0, 500),
         (5000, 2500), (1000, 5000), (750, 250), (250, 250)}
KINDS = ["numpy", "dask", "dask small", "xarray", "xarray dask"]


def cases(ctx):
    few = dict(Schemes={"simple", "cviirs"}, Pairs=PAIRS, SimpleShapes={(10, 7), (11, 7), (10, 1), (10,), (1, 10, 7)},
               Shapes1={(10, 1354), (9, 1354), (10, 1353), (10,)}, Shapes5={(2, 271), (2, 270), (3, 271), (2, 269), (2,)},
               Widths={-1, 0, 270, 271, 272}, Bug="none")
    model = dict(few) if ctx.quick else dict(few, SimpleShapes=SIMPLE, Shapes1=ONE, Shapes5=FIVE)
    futs = [ctx.tlc_async("RejectModis", model, spec="Spec", invariants=["Refused", "Answered", "Decided"],
                          properties=["Settled"] if ctx.quick else (), workers=4, label="RejectModis model check")]
    for bug in ("dimensions", "shapes", "scans", "pairs", "widths", "declared"):
        futs.append(ctx.refuted("RejectModis", dict(few, Bug=bug), "Answered", spec="Spec", invariants=["Answered"], workers=1,
                                label="RejectModis without " + bug))
    vii = dict(Sizes={(6, 4), (6, 6), (5, 4), (6, 3), (6,), (1, 6, 4)}, Names={("y", "x"), ("x", "y"), ("y", "z"), ("y",), ("t", "y", "x")},
               Scans={2, 3, 5}, Factors={1, 4}, MaxArrays=2, Bug="none")
    futs.append(ctx.tlc_async("RejectVii", vii, spec="Spec", invariants=["Refused", "Answered"], properties=["Settled"], workers=4,
                              label="RejectVii model check"))
    for bug in ("scans", "names", "sizes"):
        futs.append(ctx.refuted("RejectVii", dict(vii, Bug=bug), "Answered", spec="Spec", invariants=["Answered"], workers=1,
                                label="RejectVii without " + bug))
    multi = dict(Orders={(2,), (3,), (2, 3), (1,), (3, 1), (1, 2), (0, 2), (2, 3, 2), (2, 2, 1), (2, 3, 2, 4), (2,) * 5, ()},
                 Off={-2, -1, 0, 1}, Lines={1, 3}, Points={1, 5}, Flat={True, False}, MaxDim=4, Bug="none")
    small = dict(multi, Orders={(3,), (2, 3), (1, 2), (2, 2, 3, 2), (2,) * 5}, Off={-1, 0, 1}, Lines={2}, Points={1})
    futs.append(ctx.tlc_async("RejectMulti", small if ctx.quick else multi, spec="Spec", invariants=["InBounds", "Decided"],
                              properties=["Settled"] if ctx.quick else (), workers=4, label="RejectMulti model check"))
    for bug in ("limits", "orders", "values", "points"):
        futs.append(ctx.refuted("RejectMulti", dict(small, Bug=bug), "InBounds", spec="Spec", invariants=["InBounds"], workers=1,
                                label="RejectMulti without " + bug))
    fill = dict(Words={"x", "y", "X", "rows"}, MaxWords=2, MaxSteps=2 if ctx.quick else 3, Bug="none")
    fills = ctx.tlc_async("RejectFill", fill, spec="Spec", invariants=["Whole", "Refused", "Emit"], workers=1,
                          label="RejectFill model check")
    futs.append(fills)
    for bug, inv in (("eager", "Whole"), ("ignored", "Refused")):
        futs.append(ctx.refuted("RejectFill", dict(fill, MaxSteps=2, Bug=bug), inv, spec="Spec", invariants=[inv], workers=1,
                                label="RejectFill " + bug))
    reqs = ctx.tlc("RejectModis", dict(few, SimpleShapes=SIMPLE, Shapes1=ONE, Shapes5=FIVE), init="EmitInit", next="EmitNext",
                   invariants=["Emit"], workers=1, coverage=False, label="MODIS requests").emitted
    futs = [f for f in futs]
    ctx.counts["requests listed"] = len(reqs)
    good = [r for r in reqs if r["ok"]]
    bad = [r for r in reqs if not r["ok"]]
    # requests that differ from a well formed one in one thing only are the likely ones to be let through
    near = [r for r in bad if distance(r) == 1]
    ctx.counts["requests nearly well formed"] = len(near)
    picks = [good[int(i)] for i in ctx.rng.permutation(len(good))[:150 if ctx.quick else len(good)]]
    picks += [near[int(i)] for i in ctx.rng.permutation(len(near))[:2500 if ctx.quick else len(near)]]
    picks += [bad[int(i)] for i in ctx.rng.permutation(len(bad))[:2000 if ctx.quick else len(bad)]]
    for start in range(0, len(picks), 50):
        part = picks[start:start + 50]
        yield dict(kind="modis", reqs=[dict(r, kind=kind) for i, r in enumerate(part) for kind in (
            KINDS if not r["ok"] else [KINDS[(start + i) % 5]])], seed=ctx.seed)
    reqs = ctx.tlc("RejectVii", vii, init="EmitInit", next="EmitNext", invariants=["Emit"], workers=1, coverage=False,
                   label="VII requests").emitted
    ctx.counts["requests listed"] += len(reqs)
    order = ctx.rng.permutation(len(reqs))
    picks = [r for r in reqs if r["ok"]] + [reqs[int(i)] for i in order[:3000 if ctx.quick else len(order)]]
    more = dict(vii, Sizes={(6, 6), (6, 4), (9, 6)}, Names={("y", "x"), ("x", "y"), ("y", "z")}, Scans={3}, Factors={2},
                MaxArrays=3 if ctx.quick else 4)
    reqs = [r for r in ctx.tlc("RejectVii", more, init="EmitInit", next="EmitNext", invariants=["Emit"], workers=1, coverage=False,
                               label="VII requests of more arrays").emitted if len(r["arrays"]) > 2]
    ctx.counts["requests listed"] += len(reqs)
    near = [r for r in reqs if not r["ok"] and any(
        sum(a != r["arrays"][i] for a in r["arrays"]) == 1 for i in range(len(r["arrays"])))]
    picks += [r for r in reqs if r["ok"]] + [near[int(i)] for i in ctx.rng.permutation(len(near))[:400 if ctx.quick else 4000]]
    for start in range(0, len(picks), 100):
        yield dict(kind="vii", reqs=picks[start:start + 100], seed=ctx.seed)
    hists = fills.result().emitted
    for start in range(0, len(hists), 50):
        yield dict(kind="fill", hists=[h["hist"] for h in hists[start:start + 50]], klass=["geo", "plain"][start // 50 % 2],
                   seed=ctx.seed + start)
    reqs = ctx.tlc("RejectMulti", multi, init="EmitInit", next="EmitNext", invariants=["Emit"], workers=1, coverage=False,
                   label="multilinear requests").emitted
    ctx.counts["requests listed"] += len(reqs)
    good = [r for r in reqs if r["ok"]]
    near = [r for r in reqs if multi_distance(r["req"]) == 1]
    rest = [r for r in reqs if multi_distance(r["req"]) > 1]
    picks = good + near + [rest[int(i)] for i in ctx.rng.permutation(len(rest))[:500 if ctx.quick else len(rest)]]
    for start in range(0, len(picks), 100):
        yield dict(kind="multilinear", reqs=picks[start:start + 100], seed=ctx.seed + start)
    yield dict(kind="geographic")
    yield dict(kind="legacy", seed=ctx.seed)
    for f in futs:
        f.result()


def distance(r):
    """How many things of a request to the public functions are wrong."""
    shapes = [tuple(s) for s in r["shapes"]]
    good = {"simple": {(10, 7), (20, 7), (10, 2)}, 1000: {(10, 1354), (20, 1354)}, 5000: {(2, 271), (4, 270), (4, 271)}}
    ok = good["simple"] if r["scheme"] == "simple" else good.get(r["coarse"], good[1000])
    base = max(set(shapes), key=shapes.count)
    wrong = sum(s != base for s in shapes) + (base not in ok)
    wrong += (r["coarse"], r["fine"]) not in {(1000, 500), (1000, 250)} | (
        {(5000, 1000), (5000, 500), (5000, 250)} if r["scheme"] == "cviirs" else set())
    if r["scheme"] == "cviirs" and r["coarse"] == 5000 and base in ok:
        wrong += r["width"] not in (-1, base[1]) and not (r["width"] == 0 and base[1] == 271)
    return wrong


DATA = {}


def array(shape, i):
    key = (tuple(shape), i)
    if key not in DATA:
        n = int(np.prod(shape))
        ramp = np.linspace(0, 1, n).reshape(shape) if n > 1 else np.full(shape, 0.5)
        DATA[key] = [3 + 20 * ramp, 40 + 10 * ramp, 60 - 30 * ramp][i]
    return DATA[key]


def wrap(arr, kind):
    if "dask" in kind:
        arr = da.from_array(arr, chunks=tuple(max(1, min(s, 3)) if i < arr.ndim - 1 or s < 10 else s for i, s in enumerate(
            arr.shape)) if "small" in kind else arr.shape, name=False)
    if "xarray" in kind:
        arr = xr.DataArray(arr, dims=["d%d" % i for i in range(arr.ndim)])
    return arr


def general(mi):
    """The angle based interpolation for any pair of resolutions."""
    if hasattr(mi, "interpolate"):
        return mi.interpolate
    from geotiepoints import _modis_interpolator
    return _modis_interpolator.interpolate


def modis_call(r):
    from geotiepoints import modisinterpolator as mi, simple_modis_interpolator as smi
    arrays = [wrap(array(s, i), r["kind"]) for i, s in enumerate(r["shapes"])]
    pair = r["coarse"], r["fine"]
    names = {(1000, 500): "modis_1km_to_500m", (1000, 250): "modis_1km_to_250m", (5000, 1000): "modis_5km_to_1km",
             (5000, 500): "modis_5km_to_500m", (5000, 250): "modis_5km_to_250m"}
    module = smi if r["scheme"] == "simple" else mi
    if r["width"] == -1 and pair in names and hasattr(module, names[pair]):
        fun, kwargs = getattr(module, names[pair]), {}
    else:
        fun = smi.interpolate_geolocation_cartesian if r["scheme"] == "simple" else general(mi)
        kwargs = {k: v for k, v in (("coarse_resolution", pair[0]), ("fine_resolution", pair[1])) if v}
        if r["width"] == -1 and r["scheme"] == "cviirs" and pair[0] == 5000:
            kwargs["coarse_scan_width"] = r["shapes"][0][1]
        elif r["width"] > 0:
            kwargs["coarse_scan_width"] = r["width"]
    out = interps.quiet(fun, *arrays, **kwargs)
    return [np.asarray(x) for x in out]


def judge(ctx, r, fun, what):
    done, res = ctx.outcome(fun)
    if done and not r["ok"]:
        raise geo.Mismatch("%s: answered with arrays of shape %s" % (what, [np.shape(x) for x in res]))
    if not done and r["ok"]:
        raise geo.Mismatch("%s: well formed but refused: %s: %s" % (what, type(res).__name__, res))
    if done:
        for x in res:
            geo.check_shape(x, tuple(r["answer"]), what)
            if not np.isfinite(x).all():
                raise geo.Mismatch("%s: answered with missing values" % what)
    ctx.count("answered" if done else "refused")


def run_case(ctx, case):
    if case["kind"] == "modis":
        for r in case["reqs"]:
            judge(ctx, r, lambda: modis_call(r), "MODIS request %s" % r)
    elif case["kind"] == "vii":
        for i, r in enumerate(case["reqs"]):
            for kind in ("numpy", "dask"):
                vii(ctx, r, kind)
    elif case["kind"] == "multilinear":
        rng = np.random.default_rng(case["seed"])
        for r in case["reqs"]:
            multilinear(ctx, r, rng)
    elif case["kind"] == "fill":
        for h in case["hists"]:
            fill(ctx, case, h)
    elif case["kind"] == "geographic":
        geographic(ctx)
    else:
        legacy(ctx)


def multi_distance(q):
    """How many things of a request are wrong."""
    return sum(q[n] != 0 for n in ("smin", "smax", "cols", "dims")) + q["flatv"] + q["flatp"] + any(n < 2 for n in q["orders"]) \
        + (not 0 < len(q["orders"]) < 5)


def multilinear(ctx, r, rng):
    from geotiepoints.multilinear import MultilinearInterpolator
    q = r["req"]
    d, size = len(q["orders"]), int(np.prod(q["orders"]))
    values = rng.uniform(1, 2, (q["lines"], size + q["cols"]))
    points = rng.uniform(0, 1, (d + q["dims"], q["points"]))
    values, points = values[0] if q["flatv"] else values, points[0] if q["flatp"] else points
    smin, smax = np.zeros(d + q["smin"]), np.ones(d + q["smax"])

    def at_once():
        return [MultilinearInterpolator(smin, smax, q["orders"], values)(points)]

    def in_steps():
        one = MultilinearInterpolator(list(smin), list(smax), np.array(q["orders"], int))
        one.set_values(values)
        return [one.interpolate(points)]

    def narrow():
        one = MultilinearInterpolator(smin, smax, q["orders"], dtype=np.float32)
        one.set_values(values)
        return [one(points.astype("f4"))]
    for fun in (at_once, in_steps, narrow):
        judge(ctx, r, fun, "multilinear request %s %s" % (fun.__name__, r))


def vii(ctx, r, kind):
    from geotiepoints import viiinterpolator as v

    def arrays():
        out = []
        for i, a in enumerate(r["arrays"]):
            arr = array(a["size"], i)
            out.append(xr.DataArray(da.from_array(arr, chunks=3, name=False) if kind == "dask" else arr, dims=a["name"]))
        return out
    judge(ctx, r, lambda: [np.asarray(x) for x in v.tie_points_interpolation(arrays(), r["scan"], r["factor"])],
          "VII %s request %s" % (kind, r))
    if len(r["arrays"]) == 2:
        for thr in (-1, 89.0):
            judge(ctx, r, lambda: [np.asarray(x) for x in v.tie_points_geo_interpolation(
                *arrays(), r["scan"], r["factor"], thr)], "VII geolocation %s request %s, threshold %s" % (kind, r, thr))


def fill(ctx, case, hist):
    from geotiepoints import geointerpolator as gi, interpolator as it
    rng = np.random.default_rng(case["seed"])
    lon, lat = geo.patch(rng, 4, 5, "europe", 20.0, 20.0, noise=0.1, rps=None)
    grids = ((np.array([2, 5, 8, 9]), np.array([1, 4, 6, 7, 9])), (np.arange(12), np.arange(12)))

    def make():
        return gi.GeoInterpolator((lon, lat), *grids, 1, 3) if case["klass"] == "geo" else it.Interpolator([lon, lat], *grids, 1, 3)
    one = make()
    for step in hist:
        ok, res = ctx.outcome(one.fill_borders, *step["ask"])
        if ok != step["ok"]:
            raise geo.Mismatch("filling %s is %s" % (step["ask"], "accepted" if ok else "refused with %r" % res))
        other = make()
        other.fill_borders(*step["filled"])
        got = [np.array(x) for x in ctx.call(one.interpolate)]
        for a, b in zip(got, ctx.call(other.interpolate)):
            geo.check_close(a, b, 1e-7, "interpolation after filling %s of %s" % (step["ask"], hist))
        for a, b in ((one.row_indices, other.row_indices), (one.col_indices, other.col_indices)):
            if not np.array_equal(a, b):
                raise geo.Mismatch("tie points after filling %s: %s, not %s" % (step["ask"], a, b))


class Geometry:
    """What the interpolators use of a pyresample geometry."""

    def __init__(self, lons, lats):
        self.lons, self.lats = lons, lats

    def get_cartesian_coords(self):
        return geo.to_xyz(self.lons, self.lats)


def geographic(ctx):
    from geotiepoints import geointerpolator as gi
    lon, lat = geo.patch(np.random.default_rng(3), 5, 6, "pacific", 20.0, 20.0, noise=0.1, rps=None)
    tie, fine = (np.arange(5) * 3, np.arange(6) * 2), (np.arange(13), np.arange(11))
    geom = Geometry(lon, lat)
    for klass in (gi.GeoGridInterpolator, gi.GeoSplineInterpolator):
        for args, ok in (((), False), ((lon,), False), ((lon, lat), True), ((geom,), True), ((lon, lat, lon), False),
                         ((lon, lat, lon, lat), False), ((geom, geom), False), ((lon, lat[:-1]), False), ((lon[:, 1:], lat[:, 1:]), False)):
            judge(ctx, dict(ok=ok, answer=(13, 11)), lambda: klass(tie, *args).interpolate(fine),
                  "%s of %d arrays" % (klass.__mro__[1].__name__, len(args)))
    for arg, ok in (((lon, lat), True), (geom, True), ((lon,), False), ((), False), ((lon, lat[:-1]), False)):
        judge(ctx, dict(ok=ok, answer=(13, 11)), lambda: gi.GeoInterpolator(arg, tie, fine, 1, 3).interpolate(), "GeoInterpolator of %s" % (
            type(arg).__name__))


def legacy(ctx):
    import geotiepoints as gtp
    from geotiepoints import interpolator as it
    for name, fun, rps, width, f, cols in (
            ("modis1kmto500m", gtp.modis1kmto500m, 10, 1354, 2, 2708), ("modis1kmto250m", gtp.modis1kmto250m, 10, 1354, 4, 5416),
            ("modis1kmto500m cores=2", lambda a, b: gtp.modis1kmto500m(a, b, cores=2), 10, 1354, 2, 2708),
            ("modis5kmto1km", gtp.modis5kmto1km, 2, 271, 5, 1354), ("generic_modis5kmto1km", it.generic_modis5kmto1km, 2, 271, 5, 1354),
            ("metop20kmto1km", gtp.metop20kmto1km, 1, 105, 1, 2048)):
        for lines in (1, rps, rps + 1, 2 * rps - 1, 2 * rps, 3 * rps):
            for shape, good in (((lines, width), lines % rps == 0), ((lines, width - 1), False), ((lines, width + 1), False),
                                ((lines,), False), ((1, lines, width), False)):
                if "cores" in name and lines != 2 * rps and len(shape) == 2 and shape[1] == width:
                    continue
                a, b = array(shape, 0), array(shape, 1)
                judge(ctx, dict(ok=good, answer=(lines * f, cols)), lambda: fun(a, b), "%s of shape %s" % (name, shape))
                if good and lines > 1:
                    for other in ((lines + rps, width), (lines, width + 1)):
                        judge(ctx, dict(ok=False), lambda: fun(a, array(other, 1)), "%s of shapes %s, %s" % (name, shape, other))
                        judge(ctx, dict(ok=False), lambda: fun(array(other, 0), b), "%s of shapes %s, %s" % (name, other, shape))
