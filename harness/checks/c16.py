"""C16: Sphere.tla (TLC: words of exact turns, tilts, mirrors and reversals of rational cells: the pixels of the transformed
cell are the transformed pixels, in the same branch of the conversion, turns of longitude changing nothing) and replay of
words of transformations with the net effect computed by TLC, on all the geographic interpolations anywhere on earth."""
import numpy as np

import geo
import interps

ASSUMPTIONS = ["positions are compared within 0.05 m (64-bit)", "reversed grids only for schemes that are symmetric in it"]


def model(ctx):
    unused = ("DoTilt",)
    sets = [dict(Names={"X", "a", "K", "M", "O"}, Weights={0, 3, 8}, MaxSteps=2),
            dict(Names={"K", "L", "b", "W", "P"}, Weights={-3, 4, 14}, MaxSteps=1),
            dict(Names={"c", "d", "e"}, Weights={0, 3, 14}, MaxSteps=3)]
    if not ctx.quick:
        sets = [dict(s, MaxSteps=s["MaxSteps"] + 1) for s in sets] + [
            dict(Names={"X", "Y", "Z", "a"}, Weights={0, 3, 8}, MaxSteps=4),
            dict(Names={"A", "B", "I", "K", "N", "Z"}, Weights={-3, 0, 4, 14}, MaxSteps=2)]
    return [ctx.tlc_async("Sphere", dict(s, Degrees={90}), spec="Spec", invariants=["Commutes", "OnSphere"], workers=4,
                          label="Sphere model check", allow_unused=unused) for s in sets]


def words(ctx):
    res = ctx.tlc("Sphere", dict(Names={"X"}, Weights={0}, MaxSteps=3 if ctx.quick else 4, Degrees={90, 180, 37, 203, 359}),
                  init="WInit", next="WNext", invariants=["WEmit"], workers=1, coverage=False, label="words")
    return res.emitted


def pick(rng, words, ops, num):
    """Words that only have some operations."""
    good = [w for w in words if all(op[0] in ops for op in w["word"])]
    return [good[int(i)] for i in rng.integers(len(good), size=num)]


def cases(ctx):
    futs = model(ctx)
    ws = words(ctx)
    ctx.interps = interps.registry(ctx, big=not ctx.quick)
    places = list(geo.PLACES)
    n = 0
    for rep in range(1 if ctx.quick else 10):
        for name, it in ctx.interps.items():
            ops = {"rotate", "ns", "ew"} | ({"rows"} if it.rows else set()) | ({"cols"} if it.cols else set())
            for place in places:
                for word in pick(ctx.rng, ws, ops, 2 if it.cheap else 1):
                    n += 1
                    if ctx.quick and not it.cheap and n % 3:
                        continue
                    yield dict(kind="word", interp=name, place=place if n % 3 else [float(ctx.rng.uniform(-180, 180)), float(
                        np.rad2deg(np.arcsin(ctx.rng.uniform(-1, 1))))], word=word["word"], net=word["net"],
                        scale=[1.0, 0.02, 8.0][n // 3 % 3], norm=["no", "180", "360"][n // 2 % 3], seed=ctx.seed * 100003 + n)
    for i in range(40 if ctx.quick else 400):
        n += 1
        word = pick(ctx.rng, ws, {"rotate", "ns", "ew"}, 1)[0]
        yield dict(kind="vii direct", word=word["word"], net=word["net"], seed=ctx.seed * 100003 + n)
    for f in futs:
        f.result()


def apply(word, lon, lat, norm="no"):
    for op in word:
        if op[0] == "rotate":
            lon = lon + op[1]
        elif op[0] == "ns":
            lat = -lat
        elif op[0] == "ew":
            lon = -lon
        elif op[0] == "rows":
            lon, lat = lon[::-1], lat[::-1]
        else:
            lon, lat = lon[:, ::-1], lat[:, ::-1]
    if norm == "180":
        lon = (lon + 180) % 360 - 180
    elif norm == "360":
        lon = lon % 360
    return lon, lat


def run_case(ctx, case):
    rng = np.random.default_rng(case["seed"])
    net = case["net"]
    if case["kind"] == "vii direct":
        return direct(ctx, case, rng)
    it = ctx.interps[case["interp"]]
    step = [s * case["scale"] for s in it.steps]
    if it.shape[1] > 1000:
        step[1] = min(step[1], 3.0)
    lon, lat = geo.patch(rng, *it.shape, case["place"], *step, noise=0.2 * min(step), rps=it.rps, gap=2 * min(step))
    base = ctx.call(it.run, lon.copy(), lat.copy(), False, False)
    tlon, tlat = apply(case["word"], lon, lat, case["norm"])
    got = ctx.call(it.run, np.ascontiguousarray(tlon), np.ascontiguousarray(tlat), net["rr"], net["rc"])
    want = [np.asarray(b) for b in base]
    want = [net["ew"] * want[0] + net["deg"], net["ns"] * want[1]]
    if net["rr"]:
        want = [w[::-1] for w in want]
    if net["rc"]:
        want = [w[:, ::-1] for w in want]
    for g, w in zip(got, want):
        geo.check_shape(g, w.shape, case["interp"])
    geo.check_valid(got[0], got[1], case["interp"])
    err = geo.distance(np.asarray(got[0]), np.asarray(got[1]), *want)
    # at the switch of the latitude formula two neighbouring values are possible
    near = np.abs(np.abs(np.sin(np.deg2rad(want[1]))) - 0.8) < 1e-5
    if near.any():
        err = np.where(near, np.minimum(err, 0), err)
    worst = geo.where_worst(err)
    tol = 0.05 + 1e-3 * it.amp
    if not err[worst] <= tol:
        raise geo.Mismatch("%s: %.3f m away from the transformed position at %s: (%.7f, %.7f) instead of (%.7f, %.7f)" % (
            case["interp"], err[worst], worst, np.asarray(got[0])[worst], np.asarray(got[1])[worst], want[0][worst],
            want[1][worst]))
    ctx.counts["_max_err"] = max(ctx.counts.get("_max_err", 0), float(err[worst]))


def direct(ctx, case, rng):
    """VII in longitudes and latitudes: they are only shifted and change sign."""
    import xarray as xr
    from geotiepoints.viiinterpolator import tie_points_geo_interpolation as tp
    net = case["net"]
    na, ns, nc, f = (int(rng.integers(a, b)) for a, b in ((2, 5), (1, 4), (2, 6), (1, 9)))
    lon, lat = geo.patch(rng, ns * na, nc, (float(rng.uniform(-170, 170)), float(rng.uniform(-50, 50))), 8.0, 8.0, noise=2.0,
                         rps=na, gap=8.0)
    tlon, tlat = apply(case["word"], lon, lat)

    def run(lo, la):
        return [np.asarray(g.values) for g in tp(xr.DataArray(lo, dims=["y", "x"]), xr.DataArray(la, dims=["y", "x"]), na, f)]
    base, got = ctx.call(run, lon, lat), ctx.call(run, tlon, tlat)
    geo.check_close((got[0] - net["ew"] * base[0] - net["deg"] + 180) % 360, np.full(base[0].shape, 180.0), 1e-9, "longitudes")
    geo.check_close(got[1], net["ns"] * base[1], 1e-9, "latitudes")
