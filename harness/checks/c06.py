"""C06: SimpleScan.tla (TLC: the algorithm with reused buffers computes the documented geometry for all
small widths and numbers of scans) and replay of its stencil tables on modis_1km_to_500m/250m."""
import numpy as np

import geo

ASSUMPTIONS = ["positions are compared within 0.05 m (64-bit) and 15 m (32-bit), on cells of 1 to 500 km",
               "the sphere conversions of the oracle are numpy's"]
FUNS = {2: "modis_1km_to_500m", 4: "modis_1km_to_250m"}


def spec(ctx, label=""):
    big = not ctx.quick
    return ctx.tlc_async("SimpleScan", {"Factors": {2, 4}, "Widths": {2, 3, 4, 5, 7, 11} if big else {2, 3, 4},
                                        "Scans": {1, 2, 3} if big else {1, 2}, "RPS": 10},
                         spec="Spec", invariants=["Refines", "ScanLocal", "Complete", "Affine", "Mirror"],
                         properties=["WriteOnce", "Terminates"], workers=4, label="SimpleScan model check" + label)


def tables(ctx, req):
    res = ctx.tlc("SimpleScan", {"Factors": {2}, "Widths": {2}, "Scans": {1}, "RPS": 10}, init="TableInit",
                  next="TableNext", invariants=["Tables"], req=[{"f": f, "n": n} for f, n in req], workers=1,
                  coverage=False, label="SimpleScan tables")
    out = {}
    for t in res.emitted:
        assert len(t["rows"]) == 10 * t["f"] and len(t["cols"]) == t["f"] * t["n"]
        out[t["f"], t["n"]] = (geo.matrix(t["rows"], 10), geo.matrix(t["cols"], t["n"]))
    return out


def expected(tab, lon, lat):
    rows, cols = tab
    xyz = geo.to_xyz(lon, lat)
    scans = xyz.reshape((-1, 10) + xyz.shape[1:])
    out = np.einsum("jr,srcx->sjcx", rows, scans)
    out = np.moveaxis(np.moveaxis(out, 2, -1) @ cols.T, -1, 2)
    return out.reshape((-1,) + out.shape[2:])


def data(case):
    rng = np.random.default_rng(case["seed"])
    lon, lat = geo.patch(rng, 10 * case["scans"], case["n"], case["place"], case["step"], case["step"],
                         noise=case["noise"], rps=10, gap=case["gap"])
    dt = np.dtype(case["dtype"])
    return lon.astype(dt), lat.astype(dt)


def cases(ctx):
    fut = spec(ctx)
    widths = [2, 3, 5, 8] if ctx.quick else [2, 3, 4, 5, 6, 7, 8, 9, 13, 40, 677, 1353]
    some = sorted(set(int(x) for x in 10 ** ctx.rng.uniform(0.7, 3.3, 8)) - set(widths) - {1354})
    ctx.tab = tables(ctx, [(f, n) for f in (2, 4) for n in widths + some + [1354]])
    places = list(geo.PLACES)
    num = 0
    for rep in range(1 if ctx.quick else 25):
        for f in (2, 4):
            for n in widths:
                for dtype in ("f8", "f4"):
                    for place in places:
                        num += 1
                        step, noise = [(1.0, 0.3), (10.0, 4.0), (60.0, 40.0), (500.0, 200.0)][num % 4]
                        yield dict(kind="small", f=f, n=n, dtype=dtype, place=place, scans=1 + num % 3, step=step,
                                   noise=noise, gap=step * 3, seed=ctx.seed * 100003 + num)
    for rep in range(1 if ctx.quick else 20):
        for f in (2, 4):
            for dtype in ("f4", "f8"):
                num += 1
                yield dict(kind="full width", f=f, n=1354, dtype=dtype, place=places[num % len(places)], scans=2,
                           step=1.0, noise=0.4, gap=3.0, seed=ctx.seed * 100003 + num)
    for f in (2, 4):
        for n in some:    # any widths
            num += 1
            yield dict(kind="any width", f=f, n=n, dtype=["f8", "f4"][num % 2], place=places[num % len(places)],
                       scans=1 + num % 3, step=1.0, noise=0.4, gap=3.0, seed=ctx.seed * 100003 + num)
        for n in [2, 3, 8]:    # as many scans as in granules
            num += 1
            yield dict(kind="granule", f=f, n=n, dtype=["f8", "f4"][num % 2], place=places[num % len(places)],
                       scans=geo.some_size(ctx.rng, 100, 600 if n < 4 else 300), step=1.0, noise=0.4, gap=3.0, seed=ctx.seed * 100003 + num)
    fut.result()


def run_case(ctx, case):
    import geotiepoints.simple_modis_interpolator as smi
    lon, lat = data(case)
    got = ctx.call(getattr(smi, FUNS[case["f"]]), lon, lat)
    xyz = expected(ctx.tab[case["f"], case["n"]], lon, lat)
    if len(got) != 2 or got[0].dtype != lon.dtype or got[1].dtype != lat.dtype:
        raise geo.Mismatch("dtypes of the result")
    err = geo.check_positions(got, xyz, 15.0 if case["dtype"] == "f4" else 0.05)
    k = "_max_err_" + case["dtype"]
    ctx.counts[k] = max(ctx.counts.get(k, 0), err)
