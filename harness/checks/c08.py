"""C08: Vii.tla (TLC: scan-wise pixel grid on the granule wide tie grid refines the documented bilinear map) and
replay of its tables and of its direct/cartesian decisions on the two VII functions."""
import dask.array as da
import numpy as np
import xarray as xr

import geo

ASSUMPTIONS = ["cartesian results are compared within 0.05 m and direct ones within 1e-9 degrees"]


def spec(ctx):
    sizes = dict(NScans={1, 2, 3}, NAlt={2, 3, 4}, NAct={2, 3}, Factors={1, 2, 3, 8}) if ctx.quick else \
        dict(NScans={1, 2, 3, 4, 5}, NAlt={2, 3, 4, 5, 9}, NAct={2, 3, 4, 7}, Factors={1, 2, 3, 4, 5, 8, 16})
    return ctx.tlc_async("Vii", sizes, spec="Spec", invariants=["Refines", "Sizes", "ScanLocal", "Convex", "Ties", "Increasing"],
                         properties=["Terminates"], workers=4, label="Vii model check")


def tables(ctx, req):
    res = ctx.tlc("Vii", dict(NScans={1}, NAlt={2}, NAct={2}, Factors={1}), init="TableInit", next="TableNext",
                  invariants=["Tables"], req=[dict(zip(("ns", "na", "nc", "f"), q)) for q in req], workers=1,
                  coverage=False, label="Vii tables")
    out = {}
    geo_cases = []
    for t in res.emitted:
        if "cart" in t:
            geo_cases.append(t)
            continue
        out[t["ns"], t["na"], t["nc"], t["f"]] = (geo.matrix(t["rows"], t["ns"] * t["na"]), geo.matrix(t["cols"], t["nc"]))
    return out, geo_cases


SIZES = [(1, 2, 2, 1), (1, 2, 3, 2), (2, 2, 4, 3), (2, 3, 2, 8), (3, 4, 5, 4), (3, 2, 6, 5), (2, 5, 3, 8), (4, 3, 4, 2),
         (5, 2, 2, 7), (1, 9, 9, 4)]


def wrap(arr, container, dims, rng):
    coords, name = None, None
    if rng.random() < 0.4:   # coordinates of its own, which do not matter
        coords = {dims[0]: np.sort(rng.uniform(0, 50, arr.shape[0]))[::-1], dims[1]: 1000 - 3 * np.arange(arr.shape[1])}
        name = str(rng.choice(["longitude", "values"]))
        if rng.random() < 0.5:
            del coords[dims[int(rng.integers(2))]]
    if container == "dask":
        arr = da.from_array(arr, chunks=(int(rng.integers(1, arr.shape[0] + 1)), int(rng.integers(1, arr.shape[1] + 1))))
    return xr.DataArray(arr, dims=dims, coords=coords, name=name)


def cases(ctx):
    fut = spec(ctx)
    sizes = list(SIZES)
    if not ctx.quick:
        sizes += [(a, b, c, d) for a in (1, 2, 6) for b in (2, 3, 7) for c in (2, 3, 11) for d in (1, 2, 6, 16)]
    sizes += [tuple(int(x) for x in (rng.integers(1, 25), rng.integers(2, 10), rng.integers(2, 60), rng.integers(1, 17)))
              for rng in [ctx.rng] for _ in range(6 if ctx.quick else 20)]
    # longer and wider than granules
    sizes += [(geo.some_size(ctx.rng, 100, 300), int(ctx.rng.integers(2, 4)), 3, int(ctx.rng.integers(1, 4))),
              (2, 3, geo.some_size(ctx.rng, 60, 260), int(ctx.rng.integers(4, 17)))]
    cells = [(1, na, 2, f) for na, f in ((2, 2), (2, 4), (3, 2))]
    ctx.tab, geo_cases = tables(ctx, sizes + cells)
    num = 0
    for size in sizes:
        for rep in range(4 if ctx.quick else 10):
            num += 1
            yield dict(kind="plain", size=size, count=1 + num % 5, container=["numpy", "dask"][num % 2],
                       dims=[["y", "x"], ["num_tie_points_alt", "num_tie_points_act"], ["x", "y"]][num % 3],
                       seed=ctx.seed * 100003 + num)
    places = list(geo.PLACES)
    for rep in range(1 if ctx.quick else 20):
        for place in places:
            num += 1
            yield dict(kind="geo", size=sizes[num % len(sizes)], place=place, container=["numpy", "dask"][num % 2],
                       step=[1.0, 8.0, 100.0][num % 3], thr=[60.0, 0.5][num % 2], zthr=[0.8, 0.8, 0.3, 0.95, 0.0][num % 5],
                       seed=ctx.seed * 100003 + num)
    for rep in range(8 if ctx.quick else 100):   # formula of the latitude at the equator
        num += 1
        yield dict(kind="geo", size=sizes[num % len(sizes)], place=["equator", "gulf"][num % 2], container="numpy", step=[1.0, 100.0][num % 2],
                   thr=-1.0, zthr=0.0, seed=ctx.seed * 100003 + num)
    for i, cell in enumerate(cells):    # more pixels along one direction than 16 bits can count
        most = 2 ** 16 // cell[3] + int(ctx.rng.integers(2, 900))
        num += 1
        yield dict(kind="huge", size=cell, ns=[1, most // (cell[1] - 1)][i % 2], nc=[most, 2][i % 2], container=["numpy", "dask"][num % 2],
                   seed=ctx.seed * 100003 + num)
    if ctx.quick:
        pick = ctx.rng.permutation(len(geo_cases))[:150]
    else:
        pick = range(len(geo_cases))
    for i in pick:
        yield dict(kind="decision", size=sizes[int(i) % len(SIZES)], seed=ctx.seed * 100003 + int(i), **geo_cases[int(i)])
    fut.result()


def direct(tab, arr):
    return tab[0] @ np.asarray(arr, "f8") @ tab[1].T


def expected_geo(tab, lon, lat):
    xyz = geo.to_xyz(lon, lat)
    return np.stack([direct(tab, xyz[..., i]) for i in range(3)], -1)


def run_case(ctx, case):
    from geotiepoints.viiinterpolator import tie_points_geo_interpolation, tie_points_interpolation
    rng = np.random.default_rng(case["seed"])
    ns, na, nc, f = size = tuple(case["size"])
    tab = ctx.tab[size]
    if case["kind"] == "huge":    # cell by cell, as pixels only depend on their cell (ScanLocal)
        arr = np.cumsum(rng.uniform(-1, 1, (case["ns"] * na, case["nc"])), axis=int(case["ns"] == 1))
        got, = ctx.call(tie_points_interpolation, [xr.DataArray(da.from_array(arr, chunks=9999) if case["container"] == "dask" else arr,
                                                                dims=("y", "x"))], na, f)
        lines = np.einsum("pa,sac->spc", tab[0], arr.reshape(case["ns"], na, case["nc"])).reshape(-1, case["nc"])
        pairs = np.stack([lines[:, :-1], lines[:, 1:]], -1)
        geo.check_close(ctx.call(lambda: np.asarray(got.values)), np.einsum("qk,lck->lcq", tab[1], pairs).reshape(len(lines), -1),
                        1e-9 * max(1, np.abs(arr).max()), "values")
        return
    if case["kind"] == "plain":
        mags = [10.0 ** rng.choice([0, 0, -9, -3, 6, 12]) for _ in range(case["count"])]
        arrays = [(m * rng.uniform(-100, 100, (ns * na, nc))).astype(rng.choice(["f8", "f8", "f4"])) for m in mags]
        args = [wrap(a, case["container"], case["dims"], rng) for a in arrays]
        got = ctx.call(tie_points_interpolation, args, na, f)
        if len(got) != len(args):
            raise geo.Mismatch("%d results for %d arrays" % (len(got), len(args)))
        for g, a, m in zip(got, arrays, mags):
            if tuple(g.dims) != tuple(case["dims"]):
                raise geo.Mismatch("dimensions are %s" % (g.dims,))
            geo.check_close(ctx.call(lambda: np.asarray(g.values)) / m, direct(tab, a) / m, 1e-9 if a.dtype == "f8" else 1e-4,
                            "values")
        return
    if case["kind"] == "geo":
        lon, lat = geo.patch(rng, ns * na, nc, case["place"], case["step"], case["step"], noise=case["step"] / 3, rps=na,
                             gap=case["step"])
        if case["zthr"] == 0:   # places exactly on the equator
            row = rng.integers(ns * na)
            lat[row] = 0.0
            some = lon[row].mean() + rng.uniform(-5, 5, 3000)
            out = np.sqrt((np.cos(np.deg2rad(some)) * 6371008.7714) ** 2 + (np.sin(np.deg2rad(some)) * 6371008.7714) ** 2)
            some = some[out > 6371008.7714]    # rounded beyond the radius
            lon[row] = np.sort(rng.choice(some, nc)) if len(some) else lon[row]
        # (two arrays of one swath have the same coordinates)
        args = [wrap(a, case["container"], ["y", "x"], np.random.default_rng(case["seed"] + 1)) for a in (lon, lat)]
        got = ctx.call(tie_points_geo_interpolation, *args, na, f, lat_threshold_use_cartesian=case["thr"],
                       z_threshold_use_xy=case["zthr"])
        cart = np.abs(lat).max() > case["thr"] or lon.max() - lon.min() > 180
        zthr = case["zthr"]
    else:
        (l0, l1), (b0, b1) = case["lon"], case["lat"]
        lon = np.linspace(l0, l1, nc)[None, :] * np.ones((ns * na, 1))
        lat = np.linspace(b0, b1, ns * na)[:, None] * np.ones((1, nc))
        style = int(rng.integers(4))
        if style == 1:
            lon, lat = lon[:, rng.permutation(nc)], lat[rng.permutation(ns * na)]
        elif style == 2:    # along the other direction
            lon, lat = np.linspace(l0, l1, ns * na)[:, None] * np.ones((1, nc)), np.linspace(b0, b1, nc) * np.ones((ns * na, 1))
        elif style == 3:    # one tie point decides
            (l0, l1), (b0, b1) = rng.permutation([l0, l1]), rng.permutation([b0, b1])
            lon, lat = np.full(lon.shape, l0, "f8"), np.full(lon.shape, b0, "f8")
            lon.flat[rng.integers(lon.size)], lat.flat[rng.integers(lon.size)] = l1, b1
        args = [wrap(a, "numpy", ["y", "x"], np.random.default_rng(case["seed"] + 1)) for a in (lon, lat)]
        kw = {} if case["thr"] == 60 else {"lat_threshold_use_cartesian": float(case["thr"])}
        got = ctx.call(tie_points_geo_interpolation, *args, na, f, **kw)
        cart, zthr = case["cart"], 0.8
    lons, lats = (ctx.call(lambda: np.asarray(g.values)) for g in got)
    if tuple(got[0].dims) != ("y", "x") or tuple(got[1].dims) != ("y", "x"):
        raise geo.Mismatch("dimensions")
    if cart:
        want = expected_geo(tab, lon, lat)
        if (want ** 2).sum(-1).min() < 1e-6:
            ctx.count("too close to the centre of the earth")
            return
        geo.check_positions((lons, lats), want, 0.05, "cartesian", thr=zthr)
    else:
        geo.check_close(lons, direct(tab, lon), 1e-9, "direct longitudes")
        geo.check_close(lats, direct(tab, lat), 1e-9, "direct latitudes")
    ctx.count("cartesian" if cart else "direct")
