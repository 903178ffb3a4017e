"""C18: Convert.tla (TLC: whatever the radii, thresholds, formulas and turns of longitude, converting back and forth leaves a
place where it is, on an exact integer sphere; a forgotten radius or sign is refuted) and replay of its words of conversions
and of its decisions between the two formulas, on lonlat2xyz and xyz2lonlat."""
import numpy as np

import geo

ASSUMPTIONS = ["angles of the exact places are computed in 64-bit floats", "within 1e-6 (64-bit) or 0.05 (32-bit) degrees"]
NAMES = set("XYZWVSABCFGKLMPQabcde")


def cases(ctx):
    base = dict(Names=NAMES, Radii={1, 2, 3}, Thresholds={0, 2, 4, 5}, MaxSteps=4 if ctx.quick else 6, Bug="none")
    futs = [ctx.tlc_async("Convert", base, spec="Spec", invariants=["Kept", "Agree"], workers=4, label="Convert model check")]
    for bug in ("radius", "sign"):
        futs.append(ctx.refuted("Convert", dict(base, Bug=bug), "Kept", spec="Spec", invariants=["Kept"], label="Convert: " + bug))
    words = ctx.tlc("Convert", dict(base, Radii={1, 2}, Thresholds={2, 4}, MaxSteps=4), init="HInit", next="HNext", invariants=["HEmit"],
                    workers=1, coverage=False, label="words").emitted
    reqs = [dict(id=0, name=str(n), k=int(k), thr=int(t), low=bool(low)) for n in sorted(NAMES) for k in (1, 2, 4, 5, 7, 8)
            for t in range(6) for low in (False, True)]
    for i, r in enumerate(reqs):
        r["id"] = i
    res = ctx.tlc("Convert", base, init="OneInit", next="OneNext", invariants=["Vectors"], req=reqs, workers=1, coverage=False,
                  label="decisions")
    ctx.vectors = [dict(reqs[t["id"]], **t) for t in res.emitted]
    assert len(ctx.vectors) == len(reqs)
    n = 0
    for t in range(6):
        for low in (True, False):
            for dtype in ("f8", "f4"):
                for radius in (None, 1.0, 6371008.7714, 250):
                    for shape in ("row", "table", "single") if not ctx.quick or dtype == "f8" else ("table",):
                        n += 1
                        yield dict(kind="decision", thr=t, low=low, dtype=dtype, radius=radius, shape=shape, seed=ctx.seed * 100003 + n)
    pick = ctx.rng.permutation(len(words))[:400 if ctx.quick else 20000]
    for i in pick:
        n += 1
        yield dict(kind="word", dtype="f4" if n % 4 == 0 else "f8", seed=ctx.seed * 100003 + n, **words[int(i)])
    for rep in range(20 if ctx.quick else 200):
        n += 1
        yield dict(kind="random", dtype="f4" if n % 4 == 0 else "f8", seed=ctx.seed * 100003 + n)
    for f in futs:
        f.result()


def shaped(arr, shape):
    arr = np.asarray(arr)
    if shape == "table":
        return arr[:len(arr) // 6 * 6].reshape(-1, 6)
    return arr[len(arr) // 2] if shape == "single" else arr


def angles(v, formula):
    """Latitude in degrees of vectors over the radius."""
    x, y, z = np.moveaxis(v, -1, 0)
    if formula == "z":
        return np.rad2deg(np.arcsin(z))
    return np.sign(z) * np.rad2deg(np.arccos(np.minimum(np.hypot(x, y), 1)))


def compare(got, lon, lats, axis, tol, what):
    """*lats*: the latitudes that are allowed."""
    glon, glat = (np.asarray(g, "f8") for g in got)
    for g in (glon, glat):
        geo.check_shape(g, np.shape(lon), what)
    if not (np.isfinite(glon).all() and np.isfinite(glat).all()):
        raise geo.Mismatch("%s: missing longitudes or latitudes" % what)
    if (np.abs(glon) > 180 + tol).any() or (np.abs(glat) > 90 + tol).any():
        raise geo.Mismatch("%s: out of range" % what)
    dlon = np.where(axis, 0, np.abs((glon - lon + 180) % 360 - 180))
    dlat = np.min([np.abs(glat - x) for x in lats], 0)
    if dlon.max() > tol or dlat.max() > tol:
        raise geo.Mismatch("%s: off by %g and %g degrees" % (what, dlon.max(), dlat.max()))


def run_case(ctx, case):
    from geotiepoints.geointerpolator import lonlat2xyz, xyz2lonlat
    rng = np.random.default_rng(case["seed"])
    dt = np.dtype(case["dtype"])
    tol = 0.05 if dt == np.float32 else 2e-6    # arcsin near 1
    if case["kind"] == "decision":
        vecs = [v for v in ctx.vectors if v["thr"] == case["thr"] and v["low"] == case["low"] and v["ok"]]
        v = np.array([x["v"] for x in vecs]) / (8.0 * 105)
        near = [len(x["formulas"]) > 1 for x in vecs]
        lats = [np.array([angles(p, x["formulas"][-i]) for p, x in zip(v, vecs)]) for i in (0, 1)]
        if dt == np.float32:   # the threshold is not exact
            assert np.array_equal(near, np.abs(np.abs(v[:, 2]) - case["thr"] / 5) < 1e-6) or not case["low"]
        lon = np.rad2deg(np.arctan2(v[:, 1], v[:, 0]))
        axis = np.hypot(v[:, 0], v[:, 1]) < 1e-9
        kw = {} if case["radius"] is None else dict(radius=case["radius"])
        radius = 6370997.0 if case["radius"] is None else case["radius"]
        if (case["thr"], case["low"]) != (4, True):   # the defaults
            kw.update(thr=case["thr"] / 5.0, low_lat_z=case["low"])
        xyz = [shaped((c * radius).astype(dt), case["shape"]) for c in v.T]
        got = ctx.call(xyz2lonlat, *xyz, **kw)
        if any(np.asarray(g).dtype != dt for g in got):
            raise geo.Mismatch("types %s" % [np.asarray(g).dtype for g in got])
        compare(got, shaped(lon, case["shape"]), [shaped(x, case["shape"]) for x in lats], shaped(axis, case["shape"]), tol, "xyz2lonlat")
        ctx.count("vectors", np.size(xyz[0]))
        return
    if case["kind"] == "word":
        u = np.array(case["start"]) / 105.0
        lon0, lat0 = np.rad2deg(np.arctan2(u[1], u[0])), angles(u, "z")
        pair = [np.array([[lon0]]).astype(dt), np.array([[lat0]]).astype(dt)]
        for op in case["word"]:
            if op[0] == "turn":
                pair[0] = (pair[0] + 360 * op[1]).astype(dt)
            elif op[0] == "xyz":
                radius = op[1] * 1000.0
                pair = list(ctx.call(lonlat2xyz, *pair, radius=radius))
                for g, c in zip(pair, u):
                    geo.check_shape(g, (1, 1), "coordinates")
                    if g.dtype != dt or not abs(g[0, 0] / radius - c) <= tol / 50:
                        raise geo.Mismatch("coordinates of %s are %s" % (case["place"], [float(x[0, 0]) / radius for x in pair]))
            else:
                pair = list(ctx.call(xyz2lonlat, *pair, radius=radius, thr=op[1] / 5.0, low_lat_z=op[2]))
                compare(pair, [[lon0]], [[[lat0]]], abs(lat0) == 90, tol, "after %s" % case["word"])
                pair = [p.astype(dt) for p in pair]
        return
    shape = (50, 7) if case["seed"] % 3 else (geo.some_size(rng, 1, 2000), geo.some_size(rng, 1, 400))
    lon, lat = rng.uniform(-180, 180, shape).astype(dt), np.rad2deg(np.arcsin(rng.uniform(-1, 1, shape))).astype(dt)
    close = rng.random(shape) < 0.2    # to the axes and the planes between them
    lon[close] = (90 * rng.integers(-2, 3, close.sum()) + rng.choice([-1, 0, 1], close.sum()) * 10.0 ** -rng.uniform(1, 12, close.sum()))
    close = rng.random(shape) < 0.1    # to the equator and the latitudes of the thresholds
    lat[close] = (rng.choice([0, np.rad2deg(np.arccos(0.8)), np.rad2deg(np.arcsin(0.8))], close.sum())
                  + rng.choice([-1, 0, 1], close.sum()) * 10.0 ** -rng.uniform(0, 12, close.sum()))
    turned = (lon + 360 * rng.integers(-2, 3, lon.shape)).astype(dt)
    xyz = ctx.call(lonlat2xyz, turned, lat)
    norm = np.sqrt(sum(np.asarray(c, "f8") ** 2 for c in xyz))
    if not np.abs(norm / 6370997.0 - 1).max() < tol:
        raise geo.Mismatch("not on the sphere")
    compare(ctx.call(xyz2lonlat, *xyz), lon, [lat], np.zeros(lon.shape, bool), tol * 10, "random places")
