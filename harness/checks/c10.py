"""C10: Sphere.tla (TLC: on exact rational cells of the sphere, positions interpolated inside of cells smaller than a
hemisphere, and beyond small cells, always have a longitude and a latitude, and neither turns of longitude nor the place on
earth matter) and replay of its exact positions on 2 by 2 cells, at all weights, on each geographic interpolation, with turns
added to the longitudes; then the same question for swaths at and around the poles, the antimeridian, the equator and the
switch of the latitude formula, on all geographic interpolations with the positions of their own specifications."""
import numpy as np

import geo
import interps

ASSUMPTIONS = ["longitudes and latitudes of the exact positions are computed in 64-bit floats",
               "VII: interpolation in cartesian coordinates only",
               "extrapolated positions: cells of at most 15 degrees, or larger where the specification finds a position"]
NAMES = list("XYZWSABCDEFGHIJKLMNOPQRTUVabcde")
WEIGHTS = list(range(-3, 15))


def model(ctx):
    inv = ["InsideDefined", "OutsideDefined", "Bound", "OnSphere", "Commutes"]
    sets = [dict(Names={"X", "a", "K", "M", "O"}, Weights={0, 3, 8}, MaxSteps=1),
            dict(Names={"K", "L", "Z", "A", "I", "N"}, Weights={-3, 0, 4, 8, 11, 14}, MaxSteps=0),
            dict(Names={"W", "P", "Q", "R", "T"}, Weights={-3, 1, 8, 14}, MaxSteps=0)]
    if not ctx.quick:
        sets = [dict(s, Weights={-3, -1, 0, 1, 3, 4, 7, 8, 9, 11, 14}) for s in sets]
        sets += [dict(Names=set(NAMES[i::4]), Weights={-3, 0, 2, 5, 8, 11, 14}, MaxSteps=0) for i in range(4)]
    unused = ("DoTurn", "DoTilt", "DoNS", "DoEW", "DoRows", "DoCols", "DoWrap")
    return [ctx.tlc_async("Sphere", dict(s, Degrees={90}), spec="Spec", invariants=inv, workers=4, label="Sphere model check",
                          allow_unused=unused) for s in sets]


def points():
    """Float coordinates of the named points, only to choose cells."""
    raw = dict(X=(1, 0, 0), Y=(0, 1, 0), Z=(0, 0, 1), W=(-1, 0, 0), S=(0, 0, -1), A=(1, 2, 2), B=(2, 1, 2), C=(2, 2, 1),
               D=(-1, -2, 2), E=(-2, 1, 2), F=(-2, -1, -2), G=(2, 1, -2), H=(-2, -2, 1), I=(-1, 2, 2), J=(1, -2, 2), K=(2, 3, 6),
               L=(3, 2, 6), M=(-2, 3, 6), N=(-3, 2, 6), O=(6, 2, 3), P=(-6, 2, 3), Q=(-6, -2, 3), R=(-6, 2, -3), T=(-6, -2, -3),
               U=(6, 3, 2), V=(6, -3, 2), a=(3, 4, 0), b=(-4, 3, 0), c=(-3, 0, 4), d=(0, -3, 4), e=(-4, 0, -3))
    return {k: np.array(v) / np.sqrt(np.sum(np.square(v))) for k, v in raw.items()}


def choose(rng, num):
    pts = points()
    out = []
    while len(out) < num:
        first = str(rng.choice(NAMES))
        most = [0.9, 0.6, 0.2][len(out) % 3]
        near = [n for n in NAMES if pts[n] @ pts[first] > most]
        cell = [first] + [str(x) for x in rng.choice(near, 3)]
        if len(set(cell)) < 3 or any(pts[x] @ pts[y] <= 1e-9 for x in cell for y in cell):
            continue
        order = rng.permutation(4)
        out.append([cell[i] for i in order])
    return out


def pixels(ctx, cells):
    res = ctx.tlc("Sphere", dict(Names={"X"}, Weights={0}, MaxSteps=0, Degrees={90}), init="OneInit", next="OneNext",
                  invariants=["Pixels"], req=[dict(id=i, cell=c, s=WEIGHTS, t=WEIGHTS) for i, c in enumerate(cells)], workers=1,
                  coverage=False, label="exact cells")
    out = {}
    for t in res.emitted:
        assert t["hemisphere"]
        pos = np.array([[p[0] for p in row] for row in t["pix"]]) / (105.0 * 64)
        branch = np.array([[p[1] for p in row] for row in t["pix"]])
        defined = np.array([[p[2] for p in row] for row in t["pix"]])
        out[t["id"]] = dict(corners=np.array(t["corners"]) / 105.0, small=t["small"], pos=pos, branch=branch, defined=defined)
    assert len(out) == len(cells)
    return out


def cases(ctx):
    futs = model(ctx)
    ctx.cells = choose(ctx.rng, 60 if ctx.quick else 800)
    ctx.exact = pixels(ctx, ctx.cells)
    n = 0
    for i, cell in enumerate(ctx.cells):
        for fun in CELLFUNS:
            if fun == "cviirs" and ctx.quick and i % 4:
                continue
            n += 1
            yield dict(kind="cell", fun=fun, cell=i, names=cell, turns=[int(x) for x in ctx.rng.integers(-2, 3, 4) * (n % 3 > 0)],
                       seed=ctx.seed * 100003 + n)
    ctx.interps = interps.registry(ctx, big=not ctx.quick)
    places = list(geo.PLACES)
    for rep in range(1 if ctx.quick else 12):
        for name, it in ctx.interps.items():
            for place in places:
                n += 1
                if ctx.quick and not it.cheap and n % 3:
                    continue
                yield dict(kind="swath", interp=name, place=place, mode=["turns", "0-360", "exact", "none"][n // 2 % 4],
                           dtype="f4" if n % 5 == 0 and it.f4 else "f8", scale=[1.0, 0.01, 8.0][n // 3 % 3],
                           seed=ctx.seed * 100003 + n)
    for f in futs:
        f.result()


def lonlat(corner, turns, rng):
    x, y, z = corner
    lon = np.rad2deg(np.arctan2(y, x)) if x or y else rng.uniform(-180, 180)
    if y == 0 and x < 0:
        lon = 180.0 if rng.random() < 0.5 else -180.0
    lat = np.rad2deg(np.arctan2(z, np.hypot(x, y)))
    if not x and not y:
        lat = np.sign(z) * 90.0
    return lon + 360.0 * turns, lat


# what interpolates a cell: tie points as indices of corners, and index of the weights (s, t) of each fine pixel
def run_grid(kind, pos, lon, lat):
    from geotiepoints import geointerpolator as gi
    ties = (np.array([0, 8]), np.array([0, 8]))
    fine = (np.array(pos), np.array(pos))
    if kind == "GeoInterpolator":
        return gi.GeoInterpolator((lon, lat), ties, fine).interpolate()
    if kind == "GeoSplineInterpolator":
        return gi.GeoSplineInterpolator(ties, lon, lat, kx=1, ky=1).interpolate(fine)
    return gi.GeoGridInterpolator(ties, lon, lat, bounds_error=False, fill_value=None).interpolate(fine)


def cell_run(ctx, fun, lon, lat):
    """Interpolate, return what was got and the weights s, t of its columns and rows."""
    inside = list(range(9))
    if fun in ("GeoInterpolator", "GeoSplineInterpolator", "GeoGridInterpolator"):
        pos = WEIGHTS if fun == "GeoGridInterpolator" else inside
        return ctx.call(run_grid, fun, pos, lon, lat), pos, pos
    if fun == "vii":
        import xarray as xr
        from geotiepoints.viiinterpolator import tie_points_geo_interpolation as tp
        got = ctx.call(tp, xr.DataArray(lon, dims=["y", "x"]), xr.DataArray(lat, dims=["y", "x"]), 2, 8,
                       lat_threshold_use_cartesian=-1)
        return tuple(np.asarray(g.values) for g in got), inside[:8], inside[:8]
    rows = np.arange(10) % 2
    frow = 2 * np.arange(40) - 3
    zr = np.clip(frow // 8, 0, 8)
    t = frow - 8 * zr
    t = np.where(zr % 2, 8 - t, t)
    if fun == "simple":
        from geotiepoints.simple_modis_interpolator import modis_1km_to_250m
        return ctx.call(modis_1km_to_250m, lon[rows], lat[rows]), list(range(0, 16, 2)), list(t)
    from geotiepoints.modisinterpolator import modis_1km_to_250m
    cols = np.arange(1354) % 2
    lon, lat = lon[rows][:, cols], lat[rows][:, cols]
    fcol = 2 * np.arange(4 * 1354)
    zc = np.clip(fcol // 8, 0, 1352)
    s = fcol - 8 * zc
    s = np.where(zc % 2, 8 - s, s)
    return ctx.call(modis_1km_to_250m, lon, lat, np.zeros_like(lon)), list(s), list(t)


CELLFUNS = ["GeoInterpolator", "GeoSplineInterpolator", "GeoGridInterpolator", "vii", "simple", "cviirs"]


def run_case(ctx, case):
    rng = np.random.default_rng(case["seed"])
    if case["kind"] == "cell":
        return cell(ctx, case, rng)
    it = ctx.interps[case["interp"]]
    step = [s * case["scale"] for s in it.steps]
    if it.shape[1] > 1000:
        step[1] = min(step[1], 3.0)
    lon, lat = geo.patch(rng, *it.shape, case["place"], *step, noise=0.2 * min(step), rps=it.rps, gap=2 * min(step),
                         heading=[0.0, 90.0, None][case["seed"] % 3])
    mode = case["mode"]
    if mode == "exact":   # put tie points exactly at remarkable places
        lon = np.where(np.abs(np.abs(lon) - 180) < 0.01 * case["scale"], rng.choice([180.0, -180.0], lon.shape), lon)
        lat = np.where(np.abs(lat) < 0.005 * case["scale"], rng.choice([0.0, -0.0], lat.shape), lat)
        r, c = it.shape[0] // 2, it.shape[1] // 2
        if "pole" in case["place"]:
            lat[r, c] = np.sign(lat[r, c]) * 90.0
            lon[r, c] = rng.choice([0.0, 180.0, -180.0, 77.0])
    dt = np.dtype(case["dtype"])
    lon, lat = lon.astype(dt), lat.astype(dt)
    xyz = geo.to_xyz(lon, lat)
    turned = lon
    if mode == "turns":
        turned = (lon + 360 * rng.integers(-2, 3, lon.shape)).astype(dt)
    elif mode == "0-360":
        turned = np.where(lon < 0, lon + 360, lon).astype(dt)
    want = it.expected(xyz)
    got = ctx.call(it.run, turned, lat, False, False)
    # the float32 tolerance is that of the values (turns lose bits) and of the arithmetic
    tol = 0.05 + 1e-3 * it.amp if dt == np.float64 else (60.0 + 5 * max(step)) * it.amp
    err = geo.check_positions(got, want, tol, case["interp"])
    name = "_max_err_" + case["dtype"]
    ctx.counts[name] = max(ctx.counts.get(name, 0), err)


def cell(ctx, case, rng):
    ex = ctx.exact[case["cell"]]
    both = [lonlat(c, t, rng) for c, t in zip(ex["corners"], case["turns"])]
    lon, lat = (np.array([b[i] for b in both]).reshape(2, 2) for i in (0, 1))
    got, s, t = cell_run(ctx, case["fun"], lon, lat)
    geo.check_shape(got[0], (len(t), len(s)), "longitudes")
    geo.check_shape(got[1], (len(t), len(s)), "latitudes")
    si, ti = np.array(s) + 3, np.array(t) + 3
    inside = (np.array(s) >= 0) & (np.array(s) <= 8) & (((np.array(t) >= 0) & (np.array(t) <= 8))[:, None])
    pos = ex["pos"][ti][:, si]
    branch, defined = ex["branch"][ti][:, si], ex["defined"][ti][:, si]
    near = (ex["corners"] @ ex["corners"].T).min() > np.cos(np.deg2rad(31))
    assert defined[inside | ex["small"]].all()
    judged = inside | (defined & near)    # (in twisted cells of more than 15 degrees, there may be no position)
    lons, lats = np.asarray(got[0])[judged], np.asarray(got[1])[judged]
    geo.check_valid(lons, lats, case["fun"])
    want = pos[judged]
    elon, low, high, _, _ = geo.to_lonlat(want)
    b = branch[judged]
    err_low, err_high = geo.distance(lons, lats, elon, low), geo.distance(lons, lats, elon, high)
    err = np.where(b == "low", err_low, np.where(b == "high", err_high, np.fmin(err_low, err_high)))
    # the longitude is judged by itself too, except at the axis
    r = np.hypot(want[:, 0], want[:, 1])
    dlon = np.abs((lons - elon + 180) % 360 - 180) * (r > 1e-6)
    worst = int(np.argmax(err))
    if not err[worst] <= 0.05 or not dlon.max() <= 1e-6:
        worst = worst if not err[worst] <= 0.05 else int(np.argmax(dlon))
        raise geo.Mismatch("%s: at %s got (%.8f, %.8f) instead of (%.8f, %.8f/%.8f, %s)" % (
            case["fun"], want[worst].tolist(), lons[worst], lats[worst], elon[worst], low[worst], high[worst], b[worst]))
    ctx.count("pixels of exact cells", len(lons))
