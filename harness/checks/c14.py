"""C14: Legacy.tla (TLC: filling the borders of the axes of each helper, in any order, and interpolating the lines gives the
documented positions, which agree with those of the other MODIS interpolations) and replay of its tables on the legacy
helpers; across the columns, the tie columns filled by the specification are joined by a not-a-knot cubic spline."""
import numpy as np
from scipy.interpolate import CubicSpline

import geo

ASSUMPTIONS = ["the cubic spline across the columns is an oracle outside of TLA+ (scipy's CubicSpline, another "
               "implementation than the one of the code)", "positions are compared within 0.05 m"]
NAMES = {"k1f2": "modis1kmto500m", "k1f4": "modis1kmto250m", "k5": "modis5kmto1km", "avhrr": "metop20kmto1km",
         "generic": "generic_modis5kmto1km"}
WIDTH = {"k1f2": 1354, "k1f4": 1354, "k5": 271, "avhrr": 105, "generic": 271}


def spec(ctx):
    small = dict(Helpers={"k1f2", "k1f4", "k5", "avhrr"}, Scans={1, 2} if ctx.quick else {1, 2, 3},
                 Widths={4, 5} if ctx.quick else {4, 5, 9}, NFine={2}, Chunks={0}, Reach=0, Orders={1}, MaxSteps=1, HistLen=1)
    return ctx.tlc_async("Legacy", small, spec="LSpec", invariants=["Documented", "OwnScan", "Columns", "ColPlaces", "ColLinear",
                                                                  "Agrees"], properties=["Finishes"], workers=4,
                         label="Legacy model check")


MORE = [("k1f2", 4), ("k5", 3), ("k5", 11), ("avhrr", 5), ("avhrr", 40), ("k5", 129), ("avhrr", 1025), ("k1f2", 26), ("k1f4", 13)]


def tables(ctx, scans=(1, 2)):
    req = [dict(h=h, ns=ns, w=WIDTH[h]) for h in ("k1f2", "k1f4", "k5", "avhrr") for ns in scans] + [
        dict(h=h, ns=ns, w=WIDTH[h]) for h, ns in MORE]
    jobs = [ctx.tlc_async("Legacy", dict(Helpers={"k5"}, Scans={1}, Widths={4}, NFine={2}, Chunks={0}, Reach=0, Orders={1},
                                         MaxSteps=1, HistLen=1), init="LTableInit", next="LTableNext", invariants=["LTables"],
                          req=req[k::4], workers=1, coverage=False, label="Legacy tables") for k in range(4)]
    out = {}
    for t in [t for j in jobs for t in j.result().emitted]:
        nrow = t["ns"] * {"k5": 2, "avhrr": 1}.get(t["h"], 10)
        rows = geo.comb_matrix(t["rows"], nrow)
        ties = geo.comb_matrix(t["ties"], t["w"])
        fine = np.array(t["fine"])
        cols = CubicSpline(t["pos"], ties, bc_type="not-a-knot")(fine)
        out[t["h"], t["ns"]] = (rows, cols)
        if t["h"] == "k5":
            out["generic", t["ns"]] = (rows, cols)
    return out


def expected(tab, lon, lat):
    rows, cols = tab
    xyz = geo.to_xyz(lon, lat)
    return np.stack([rows @ xyz[..., i] @ cols.T for i in range(3)], -1)


def data(rng, h, ns, place, noise=1.0):
    lines = ns * {"k5": 2, "avhrr": 1}.get(h, 10)
    step = {"k5": 5.0, "avhrr": 20.0}.get(h, 1.0)
    dens = {"k5": 10.0, "avhrr": 1.0}.get(h, 1.0)
    return geo.patch(rng, lines, WIDTH[h], place, dens, step, noise=0.2 * step * noise,
                     rps={"k5": 2, "avhrr": None}.get(h, 10), gap=3 * step)


def cases(ctx):
    fut = spec(ctx)
    scans = (1, 2) if ctx.quick else (1, 2, 3, 5, 7)
    ctx.tab = tables(ctx, scans)
    n = 0
    for h, ns in MORE + [("generic", s) for h, s in MORE if h == "k5"]:
        n += 1
        yield dict(kind=h, ns=ns, place=list(geo.PLACES)[n % len(geo.PLACES)], dtype="f8", seed=ctx.seed * 100003 + n)
    for rep in range(3 if ctx.quick else 25):
        for h in NAMES:
            for ns in scans:
                for place in list(geo.PLACES)[rep::3] if ctx.quick else list(geo.PLACES)[n % 4::4]:
                    if ctx.quick and h == "k1f4" and n % 3:
                        n += 1
                        continue
                    n += 1
                    yield dict(kind=h, ns=ns, place=place, dtype="f4" if n % 5 == 0 else "f8", seed=ctx.seed * 100003 + n)
    fut.result()


def run_case(ctx, case):
    import geotiepoints
    import geotiepoints.interpolator
    rng = np.random.default_rng(case["seed"])
    h, ns = case["kind"], case["ns"]
    tab = ctx.tab[h, ns]
    if h == "generic":
        fields = [geo.with_structure(rng, rng.uniform(-1, 1, (2 * ns, 271))) for _ in range(1 + case["seed"] % 3)]
        # a field that is cubic along the columns and affine in each scan
        col = np.polynomial.polynomial.polyval((np.arange(271) - 100) / 100.0, rng.uniform(-1, 1, 4))
        fields.append(col[None, :] + np.arange(2 * ns)[:, None] * 0.1)
        dtype = ["u1", "i1", "u2", "i2", "f4"][case["seed"] % 5]
        info = np.iinfo(dtype) if dtype != "f4" else np.iinfo("i1")
        fields.append(rng.integers(info.min, info.max, (2 * ns, 271), endpoint=True).astype(dtype))
        got = ctx.call(geotiepoints.interpolator.generic_modis5kmto1km, *fields)
        if len(got) != len(fields):
            raise geo.Mismatch("%d results for %d fields" % (len(got), len(fields)))
        for g, d in zip(got, fields):
            tol = 1e-6 * max(1.0, np.abs(d.astype("f8")).max()) * (1 if d.dtype.itemsize > 4 else 10)
            geo.check_close(g, tab[0] @ d.astype("f8") @ tab[1].T, tol, "field of " + d.dtype.str)
            geo.check_close(np.asarray(g)[2::5, 2::5], d, tol, "tie points")
        return
    lon, lat = data(rng, h, ns, case["place"])
    lon, lat = lon.astype(case["dtype"]), lat.astype(case["dtype"])
    got = ctx.call(getattr(geotiepoints, NAMES[h]), lon, lat)
    tol = 0.05 if case["dtype"] == "f8" else 15.0
    err = geo.check_positions(got, expected(tab, lon, lat), tol, NAMES[h])
    ctx.counts["_max_err_" + case["dtype"]] = max(ctx.counts.get("_max_err_" + case["dtype"], 0), err)
    if h == "k5":
        at = got[0][2::5, 2::5], got[1][2::5, 2::5]
    elif h == "avhrr":
        cols = [0] + list(range(4, 2048, 20)) + [2047]
        at = got[0][:, cols], got[1][:, cols]
    else:
        return
    if not geo.distance(*at, lon, lat).max() <= tol:
        raise geo.Mismatch("tie points are not reproduced")
