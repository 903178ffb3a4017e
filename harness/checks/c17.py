"""C17: Missing.tla (TLC: the passes of each of the algorithms, which propagate missing values through all they read, make
missing what has a weight on a missing tie point and nothing outside of the cells around it, for all sets and histories of few
missing tie points on small swaths; leaks and skipped tie points are refuted). The code interpolates swaths while tie points
are made missing and present again; the sets of missing and changed pixels are judged by TLC with the predicates of the
specification."""
import dask.array as da
import numpy as np
import xarray as xr

import geo
import interps
from core import Raw, tla

import checks.c07 as c07

ASSUMPTIONS = ["pixels that are not missing are the same within 1e-9 degrees (1e-4 for 32-bit)",
               "VII longitudes and latitudes are on the same side of the threshold with and without the missing tie points"]


def scheme(name, c, k, rows, cols, channels, direct=False, carry=False):
    return dict(name=name, c=c, k=k, rows=rows, cols=cols, channels=channels, direct=direct, carry=carry)


def spec(ctx):
    ll, sz = {"lon", "lat"}, {"lon", "lat", "satz"}
    small = [scheme("simple", 1, 2, 10, 3, ll), scheme("cviirs", 1, 2, 10, 3, sz), scheme("cviirs", 5, 1, 2, 3, sz),
             scheme("vii", 1, 2, 3, 3, ll), scheme("vii", 1, 3, 2, 3, ll, True), scheme("vii", 1, 2, 2, 4, {"data"}, True)]
    if not ctx.quick:
        small += [scheme("simple", 1, 4, 10, 2, ll), scheme("cviirs", 1, 4, 10, 2, sz), scheme("cviirs", 5, 2, 2, 3, sz),
                  scheme("vii", 1, 4, 4, 4, ll), scheme("vii", 1, 8, 2, 3, ll, True)]

    futs = []
    for sc in small:
        one = dict(Schemes=Raw("{%s}" % tla(sc)), NScans=2, MaxLost=2 if sc["rows"] < 10 else 1,
                   MaxSteps=3 if sc["rows"] * sc["cols"] < 10 else 2, Bug="none")
        unused = ["Cviirs", "ViiRows", "ViiCols", "Simple", "Right", "Lines"]
        futs.append(ctx.tlc_async("Missing", one, spec="Spec", invariants=["Enough", "Local", "Sane", "Seen"], workers=3,
                                  allow_unused=unused, label="Missing model check " + sc["name"]))
    for sc, bug, inv in ((small[1], "leak", "Local"), (small[0], "skip", "Enough"), (dict(small[3], carry=True), "carry", "Strict")):
        one = dict(Schemes=Raw("{%s}" % tla(sc)), NScans=2, MaxLost=1, MaxSteps=1, Bug=bug)
        futs.append(ctx.refuted("Missing", one, inv, spec="Spec", invariants=[inv], workers=1, label="Missing with " + bug))
    return futs


def kinds():
    """Name -> (scheme, dtypes, number of missing tie points at most)."""
    out = {}
    for k in (2, 4):
        for cols in (2, 3, 9):
            out["simple %d %d" % (k, cols)] = scheme("simple", 1, k, 10, cols, ["lon", "lat"])
        out["cviirs 1 %d" % k] = scheme("cviirs", 1, k, 10, 1354, ["lon", "lat", "satz"])
    for k in (1, 2, 4):
        for cols in (270, 271):
            out["cviirs 5 %d %d" % (k, cols)] = scheme("cviirs", 5, k, 2, cols, ["lon", "lat", "satz"])
    for rows, cols, k in ((2, 2, 2), (3, 5, 4), (4, 3, 3), (5, 4, 8)):
        out["vii plain %d %d %d" % (rows, cols, k)] = scheme("vii", 1, k, rows, cols, ["data"], True, True)
        out["vii direct %d %d %d" % (rows, cols, k)] = scheme("vii", 1, k, rows, cols, ["lon", "lat"], True, True)
        out["vii cart %d %d %d" % (rows, cols, k)] = scheme("vii", 1, k, rows, cols, ["lon", "lat"], False, True)
    return out


def cases(ctx):
    futs = spec(ctx)
    todo = {}
    n = 0
    for rep in range(1 if ctx.quick else 12):
        for name in kinds():
            small = "simple" in name or "vii" in name
            for container in ("numpy", "dask") if small or not ctx.quick else (["numpy", "dask"][n % 2],):
                n += 1
                todo.setdefault(name.split()[0], []).append(dict(name=name, container=container, dtype=["f8", "f4"][(n + rep) % 2],
                           scans=1 + int(ctx.rng.integers(3)), events=8 if small else 3,
                           place=["europe", "pacific", "antimeridian", "npole", "west"][n % 5] if "vii" not in name else "europe",
                           seed=ctx.seed * 100003 + n))
    for kind, group in todo.items():
        size = 4 if kind == "cviirs" else 6
        for i in range(0, len(group), size):
            yield dict(kind=kind, cases=group[i:i + size])
    strict = dict(name="vii plain 3 5 4", container="numpy", dtype="f8", scans=2, events=1, place="europe", seed=1, strict=True)
    yield dict(kind="carried", cases=[strict], key="vii-missing-carried")
    for f in futs:
        f.result()


def runner(case, sc, arrays):
    """The interpolation: list of arrays (scans * rows, cols), channels -> dict of outputs."""
    from geotiepoints import modisinterpolator as mi, simple_modis_interpolator as smi, viiinterpolator as v
    name = case["name"].split()
    if case["container"] == "dask":
        rows = sc["rows"] if name[0] != "vii" else max(2, sc["rows"] - 1)
        arrays = [da.from_array(a, chunks=(rows, a.shape[1] if name[0] == "cviirs" else 3), name=False) for a in arrays]
    if name[0] == "vii":
        arrays = [xr.DataArray(a, dims=["y", "x"]) for a in arrays]
        if name[1] == "plain":
            out = v.tie_points_interpolation(arrays, sc["rows"], sc["k"])
        else:
            out = v.tie_points_geo_interpolation(*arrays, sc["rows"], sc["k"], 89.9 if name[1] == "direct" else -1)
    elif name[0] == "simple":
        out = getattr(smi, "modis_1km_to_%dm" % (1000 // sc["k"]))(*arrays)
    else:
        out = interps.quiet(getattr(mi, c07.KINDS[sc["c"], sc["k"]]), *arrays)
    return [np.array(x) for x in out]


def records_of(ctx, case):
    rng = np.random.default_rng(case["seed"])
    sc = dict(kinds()[case["name"]])
    if case.get("strict"):
        sc["carry"] = False
    ns, rows, cols = case["scans"], sc["rows"], sc["cols"]
    step = {"cviirs": (5.0 if sc["c"] == 5 else 1.0,) * 2, "simple": (1.0, 1.0)}.get(sc["name"], (15.0, 15.0))
    lon, lat = geo.patch(rng, ns * rows, cols, case["place"], *step, noise=0.1, rps=rows, gap=0.5)
    arrays = [lon, lat]
    if "satz" in sc["channels"]:
        arrays.append(c07.zenith(rng, "slope", *lon.shape))
    if sc["channels"] == ["data"]:
        arrays = arrays[:1]
    arrays = [a.astype(case["dtype"]) for a in arrays]
    outs = ["data"] if sc["channels"] == ["data"] else ["lon", "lat"]
    base = ctx.call(runner, case, sc, arrays)
    if any(np.isnan(x).any() for x in base):
        raise geo.Mismatch("missing values without any missing tie point")
    fr = base[0].shape[0] // ns
    tol = 1e-9 if case["dtype"] == "f8" else 1e-4
    lost = set()
    records = []
    for ev in range(case["events"]):
        if case.get("strict"):
            lost = {(0, rows - 1, 2, "data")}
        elif lost and rng.integers(3) == 0:
            lost = set() if rng.integers(2) else lost - {sorted(lost)[0]}
        else:
            for _ in range(1 + int(rng.integers(2))):
                lost.add((int(rng.integers(ns)), int(rng.choice([0, rows - 1, rng.integers(rows)])),
                          int(rng.choice([0, cols - 1, cols - 2, rng.integers(cols)])), str(rng.choice(sc["channels"]))))
            while len(lost) > 3:
                lost.remove(sorted(lost)[int(rng.integers(len(lost)))])
            if cols < 10 and rng.integers(5) == 0:   # a whole line, column or scan
                s, r, c, ch = sorted(lost)[0]
                style = int(rng.integers(3))
                if style < 2 or ns > 1:   # (latitudes all missing decide nothing about coordinates)
                    lost |= {(s, a, b, ch) for a in range(rows) for b in range(cols) if style == 2 or (a == r if style else b == c)}
        data = [a.copy() for a in arrays]
        for s, r, c, ch in lost:
            data[sc["channels"].index(ch)][s * rows + r, c] = np.nan
        got = ctx.call(runner, case, sc, data)
        missing, changed = [], 0
        for o, g, b in zip(outs, got, base):
            geo.check_shape(g, b.shape, o)
            gone = np.isnan(g)
            bad = ~gone & (np.abs((g.astype("f8") - b + 180) % 360 - 180) > tol)
            changed += int(bad.sum())
            where = np.argwhere(gone)
            if len(where) > 60000:
                where = where[rng.permutation(len(where))[:60000]]
            missing += [[int(r) // fr, int(r) % fr, int(c), o] for r, c in where]
        records.append(dict(scheme=sc, lost=[list(t) for t in sorted(lost)], missing=missing, changed=changed,
                            case=dict(name=case["name"], ns=ns, fr=fr, width=int(base[0].shape[1]), outs=outs)))
        ctx.count("missing pixels judged", len(missing))

    return records


# -- records that must be refused ----------------------------------------------
def far(r):   # a pixel of another place is missing
    sc, c = r["scheme"], r["case"]
    have = {tuple(q) for q in r["missing"]}
    for q in ([0, 0, 0, c["outs"][0]], [c["ns"] - 1, c["fr"] - 1, c["width"] - 1, c["outs"][0]]):
        if all(abs(t[2] - q[2] / sc["k"] / sc["c"]) > 3 or t[0] != q[0] for t in r["lost"]) and tuple(q) not in have:
            r["missing"].append(q)
            return True
    return False


def some(r):   # a pixel is not missing
    if not r["missing"] or not any(t[3] in ("lat", "data") for t in r["lost"]):
        return False
    for t in r["lost"]:
        if t[3] in ("lat", "data") and t[1] < r["scheme"]["rows"] - 1:
            # those of the scan, among them the pixel in the middle of the cell after it
            r["missing"] = [q for q in r["missing"] if q[0] != t[0]]
            return True
    return False


def other(r):
    r["changed"] = 1


def run_case(ctx, case):
    records = []
    for one in case["cases"]:
        records += records_of(ctx, one)
    bad = ctx.judge("Missing", dict(Schemes={0}, NScans=1, MaxLost=0, MaxSteps=0, Bug="none"), records, spoil=[far, some, other],
                    label="missing pixels")
    if bad:
        r = bad[0]
        raise geo.Mismatch("%s: with %s missing, missing pixels (%d) %s, changed pixels %d" % (
            r["case"]["name"], r["lost"], len(r["missing"]), r["missing"][:12], r["changed"]))
