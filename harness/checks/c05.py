"""C05: Splits.tla (TLC: for all small swaths and numbers of workers, splits are legal, and pieces finished in any order
stack to all the lines in order); the splits of the code are recorded for a whole range of sizes and judged by TLC with
the predicate Legal, and the helpers are run with several cores against one core, recording the pieces interpolated by the
workers, which TLC judges likewise."""
import json
import os
import tempfile

import numpy as np

import geo

ASSUMPTIONS = ["positions of the parallel and serial interpolations agree within 0.01 m (the pieces are different splines)"]


def cases(ctx):
    sizes = dict(Scans={1, 2, 3, 4, 5}, LinesPer={1, 2}, Cpus={1, 2, 3}) if ctx.quick else \
        dict(Scans={1, 2, 3, 4, 5, 6, 7, 8, 9}, LinesPer={1, 2, 3}, Cpus={1, 2, 3, 4, 5})
    fut = ctx.tlc_async("Splits", sizes, spec="Spec", invariants=["LegalSplit", "AllLines", "WholeScans"],
                        properties=["Terminates"], workers=4, label="Splits model check")
    top, cpus = (60, 24) if ctx.quick else (250, 70)
    for lp in (1, 2, 10):
        yield dict(kind="splits", lp=lp, scans=top, cpus=cpus)
    yield dict(kind="splits", lp=0, num=600 if ctx.quick else 6000, seed=ctx.seed)
    n, cores, ctx.pieces = 0, [], []
    runs = [(1, 2), (2, 2), (3, 2), (5, 3), (4, 8), (7, 3), (9, 4), (11, 2), (13, 5), (15, 8)] if ctx.quick else \
        [(s, c) for s in (1, 2, 3, 4, 5, 7, 8, 11) for c in (2, 3, 4, 5, 8, 13)]
    for _ in range(6 if ctx.quick else 40):
        runs.append((int(ctx.rng.integers(1, 40)), int(ctx.rng.integers(2, 12))))
    for _ in range(3 if ctx.quick else 20):   # about as many scans as workers
        c = int(ctx.rng.integers(2, 12))
        runs.append((max(1, c + int(ctx.rng.integers(-1, 2))), c))
    for s, c in runs:
        for f in (2, 4):
            if ctx.quick and f == 4 and s > 5:
                continue
            n += 1
            cores.append(dict(kind="cores", f=f, scans=s, cores=c, place=list(geo.PLACES)[n % len(geo.PLACES)],
                       dtype=["f8", "f4"][n % 3 == 1], seed=ctx.seed * 100003 + n))
            yield cores[-1]
    yield dict(kind="pieces", runs=cores)
    fut.result()


def spoil_order(rec):
    if len(rec["splits"]) < 2:
        return False
    rec["splits"].reverse()


def spoil_scan(rec):
    if rec["lp"] == 1 or not rec["splits"]:
        return False
    rec["splits"][0] += 1


def spoil_late(rec):
    rec["splits"].append(rec["ns"] * rec["lp"] + rec["lp"])


def run_case(ctx, case):
    import geotiepoints
    if case["kind"] == "splits":
        lp = case["lp"]
        req = []
        rng = np.random.default_rng(case.get("seed", 0))
        for _ in range(case.get("num", 0)):   # any sizes
            lp, ns, cpus = int(rng.integers(1, 60)), int(10 ** rng.uniform(0, 3)), int(10 ** rng.uniform(0, 2.5))
            got = ctx.call(lambda: [int(x) for x in geotiepoints.get_scene_splits(ns * lp, lp, cpus)])
            req.append(dict(ns=ns, lp=lp, cpus=cpus, splits=got))
        for ns in range(1, case.get("scans", 0) + 1):
            for cpus in range(1, case["cpus"] + 1):
                got = ctx.call(lambda: [int(x) for x in geotiepoints.get_scene_splits(ns * lp, lp, cpus)])
                req.append(dict(ns=ns, lp=lp, cpus=cpus, splits=got))
        bad = ctx.judge("Splits", dict(Scans={1}, LinesPer={1}, Cpus={1}), req, init="TraceInit", next="TraceNext",
                        spoil=[spoil_order, spoil_scan, spoil_late], label="recorded splits")
        if bad:
            raise geo.Mismatch("illegal splits: %s" % bad[0])
        return
    if case["kind"] == "pieces":
        if not getattr(ctx, "pieces", None):
            ctx.pieces = []
            for run in case["runs"]:
                run_case(ctx, run)
        if ctx.pieces:
            bad = ctx.judge("Splits", dict(Scans={1}, LinesPer={1}, Cpus={1}), ctx.pieces, init="TraceInit",
                            next="TraceNext", label="recorded pieces")
            if bad:
                raise geo.Mismatch("illegal pieces: %s" % bad[0])
        return
    rng = np.random.default_rng(case["seed"])
    lon, lat = geo.patch(rng, 10 * case["scans"], 1354, case["place"], 1.0, 1.0, noise=0.3, rps=10, gap=20.0)
    fun = {2: geotiepoints.modis1kmto500m, 4: geotiepoints.modis1kmto250m}[case["f"]]
    lon, lat = lon.astype(case["dtype"]), lat.astype(case["dtype"])
    one = ctx.call(fun, lon, lat)
    with recorded_pieces() as pieces:
        many = ctx.call(fun, lon, lat, cores=case["cores"])
    record_pieces(ctx, case, lon, pieces)
    for a, b in zip(one, many):
        geo.check_shape(b, a.shape, "%d cores" % case["cores"])
        if a.dtype != b.dtype:
            raise geo.Mismatch("%d cores: results of type %s instead of %s" % (case["cores"], b.dtype, a.dtype))
    geo.check_valid(*many)
    err = geo.distance(many[0], many[1], one[0], one[1])
    if not err.max() <= (0.01 if case["dtype"] == "f8" else 15.0):
        raise geo.Mismatch("%d cores: %g m off at %s" % (case["cores"], err.max(), geo.where_worst(err)))


class recorded_pieces:
    """Has the pieces that are interpolated, by this process and those forked from it, written to a file and read back."""

    def __enter__(self):
        from geotiepoints.geointerpolator import GeoInterpolator
        self.cls, self.init = GeoInterpolator, GeoInterpolator.__init__
        fd, self.path = tempfile.mkstemp()
        os.close(fd)
        init, path = self.init, self.path

        def wrapped(obj, lon_lat_data, *args, **kwargs):
            lon = np.asarray(lon_lat_data[0])
            with open(path, "a") as f:
                f.write(json.dumps([len(lon), float(lon[0, 0])]) + "\n")
            init(obj, lon_lat_data, *args, **kwargs)
        GeoInterpolator.__init__ = wrapped
        self.pieces = []
        return self.pieces

    def __exit__(self, *exc):
        self.cls.__init__ = self.init
        with open(self.path) as f:
            self.pieces += [json.loads(line) for line in f]
        os.unlink(self.path)


def record_pieces(ctx, case, lon, pieces):
    """The pieces seen, if they make up the swath, put in order by where they begin."""
    starts = {float(lon[i, 0]): i for i in range(len(lon))}
    if len(starts) != len(lon) or sum(n for n, _ in pieces) != len(lon) or not all(v in starts for _, v in pieces):
        ctx.count("pieces not seen")
        return
    found = sorted((starts[v], n) for n, v in pieces)
    if any(a + n != b for (a, n), (b, _) in zip(found, found[1:] + [(len(lon), 0)])):
        ctx.count("pieces not seen")
        return
    ctx.count("pieces seen", len(found))
    rec = dict(ns=case["scans"], lp=10, cpus=case["cores"], splits=[a for a, _ in found[1:]])
    if not hasattr(ctx, "pieces"):
        ctx.pieces = []
    ctx.pieces.append(rec)
