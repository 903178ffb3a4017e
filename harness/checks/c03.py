"""C03: Swath.tla (TLC: with scratch buffers reused from scan to scan and the swath edited between calls, every fine scan is
only made from its own coarse scan) and replay of its swaths on all the MODIS interpolations: interpolated together, the
scans must be what they are alone, before and after an edit.  Scans of the swaths include missing values and null angles,
so that anything left from another scan shows.  SimpleScan.tla and Cviirs.tla (invariants ScanLocal, Fresh) say the same
write by write and are model checked again here."""
import warnings

import numpy as np

import geo

import checks.c06 as c06
import checks.c07 as c07

ASSUMPTIONS = ["together and alone agree within 1e-3 m (64-bit), 3 m (32-bit), 0.05 m (legacy splines, which are global)"]
LINES = {1: 10, 5: 2}


def funs():
    import geotiepoints
    import geotiepoints.interpolator
    import geotiepoints.modisinterpolator as mi
    import geotiepoints.simple_modis_interpolator as smi
    out = {}
    for f, name in c06.FUNS.items():
        out["simple" + name[5:]] = (getattr(smi, name), 10, 6, 2, f)
    for (c, k), name in c07.KINDS.items():
        out["cviirs" + name[5:]] = (getattr(mi, name), LINES[c], 271 if c == 5 else 1354, 3, c * k)
    out["cviirs_5km_to_1km_short"] = (mi.modis_5km_to_1km, 2, 270, 3, 5)
    out["legacy_1km_to_500m"] = (geotiepoints.modis1kmto500m, 10, 1354, 2, 2)
    out["legacy_1km_to_250m"] = (geotiepoints.modis1kmto250m, 10, 1354, 2, 4)
    out["legacy_5km_to_1km"] = (geotiepoints.modis5kmto1km, 2, 271, 2, 5)
    out["legacy_generic"] = (geotiepoints.interpolator.generic_modis5kmto1km, 2, 271, 2, 5)
    return out


def contents(name, lines, width, nargs, dtype, rng):
    """Scans A and B (different places), N (with missing values), Z (null angles), V (A but for a part of it)."""
    places = list(geo.PLACES)
    out = {}
    for c in "ABNZ":
        lon, lat = geo.patch(rng, lines, width, places[int(rng.integers(len(places)))], 5.0, 1.0, noise=0.3)
        args = [lon, lat]
        if nargs == 3:
            args.append(c07.zenith(rng, {"A": "profile", "B": "slope", "N": "slope", "Z": "zero"}[c], lines, width))
        if c == "N" and not name.startswith("legacy"):
            for a in args:
                a[rng.integers(lines, size=4), rng.integers(width, size=4)] = np.nan
            if rng.random() < 0.5:
                args[0][:] = np.nan
        out[c] = [a.astype(dtype) for a in args]
    out["V"] = [a.copy() for a in out["A"]]
    which = [int(rng.integers(nargs))] if rng.random() < 0.7 else list(range(nargs))
    where = [np.s_[1:], np.s_[:-1], np.s_[int(rng.integers(lines))], np.s_[:, 1:-1], np.s_[:, int(rng.integers(width))],
             np.s_[lines // 2:, width // 3:2 * width // 3], np.s_[:, ::2]][int(rng.integers(7))]
    for k in which:   # the other scan is somewhere else, or this one with other angles
        out["V"][k][where] = out["B"][k][where] if k < 2 else out["A"][k][where] * np.dtype(dtype).type(0.9)
    return out


def cases(ctx):
    futs = [c06.spec(ctx, " (scans)"), c07.spec(ctx)]
    fut = ctx.tlc_async("Swath", dict(Contents={"A", "B"}, MaxScans=3, MaxEdits=2 if ctx.quick else 4), spec="Spec",
                        invariants=["OwnScan", "AllScans", "NoStale"], workers=2, label="Swath model check")
    todo = ctx.tlc("Swath", dict(Contents={"A", "B", "N", "V", "Z"}, MaxScans=4, MaxEdits=1), init="EmitInit", next="EmitNext",
                   workers=1, label="Swath scenarios").emitted
    names = list(funs())
    n = 0
    for name in names:
        for dtype in ("f8", "f4"):
            if dtype == "f4" and name.startswith("legacy"):
                continue
            num = (9 if "250m" in name or "1km_to" in name else 24) if ctx.quick else 120
            if name.startswith("simple"):
                num *= 4
            # always a swath with all the contents, then scenarios at random
            pick = [i for i in ctx.rng.permutation(len(todo)) if len(todo[int(i)]["before"]) > 1]
            # a scan after a similar one in two of three swaths
            like = [i for i in pick if any(x in "".join(todo[int(i)]["before"]) for x in ("AV", "VA"))]
            pick = like[:num - num // 3] + pick[:num // 3]
            for i in pick:
                n += 1
                yield dict(kind=name, dtype=dtype, seed=ctx.seed * 100003 + n, **todo[int(i)])
        for rep in range(1 if ctx.quick else 4):   # long swaths
            if ctx.quick and "250m" in name and not name.startswith("simple"):
                continue
            n += 1
            top = 14 if ctx.quick else 40
            if name.startswith("simple"):
                top = 210
            elif name == "cviirs_5km_to_1km" or name == "legacy_5km_to_1km":
                top = 110
            seq = [str(c) for c in ctx.rng.choice(list("AAVBN"), int(ctx.rng.integers(9 if top < 50 else top - 30, top)))]
            i = int(ctx.rng.integers(len(seq)))
            after = seq[:i] + ["Z" if seq[i] != "Z" else "A"] + seq[i + 1:]
            yield dict(kind=name, dtype="f8", seed=ctx.seed * 100003 + n, before=seq, after=after,
                       same=[k for k in range(len(seq)) if k != i])
    for f in futs + [fut]:
        f.result()


def run_case(ctx, case):
    name = case["kind"]
    fun, lines, width, nargs, factor = funs()[name]
    legacy = name.startswith("legacy")
    rng = np.random.default_rng(case["seed"])
    scans = contents(name, lines, width, nargs, case["dtype"], rng)
    fine = lines * factor if not legacy or lines == 10 else 10

    def go(seq):
        args = [np.concatenate([scans[c][k] for c in seq]) for k in range(nargs)]
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            got = ctx.call(fun, *args)
        got = [np.asarray(g) for g in got]
        geo.check_shape(got[0], (fine * len(seq), got[0].shape[1]), "scans %s" % seq)
        return got

    tol = 0.05 if legacy else 1e-3 if case["dtype"] == "f8" else 3.0
    alone = {c: go([c]) for c in sorted(set(case["before"]) | set(case["after"]))}

    def compare(seq, got):
        for i, c in enumerate(seq):
            mine = [g[i * fine:(i + 1) * fine] for g in got]
            what = "scan %d (%s) of %s" % (i, c, "".join(seq))
            if name == "legacy_generic":
                for a, b in zip(mine, alone[c]):
                    geo.check_close(a, b, 1e-5, what)
                continue
            for a, b in zip(mine, alone[c]):
                if not np.array_equal(np.isnan(a), np.isnan(b)):
                    raise geo.Mismatch("%s: missing values differ from those of the scan alone" % what)
            err = geo.distance(mine[0], mine[1], *alone[c])
            if err.size and not np.nanmax(np.where(np.isnan(err), 0, err)) <= tol:
                raise geo.Mismatch("%s: %g m off the scan alone" % (what, np.nanmax(err)))
    before, after = go(case["before"]), go(case["after"])
    compare(case["before"], before)
    compare(case["after"], after)
    for i in case["same"]:
        sl = slice(i * fine, (i + 1) * fine)
        same = [np.array_equal(a[sl], b[sl], equal_nan=True) for a, b in zip(before, after)]
        ctx.count("scans not edited", 1)
        if not all(same):
            ctx.count("of which not bitwise equal", 1)
