"""C12: Purity.tla (what a caller sees of interpolations) refined by PureImpl.tla (calls with private scratch and output
buffers; TLC: all interleavings; sharing a buffer, writing to inputs, reusing outputs or remembering anything is refuted).
Histories of calls, changes of arrays, of their memory layout and of earlier results, and parallel calls, listed by TLC, are
run on all the interpolations; digests of all the arrays and results are recorded and the traces are validated by TLC, event by
event, against Purity (PureTrace.tla): to the last bits for equal layouts, within a tolerance across layouts; inputs and
results that are kept are compared bitwise."""
import hashlib
import threading

import dask.array as da
import numpy as np
import xarray as xr

import fresh
import geo
import interps
from core import SpecError

import checks.c07 as c07

ASSUMPTIONS = ["results for other memory layouts agree within 1e-6 (64-bit) or 2e-3 (32-bit)",
               "results for the same values in the same layout agree within 1e-10 (64-bit) or 1e-4 (32-bit): where the allocator "
               "puts an array changes the last bit of numpy's sums of products",
               "an interpolator object is given its data once, and used by one thread"]


# -- what is called -----------------------------------------------------------
def functions():
    """Groups of functions of the same arrays: name -> (arrays, functions)."""
    import geotiepoints as gtp
    from geotiepoints import basic_interpolator, geointerpolator as gi, interpolator as it, modisinterpolator as mi
    from geotiepoints import multilinear, simple_modis_interpolator as smi, viiinterpolator as vii
    q = interps.quiet

    def dask_of(fun, chunks):
        def run(*args):
            return [np.asarray(r) for r in fun(*[da.from_array(a, chunks=chunks, name=False) for a in args])]
        return run

    def xr_of(fun):
        def run(*args):
            given = [xr.DataArray(a, dims=["y", "x"], name="n%d" % i, attrs={"units": i}) for i, a in enumerate(args)]
            keep = [g.copy(deep=False) for g in given]
            out = [np.asarray(r.values) for r in fun(*given)]
            for g, k in zip(given, keep):
                if g.dims != k.dims or g.name != k.name or g.attrs != k.attrs or set(g.coords) != set(k.coords):
                    raise geo.Mismatch("a DataArray of the caller was changed")
            return out
        return run

    def listed(fun):
        """Give the arrays in a list that belongs to the caller."""
        def run(*args):
            mine = list(args)
            out = fun(mine)
            if len(mine) != len(args) or any(a is not b for a, b in zip(mine, args)):
                raise geo.Mismatch("the list of arrays of the caller was changed")
            return out
        return run

    def kept(make, use):
        """An interpolator made once for the same values (by each thread) and used again."""
        store = threading.local()

        def run(*args):
            if not hasattr(store, "objects"):
                store.objects = {}
            key = tuple(digest(a) for a in args)
            if key not in store.objects:
                store.objects[key] = make(*[np.array(a, order="C") for a in args])
            return handed_out(use(store.objects[key]))
        return run
    groups = {}
    km1 = {}
    for name in ("modis_1km_to_500m", "modis_1km_to_250m"):
        km1["cviirs " + name] = lambda lo, la, sz, f=getattr(mi, name): q(f, lo, la, sz)
        km1["simple " + name] = lambda lo, la, sz, f=getattr(smi, name): f(lo, la)
    km1["cviirs dask"] = lambda lo, la, sz: q(dask_of(mi.modis_1km_to_500m, (10, 500)), lo, la, sz)
    km1["legacy 500"] = lambda lo, la, sz: gtp.modis1kmto500m(lo, la)
    km1["legacy 250"] = lambda lo, la, sz: gtp.modis1kmto250m(lo, la)
    groups["1km"] = (((20, 1354), True), km1)
    km5 = {}
    for name in ("modis_5km_to_1km", "modis_5km_to_500m", "modis_5km_to_250m"):
        km5["cviirs " + name] = lambda lo, la, sz, f=getattr(mi, name): q(f, lo, la, sz)
    km5["cviirs xarray"] = lambda lo, la, sz: q(xr_of(mi.modis_5km_to_1km), lo, la, sz)
    km5["legacy 1km"] = lambda lo, la, sz: gtp.modis5kmto1km(lo, la)
    km5["generic"] = lambda lo, la, sz: it.generic_modis5kmto1km(lo, la, sz)
    groups["5km"] = (((4, 271), True), km5)
    small = {"simple 500": smi.modis_1km_to_500m, "simple 250": smi.modis_1km_to_250m,
             "simple dask": dask_of(smi.modis_1km_to_250m, (7, 3)), "simple xarray": xr_of(smi.modis_1km_to_500m)}
    groups["small"] = (((20, 7), False), small)
    groups["avhrr"] = (((3, 105), False), {"metop": gtp.metop20kmto1km, "metop again": gtp.metop20kmto1km})
    ties, fine = (np.array([0, 3, 5, 9, 12]),) * 2, (np.arange(13), np.arange(0, 12.5, 0.5))
    out = (np.arange(-1, 14), np.arange(-2, 15))
    sty = {
        "GeoInterpolator": lambda lo, la: gi.GeoInterpolator((lo, la), ties, fine, 2, 3).interpolate(),
        "GeoInterpolator filled": lambda lo, la: filled(gi.GeoInterpolator((lo, la), ties, out, 1, 3)),
        "Interpolator": lambda lo, la: it.Interpolator([lo, la], ties, fine, 1, 3).interpolate(),
        "Interpolator filled": lambda lo, la: filled(it.Interpolator([lo, la], ties, out, 1, 3)),
        "Interpolator rows": lambda lo, la: it.Interpolator([lo, la], ties, (ties[0], fine[1]), 1, 3).interpolate(),
        "GeoGrid": lambda lo, la: gi.GeoGridInterpolator(ties, lo, la).interpolate(fine),
        "GeoGrid lazy": lambda lo, la: [np.asarray(r) for r in gi.GeoGridInterpolator(ties, lo, la).interpolate(fine, chunks=4)],
        "GeoSpline": lambda lo, la: gi.GeoSplineInterpolator(ties, lo, la, kx=2, ky=3).interpolate(fine),
        "MultipleGrid": lambda lo, la: list(it.MultipleGridInterpolator(ties, lo, la).interpolate_to_shape((13, 13))),
        "MultipleSpline": lambda lo, la: list(it.MultipleSplineInterpolator(ties, lo, la, kx=1, ky=2).interpolate_to_shape(
            (13, 13), chunks=5)),
        "SingleGrid": lambda lo, la: [it.SingleGridInterpolator(ties, la, method="pchip").interpolate(fine)],
        "SingleSpline": lambda lo, la: [it.SingleSplineInterpolator(ties, lo, kx=3, ky=1).interpolate(fine, chunks=(3, -1))],
        "Basic": lambda lo, la: basic_interpolator.BasicSatelliteInterpolator(ties[1], ties[0], la, lo).interpolate(),
        "vii": lambda lo, la: xr_of(lambda a, b: vii.tie_points_interpolation([a, b], 5, 3))(lo, la),
        "vii geo": lambda lo, la: xr_of(lambda a, b: vii.tie_points_geo_interpolation(a, b, 5, 3))(lo, la),
        "vii cart": lambda lo, la: xr_of(lambda a, b: vii.tie_points_geo_interpolation(a, b, 5, 3, -1))(lo, la),
        "multilinear": lambda lo, la: [multi(multilinear, lo, la)],
    }
    sty["Interpolator list"] = listed(lambda d: it.Interpolator(d, ties, fine, 1, 3).interpolate())
    sty["Interpolator list filled"] = listed(lambda d: filled(it.Interpolator(d, ties, out, 1, 3, chunk_size=15)))
    sty["GeoInterpolator list filled"] = listed(lambda d: filled(gi.GeoInterpolator(d, ties, out, 1, 3)))
    sty["generic list"] = listed(lambda d: it.Interpolator(d, ties, (ties[0], fine[1]), 1, 3).interpolate())
    sty["vii list"] = lambda lo, la: xr_of(lambda *d: listed(lambda m: vii.tie_points_interpolation(m, 5, 3))(*d))(lo, la)
    sty["kept Interpolator"] = kept(lambda lo, la: it.Interpolator([lo, la], ties, fine, 1, 3), lambda o: o.interpolate())
    sty["kept Interpolator rows"] = kept(lambda lo, la: it.Interpolator([lo, la], ties, (ties[0], fine[1]), 1, 3),
                                         lambda o: o.interpolate())
    sty["kept Interpolator filled"] = kept(lambda lo, la: it.Interpolator((lo, la), ties, out, 1, 3), filled)
    sty["kept GeoInterpolator"] = kept(lambda lo, la: gi.GeoInterpolator((lo, la), ties, fine), lambda o: o.interpolate())
    for lazy in (None, (4, 6)):
        more = " lazy" if lazy else ""
        sty["kept GeoGrid" + more] = kept(lambda lo, la: gi.GeoGridInterpolator(ties, lo, la),
                                          lambda o, lazy=lazy: o.interpolate(fine, chunks=lazy))
        sty["kept GeoSpline" + more] = kept(lambda lo, la: gi.GeoSplineInterpolator(ties, lo, la, kx=1, ky=3),
                                            lambda o, lazy=lazy: o.interpolate_to_shape((13, 13), chunks=lazy))
        sty["kept MultipleGrid" + more] = kept(lambda lo, la: it.MultipleGridInterpolator(ties, lo, la, method="nearest"),
                                               lambda o, lazy=lazy: list(o.interpolate(fine, chunks=lazy)))
        sty["kept SingleSpline" + more] = kept(lambda lo, la: it.SingleSplineInterpolator(ties, lo),
                                               lambda o, lazy=lazy: [o.interpolate(fine, chunks=lazy)])
    sty["kept Basic"] = kept(lambda lo, la: basic_interpolator.BasicSatelliteInterpolator(ties[1], ties[0], la, lo),
                             lambda o: o.interpolate())
    pts = np.stack([np.linspace(-0.5, 4.5, 23), np.linspace(4.2, -0.3, 23)])
    for more, use in (("", lambda o: [o(pts)]), (" twice", lambda o: [o(pts), o.interpolate(pts[:, :9])])):
        sty["kept multilinear" + more] = kept(lambda lo, la: multilinear.MultilinearInterpolator(
            [0.0, 0.0], [4.0, 4.0], [5, 5], np.stack([lo.ravel(), la.ravel()])), use)
    for name in ("MultipleSpline", "SingleSpline"):
        sty[name] = lambda lo, la, f=sty[name]: [np.asarray(r) for r in f(lo, la)]
    groups["grid"] = (((5, 5), False), sty)
    groups["request"] = (((13,), False), requests(ties[0], np.arange(25.0).reshape(5, 5) ** 1.5))
    groups["points"] = (((2, 13), False), {"kept points": held(lambda: multilinear.MultilinearInterpolator(
        [0.0, 1.0], [12.0, 11.0], [5, 5], np.arange(75.0).reshape(3, 25) ** 1.5), lambda o, pts: [o(pts)]),
        "kept set values": held(lambda: multilinear.MultilinearInterpolator([0.5], [12.0], [13]), valued),
        "kept values": held(lambda: multilinear.MultilinearInterpolator([0.0], [12.0], [13], np.ones((2, 13))), valued)})
    groups["positions"] = list(ties[:1]) + list(fine) + list(out) + [pts]
    return groups


def held(make, use):
    """An interpolator made once (by each thread) that is given the arrays."""
    store = threading.local()

    def run(*args):
        if not hasattr(store, "object"):
            store.object = make()
        return handed_out(use(store.object, *args))
    return run


def valued(o, values):
    o.set_values(values)
    return [o(np.linspace(-0.3, 12.4, 21)[None, :])]


def requests(ties, data):
    """Interpolations to fine positions that belong to the caller."""
    from geotiepoints import geointerpolator as gi, interpolator as it
    a, funs = (ties, ties), {}
    makers = {"SingleGrid": lambda: it.SingleGridInterpolator(a, data), "GeoGrid": lambda: gi.GeoGridInterpolator(a, data, data / 2),
              "MultipleGrid": lambda: it.MultipleGridInterpolator(a, data, data.T, method="nearest"),
              "SingleSpline": lambda: it.SingleSplineInterpolator(a, data),
              "MultipleSpline": lambda: it.MultipleSplineInterpolator(a, data, data.T, kx=1, ky=2),
              "GeoSpline": lambda: gi.GeoSplineInterpolator(a, data, data / 2)}
    for name, make in makers.items():
        for lazy in (None, (4, 6)):
            def use(o, y, x, lazy=lazy, single=name.startswith("Single")):
                res = o.interpolate((y, x), chunks=lazy)
                return [np.asarray(r) for r in ([res] if single else res)]
            funs["kept %s %s" % (name, "lazy" if lazy else "request")] = held(make, use)
    return funs


# shapes of the arrays of each group
SHAPES = {"1km": [(10, 1354), (20, 1354)], "5km": [(2, 271), (4, 271), (4, 270), (2, 270), (6, 271)],
          "small": [(10, 7), (20, 7), (10, 2), (30, 3), (20, 5)], "avhrr": [(1, 105), (3, 105), (5, 105)], "grid": [(5, 5)],
          "mixed": [(6, 6)]}
NOT270 = {"legacy 1km", "generic"}   # (they need 271 columns)


PARTS = ["ties", "fine", "order", "method", "chunks", "scan", "factor", "latitude", "z", "radius", "limits", "shape", "points"]


def options(rng):
    """Options of interpolations, part by part."""
    def axis():
        t = np.cumsum(rng.integers(1, 5, 6))
        return t - t[0]

    def draw(part, o):
        if part == "ties":
            o["ties"] = tuple(axis() for _ in range(2))
        if part in ("ties", "fine"):
            o["fine"] = tuple(np.arange(t[-1] + 1) if rng.random() < 0.3 else np.unique(rng.integers(0, 2 * t[-1] + 1, 12)) / 2.0
                              for t in o["ties"])
            if rng.random() < 0.3:
                o["fine"] = o["ties"][0], o["fine"][1]
            lo, hi = (int(x) for x in rng.integers(1, 4, 2))
            o["out"] = tuple(np.arange(-lo, t[-1] + hi) for t in o["ties"])
        elif part == "order":
            o["k"] = [int(x) for x in rng.integers(1, 5, 2)]
        elif part == "method":
            o["methods"] = [str(m) for m in rng.permutation(["linear", "nearest", "slinear", "pchip"])]
        elif part == "chunks":
            o["chunks"] = int(rng.integers(1, 9))
        elif part == "scan":
            o["scan"] = [2, 3, 6][int(rng.integers(3))]
        elif part == "factor":
            o["factor"] = int(rng.integers(1, 9))
        elif part == "latitude":
            o["latitude"] = [-1.0, 60.0, 91.0][int(rng.integers(3))]
        elif part == "z":
            o["z"], o["low"] = float(rng.uniform(0, 1)), bool(rng.integers(2))
        elif part == "radius":
            o["radius"] = float(10 ** rng.uniform(-1, 7))
        elif part == "limits":
            o["limits"] = np.sort(rng.uniform(-5, 5, (2, 2)), 0)
        elif part in ("shape", "points"):
            if part == "shape":   # (then points)
                o["shape"] = [[6, 6], [36], [4, 9], [9, 4]][int(rng.integers(4))]
            o["points"] = rng.uniform(-6, 6, (len(o["shape"]), 17))
    return draw


VARIANTS = 5


def mixed(seed):
    """Interpolations with all sorts of options: "n.v name", the variants v of n differing in one or two options."""
    from geotiepoints import basic_interpolator, geointerpolator as gi, interpolator as it, multilinear, viiinterpolator as vii
    rng = np.random.default_rng(seed)
    draw = options(rng)
    out = {}

    def xrs(*arrays):
        return [xr.DataArray(x, dims=["y", "x"]) for x in arrays]

    def every(o):
        a, b, k, m = o["ties"], o["fine"], o["k"], o["methods"]
        yield "Interpolator", lambda lo, la: it.Interpolator([lo, la], a, b, *k).interpolate()
        yield "GeoInterpolator", lambda lo, la: gi.GeoInterpolator((lo, la), a, b, *k).interpolate()
        yield "filled", lambda lo, la: filled(it.Interpolator([lo, la], a, o["out"], 1, k[1]))
        yield "geo filled", lambda lo, la: filled(gi.GeoInterpolator((lo, la), a, o["out"]))
        yield "grid", lambda lo, la: list(it.MultipleGridInterpolator(a, lo, la, method=m[0]).interpolate(b, method=m[1]))
        yield "grid lazy", lambda lo, la: [np.asarray(x) for x in it.MultipleGridInterpolator(a, lo, la, method=m[2]).interpolate(
            b, chunks=o["chunks"])]
        yield "geo grid", lambda lo, la: gi.GeoGridInterpolator(a, lo, la, method=m[3]).interpolate(b)
        yield "grid to shape", lambda lo, la: list(it.MultipleGridInterpolator(a, lo, la, method=m[0]).interpolate_to_shape(
            [t[-1] + 1 for t in a]))
        yield "single slices", lambda lo, la: [it.SingleGridInterpolator(a, x, method=m[0]).interpolate_slices(
            (slice(0, a[0][-1], 1 + k[0] % 2), slice(1, a[1][-1], k[1]))) for x in (lo, la)]
        yield "spline lazy", lambda lo, la: [np.asarray(x) for x in it.MultipleSplineInterpolator(
            a, lo, la, kx=k[0], ky=k[1]).interpolate(b, chunks=o["chunks"])]
        yield "spline", lambda lo, la: [it.SingleSplineInterpolator(a, x, kx=k[0], ky=k[1]).interpolate(b) for x in (lo, la)]
        yield "geo spline", lambda lo, la: gi.GeoSplineInterpolator(a, lo, la, kx=k[0], ky=k[1]).interpolate(b)
        yield "basic", lambda lo, la: basic_interpolator.BasicSatelliteInterpolator(a[1], a[0], la, lo).interpolate()
        yield "vii", lambda lo, la: [np.asarray(x.values) for x in vii.tie_points_interpolation(
            xrs(lo, la), o["scan"], o["factor"])]
        yield "vii geo", lambda lo, la: [np.asarray(x.values) for x in vii.tie_points_geo_interpolation(
            *xrs(lo, la), o["scan"], o["factor"], o["latitude"], o["z"])]
        yield "convert", lambda lo, la: list(gi.lonlat2xyz(lo, la, o["radius"]))
        yield "convert back", lambda lo, la: list(gi.xyz2lonlat(
            *[o["radius"] * 0.9 * x for x in (np.cos(np.deg2rad(lo)), np.sin(np.deg2rad(lo)) * np.cos(np.deg2rad(la)),
                                              np.sin(np.deg2rad(la)) * 0.5)], o["radius"], o["z"], o["low"]))
        dims = o["shape"]
        yield "multilinear", lambda lo, la: [multilinear.MultilinearInterpolator(
            o["limits"][0][:len(dims)], o["limits"][1][:len(dims)], dims, np.stack([lo.ravel(), la.ravel()]))(o["points"])]
    for n in range(5):
        base = {}
        for part in PARTS:
            draw(part, base)
        for v in range(VARIANTS):
            o = dict(base)
            if v:
                for part in rng.choice(PARTS, 5, replace=False):
                    draw(str(part), o)
            for name, fun in every(o):
                out["%d.%d %s" % (n, v, name)] = fun
    return out


def all_functions(seed):
    groups = functions()
    for name in ("positions", "request", "points"):   # (these only have kept interpolators)
        groups.pop(name)
    groups["mixed"] = (((6, 6), False), mixed(seed))
    return groups


def call_fresh(seed, group, fun, arrays):
    return [np.asarray(r) for r in all_functions(seed)[group][1][fun](*arrays)]


def handed_out(res):
    """The list that was handed out, if it is one: the caller may keep it."""
    if isinstance(res, list) and all(type(r) is np.ndarray for r in res):
        return res
    return [np.asarray(r) for r in res]


def filled(it):
    it.fill_borders("y", "x")
    return it.interpolate()


def multi(multilinear, lo, la):
    interp = multilinear.MultilinearInterpolator([0.0, 0.0], [4.0, 4.0], [5, 5])
    interp.set_values(np.stack([lo.ravel(), la.ravel()]))
    pts = np.stack([np.linspace(-0.5, 4.5, 23), np.linspace(4.2, -0.3, 23)]).astype(lo.dtype)
    if lo.dtype != np.float64:   # all arrays of one type
        interp = multilinear.MultilinearInterpolator(np.array([0.0, 0.0], lo.dtype), np.array([4.0, 4.0], lo.dtype), [5, 5])
        interp.set_values(np.stack([lo.ravel(), la.ravel()]))
    return interp(pts)


# -- arrays -------------------------------------------------------------------
LAYOUTS = ["C", "F", "strided", "reversed", "readonly", "field", "column"]


def lay(arr, style):
    """The same values in another memory layout."""
    if arr.ndim == 1:
        return lay(arr[:, np.newaxis], style)[:, 0]
    if style == "C":
        return np.array(arr, order="C")
    if style == "F":
        return np.array(arr, order="F")
    if style == "strided":
        big = np.full((arr.shape[0] * 2, arr.shape[1] * 3), 7.5, arr.dtype)
        big[1::2, ::3] = arr
        return big[1::2, ::3]
    if style == "reversed":
        return np.array(arr[::-1, ::-1])[::-1, ::-1]
    if style == "readonly":
        new = np.array(arr)
        new.flags.writeable = False
        return new
    if style == "field":
        rec = np.zeros(arr.shape, dtype=[("flag", "i1"), ("value", arr.dtype)])
        rec["value"] = arr
        return rec["value"]
    return np.array(np.stack([arr, arr + 1], -1))[..., 0]   # one of two interleaved fields


def change(arr, spot):
    """Change one element, of positions between its neighbours."""
    if arr.ndim == 2:
        arr[spot] += arr.dtype.type(0.25)
    else:
        arr[spot] = (arr[spot] + (arr[spot[0] + 1] if spot[0] + 1 < len(arr) else 12)) / 2


def digest(arr):
    arr = np.asarray(arr)
    h = hashlib.sha1()
    h.update(("%s %s" % (arr.dtype, arr.shape)).encode())
    h.update(np.ascontiguousarray(arr).tobytes())
    return h.hexdigest()[:16]


def cases(ctx):
    all_functions(0)   # imports
    ctx.fresh = fresh.Zygote(call_fresh)
    base = dict(Threads={"t", "u"}, Arrays={"a"}, Funs={"f"}, Scans=2, Contents={"p", "q"}, MaxCalls=3, MaxWrites=1, Bug="none")
    sets = [base, dict(base, Scans=1, Arrays={"a", "b"}, Funs={"f", "g"}, MaxCalls=2)]
    if not ctx.quick:
        sets += [dict(base, Threads={"t", "u", "v"}, MaxCalls=4, MaxWrites=2), dict(base, Arrays={"a", "b"}, Funs={"f", "g"}),
                 dict(base, Scans=3, MaxWrites=2)]
    futs = [ctx.tlc_async("PureImpl", s, spec="Spec", invariants=["Right"], properties=["Pure"], workers=4,
                          label="PureImpl model check") for s in sets]
    for bug in ("shared scratch", "writes input", "reused output", "remembers"):
        futs.append(ctx.refuted("PureImpl", dict(base, Bug=bug), "Pure", spec="Spec", properties=["Pure"], workers=2,
                                label="PureImpl with " + bug))
    hists = ctx.tlc("PureImpl", dict(base, MaxCalls=4), init="HInit", next="HNext", invariants=["HEmit"], workers=1,
                    coverage=False, label="histories").emitted
    again = [h for h in hists if called_again(h["hist"])]
    groups = functions()
    groups.pop("positions")
    n = 0
    for rep in range(1 if ctx.quick else 10):
        for group, (_, funs) in groups.items():
            names = sorted(funs)
            for start in range(len(names)):
                f1, f2 = names[start], names[(start + 1 + rep) % len(names)]
                small = group in ("grid", "request", "points")
                hs = [hists[int(i)]["hist"] for i in ctx.rng.integers(len(hists), size=3 if small else 1)]
                hs += [again[int(i)]["hist"] for i in ctx.rng.integers(len(again), size=2 if small else 1)]
                n += 1
                yield dict(kind="history", group=group, funs=[f1, f2], dtype=["f8", "f4"][n % 2], hists=hs,
                           seed=ctx.seed * 100003 + n)
            n += 1
            yield dict(kind="layouts", group=group, funs=names, dtype=["f8", "f4"][n % 2], seed=ctx.seed * 100003 + n)
            yield dict(kind="parallel", group=group, funs=names, dtype=["f8", "f4"][n % 2], threads=4,
                       rounds=3 if ctx.quick else 20, seed=ctx.seed * 100003 + n)
    for rep in range(5 if ctx.quick else 60):
        n += 1
        yield dict(kind="fresh", group="grid", dtype="f8", calls=60, seed=ctx.seed * 100003 + n)
    ctx.fresh.close()
    for f in futs:
        f.result()


def called_again(hist):
    """A call that is made again after a change of its arrays in place."""
    for i, op in enumerate(hist):
        if op[0] == "call" and op in hist[i + 1:]:
            j = i + 1 + hist[i + 1:].index(op)
            if ["write", op[2]] in hist[i:j]:
                return True
    return False


class Recorder:
    """Runs operations and records what the caller sees."""

    def __init__(self, ctx, case):
        self.ctx, self.case = ctx, case
        self.rng = np.random.default_rng(case["seed"])
        groups = functions()
        self.positions = groups["positions"]
        (self.shape, self.angles), self.funs = groups[case["group"]]
        self.dtype = np.dtype(case["dtype"])
        self.events = []
        self.lock = threading.Lock()
        self.classes, self.firsts = {}, {}
        self.reset()

    def reset(self):
        if self.events:
            self.log(e="reset")
        self.bundles, self.results, self.seen = {}, [], []
        for name in (1, 2):
            self.bundles[name] = self.fresh()
            self.log_bundle(name)
        for i, a in enumerate(self.positions):
            self.log(e="write", a="0.%d" % i, v=digest(a))

    def fresh(self):
        if self.case["group"] in ("request", "points"):
            arrays = [np.sort(self.rng.uniform(0.5, 11.5, self.shape)) + np.linspace(0, 0.4, self.shape[-1]) for _ in range(2)]
            return [lay(a.astype(self.dtype), "C") for a in arrays[:1 if len(self.shape) > 1 else 2]]
        place = ["europe", "pacific", "west", "antimeridian"][int(self.rng.integers(4))]
        steps = {"5km": (10.0, 1.0), "avhrr": (1.0, 5.0), "1km": (1.0, 1.0)}.get(self.case["group"], (20.0, 20.0))
        arrays = list(geo.patch(self.rng, *self.shape, place, *steps, noise=0.2, rps=None))
        if self.angles:
            arrays.append(c07.zenith(self.rng, "slope", *self.shape))
        return [lay(a.astype(self.dtype), "C") for a in arrays]

    def log(self, **event):
        self.events.append(event)

    def log_bundle(self, name):
        for i, a in enumerate(self.bundles[name]):
            self.log(e="write", a="%d.%d" % (name, i), v=digest(a))

    def names(self, bundle):
        return ["%d.%d" % (bundle, i) for i in range(len(self.bundles[bundle]))]

    def layout(self, arrays):
        """What two arrays must share to give the same result bit by bit."""
        return "/".join("%s%s" % ([s // a.itemsize if s % a.itemsize == 0 else s / a.itemsize for s in a.strides],
                                  a.flags.aligned) for a in arrays)

    def call(self, thread, fun, bundle):
        arrays = self.bundles[bundle]
        args = self.names(bundle)
        layout = self.layout(arrays)
        with self.lock:
            self.log(e="start", t=thread, f=fun, args=args, vals=[digest(a) for a in arrays], layout=layout)
        out = self.ctx.call(lambda: handed_out(self.funs[fun](*arrays)))
        after = [digest(a) for a in arrays]
        with self.lock:
            cls = "%s#%d" % (fun, self.classify(fun, out, 1e-6 if self.dtype == np.float64 else 2e-3))
            self.results.append(out)
            self.seen.append((self.digests(out), self.canonical(fun, layout, out)))
            self.log(e="return", t=thread, out=self.seen[-1][1], cls=cls, after=after)

    def after_others(self, case):
        """Calls of all sorts in this process, after the same calls in fresh ones."""
        groups = all_functions(case["seed"])
        jobs = []
        self.bundles = {}
        for num in range(3, 20):
            group = list(groups)[num % len(groups)] if num < 10 else "mixed" if num % 2 else "5km"
            shape = SHAPES[group][int(self.rng.integers(len(SHAPES[group])))]
            self.shape, self.angles = shape, groups[group][0][1]
            self.case = dict(case, group=group)
            self.dtype = np.dtype(["f8", "f8", "f4"][int(self.rng.integers(3))])
            self.bundles[num] = self.fresh()
            self.log_bundle(num)
            self.bundles[-num] = self.sibling(num)
            self.log_bundle(-num)
            funs = [f for f in sorted(groups[group][1]) if not f.startswith("kept") and (shape[1] != 270 or f not in NOT270)]
            jobs.append((num, group, funs))
        for _ in range(case["calls"]):
            num, group, funs = jobs[int(self.rng.integers(len(jobs)))]
            fun = funs[int(self.rng.integers(len(funs)))]
            self.dtype = self.bundles[num][0].dtype
            todo = [(fun, num), (fun, -num)] if self.rng.random() < 0.5 else [(fun, num)]
            if group == "mixed":   # variants of a request on the same arrays
                n, name = fun.split(".", 1)
                same = ["%s.%d%s" % (n, v, name[1:]) for v in self.rng.permutation(VARIANTS)]
                todo = [(f, num) for f in same[:int(self.rng.integers(1, VARIANTS + 1))]] + todo[1:]
            self.funs = {}
            for f, i in todo:   # the calls in fresh processes do not come in between
                key = "%s %s" % (group, f)
                self.funs[key] = lambda *arrays, f=f: self.in_fresh(case["seed"], group, f, arrays)
                self.call("fresh", key, i)
            for f, i in todo:
                key = "%s %s" % (group, f)
                self.funs[key] = groups[group][1][f]
                self.call("main", key, i)
        self.check()

    def sibling(self, num):
        """The same arrays but for one element inside."""
        arrays = [lay(a, "C") for a in self.bundles[num]]
        a = arrays[int(self.rng.integers(len(arrays)))]
        spot = tuple(int(self.rng.integers(n // 3, n - n // 3)) for n in a.shape)
        change(a, spot)
        return arrays

    def in_fresh(self, *args):
        how, out = self.ctx.fresh(*args)
        if how == "error":
            raise geo.Mismatch("a call in a new process failed: %s" % out)
        return out

    def digests(self, out):
        return "-".join(digest(r) for r in out)

    def classify(self, key, out, tol):
        """Number of the first result that is close to this one."""
        known = self.classes.setdefault(key, [])
        for i, other in enumerate(known):
            if len(other) == len(out) and all(
                    a.shape == b.shape and a.dtype == b.dtype and np.array_equal(np.isnan(a), np.isnan(b)) and
                    (np.array_equal(a, b, equal_nan=True) or
                     np.nanmax(np.abs((a.astype("f8") - b + 180) % 360 - 180), initial=0) <= tol) for a, b in zip(other, out)):
                return i
        known.append([r.copy() for r in out])
        return len(known) - 1

    def canonical(self, fun, layout, out):
        """The digests of the first result that is this one but for rounding: numpy's sums of products depend on where the
        allocator puts arrays (aligned to 16 or 64 bytes)."""
        firsts = self.firsts.setdefault((fun, layout), [])
        i = self.classify((fun, layout), out, 1e-10 if self.dtype == np.float64 else 1e-4)
        if i == len(firsts):
            firsts.append(self.digests(out))
        return firsts[i]

    def write(self, bundle):
        arrays = self.bundles[bundle]
        i = int(self.rng.integers(len(arrays)))
        if not arrays[i].flags.writeable:
            self.bundles[bundle][i] = lay(arrays[i], "C")
        a = self.bundles[bundle][i]
        change(a, tuple(int(self.rng.integers(s)) for s in a.shape))
        self.log(e="write", a="%d.%d" % (bundle, i), v=digest(a))

    def relayout(self, bundle, style=None):
        for i, a in enumerate(self.bundles[bundle]):
            self.bundles[bundle][i] = lay(a, style or LAYOUTS[int(self.rng.integers(len(LAYOUTS)))])
        self.log_bundle(bundle)

    def scribble(self, which=None):
        if not self.results:
            return
        k = int(self.rng.integers(len(self.results))) if which is None else which
        for r in self.results[k]:
            if r.flags.writeable:
                r[...] = -1
        self.seen[k] = (self.digests(self.results[k]),) * 2
        self.log(e="scribble", r=k + 1, v=self.seen[k][1], cls="scribbled")

    def check(self):
        res = [self.digests(r) for r in self.results]
        self.log(e="check", res=[canon if now == then else now for now, (then, canon) in zip(res, self.seen)],
                 arr=[[n, digest(a)] for b in self.bundles for n, a in zip(self.names(b), self.bundles[b])] +
                     [["0.%d" % i, digest(a)] for i, a in enumerate(self.positions)])

    def parallel(self, jobs):
        barrier = threading.Barrier(len(jobs))
        errors = []

        def work(num, todo):
            try:
                barrier.wait()
                for fun, bundle in todo:
                    self.call("t%d" % num, fun, bundle)
            except Exception as err:
                errors.append(err)
        threads = [threading.Thread(target=work, args=(i, j)) for i, j in enumerate(jobs)]
        for t in threads:
            t.start()
        for t in threads:
            t.join()
        if errors:
            raise errors[0]

    # -- projections on the variables of the specification
    def traces(self):
        bits, near = [], []
        cls = {}
        for ev in self.events:
            one = {k: v for k, v in ev.items() if k not in ("layout", "cls")}
            if ev["e"] == "start":
                bits.append(dict(one, f=ev["f"] + " " + ev["layout"]))
                near.append(one)
            elif ev["e"] in ("return", "scribble"):
                bits.append(one)
                near.append(dict(one, **{"out" if ev["e"] == "return" else "v": ev["cls"]}))
                cls[one.get("out", one.get("v"))] = ev["cls"]
            elif ev["e"] == "check":
                bits.append(one)
                near.append(None)
            else:
                bits.append(one)
                near.append(one)
        return bits, [x for x in near if x is not None]


def validate(ctx, trace, label):
    res = ctx.tlc("PureTrace", {}, spec="TSpec", req=trace, workers=1, coverage=False, label=label)
    if res.distinct == len(trace) + 1:
        return None
    return res.distinct - 1


def run_case(ctx, case):
    rec = Recorder(ctx, case)
    if case["kind"] == "history":
        for num, hist in enumerate(case["hists"]):
            if num:
                rec.reset()
            for op in hist:
                if op[0] == "call":
                    rec.call("main", case["funs"][op[1] - 1], op[2])
                elif op[0] == "write":
                    rec.write(op[1])
                elif op[0] == "layout":
                    rec.relayout(op[1])
                elif op[0] == "scribble":
                    rec.scribble()
                else:
                    rec.parallel([[(case["funs"][i % 2], 1 + i // 2 % 2)] for i in range(4)])
                rec.check()
            # the same values in other arrays, by a thread (and interpolators) that nobody used before
            used = sorted({(case["funs"][op[1] - 1], op[2]) for op in hist if op[0] == "call"})
            if used:
                for bundle in (1, 2):
                    rec.relayout(bundle, "C")
                rec.parallel([used])
                rec.check()
    elif case["kind"] == "fresh":
        rec.after_others(case)
    elif case["kind"] == "layouts":
        for fun in case["funs"]:
            for style in LAYOUTS:
                rec.relayout(1, style)
                rec.call("main", fun, 1)
                rec.call("main", fun, 1)
                rec.scribble(len(rec.results) - 1)
                rec.call("main", fun, 1)
        rec.check()
    else:
        for rnd in range(case["rounds"]):
            jobs = []
            for t in range(case["threads"]):
                jobs.append([(case["funs"][int(i)], 1 + int(b)) for i, b in zip(
                    rec.rng.integers(len(case["funs"]), size=3), rec.rng.integers(2, size=3))])
            rec.parallel(jobs)
            # the same calls, one after the other
            for j in jobs:
                for fun, bundle in j:
                    rec.call("main", fun, bundle)
            rec.check()
            rec.reset()
    bits, near = rec.traces()
    ctx.count("events validated", len(bits) + len(near))
    trace = bits + [dict(e="reset")] + near   # of functions of other names: what was seen of the first does not matter
    stuck = validate(ctx, trace, "traces")
    if stuck is not None:
        raise geo.Mismatch("%s: event %d is not a step of Purity.tla: %s, after %s" % (
            "bitwise" if stuck <= len(bits) else "across layouts", stuck, str(trace[stuck])[:400],
            str(trace[max(0, stuck - 3):stuck])[:800]))
    if ctx.counts.get(case["kind"], 0) == 0:
        spoil(ctx, bits)


def spoil(ctx, trace):
    """Changed traces must be refused."""
    def bad(change):
        copy = [dict(e) for e in trace]
        change(copy)
        if validate(ctx, copy, "spoilt traces") is None:
            raise SpecError("a spoilt trace is accepted")
        ctx.count("spoilt traces refused")

    def last(name):
        return [i for i, e in enumerate(trace) if e["e"] == name][-1]

    def after(t):
        t[last("return")]["after"] = ["0"] * len(t[last("return")]["after"])

    def lost(t):
        del t[last("return")]

    def held(t):
        i = last("check")
        t[i]["res"] = t[i]["res"][:-1] + ["0"]
    if any(e["e"] == "return" for e in trace):
        bad(after)
        bad(lost)
        if trace[last("check")]["res"]:
            bad(held)
    keys = {}
    for i, e in enumerate(trace):
        if e["e"] == "start":
            keys[e["t"]] = (e["f"], tuple(e["vals"]))
        elif e["e"] == "return":
            k = keys[e["t"]]
            if k in keys.values() and keys.get(("seen", k)):
                def other(t, i=i):
                    t[i]["out"] = "0"
                bad(other)
                break
            keys["seen", k] = True
