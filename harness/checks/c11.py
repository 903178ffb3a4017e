"""C11: LazyGrid.tla (TLC: requests made of aspects, graphs of blocks merged by key, blocks run in any order: results are those
of eager interpolation and keys never mix requests up as soon as they are made of all the aspects, and do if they forget any)
and replay on the grid and spline interpolators: the combinations of differing requests that TLC lists are computed together
and compared with eager results; executions on data that tags each fine point are recorded block by block and judged by TLC."""
import dask
import dask.array as da
import numpy as np
from scipy.interpolate import RectBivariateSpline, RegularGridInterpolator

import geo

ASSUMPTIONS = ["eager results are compared with scipy's interpolators called directly", "sorted fine points for splines",
               "lazy and eager values are compared within 1e-9 relative"]
ASPECTS = ["kind", "data", "ties", "fine", "init", "call", "chunks"]
CLASSES = ["SingleGrid", "MultipleGrid", "GeoGrid", "SingleSpline", "MultipleSpline", "GeoSpline"]


def model(ctx):
    inv = ["LazyUntilAsked", "NoMixUp", "SameAsEager"]
    named = set(ASPECTS)
    sets = [dict(NR=2, NC=2, Values={1, 2}, MaxReq=2), dict(NR=3, NC=2, Values={1, 2}, MaxReq=2)]
    if not ctx.quick:
        sets += [dict(NR=2, NC=1, Values={1, 2}, MaxReq=3), dict(NR=4, NC=2, Values={1, 2}, MaxReq=2),
                 dict(NR=2, NC=2, Values={1, 2, 3}, MaxReq=2)]
    futs = [ctx.tlc_async("LazyGrid", dict(s, Named=named), spec="Spec", invariants=inv, workers=4, label="LazyGrid model check")
            for s in sets]
    for x in ASPECTS if not ctx.quick else [ASPECTS[ctx.seed % 7], ASPECTS[(ctx.seed + 3) % 7]]:
        futs.append(ctx.refuted("LazyGrid", dict(NR=3, NC=1, Values={1, 2}, MaxReq=2, Named=named - {x}), "NoMixUp", spec="Spec",
                                invariants=inv, label="keys without " + x))
    return futs


def chunking(rng, total):
    """What is asked along one direction: a size, everything, or the sizes."""
    style = rng.random()
    if style < 0.15:
        return ["size", -1]
    if style < 0.5 or total == 1:
        return ["size", int(rng.integers(1, total + 2))]
    cuts = sorted(int(c) for c in rng.choice(np.arange(1, total), int(rng.integers(1, min(5, total))), replace=False))
    return ["sizes", [int(x) for x in np.diff([0] + cuts + [total])]]


def both_ways(rng, fine):
    """What is asked along both directions, sometimes the same size in both."""
    if rng.random() < 0.2:
        one = ["size", int(rng.choice([-1, 1, 2, 3, 5, 8]))]
        return [one, list(one)]
    return [chunking(rng, len(f)) for f in fine]


def given(c):
    return c[1] if c[0] == "size" else tuple(c[1])


def cases(ctx):
    futs = model(ctx)
    combos = ctx.tlc("LazyGrid", dict(NR=1, NC=1, Values={1}, MaxReq=1, Named=set(ASPECTS)), init="EmitInit", next="EmitNext",
                     invariants=["Emit"], workers=1, coverage=False, label="combinations of requests").emitted
    n = 0
    for rep in range(1 if ctx.quick else 8):
        for cls in CLASSES:
            single = [c for c in combos if len(c["differ"]) == 1]
            double = [c for c in combos if len(c["differ"]) == 2]
            for _ in range(5):   # large data that differ little
                n += 1
                yield dict(kind="together", cls=cls, differ=[["data"]] * 2, large=True, small_change=True,
                           seed=ctx.seed * 100003 + n)
            for what in ("data", "ties", "fine"):   # more than 1000 tie points and fine points along one direction
                n += 1
                yield dict(kind="together", cls=cls, differ=[[what]] * 3, large="long", small_change=True,
                           seed=ctx.seed * 100003 + n)
            n += 1
            yield dict(kind="big", cls=cls, seed=ctx.seed * 100003 + n)
            pick = single + [double[int(i)] for i in ctx.rng.integers(len(double), size=30 if ctx.quick else 150)]
            for c in pick:
                n += 1
                yield dict(kind="together", cls=cls, differ=c["differ"], large=n % 4 == 0, seed=ctx.seed * 100003 + n)
    for rep in range(2 if ctx.quick else 40):
        for cls in CLASSES:
            batch = []
            for i in range(12):
                n += 1
                batch.append(ctx.seed * 100003 + n)
            yield dict(kind="trace", cls=cls, seeds=batch)
    for f in futs:
        f.result()


# -- requests -----------------------------------------------------------------
class Request:
    """One lazy interpolation, and the eager one."""

    def __init__(self, cls, ties, data, fine, init, call, chunks, shape=False):
        self.cls, self.ties, self.data, self.fine = cls, ties, data, fine
        self.init, self.call, self.chunks, self.shape = init, call, chunks, shape

    def make(self):
        import geotiepoints.geointerpolator as gi
        import geotiepoints.interpolator as it
        ties = tuple(t.copy() for t in self.ties)
        data = [d.copy() for d in self.data]
        if self.cls.startswith("Geo"):
            return getattr(gi, self.cls + "Interpolator")(ties, *data, **self.init)
        return getattr(it, self.cls + "Interpolator")(ties, *data, **self.init)

    def fine_points(self, copy=True):
        return tuple(f.copy() if copy and hasattr(f, "copy") else f for f in self.fine)

    def eager(self):
        return self.listed(self.make().interpolate(self.fine_points(), **self.call))

    def lazy(self, objects=None):
        """*objects*: those made so far, to be used again."""
        chunks = tuple(given(c) for c in self.chunks)
        if self.chunks[0][0] == self.chunks[1][0] == "size" and chunks[0] == chunks[1]:
            chunks = chunks[0]
        key = self.cls, id(self.ties), id(self.data), str(sorted(self.init.items()))
        obj = self.make() if objects is None or key not in objects else objects[key]
        if objects is not None:
            objects[key] = obj
        if self.shape:
            return self.listed(obj.interpolate_to_shape([len(f) for f in self.fine], chunks=chunks, **self.call))
        return self.listed(obj.interpolate(self.fine_points(), chunks=chunks, **self.call))

    def listed(self, res):
        return [res] if self.cls.startswith("Single") else list(res)

    def direct(self):
        """Without the package."""
        data = self.data
        if self.cls.startswith("Geo"):
            data = np.moveaxis(geo.to_xyz(*self.data), -1, 0)
        out = []
        for d in data:
            if "Spline" in self.cls:
                out.append(RectBivariateSpline(*self.ties, d, **self.init)(*self.fine, **self.call))
            else:
                f = RegularGridInterpolator(tuple(self.ties), d, **self.init)
                out.append(f(np.stack(np.meshgrid(*self.fine, indexing="ij"), -1), **self.call))
        return out


def variant(rng, cls, base, differ, num, place, small_change=False):
    """The request number *num*, that differs from the base one in some aspects."""
    spline = "Spline" in cls
    q = Request(cls, base.ties, base.data, base.fine, dict(base.init), dict(base.call), base.chunks)
    for what in differ:
        if what == "kind":
            q.cls = cls.replace("Spline", "Grid") if spline else cls.replace("Grid", "Spline")
            if spline:
                q.init, q.call = {}, {}
            else:
                q.init, q.call = {"kx": 2, "ky": 2, "s": 0} if rng.random() < 0.5 else {}, {}
        elif what == "data":
            style = 0 if small_change else rng.integers(3)
            new = [d.copy() for d in q.data]
            i = int(rng.integers(len(new)))
            r, c = (int(rng.integers(s)) for s in new[i].shape)
            if style == 0:
                new[i][r, c] += 0.01
            elif style == 1 and not cls.startswith("Geo"):
                new = [d[::-1].copy() for d in new]
            else:
                new[i] = new[i] + 0.125 * num
            q.data = new
        elif what == "ties":
            i = int(rng.integers(2))
            t = [x.astype("f8") for x in q.ties]
            if small_change:   # along the longer direction
                i = int(np.argmax([len(x) for x in t]))
            k = int(rng.integers(1, len(t[i]) - 1))
            t[i][k] += 0.25 * (t[i][k + 1] - t[i][k])
            q.ties = tuple(t)
        elif what == "fine":
            f = [np.asarray(x).astype("f8") for x in q.fine]
            i = int(rng.integers(2))
            if small_change:
                i = int(np.argmax([len(x) for x in f]))
            k = int(rng.integers(len(f[i])))
            low = f[i][k - 1] if k else q.ties[i][0]
            high = f[i][k + 1] if k + 1 < len(f[i]) else q.ties[i][-1]
            new = 0.5 * (f[i][k] + high)
            f[i][k] = new if abs(new - f[i][k]) > 1e-6 else 0.5 * (f[i][k] + low)
            q.fine = tuple(f)
        elif what == "init":
            if "Spline" in q.cls:
                which = "kx" if rng.random() < 0.5 else "ky"
                q.init[which] = 3 if q.init.get(which, 3) == 2 else 2
            else:
                q.init["method"] = ["nearest", "pchip", "nearest"][num % 3]
        elif what == "call":
            if "Spline" in q.cls:
                q.init.update({k: max(2, v) for k, v in q.init.items() if k in ("kx", "ky")})
                q.call = {"dx": 1} if num % 2 else {"dy": 1}
            else:
                q.call = {"method": ["slinear", "nearest", "pchip"][num % 3]}
        else:
            q.chunks = both_ways(rng, q.fine)
    return q


def base_request(rng, cls, place, strict=False, large=False):
    strict = strict or "Spline" in cls
    nr, nc = (int(x) for x in (rng.integers(20, 61, 2) if large is True else rng.integers(5, 9, 2)))
    if large == "long":
        nr, nc = [(nr, int(rng.integers(1050, 1400))), (int(rng.integers(1050, 1400)), nc)][int(rng.integers(2))]
    ties = []
    for n in (nr, nc):
        t = np.cumsum(rng.integers(1, 5, n))
        ties.append(t - t[0])
    count = 1 if cls.startswith("Single") else 2 if cls.startswith("Geo") else int(rng.integers(1, 4))
    if cls.startswith("Geo"):
        step = 4.0 if large else 20.0
        data = list(geo.patch(rng, nr, nc, place, step, step, noise=5.0))
    else:
        data = [geo.with_structure(rng, rng.uniform(-10, 10, (nr, nc)), 0.3).astype(["f8", "f4"][int(rng.integers(2))]) for _ in range(count)]
    fine = []
    for t in ties:
        style = rng.integers(5)
        num = int(rng.integers(2, 12))
        if len(t) > 1000 and style in (1, 3, 4):
            num = 1500
        if style == 0:
            f = np.arange(t[-1] + 1)
        elif style == 1:
            f = np.sort(rng.uniform(0, t[-1], num))
        elif style == 2:
            f = np.arange(0, 4 * t[-1] + 1)[int(rng.integers(4))::int(rng.integers(1, 4))] / 4.0
        elif style == 3:
            f = np.sort(rng.integers(0, t[-1] + 1, num))
        else:   # almost whole
            f = np.sort(np.abs(rng.integers(0, t[-1], num) + rng.choice([-1, 1], num) * 10.0 ** -rng.uniform(2.5, 6)))
        if strict:
            f = np.unique(f)
        elif rng.random() < 0.3:
            f = rng.permutation(f)
        fine.append(f)
    init = {"kx": int(rng.integers(1, 4)), "ky": int(rng.integers(1, 4))} if "Spline" in cls else {}
    if not strict and rng.random() < 0.4:
        init = {"bounds_error": False, "fill_value": None}
        for f in fine:
            f[int(rng.integers(len(f)))] += 1
    return Request(cls, tuple(ties), data, tuple(fine), init, {}, [chunking(rng, len(f)) for f in fine])


# -- watching -----------------------------------------------------------------
class Watch:
    """Counts what is computed: graphs given to the scheduler and points given to the scipy interpolators."""

    def __enter__(self):
        self.count = 0
        self.saved = [(c, c.__call__) for c in (RegularGridInterpolator, RectBivariateSpline)]

        def counted(orig):
            def call(obj, *args, **kwargs):
                if all(np.size(a) for a in args[:1]):
                    self.count += 1
                return orig(obj, *args, **kwargs)
            return call
        for c, orig in self.saved:
            c.__call__ = counted(orig)

        def scheduler(dsk, keys, **kwargs):
            self.count += 1
            return dask.get(dsk, keys, **kwargs)
        self.config = dask.config.set(scheduler=scheduler)
        self.config.__enter__()
        return self

    def __exit__(self, *exc):
        self.config.__exit__(*exc)
        for c, orig in self.saved:
            c.__call__ = orig


def compare(got, want, what):
    if len(got) != len(want):
        raise geo.Mismatch("%s: %d results instead of %d" % (what, len(got), len(want)))
    for g, w in zip(got, want):
        g, w = np.asarray(g), np.asarray(w)
        if g.dtype != w.dtype:
            raise geo.Mismatch("%s: dtype %s instead of %s" % (what, g.dtype, w.dtype))
        scale = max(1.0, float(np.nanmax(np.abs(w))) if w.size and not np.isnan(w).all() else 1.0)
        geo.check_close(g, w, (1e-9 if w.dtype == np.float64 else 1e-5) * scale, what)


def run_case(ctx, case):
    if case["kind"] == "together":
        return together(ctx, case)
    if case["kind"] == "big":
        return big(ctx, case)
    records = []
    for seed in case["seeds"]:
        records += trace(ctx, case["cls"], np.random.default_rng(seed))
    bad = ctx.judge("LazyGrid", dict(NR=1, NC=1, Values={1}, MaxReq=1, Named={"kind"}), records, spoil=SPOIL)
    if bad:
        raise geo.Mismatch("not an execution of the specification: %s" % bad[0])


def spoil_rows(rec):
    blk = rec["blocks"][0]
    blk["rows"][-1] += 1


def spoil_place(rec):
    if len(rec["blocks"]) < 2 or rec["blocks"][0]["rows"] + rec["blocks"][0]["cols"] == \
            rec["blocks"][1]["rows"] + rec["blocks"][1]["cols"]:
        return False
    rec["blocks"][0]["at"], rec["blocks"][1]["at"] = rec["blocks"][1]["at"], rec["blocks"][0]["at"]


def spoil_lazy(rec):
    rec["early"] = 1


def spoil_missing(rec):
    rec["blocks"].pop()


SPOIL = [spoil_rows, spoil_place, spoil_lazy, spoil_missing]


def together(ctx, case):
    rng = np.random.default_rng(case["seed"])
    place = list(geo.PLACES)[case["seed"] % len(geo.PLACES)]
    base = base_request(rng, case["cls"], place, strict=any("kind" in d for d in case["differ"]),
                        large=case.get("large", False))
    if any("kind" in d for d in case["differ"]) and rng.random() < 0.5:
        base.init = {}    # the kind is the only difference
    reqs = [base] + [variant(rng, case["cls"], base, d, i + 1, place, "small_change" in case)
                     for i, d in enumerate(case["differ"])]
    wants, lazies = [], []
    for num, q in enumerate(reqs):
        want = ctx.call(q.eager)
        if q.cls.startswith("Geo"):
            xyz = np.stack(q.direct(), -1)
            if not q.call.get("dx") and not q.call.get("dy"):
                geo.check_positions(want, xyz, 0.06, "eager %s" % q.cls)
        else:
            compare(want, [d.astype(v.dtype) for d, v in zip(q.direct(), q.data)], "eager %s" % q.cls)
        wants.append(want)
    objects = {} if rng.random() < 0.6 else None
    with Watch() as watch:
        for q in reqs:
            lazies.append(ctx.call(q.lazy, objects))
        if watch.count:
            raise geo.Mismatch("%d computations before anything is asked for" % watch.count)
    flat = [x for res in lazies for x in res]
    if any(not isinstance(x, da.Array) for x in flat):
        raise geo.Mismatch("not a dask array: %s" % [type(x) for x in flat])
    whole(ctx, base, rng)
    order = rng.permutation(len(flat))
    opts = [dict(scheduler="synchronous"), dict(scheduler="threads", num_workers=4)][case["seed"] % 2]
    with np.errstate(invalid="ignore"):
        some = ctx.call(dask.compute, *[flat[i] for i in order], **opts)
    vals = dict(zip(order.tolist(), some))
    k = 0
    for num, (q, want) in enumerate(zip(reqs, wants)):
        got = [vals[k + i] for i in range(len(want))]
        k += len(want)
        compare(got, want, "request %d of %s (%s) computed together" % (num, q.cls, case["differ"]))


def whole(ctx, base, rng):
    """Fine points given by slices or a shape."""
    lo, hi = zip(*(sorted(int(x) for x in rng.integers(0, t[-1] + 1, 2)) for t in base.ties))
    points = tuple(np.arange(a, b + 1) for a, b in zip(lo, hi))
    obj = base.make()
    if base.cls.startswith("Single"):
        steps = [int(x) for x in rng.integers(1, 4, 2)] if rng.random() < 0.5 else [None, None]
        points = tuple(np.arange(a, b + 1)[::s] for a, b, s in zip(lo, hi, steps))
        got = [ctx.call(obj.interpolate_slices, tuple(slice(a, b + 1, s) for a, b, s in zip(lo, hi, steps)))]
    else:
        points = tuple(np.arange(b + 1) for b in hi)
        got = ctx.call(lambda: list(obj.interpolate_to_shape([b + 1 for b in hi])))
    want = base.listed(ctx.call(lambda: base.make().interpolate(points)))
    compare(got, want, "slices or shape, %s" % base.cls)


def big(ctx, case):
    """Results of more than a million pixels."""
    rng = np.random.default_rng(case["seed"])
    base = base_request(rng, case["cls"], "europe", strict=True)
    base.fine = tuple(np.linspace(0, t[-1], n) for t, n in zip(base.ties, 1025 + rng.integers(0, 200, 2)))
    base.chunks = [["size", int(rng.integers(90, 1100))] for _ in range(2)]
    if rng.random() < 0.5:   # (as uneven as can be)
        base.chunks[0] = ["sizes", [1, 1000, len(base.fine[0]) - 1001]]
    want, lazy = ctx.call(base.eager), ctx.call(base.lazy)
    compare([ctx.call(x.compute) for x in lazy], want, "result of many pixels")


def trace(ctx, cls, rng):
    """Record one lazy execution, block by block."""
    tagged = not cls.startswith("Geo")
    base = base_request(rng, cls, list(geo.PLACES)[int(rng.integers(len(geo.PLACES)))])
    base.shape = bool(rng.random() < 0.3) and not cls.startswith("Single")
    base.init = {"kx": 1, "ky": 1} if "Spline" in cls else {}
    fine = []
    for t in base.ties:
        f = rng.integers(0, 4 * t[-1] + 1, int(rng.integers(1, 12))) / 4.0
        f = np.unique(f) if "Spline" in cls else np.sort(f) if rng.random() < 0.5 else f
        if base.shape:
            f = np.arange(int(rng.integers(1, t[-1] + 1)))
        fine.append(f if rng.random() < 0.7 else [float(x) for x in f])
    base.fine = tuple(fine)
    base.chunks = both_ways(rng, fine)
    if tagged:   # the value of each fine point tells which point it is
        plane = 256.0 * base.ties[0][:, None] + base.ties[1][None, :]
        base.data = [plane * (i + 1) for i in range(len(base.data))]
    want = ctx.call(base.eager)
    with Watch() as watch:
        lazy = ctx.call(base.lazy)
        early = watch.count
    out = []
    for num, (g, w) in enumerate(zip(lazy, want)):
        if not isinstance(g, da.Array):
            raise geo.Mismatch("%s is not a dask array" % type(g))
        geo.check_shape(g, tuple(len(f) for f in fine), "lazy result")
        rec = dict(asked=base.chunks, declared=[list(map(int, c)) for c in g.chunks], early=early, dtype=str(g.dtype),
                   datadtype=str(base.data[0].dtype), rows=[int(round(4 * x)) for x in fine[0]],
                   cols=[int(round(4 * x)) for x in fine[1]], blocks=[])
        positions = list(np.ndindex(*[len(c) for c in g.chunks]))
        row0, col0 = ([0] + list(np.cumsum(c)) for c in g.chunks)
        for i in rng.permutation(len(positions)):
            a, b = positions[i]
            blk = np.asarray(ctx.call(lambda: g.blocks[a, b].compute(scheduler="synchronous")))
            if blk.dtype != g.dtype:
                raise geo.Mismatch("block of dtype %s declared as %s" % (blk.dtype, g.dtype))
            if tagged:
                near = np.round(blk / (num + 1) * 4)
                y, x = near // 256, near % 256
                # 4 * (256 y + x) = 256 * (4 y) + 4 x
                if np.abs(blk / (num + 1) * 4 - near).max(initial=0) > 1e-6 or (y != y[:, :1]).any() or (x != x[:1]).any():
                    raise geo.Mismatch("block %s is not made of points of a grid" % ((a, b),))
                rows, cols = [int(v) for v in y[:, 0]], [int(v) for v in x[0]]
            else:
                shape = (int(row0[a + 1] - row0[a]), int(col0[b + 1] - col0[b]))
                geo.check_shape(blk, shape, "block")
                geo.check_close(blk, np.asarray(w)[row0[a]:row0[a + 1], col0[b]:col0[b + 1]], 1e-9 * 360, "block")
                rows, cols = rec["rows"][row0[a]:row0[a + 1]], rec["cols"][col0[b]:col0[b + 1]]
            rec["blocks"].append(dict(at=[int(a) + 1, int(b) + 1], rows=rows, cols=cols))
        out.append(rec)
        # part of the result
        r0, c0 = int(rng.integers(len(fine[0]))), int(rng.integers(len(fine[1])))
        compare([ctx.call(lambda: g[r0:, :c0 + 1].compute(scheduler="threads"))], [np.asarray(w)[r0:, :c0 + 1]], "part of a result")
    return out
