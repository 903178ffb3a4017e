"""C02: TieGrid.tla (TLC: all histories of filling and interpolating on all small axes keep the ties, depend on the set
of filled directions only, stay affine and local to the chunk) and replay of its histories and operators on the code."""
import numpy as np

import geo
import tiegrid

ASSUMPTIONS = ["two or more ties per chunk and direction, chunk sizes dividing the number of lines"]


def cases(ctx):
    futs = tiegrid.model(ctx)
    hist = ctx.tlc("TieGrid", dict(NFine={2}, Chunks={0}, Reach=0, Orders={1}, MaxSteps=1, HistLen=4 if ctx.quick else 5),
                   init="HistInit", next="HistNext", invariants=["HistEmit"], workers=1, coverage=False,
                   label="TieGrid histories").emitted
    num = 150 if ctx.quick else 1500
    ctx.axes = []
    for i in range(num):
        k = 1 if i % 4 else 2 + i % 8 // 4
        ctx.axes.append(tiegrid.axis(ctx.rng, k, fill=True, chunks=i % 2 == 0))
    ctx.ops = tiegrid.solve(ctx, ctx.axes, "TieGrid operators")
    rows = [i for i in range(num)]
    cols = [i for i in range(num) if i % 2]
    n = 0
    for rep in range(12 if ctx.quick else 40):
        for i in rows:
            j = cols[int(ctx.rng.integers(len(cols)))]
            h = hist[int(ctx.rng.integers(len(hist)))]
            n += 1
            yield dict(kind=["plain", "plain", "geo"][n % 3], row=i, col=j, hist=h["hist"], seen=h["seen"],
                       seed=ctx.seed * 100003 + n)
    for rep in range(40 if ctx.quick else 800):
        n += 1
        yield dict(kind="affine", chunks=int(ctx.rng.integers(1, 6)) if rep % 8 else geo.some_size(ctx.rng, 20, 300), per=int(ctx.rng.integers(3, 12)),
                   cols=int(ctx.rng.integers(4, 40)), k=[int(x) for x in ctx.rng.integers(1, 4, 2)],
                   seed=ctx.seed * 100003 + n)
    for f in futs:
        f.result()


ARGS = {"fy": ("y",), "fx": ("x",), "fyx": ("y", "x"), "fxy": ("x", "y")}


def values(rng, shape):
    """Tie data of some type, integers using all of its range."""
    dtype = str(rng.choice(["f8", "f4", "i1", "u1", "i2", "u2", "i4", "u4"]))
    if dtype[0] == "f":
        return (geo.with_structure(rng, rng.uniform(-10, 10, shape)) * 10.0 ** rng.integers(-10, 11)).astype(dtype)
    info = np.iinfo(dtype)
    return geo.with_structure(rng, rng.integers(info.min, info.max, shape, dtype=dtype, endpoint=True))


def tolerance(data):
    """In units of the data."""
    if data.dtype.kind == "f":
        return np.abs(data).max() * (1e-8 if data.dtype.itemsize == 8 else 1e-5)
    return np.abs(data.astype("f8")).max() * (1e-7 if data.dtype.itemsize == 4 else 1e-5)


def counts(rng, fine, ties):
    """The same positions as integers of another type."""
    if fine.dtype.kind != "i" or rng.random() < 0.5:
        return fine, ties
    dtype = str(rng.choice(["u1", "u2", "u4", "u8", "i1", "i2"]))
    low = min(fine.min(), ties.min())
    if dtype[0] == "u" and low < 0:
        fine, ties = fine - low, ties - low
    return fine.astype(dtype), ties.astype(dtype)


def far(rng, fine, ties):
    """The same positions, counted from elsewhere."""
    origin = int(rng.integers(-9, 10)) * 10 ** int(rng.integers(0, 6))
    return fine + origin, ties + origin


def run_case(ctx, case):
    from geotiepoints.geointerpolator import GeoInterpolator
    from geotiepoints.interpolator import Interpolator
    rng = np.random.default_rng(case["seed"])
    if case["kind"] == "affine":
        return affine(ctx, case, rng)
    a, b = ctx.axes[case["row"]], ctx.axes[case["col"]]
    opr, opc = ctx.ops[case["row"]], ctx.ops[case["col"]]
    fr, tr = tiegrid.positions(a)
    fc, tc = tiegrid.positions(b)
    shape = len(tr), len(tc)
    if case["kind"] == "plain":
        fields = [geo.with_structure(rng, rng.uniform(-10, 10, shape)), values(rng, shape)]
        (fr, tr), (fc, tc) = ([counts, far][int(rng.random() < 0.3)](rng, *p) for p in ((fr, tr), (fc, tc)))
        it = ctx.call(Interpolator, list(fields), (tr, tc), (fr, fc), a["k"], b["k"], chunk_size=a["chunk"])
    else:
        places = list(geo.PLACES)
        lon, lat = geo.patch(rng, *shape, places[case["seed"] % len(places)], 5.0, 5.0, noise=1.0)
        single = rng.random() < 0.25
        if single:
            lon, lat = lon.astype("f4"), lat.astype("f4")
        xyz = geo.to_xyz(lon, lat)
        fields = [xyz[..., i] for i in range(3)]
        it = ctx.call(GeoInterpolator, (lon, lat), (tr, tc), (fr, fc), a["k"], b["k"], chunk_size=a["chunk"])
    seen = list(case["seen"])
    for num, op in enumerate(case["hist"]):
        if op != "i":
            ctx.call(it.fill_borders, *ARGS[op])
            continue
        fy, fx = seen.pop(0)
        mr, mc = opr["filled" if fy else "plain"], opc["filled" if fx else "plain"]
        if mr is None or mc is None:
            continue   # the ties do not reach the fine positions (yet), or no exact operator
        got = ctx.call(it.interpolate)
        amp = np.abs(mr).sum(1).max() * np.abs(mc).sum(1).max()
        what = "after %s" % "-".join(case["hist"][:num + 1])
        if case["kind"] == "plain":
            for g, d in zip(got, fields):
                geo.check_close(g, mr @ d.astype("f8") @ mc.T, tolerance(d) * amp, what)
        else:
            want = np.stack([mr @ d @ mc.T for d in fields], -1)
            geo.check_positions(got, want, (30.0 if single else 0.05) * amp, what)
        ctx.count("interpolations compared")


def spread(rng, num, width):
    """Increasing positions inside [0, width], not too close to each other."""
    pos = np.cumsum(rng.uniform(0.4, 1.0, num + 1))
    return pos[:-1] / pos[-1] * width


def affine(ctx, case, rng):
    """Larger grids: an affine field is reproduced by any filling and orders, and chunks are independent."""
    from geotiepoints.interpolator import Interpolator
    per, n = case["per"], case["chunks"]
    fr = np.arange(per * n) * 1.0
    tr = []
    for g in range(n):
        num = int(rng.integers(4, 8))
        tr.append(g * per + spread(rng, num, per - 1))
    tr = np.concatenate(tr)
    fc = spread(rng, case["cols"], 50.0)
    tc = fc[0] + spread(rng, max(6, case["cols"] // 2), fc[-1] - fc[0])
    c = rng.uniform(-3, 3, 4)
    fun = lambda r, q: c[0] + c[1] * r[:, None] + c[2] * q[None, :] + c[3] * r[:, None] * q[None, :]  # noqa: E731
    order = [("y", "x"), ("x", "y"), ("y", "x", "y")][case["seed"] % 3]

    def make(data, k):
        it = Interpolator(data, (tr, tc), (fr, fc), *k, chunk_size=per)
        it.fill_borders(*order)
        return it.interpolate()[0]
    got = ctx.call(make, fun(tr, tc), case["k"])
    geo.check_close(got, fun(fr, fc), 1e-6, "affine field")
    # locality: replace the ties of one chunk
    data = geo.with_structure(rng, rng.uniform(-1, 1, (len(tr), len(tc))))
    other = data.copy()
    g = int(rng.integers(n))
    mine = (tr >= g * per) & (tr < (g + 1) * per)
    other[mine] += rng.uniform(1, 2, (mine.sum(), len(tc)))
    one, two = ctx.call(make, data, (1, 1)), ctx.call(make, other, (1, 1))
    keep = np.ones(per * n, bool)
    keep[g * per:(g + 1) * per] = False
    geo.check_close(one[keep], two[keep], 1e-9, "lines of other chunks")
    if not (np.abs(one[~keep] - two[~keep]) > 1e-3).any():
        raise geo.Mismatch("the lines of the chunk did not change")
