"""C15: Basic.tla (TLC: spreading and filling lines, then columns, refines the bilinear combination for all small axes and
repeated calls) and replay of its axis tables on BasicSatelliteInterpolator."""
import numpy as np

import geo

ASSUMPTIONS = ["values within 1e-9 (64-bit) or 1e-4 (32-bit)"]


def axis(rng):
    n = int(rng.integers(2, 8) if rng.random() < 0.9 else rng.integers(8, 50))
    last = int(rng.integers(n - 1, 30 if rng.random() < 0.8 and n < 25 else 300))
    return [0] + sorted(int(p) for p in 1 + rng.choice(last - 1, n - 2, replace=False)) + [last] if last > 1 and n > 2 \
        else [0, last]


def twin(rng, ties):
    """Another axis with as many tie positions and the same last one."""
    n, last = len(ties), ties[-1]
    return [0] + sorted(int(p) for p in 1 + rng.choice(last - 1, n - 2, replace=False)) + [last] if n > 2 else list(ties)


def cases(ctx):
    fut = ctx.tlc_async("Basic", dict(MaxLast=4 if ctx.quick else 5, Repeats=1 if ctx.quick else 2), spec="Spec",
                        invariants=["Refines", "NoHole", "Ties", "Same", "Convex"], properties=["Terminates"], workers=4,
                        label="Basic model check")
    ctx.axes = [axis(ctx.rng) for _ in range(60 if ctx.quick else 600)] + [[0, 1], [0, 1, 2], [0, 2], [0, 1, 3, 4], [0, 3, 4], [0, 260], [0, 1, 180],
                                                                    [0, 120, 121], [0], [0, 3, 511], [0, 1000, 1024]]
    count = len(ctx.axes)
    ctx.axes += [twin(ctx.rng, a) for a in ctx.axes]
    some = len(ctx.axes)
    # further than 16 bits can count
    ctx.axes += [[0, 3, 20000] + [int(2 ** k + ctx.rng.integers(1, 99)) for k in (15, 16)]]
    res = ctx.tlc("Basic", dict(MaxLast=1, Repeats=0), init="TableInit", next="TableNext", invariants=["Tables"],
                  req=[dict(id=i, ties=a) for i, a in enumerate(ctx.axes)], workers=1, coverage=False, label="Basic tables")
    ctx.ops = {t["id"]: geo.matrix(t["axis"], len(ctx.axes[t["id"]])) for t in res.emitted}
    for n in range(300 if ctx.quick else 6000):
        i, j = (int(x) for x in ctx.rng.integers(some, size=2))
        if n == 0:
            i, j = i % 7, some
        elif n % 3 == 1:  # as many tie rows as tie columns and a square fine grid
            i = i % count
            j = i + count
            if n % 2:
                i, j = j, i
        yield dict(kind="grid", rows=i, cols=j, dtype=["f8", "f8", "f4", "i8"][n % 4], form=["array", "list"][n // 4 % 2],
                   seed=ctx.seed * 100003 + n)
    fut.result()


def run_case(ctx, case):
    from geotiepoints.basic_interpolator import BasicSatelliteInterpolator
    rng = np.random.default_rng(case["seed"])
    rows, cols = ctx.axes[case["rows"]], ctx.axes[case["cols"]]
    opr, opc = ctx.ops[case["rows"]], ctx.ops[case["cols"]]
    lat = rng.uniform(-90, 90, (len(rows), len(cols))).astype(case["dtype"])
    lon = rng.uniform(-180, 180, (len(rows), len(cols))).astype(case["dtype"])
    form = np.array if case["form"] == "array" else list
    layout, mag = case["seed"] % 3, 1.0
    if case["dtype"][0] == "f" and rng.random() < 0.5:   # small areas
        mag = 10.0 ** rng.integers(-9, 0)
        lat, lon = (mag * lat).astype(lat.dtype), (mag * lon).astype(lon.dtype)
    if layout == 1:
        lat, lon = np.asfortranarray(lat), np.repeat(lon, 2, axis=1)[:, ::2]
    elif layout == 2:
        lat, lon = lat[::-1, ::-1].copy()[::-1, ::-1], np.ascontiguousarray(lon.T).T
    interp = ctx.call(BasicSatelliteInterpolator, form(cols), form(rows), lat, lon)
    tol = (1e-3 if case["dtype"] == "f4" else 1e-9) * mag
    for rep in range(2):
        got = ctx.call(interp.interpolate)
        for g, d, what in zip(got, (lat, lon), ("latitudes", "longitudes")):
            geo.check_close(g, opr @ d.astype("f8") @ opc.T, tol, "%s, call %d" % (what, rep + 1))
            geo.check_close(np.asarray(g)[np.ix_(rows, cols)], d, tol, "tie points")
