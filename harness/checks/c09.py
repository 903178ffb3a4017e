"""C09: Multilinear.tla (TLC: cell search dimension by dimension by parallel workers refines the multilinear
combination, for all small grids and points; values last set are those used) and replay of its combinations, grid
enumerations and histories on MultilinearInterpolator."""
import numpy as np

import geo

ASSUMPTIONS = ["results within 1e-9 (64-bit) or 2e-4 (32-bit) of the range of the values used, times the extrapolation weights"]


def model(ctx):
    inv = ["Refines", "Partition", "LastValues", "Multi", "OnGrid", "Convex", "InRange", "Enumerates"]
    t1 = {(-1, 2), (0, 1), (1, 2), (1, 1), (2, 1), (7, 3)}
    t2 = {(-1, 3), (1, 1), (5, 4)}
    if ctx.quick:
        sets = [dict(Grids={(2,), (4,)}, Ticks=t1, Workers={"a", "b"}, Batch=2, HistLen=1),
                dict(Grids={(2, 3), (3, 2, 2)}, Ticks=t2, Workers={"a"}, Batch=1, HistLen=1),
                dict(Grids={(2, 3, 2, 2)}, Ticks={(-1, 3), (5, 4)}, Workers={"a"}, Batch=1, HistLen=1)]
    else:
        sets = [dict(Grids={(2,), (3,), (5,)}, Ticks=t1 | {(-5, 2), (3, 1)}, Workers={"a", "b"}, Batch=3, HistLen=1),
                dict(Grids={(2, 3), (4, 2)}, Ticks=t1, Workers={"a", "b"}, Batch=1, HistLen=1),
                dict(Grids={(3, 2), (2, 2)}, Ticks=t2, Workers={"a", "b"}, Batch=2, HistLen=1),
                dict(Grids={(3, 2, 2), (2, 3, 4)}, Ticks=t1, Workers={"a"}, Batch=1, HistLen=1),
                dict(Grids={(2, 3, 2, 2), (3, 2, 2, 3)}, Ticks=t2 | {(1, 2)}, Workers={"a"}, Batch=1, HistLen=1)]
    return [ctx.tlc_async("Multilinear", s, spec="Spec", invariants=inv, workers=3, label="Multilinear model check") for s in sets]


def grid_request(rng, d, i):
    top = {1: 12, 2: 7, 3: 5, 4: 4}[d]
    grid = [int(n) for n in rng.integers(2, top + 1, d)]
    points = []
    for _ in range(40):
        style = rng.random()
        p = []
        for n in grid:
            den = int(rng.choice([1, 2, 3, 4, 8, 10]))
            if style < 0.25:
                p.append([int(rng.integers(0, n)), 1])
            elif style < 0.7:
                p.append([int(rng.integers(0, (n - 1) * den + 1)), den])
            else:
                p.append([int(rng.integers(-3 * den, (n + 2) * den)), den])
        points.append(p)
    return dict(id=i, grid=grid, points=points)


def cases(ctx):
    futs = model(ctx)
    ctx.reqs = [grid_request(ctx.rng, 1 + i % 4, i) for i in range(40 if ctx.quick else 400)]
    ctx.own = len(ctx.reqs)
    ctx.reqs += [twin(ctx.rng, r, ctx.own) for r in ctx.reqs]
    base = dict(Grids={(2,)}, Ticks={(0, 1)}, Workers={"a"}, Batch=1)
    jobs = [ctx.tlc_async("Multilinear", dict(base, HistLen=1), init="TableInit", next="TableNext", invariants=["Tables"],
                          req=ctx.reqs[k::4], workers=1, coverage=False, label="Multilinear tables") for k in range(4)]
    hist = ctx.tlc("Multilinear", dict(base, HistLen=4 if ctx.quick else 5), init="HistInit", next="HistNext",
                   invariants=["HistLocal", "HistEmit"], workers=1, label="Multilinear histories").emitted
    ctx.tab = {t["id"]: t for j in jobs for t in j.result().emitted}
    n = 0
    for r in ctx.reqs[:ctx.own]:
        for dtype in ("f8", "f4"):
            for rep in range(2):
                n += 1
                yield dict(kind="%dd" % len(r["grid"]), req=r["id"], dtype=dtype, fields=1 + n % 3,
                           seed=ctx.seed * 100003 + n)
        yield dict(kind="grid", req=r["id"], seed=ctx.seed * 100003 + n)
    pick = ctx.rng.permutation(len(hist))[:120 if ctx.quick else 3000]
    for i in pick:
        n += 1
        yield dict(kind="history", req=int(ctx.rng.integers(ctx.own)), seed=ctx.seed * 100003 + n, **hist[int(i)])
    for rep in range(4 if ctx.quick else 40):
        n += 1
        yield dict(kind="many points", d=1 + n % 4, seed=ctx.seed * 100003 + n)
    for rep in range(12 if ctx.quick else 200):
        n += 1
        yield dict(kind="far", d=1 + n % 4, seed=ctx.seed * 100003 + n)
    for rep in range(8 if ctx.quick else 80):
        n += 1
        yield dict(kind="large", d=1 + n % 4, seed=ctx.seed * 100003 + n)
    for f in futs:
        f.result()


def twin(rng, r, by):
    """The request of an interpolator of as many points, with the dimensions in another order where they differ."""
    perm = rng.permutation(len(r["grid"]))
    if list(perm) == sorted(perm):
        perm = perm[::-1]
    return dict(id=r["id"] + by, grid=[r["grid"][m] for m in perm], points=[[p[m] for m in perm] for p in r["points"]])


def setup(ctx, case, rng, req=None):
    req = case["req"] if req is None else req
    r, t = ctx.reqs[req], ctx.tab[req]
    grid = np.array(r["grid"])
    scale = 10.0 ** rng.choice([0, 0, -6, -2, 3, 9], len(grid))
    smin = scale * rng.uniform(-5, 5, len(grid))
    smax = smin + scale * rng.uniform(0.5, 20, len(grid))
    unit = np.array([[n / d for n, d in p] for p in r["points"]]).T
    pts = smin[:, None] + unit / (grid - 1)[:, None] * (smax - smin)[:, None]
    op = geo.comb_matrix(t["combs"], int(np.prod(grid)))
    return r, t, grid, smin, smax, pts, op


def layout(rng, arr):
    """The same numbers in some other layout or container."""
    style = int(rng.integers(7))
    if style == 1:
        return np.asfortranarray(arr)
    if style == 2:
        return np.repeat(arr, 2, axis=1)[:, ::2]
    if style == 3:
        return arr[::-1, ::-1].copy()[::-1, ::-1]
    if style == 4:
        arr = arr.copy()
        arr.flags.writeable = False
    elif style == 5:
        return arr.tolist()
    return arr


def run_case(ctx, case):
    from geotiepoints.multilinear import MultilinearInterpolator
    rng = np.random.default_rng(case["seed"])
    if case["kind"] == "many points":
        return many(ctx, case, rng)
    if case["kind"] == "far":
        return far(ctx, case, rng)
    if case["kind"] == "large":
        return large(ctx, case, rng)
    r, t, grid, smin, smax, pts, op = setup(ctx, case, rng)
    size = int(np.prod(grid))
    if case["kind"] == "grid":
        interp = ctx.call(MultilinearInterpolator, list(smin), list(smax), [int(n) for n in grid])
        want = smin[:, None] + np.array(t["grid"]).T / (grid - 1)[:, None] * (smax - smin)[:, None]
        geo.check_close(ctx.call(lambda: interp.grid) / (smax - smin)[:, None], want / (smax - smin)[:, None], 1e-9, "grid")
        # values computed on the grid come back on the grid, and affine ones everywhere
        coef = rng.uniform(-1, 1, len(grid)) / (smax - smin)
        values = np.vstack([coef @ interp.grid + 1, rng.uniform(-1, 1, size)])
        interp.set_values(values)
        geo.check_close(ctx.call(interp, interp.grid), values, 1e-9, "values on the grid")
        geo.check_close(ctx.call(interp, pts)[0], coef @ pts + 1, 1e-8, "affine values")
        return
    if case["kind"] == "history":
        return history(ctx, case, rng)
    dt = np.dtype(case["dtype"])
    mag = 10.0 ** rng.choice([0, 0, -12, -4, 5, 12], case["fields"])[:, None]
    values = np.array([geo.with_structure(rng, v.reshape(grid)).ravel() for v in rng.uniform(-10, 10, (case["fields"], size))])
    values *= mag
    interp = ctx.call(lambda: MultilinearInterpolator(smin, smax, grid, values=layout(rng, values), dtype=dt)
                      if case["seed"] % 2 else MultilinearInterpolator(smin, smax, grid, dtype=dt))
    if case["seed"] % 2 == 0:
        interp.set_values(layout(rng, values))
    got = ctx.call(interp, layout(rng, pts))
    tol = (2e-4 if dt == np.float32 else 1e-9) * 10 * np.abs(op).sum(1).max() * grid.max()
    if dt == np.float32:
        tol *= 4
    if got.dtype != dt:
        raise geo.Mismatch("dtype %s" % got.dtype)
    geo.check_close(got / mag, values / mag @ op.T, tol, "values")
    order = rng.permutation(pts.shape[1])
    geo.check_same(ctx.call(interp, pts[:, order]), got[:, order], "points in another order")
    rows = rng.permutation(len(values))
    other = ctx.call(lambda: MultilinearInterpolator(smin, smax, grid, values=values[rows], dtype=dt)(pts))
    geo.check_same(other, got[rows], "values in another order")


def history(ctx, case, rng):
    """Two interpolators in turns, the second one with nearly everything like the first."""
    from geotiepoints.multilinear import MultilinearInterpolator
    first = setup(ctx, case, rng)
    r, t, grid, smin, smax, pts, op = first
    style = int(rng.integers(4))
    if style == 0:    # other limits
        move = rng.uniform(-1, 1, len(grid)) * (rng.random(len(grid)) < 0.5)
        second = (r, t, grid, smin + move, smax + move, pts + move[:, None], op)
    elif style == 1:  # the very same
        second = first
    else:             # the limits, and the dimensions in another order
        if rng.random() < 0.7:
            smin, smax = np.full(len(grid), smin[0]), np.full(len(grid), smax[0])
            pts = smin[:, None] + (np.array([[n / d for n, d in p] for p in r["points"]]).T / (grid - 1)[:, None]
                                   * (smax - smin)[:, None])
            first = (r, t, grid, smin, smax, pts, op)
        r2, t2, grid2, _, _, _, op2 = setup(ctx, case, rng, case["req"] + ctx.own)
        pts2 = smin[:, None] + (np.array([[n / d for n, d in p] for p in r2["points"]]).T / (grid2 - 1)[:, None]
                                * (smax - smin)[:, None])
        second = (r2, t2, grid2, smin, smax, pts2, op2)
    sets = [rng.uniform(-10, 10, (1 + k, int(np.prod(grid)))) for k in range(2)]
    objects = [(ctx.call(MultilinearInterpolator, smin, smax, grid), t, grid, smin, smax, pts, op)
               for _, t, grid, smin, smax, pts, op in (first, second)]
    used = list(case["used"])
    for step in case["hist"]:
        o = step["op"]
        interp, t, grid, smin, smax, pts, op = objects[step["obj"] - 1]
        if o == "grid":
            want = smin[:, None] + np.array(t["grid"]).T / (grid - 1)[:, None] * (smax - smin)[:, None]
            geo.check_close(ctx.call(lambda: interp.grid) / (smax - smin)[:, None], want / (smax - smin)[:, None], 1e-9, "grid")
        elif o.startswith("set"):
            ctx.call(interp.set_values, sets[int(o[3:]) - 1])
        else:
            values = sets[used.pop(0) - 1]
            order = rng.permutation(pts.shape[1])[:20] if o == "call2" else np.arange(pts.shape[1])
            tol = 1e-8 * np.abs(op).sum(1).max()
            geo.check_close(ctx.call(interp if o == "call" else interp.interpolate, pts[:, order]),
                            values @ op[order].T, tol, "values after %s" % case["hist"])


def many(ctx, case, rng):
    """Many points, computed by many threads, with a multilinear function as the oracle."""
    from geotiepoints.multilinear import MultilinearInterpolator
    d = case["d"]
    grid = rng.integers(2, 6, d)
    smin, smax = rng.uniform(-2, 0, d), rng.uniform(1, 2, d)
    coef = rng.uniform(-1, 1, (3,) + (2,) * d)

    def fun(p):
        out = np.zeros((3, p.shape[1]))
        for powers in np.ndindex((2,) * d):
            out += coef[(slice(None),) + powers][:, None] * np.prod([p[m] ** powers[m] for m in range(d)], axis=0)
        return out
    interp = ctx.call(MultilinearInterpolator, smin, smax, grid)
    interp.set_values(fun(interp.grid))
    pts = rng.uniform(-3, 3, (d, 20000))
    got = ctx.call(interp, pts)
    geo.check_close(got, fun(pts), 1e-9, "multilinear function")
    geo.check_same(ctx.call(interp, pts), got, "second call")


def far(ctx, case, rng):
    """Points further than TLC's integers go, with the rule of the specification (nearest cell) in floats."""
    from geotiepoints.multilinear import MultilinearInterpolator
    d = case["d"]
    grid = rng.integers(2, 6, d)
    values = rng.uniform(1, 2, (2,) + tuple(grid)) * rng.choice([-1, 1])
    interp = ctx.call(MultilinearInterpolator, np.zeros(d), grid - 1.0, grid, values.reshape(2, -1))
    u = rng.uniform(-1, 4, (d, 60))
    at = rng.integers(d, size=60)
    u[at, np.arange(60)] = rng.choice([-1, 1], 60) * 10.0 ** rng.uniform(2, 13, 60)
    cell = np.clip(np.floor(u), 0, (grid - 2)[:, None]).astype(int)
    lam = u - cell
    want, size = np.zeros((2, 60)), np.zeros(60)
    for corner in np.ndindex((2,) * d):
        w = np.prod([lam[m] if corner[m] else 1 - lam[m] for m in range(d)], axis=0)
        want += w * values[(slice(None),) + tuple(cell[m] + corner[m] for m in range(d))]
        size += np.abs(w) * 2
    geo.check_close(ctx.call(interp, u) / size, want / size, 1e-9, "points far away (relative)")


def large(ctx, case, rng):
    """Grids, values and points of any size, with the rule of the specification (cells and corners) in floats."""
    from geotiepoints.multilinear import MultilinearInterpolator
    d = case["d"]
    grid = rng.integers(2, {1: 5000, 2: 200, 3: 40, 4: 14}[d], d)
    num, fields = int(rng.integers(66000, 90000)) if case["d"] < 3 else geo.some_size(rng, 1, 9000), geo.some_size(rng, 1, 20)
    values = rng.uniform(-1, 1, (fields,) + tuple(grid))
    smin = rng.uniform(-5, 5, d)
    smax = smin + 10.0 ** rng.uniform(-2, 3, d)
    u = rng.uniform(-0.1, 1.1, (d, num)) * (grid - 1)[:, None]
    cell = np.clip(np.floor(u), 0, (grid - 2)[:, None]).astype(int)
    lam = u - cell
    want = np.zeros((fields, num))
    for corner in np.ndindex((2,) * d):
        w = np.prod([lam[m] if corner[m] else 1 - lam[m] for m in range(d)], axis=0)
        want += w * values[(slice(None),) + tuple(cell[m] + corner[m] for m in range(d))]
    pts = smin[:, None] + u / (grid - 1)[:, None] * (smax - smin)[:, None]
    interp = MultilinearInterpolator(smin, smax, grid, values.reshape(fields, -1))
    # outside, the weights can be as large as the distance in cells
    scale = np.prod([np.abs(lam[m]) + np.abs(1 - lam[m]) for m in range(d)], axis=0)
    for n in sorted({m for k in range(17) for m in (2 ** k, 10 ** k) if m < num} | {num}):
        got = ctx.call(interp, pts[:, :n])
        geo.check_close(got / scale[:n], want[:, :n] / scale[:n], 1e-8, "large grid (relative), %d points" % n)
