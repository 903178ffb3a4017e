"""C04: BlockMap.tla (TLC: whatever the containers, chunks and order of execution, blocks hold whole scans, all arrays are cut
alike, nothing runs before it is asked for and every fine line ends at its place) and replay of its container combinations
on all the MODIS interpolations with random chunks; executions are recorded (declared chunks, shapes and types of the blocks
computed one by one in random order, computations started too early) and the records are judged by TLC with the rules of
the specification; values must be those of the numpy arrays."""
import warnings

import dask
import dask.array as da
import numpy as np
import xarray as xr

import geo

import checks.c06 as c06
import checks.c07 as c07

ASSUMPTIONS = ["the first array decides the container of the results; numpy arrays are not mixed with others"]


def funs():
    import geotiepoints.modisinterpolator as mi
    import geotiepoints.simple_modis_interpolator as smi
    out = {}
    for f, name in c06.FUNS.items():
        out["simple" + name[5:]] = (getattr(smi, name), 10, 7, 2, f, 7 * f)
    for (c, k), name in c07.KINDS.items():
        out["cviirs" + name[5:]] = (getattr(mi, name), 10 if c == 1 else 2, 271 if c == 5 else 1354, 3, c * k, 1354 * k)
    out["cviirs_5km_to_1km_short"] = (mi.modis_5km_to_1km, 2, 270, 3, 5, 1354)
    return out


def model(ctx):
    inv = ["WholeScans", "DeclaredOk", "Aligned", "LazyUntilAsked", "OncePerBlock", "RightPlace"]
    sets = [dict(Lines={4, 6}, RPS=2, Factor=2, NArgs=2, Workers=2)] if ctx.quick else \
        [dict(Lines={4, 6, 8}, RPS=2, Factor=2, NArgs=2, Workers=3), dict(Lines={6}, RPS=3, Factor=2, NArgs=3, Workers=2),
         dict(Lines={4}, RPS=2, Factor=5, NArgs=3, Workers=2), dict(Lines={8}, RPS=2, Factor=2, NArgs=1, Workers=4)]
    return [ctx.tlc_async("BlockMap", s, spec="Spec", invariants=inv, properties=["Terminates"], workers=4,
                          label="BlockMap model check") for s in sets]


def chunking(rng, total, style=None):
    """A random way to cut *total*."""
    style = rng.random() if style is None else style
    if style < 0.2:
        return (total,)
    if style < 0.4:
        size = int(rng.integers(1, total + 1))
        return tuple([size] * (total // size) + ([total % size] if total % size else []))
    cuts = sorted(int(c) for c in rng.choice(np.arange(1, total), int(rng.integers(1, min(6, total))), replace=False)) \
        if total > 1 else []
    return tuple(int(x) for x in np.diff([0] + cuts + [total]))


def cases(ctx):
    futs = model(ctx)
    kinds = {}
    for nargs in (2, 3):
        kinds[nargs] = ctx.tlc("BlockMap", dict(Lines={2}, RPS=2, Factor=1, NArgs=nargs, Workers=1), init="EmitInit",
                               next="EmitNext", invariants=["Emit"], workers=1, coverage=False, label="container kinds").emitted
    # chunks of three scans, in halves of a scan for two arrays and in scans for three
    cuts = {2: ctx.tlc("BlockMap", dict(Lines={6}, RPS=2, Factor=1, NArgs=2, Workers=1), init="EmitChunksInit",
                       next="EmitNext", invariants=["EmitChunks"], workers=1, coverage=False, label="chunks").emitted,
            3: ctx.tlc("BlockMap", dict(Lines={3}, RPS=1, Factor=1, NArgs=3, Workers=1), init="EmitChunksInit",
                       next="EmitNext", invariants=["EmitChunks"], workers=1, coverage=False, label="chunks").emitted}
    combos = ctx.tlc("LazyGrid", dict(NR=1, NC=1, Values={1}, MaxReq=1, Named={"kind"}), init="EmitInit", next="EmitNext",
                     invariants=["Emit"], workers=1, coverage=False, label="combinations of requests").emitted
    combos = [c for c in combos if set(sum(c["differ"], [])) <= {"kind", "data", "call", "chunks"}]
    n = 0
    for i in ctx.rng.permutation(len(combos))[:24 if ctx.quick else None]:
        for group in ("1km", "5km"):
            n += 1
            yield dict(kind="together", group=group, differ=combos[int(i)]["differ"], seed=ctx.seed * 100003 + n)
    for name, (fun, rps, width, nargs, factor, fine) in funs().items():
        short = 4 if ctx.quick and "250m" in name and "simple" not in name else 16 if ctx.quick else 400
        # whole scans cut in the same number of chunks, other whole scans, and any
        order = [int(i) for i in ctx.rng.permutation(len(cuts[nargs]))]
        order.sort(key=lambda i: (not cuts[nargs][i]["whole"], cuts[nargs][i]["keep"], not cuts[nargs][i]["alike"]))
        pick = order[:short // 2] + [order[int(i)] for i in ctx.rng.integers(len(order), size=short - short // 2)]
        if nargs == 2:
            pick += [order[int(i)] for i in ctx.rng.integers(len(order), size=60 if ctx.quick else 2000)]
        batch = []
        for i in pick:
            n += 1
            unit = rps // 2 if nargs == 2 else rps
            rows = [[c * unit for c in ch] for ch in cuts[nargs][i]["chunks"]]
            cols = [[width]] * nargs if n % 3 else [list(chunking(ctx.rng, width)) for _ in range(nargs)]
            xr_ = n % 5 == 0
            batch.append(dict(kinds=["xr-dask" if xr_ else "dask"] * nargs, result="xarray" if xr_ else "dask", scans=3,
                              rows=rows, cols=cols, dtype=["f4", "f8"][n % 2], dims=["y", "x"],
                              scheduler=["threads", "synchronous"][n // 2 % 2], seed=ctx.seed * 100003 + n))
        for k in range(0, len(batch), 25):
            yield dict(kind=name, runs=batch[k:k + 25])
    for name, (fun, rps, width, nargs, factor, fine) in funs().items():
        num = 5 if ctx.quick and "250m" in name and "simple" not in name else 14 if ctx.quick else 250
        batch = []
        for i in range(num):
            n += 1
            pick = kinds[nargs][int(ctx.rng.integers(len(kinds[nargs])))]
            while i % 4 and not pick["lazy"]:
                pick = kinds[nargs][int(ctx.rng.integers(len(kinds[nargs])))]
            scans = int(ctx.rng.integers(1, 7 if rps == 2 or width < 10 else 4))
            same = bool(ctx.rng.random() < 0.5)
            rows = [chunking(ctx.rng, scans * rps) for _ in range(nargs)]
            if ctx.rng.random() < 0.4:   # whole scans
                rows = [tuple(rps * c for c in chunking(ctx.rng, scans)) for _ in range(nargs)]
            cols = [chunking(ctx.rng, width) for _ in range(nargs)]
            if ctx.rng.random() < 0.4:
                cols = [(width,)] * nargs
            if same:
                rows, cols = [rows[0]] * nargs, [cols[0]] * nargs
            batch.append(dict(kinds=pick["kinds"], result=pick["result"], scans=scans, rows=rows, cols=cols,
                              dtype=["f4", "f8"][n % 2], dims=[["y", "x"], ["lines", "cols"], ["x", "y"]][n % 3],
                              scheduler=["threads", "synchronous"][n // 2 % 2], seed=ctx.seed * 100003 + n))
        for k in range(0, len(batch), 25):
            yield dict(kind=name, runs=batch[k:k + 25])
    for f in futs:
        f.result()


def make(kind, arr, rows, cols, dims):
    if kind in ("dask", "xr-dask"):
        arr = da.from_array(arr, chunks=(tuple(rows), tuple(cols)))
    return xr.DataArray(arr, dims=dims) if kind.startswith("xr") else arr


def kind_of(obj):
    return "xarray" if isinstance(obj, xr.DataArray) else "dask" if isinstance(obj, da.Array) else \
        "numpy" if isinstance(obj, np.ndarray) else type(obj).__name__


def run_case(ctx, case):
    if case["kind"] == "together":
        return together(ctx, case)
    fun, rps, width, nargs, factor, finewidth = funs()[case["kind"]]
    records = []
    for run in case["runs"]:
        records += one(ctx, fun, rps, width, nargs, factor, finewidth, run)
    bad = ctx.judge("BlockMap", dict(Lines={2}, RPS=2, Factor=1, NArgs=1, Workers=1), records,
                    spoil=[spoil_chunk, spoil_computed, spoil_lazy, spoil_kind, spoil_dtype])
    if bad:
        raise geo.Mismatch("not an execution of the specification: %s" % bad[0])


GROUPS = {"1km": {"kind": ["cviirs_1km_to_", "simple_1km_to_"], "call": ["500m", "250m", "500m"]},
          "5km": {"kind": ["cviirs_5km_to_"], "call": ["1km", "500m", "250m"]}}


def together(ctx, case):
    """Lazy requests that differ in some aspects, computed together."""
    rng = np.random.default_rng(case["seed"])
    rps, width = (10, 1354) if case["group"] == "1km" else (2, 271)
    lon, lat = geo.patch(rng, 2 * rps, width, list(geo.PLACES)[case["seed"] % len(geo.PLACES)], 5.0, 1.0, noise=0.3, rps=rps, gap=9.0)
    arrays = [lon, lat, c07.zenith(rng, "slope", 2 * rps, width)]
    lazies, wants = [], []
    group = GROUPS[case["group"]]
    base = int(rng.integers(2))
    for num, differ in enumerate([[]] + case["differ"]):
        kind = group["kind"][("kind" in differ) % len(group["kind"])]
        call = group["call"][base + 1 if "call" in differ else base]
        fun, _, _, nargs, _, _ = funs()[kind + call]
        args = [a.copy() for a in arrays[:nargs]]
        if "data" in differ:
            args[int(rng.integers(nargs))][int(rng.integers(2 * rps)), int(rng.integers(width))] += 0.5 * num
        rows = [rps] * 2 if "chunks" not in differ else [2 * rps] if num % 2 else [1] * (2 * rps)
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            wants.append(ctx.call(fun, *[a.copy() for a in args]))
            lazies.append(ctx.call(fun, *[make("dask", a, rows, [width], None) for a in args]))
    flat = [x for res in lazies for x in res]
    order = rng.permutation(len(flat))
    got = dict(zip(order.tolist(), ctx.call(lambda: dask.compute(*[flat[i] for i in order], scheduler="threads", num_workers=4))))
    for i, w in enumerate(x for res in wants for x in res):
        geo.check_same(np.asarray(got[i]), w, "request %d computed together with requests that differ from it" % (i // 2))


def spoil_chunk(rec):
    rec["declared"][0] += 1
    rec["computed"][0] += 1


def spoil_computed(rec):
    rec["computed"][-1] -= 1


def spoil_lazy(rec):
    rec["early"] = 2


def spoil_kind(rec):
    rec["result"] = "numpy" if rec["result"] != "numpy" else "dask"


def spoil_dtype(rec):
    rec["computeddtype"] = "int64"


def one(ctx, fun, rps, width, nargs, factor, finewidth, run):
    rng = np.random.default_rng(run["seed"])
    lines = rps * run["scans"]
    lon, lat = geo.patch(rng, lines, width, list(geo.PLACES)[run["seed"] % len(geo.PLACES)], 5.0, 1.0, noise=0.3, rps=rps, gap=9.0)
    args = [lon, lat] + ([c07.zenith(rng, "slope", lines, width)] if nargs == 3 else [])
    args = [a.astype(run["dtype"]) for a in args]
    early = []

    def counting(dsk, keys, **kwargs):
        early.append(len(dsk))
        return dask.get(dsk, keys, **kwargs)
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        want = ctx.call(fun, *[a.copy() for a in args])
        given = [make(k, a.copy(), r, c, run["dims"]) for k, a, r, c in zip(run["kinds"], args, run["rows"], run["cols"])]
        with dask.config.set(scheduler=counting):
            got = ctx.call(fun, *given)
    if len(got) != 2:
        raise geo.Mismatch("%d results" % len(got))
    records = []
    xrdims = list(run["dims"]) if run["result"] == "xarray" else []
    for num, (g, w) in enumerate(zip(got, want)):
        what = "%s of %s" % (("longitudes", "latitudes")[num], {k: run[k] for k in ("kinds", "rows", "cols", "scheduler")})
        rec = dict(kinds=run["kinds"], lines=lines, rps=rps, factor=factor, finewidth=finewidth, early=len(early),
                   result=kind_of(g), indims=xrdims, dims=list(getattr(g, "dims", [])), indtype=str(args[0].dtype),
                   dtype=str(g.dtype))
        arr = g.data if rec["result"] == "xarray" else g
        geo.check_shape(g, (lines * factor, finewidth), what)
        if isinstance(arr, da.Array):
            declared = arr.chunks
            rec["declared"], rec["width"] = [int(c) for c in declared[0]], int(sum(declared[1]))
            if len(declared[1]) != 1:
                raise geo.Mismatch("%s: more than one column chunk" % what)
            computed = {}
            for i in rng.permutation(len(declared[0])):
                computed[int(i)] = ctx.call(lambda: np.asarray(arr.blocks[int(i)].compute(scheduler="synchronous")))
            blocks = [computed[i] for i in range(len(declared[0]))]
            rec["computed"], rec["widths"] = [b.shape[0] for b in blocks], [b.shape[1] for b in blocks]
            rec["computeddtype"] = str(blocks[0].dtype)
            geo.check_same(np.concatenate(blocks), w, what + " block by block")
            full = ctx.call(lambda: np.asarray(arr.compute(scheduler=run["scheduler"])))
        else:
            full = np.asarray(arr)
            rec.update(declared=[full.shape[0]], computed=[full.shape[0]], width=full.shape[1], widths=[full.shape[1]],
                       computeddtype=str(full.dtype))
        geo.check_same(full, w, what)
        records.append(rec)
    if run["result"] != "numpy":   # both at once
        both = ctx.call(lambda: dask.compute(*got, scheduler=run["scheduler"], **(
            {"num_workers": 4} if run["scheduler"] == "threads" else {})))
        for b, w in zip(both, want):
            geo.check_same(np.asarray(b), w, "both computed together")
    return records
