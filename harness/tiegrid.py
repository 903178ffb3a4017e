"""Requests to TieGrid.tla (axes with exact interpolation operators) and their replay on the interpolators."""
import numpy as np

import geo
from core import SpecError


def axis(rng, k, fill=False, chunks=False, large=False):
    """A random axis: fine and tie positions (integers, to be divided by den), chunk size and order."""
    den = int(rng.choice([1, 1, 2, 4]))
    if fill:
        nchunk = int(rng.integers(1, 4)) if chunks else 1
        per = int(rng.integers(2, 5))
        step = int(rng.integers(1, 4)) if per > 2 else int(rng.integers(2, 4))
        o = int(rng.integers(-3, 4))
        fine = [o + step * i for i in range(nchunk * per)]
        ties = []
        for g in range(nchunk):
            lo, hi = fine[g * per], fine[g * per + per - 1]
            a = lo - (2 if g == 0 else 0)
            b = hi + (step - 1 if g < nchunk - 1 else 2)
            if rng.random() < 0.6:
                a, b = lo, hi
            pos = np.arange(a, b + 1)
            most = len(pos) if k == 1 else k + 1
            least = 2 if k == 1 else max(2, k - 1)
            num = int(rng.integers(least, max(least, min(most, len(pos))) + 1))
            ties += sorted(int(p) for p in rng.choice(pos, size=min(num, len(pos)), replace=False))
        return dict(fine=fine, ties=ties, chunk=per if chunks else 0, k=k, den=den)
    n = int(rng.integers(2, 8)) if k == 1 else k + 1 + int(rng.integers(0, 3 if k < 4 else 2))
    span = max(n - 1, int(rng.integers(n - 1, n + (5 if k < 4 else 2 if n == k + 1 else 1))))
    o = int(rng.integers(-3, 4))
    ties = [o] + sorted(o + 1 + int(p) for p in rng.choice(span - 1, size=n - 2, replace=False)) + [o + span] \
        if n > 2 else [o, o + span]
    style = rng.random()
    inside = np.arange(o, o + span + 1)
    if style < 0.35:
        fine = [int(p) for p in inside]
    elif style < 0.5:
        fine = list(ties)
    else:
        fine = sorted(int(p) for p in rng.choice(inside, size=int(rng.integers(1, len(inside) + 1)), replace=False))
    return dict(fine=fine, ties=ties, chunk=0, k=k, den=den)


def solve(ctx, axes, label):
    """Have TLC compute the operators of the axes."""
    req = [dict(a, id=i) for i, a in enumerate(axes)]
    out = {}

    def part(reqs):
        if not reqs:
            return []
        try:
            return ctx.tlc("TieGrid", dict(NFine={2}, Chunks={0}, Reach=0, Orders={1}, MaxSteps=1, HistLen=1),
                           init="TableInit", next="TableNext", invariants=["Tables"], req=reqs, workers=1,
                           coverage=False, label=label).emitted
        except SpecError as err:   # TLC integers have 32 bits: leave out an axis it can not solve exactly
            if "Overflow" not in str(err):
                raise
            if len(reqs) == 1:
                return []
            return part(reqs[:len(reqs) // 2]) + part(reqs[len(reqs) // 2:])
    futs = [ctx.pool.submit(part, [req[i] for i in idx])
            for idx in np.array_split(np.arange(len(req)), min(4, max(1, len(req) // 20)))]
    for f in futs:
        for t in f.result():
            out[t["id"]] = t
    missing = len(req) - len(out)
    assert missing <= len(req) // 5, "too many axes overflow"
    if missing:
        ctx.counts["axes left out (32-bit overflow)"] = missing
    none = {"plain": [], "filled": []}
    res = []
    for i, a in enumerate(axes):
        ops = {}
        for name in ("plain", "filled"):
            ops[name] = geo.comb_matrix(out.get(i, none)[name], len(a["ties"])) if out.get(i, none)[name] else None
            assert ops[name] is None or len(ops[name]) == len(a["fine"])
        res.append(ops)
    return res


def positions(a, as_float=False):
    fine, ties = np.array(a["fine"]), np.array(a["ties"])
    if a["den"] != 1 or as_float:
        return fine / a["den"], ties / a["den"]
    return fine, ties


def model(ctx):
    inv = ["Increasing", "TiesKept", "HistoryFree", "FillReaches", "Affine", "FillLocal", "OutAffine", "OutTies",
           "OutPoly", "OutLocal"]
    if ctx.quick:
        sets = [dict(NFine={4}, Chunks={0, 2}, Reach=1, Orders={1}, MaxSteps=3, HistLen=1),
                dict(NFine={4}, Chunks={0}, Reach=0, Orders={2, 3}, MaxSteps=2, HistLen=1)]
    else:
        sets = [dict(NFine={4}, Chunks={0, 2}, Reach=1, Orders={1, 2, 3}, MaxSteps=4, HistLen=1),
                dict(NFine={6}, Chunks={0, 2, 3}, Reach=0, Orders={1}, MaxSteps=3, HistLen=1)]
    return [ctx.tlc_async("TieGrid", s, spec="Spec", invariants=inv, workers=4, label="TieGrid model check",
                          allow_unused=("FillX",) if False else ()) for s in sets]
