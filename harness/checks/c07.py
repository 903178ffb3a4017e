"""C07: Cviirs.tla (TLC: coordinates and spreading of the zones, write by write, give every fine pixel its
documented zone and position) and replay of its tables on the five zenith angle based functions."""
import warnings

import numpy as np

import geo

ASSUMPTIONS = ["the float formula of the alignment and expansion corrections (numpy, 64-bit) is part of the oracle, "
               "not of the TLA+ model, which decides zones and positions",
               "positions are compared within 0.05 m (64-bit) and 15 m + 0.3% of the cell (32-bit)"]
KINDS = {(1, 2): "modis_1km_to_500m", (1, 4): "modis_1km_to_250m", (5, 1): "modis_5km_to_1km",
         (5, 2): "modis_5km_to_500m", (5, 4): "modis_5km_to_250m"}
RE, H = 6370.997, 709.0


def spec(ctx):
    return ctx.tlc_async("Cviirs", {"Kinds": {(1, 2), (1, 4), (5, 1), (5, 2), (5, 4)},
                                    "Widths": {2, 3, 4} if ctx.quick else {2, 3, 4, 6, 9}},
                         spec="Spec", invariants=["Refines", "Positions", "Fresh", "Inside", "Ties", "Ties1", "Mirror"],
                         properties=["Terminates"], workers=4, label="Cviirs model check")


def tables(ctx, kinds=None):
    req = []
    for c, k in (kinds or KINDS):
        for w in ((1354,) if c == 1 else (271, 270)):
            req.append({"c": c, "k": k, "w": w})
    res = ctx.tlc("Cviirs", {"Kinds": {(1, 2)}, "Widths": {2}}, init="TableInit", next="TableNext",
                  invariants=["Tables"], req=req, workers=1, coverage=False, label="Cviirs tables")
    out = {}
    for t in res.emitted:
        assert len(t["cols"]) == 1354 * t["k"]
        rows, cols = np.array(t["rows"]), np.array(t["cols"])
        out[t["c"], t["k"], t["w"]] = (rows[:, 0], rows[:, 1] / rows[:, 2], cols[:, 0], cols[:, 1] / cols[:, 2])
    return out


def corrections(satz, width):
    """Expansion and alignment coefficients of each zone of a scan, from its upper tie points."""
    za, zb = np.deg2rad(satz[:-1, :-1].astype("f8")), np.deg2rad(satz[:-1, 1:].astype("f8"))
    pa, pb = np.arcsin(RE * np.sin(za) / (RE + H)), np.arcsin(RE * np.sin(zb) / (RE + H))
    ta, tb = za - pa, zb - pb
    phi = (pa + pb) / 2
    zeta = np.arcsin((RE + H) * np.sin(phi) / RE)
    theta = zeta - phi
    den = np.where(ta == tb, 2 * ta, ta - tb)
    with np.errstate(divide="ignore", invalid="ignore"):
        c_exp = 4 * ((ta + tb) / 2 - theta) / den
        d = ((RE + H) / RE * np.cos(phi) - np.cos(zeta)) * width / (2 * H)
        e = np.cos(zeta) - np.sqrt(np.cos(zeta) ** 2 - d ** 2)
        c_ali = 4 * e * np.sin(zeta) / den
    zero = den == 0
    return np.where(zero, 0, c_exp), np.where(zero, 0, c_ali)


def expected(tab, lon, lat, satz, coarse):
    zr, st, zc, ss = tab
    lines = 10 if coarse == 1 else 2
    xyz = geo.to_xyz(lon, lat)
    out = []
    r, q = zr[:, None], zc[None, :]
    st, ss = st[:, None], ss[None, :]
    for s in range(lon.shape[0] // lines):
        sl = slice(s * lines, (s + 1) * lines)
        p = xyz[sl]
        c_exp, c_ali = corrections(satz[sl], coarse)
        a = (ss + ss * (1 - ss) * c_exp[r, q] + st * (1 - st) * c_ali[r, q])[..., None]
        t = st[..., None]
        out.append((1 - t) * ((1 - a) * p[r, q] + a * p[r, q + 1]) + t * ((1 - a) * p[r + 1, q] + a * p[r + 1, q + 1]))
    return np.concatenate(out)


def zenith(rng, kind, rows, cols):
    if kind == "profile":
        one = np.abs(np.linspace(-65.0, 65.0, cols))
        return np.tile(one, (rows, 1)) + rng.uniform(0, 0.01, (rows, 1))
    if kind == "slope":
        return np.tile(np.linspace(2.0, 67.0, cols), (rows, 1)) * rng.uniform(0.9, 1.0, (rows, 1))
    if kind == "rough":
        return rng.uniform(0, 68, (rows, cols))
    if kind == "zero":
        return np.zeros((rows, cols))
    if kind == "constant":
        return np.full((rows, cols), rng.uniform(5, 60))
    if kind == "steps":   # equal neighbours, zeros and jumps
        return np.repeat(rng.choice([0.0, 0.0, 10.0, 30.0, 60.0], (rows, cols // 2 + 1)), 2, axis=1)[:, :cols]
    if kind == "steep":
        return np.tile(np.linspace(88.0, 20.0, cols), (rows, 1)) * rng.uniform(0.95, 1.0, (rows, 1))
    if kind == "small":
        return rng.uniform(0, 0.01, (rows, cols))
    if kind == "signed":
        return np.tile(np.linspace(-65.0, 65.0, cols), (rows, 1)) + rng.uniform(0, 0.1, (rows, 1))
    raise ValueError(kind)


def data(case):
    rng = np.random.default_rng(case["seed"])
    lines = 10 if case["c"] == 1 else 2
    rows = lines * case["scans"]
    lon, lat = geo.patch(rng, rows, case["w"], case["place"], case["step"], case["step"] / case.get("squeeze", 1),
                         noise=case["noise"], rps=lines, gap=3 * case["step"])
    dt = np.dtype(case["dtype"])
    return lon.astype(dt), lat.astype(dt), zenith(rng, case["satz"], rows, case["w"]).astype(dt)


def cases(ctx):
    fut = spec(ctx)
    ctx.tab = tables(ctx)
    places = list(geo.PLACES)
    num = 0
    zen = ["rough", "profile", "steps", "slope", "zero", "constant", "steep", "small", "signed"]
    for rep in range(1 if ctx.quick else 12):
        for c, k, w in ctx.tab:
            for satz in zen:
                for dtype in ("f8", "f4"):
                    if ctx.quick and dtype == "f4" and satz not in ("profile", "slope"):
                        continue
                    num += 1
                    step, noise = [(1.0, 0.3), (5.0, 1.0), (10.0, 8.0)][num % 3]
                    yield dict(kind="%dkm" % c, c=c, k=k, w=w, satz=satz, dtype=dtype, place=places[num % len(places)],
                               scans=1 + num % 2, step=step, noise=noise if dtype == "f8" else 0.1,
                               seed=ctx.seed * 100003 + num)
        for c, k, w in ctx.tab:   # more scans
            if ctx.quick and (c, k) in ((1, 4), (5, 4)):
                continue
            num += 1
            yield dict(kind="%dkm" % c, c=c, k=k, w=w, satz=zen[num % len(zen)], dtype="f8", place=places[num % len(places)],
                       scans=int(ctx.rng.integers(3, 9 if k > 1 else 60)), step=5.0, noise=1.0, seed=ctx.seed * 100003 + num)
    for rep in range(1 if ctx.quick else 5):   # longer than granules
        num += 1
        yield dict(kind="5km", c=5, k=1, w=270 + num % 2, satz=zen[num % len(zen)], dtype="f8", place=places[num % len(places)],
                   scans=256 + int(ctx.rng.integers(0, 9)), step=5.0, noise=1.0, seed=ctx.seed * 100003 + num)
    fut.result()


def run_case(ctx, case):
    import geotiepoints.modisinterpolator as mi
    lon, lat, satz = data(case)
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        got = ctx.call(getattr(mi, KINDS[case["c"], case["k"]]), lon, lat, satz)
    xyz = expected(ctx.tab[case["c"], case["k"], case["w"]], lon, lat, satz, case["c"])
    if len(got) != 2 or got[0].dtype != lon.dtype or got[1].dtype != lat.dtype:
        raise geo.Mismatch("dtypes of the result")
    tol = 15.0 + 3 * case["step"] if case["dtype"] == "f4" else 0.05
    err = geo.check_positions(got, xyz, tol)
    if case["c"] == 5 and case["k"] == 1:
        fine = geo.distance(got[0][2::5, 2::5][:, :case["w"]], got[1][2::5, 2::5][:, :case["w"]], lon, lat)
        if not fine.max() <= tol:
            raise geo.Mismatch("tie points not reproduced: %g m" % fine.max())
    name = "_max_err_%s" % case["dtype"]
    ctx.counts[name] = max(ctx.counts.get(name, 0), err)
