"""All the geographic interpolations of the package, in a uniform way: shape of the tie points, how to run them, the
interpolated cartesian positions that the specifications give, and the directions in which they are symmetric."""
import warnings

import numpy as np
import xarray as xr

import checks.c06 as c06
import checks.c07 as c07
import checks.c08 as c08
import checks.c14 as c14
import tiegrid


class Interp:
    """One geographic interpolation.

    *run(lon, lat, rr, rc)* interpolates; rr and rc tell that rows or columns are stored in the reverse direction (with the
    grids of the interpolation reversed too). *expected(xyz)* gives the interpolated positions."""

    def __init__(self, name, shape, run, expected, rows=False, cols=False, steps=(1.0, 1.0), rps=None, f4=True,
                 cheap=True, amp=1.0):
        self.name, self.shape, self.run, self.expected = name, shape, run, expected
        self.rows, self.cols, self.steps, self.rps, self.f4 = rows, cols, steps, rps, f4
        self.cheap, self.amp = cheap, amp


def quiet(fun, *args, **kwargs):
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        return fun(*args, **kwargs)


def comps(op, xyz):
    return np.stack([op[0] @ xyz[..., i] @ op[1].T for i in range(3)], -1)


def simple(ctx, out, widths=(2, 7)):
    import geotiepoints.simple_modis_interpolator as smi
    tabs = c06.tables(ctx, [(f, n) for f in (2, 4) for n in widths])
    for (f, n), tab in tabs.items():
        for ns in (1, 2):
            fun = getattr(smi, c06.FUNS[f])

            def expected(xyz, tab=tab):
                rows, cols = tab
                scans = xyz.reshape((-1, 10) + xyz.shape[1:])
                res = np.einsum("jr,srcx,ic->sjix", rows, scans, cols)
                return res.reshape((-1,) + res.shape[2:])
            out.append(Interp("simple f%d n%d s%d" % (f, n, ns), (10 * ns, n), lambda lo, la, rr, rc, fun=fun: fun(lo, la),
                              expected, rows=True, rps=10))


def cviirs(ctx, out, kinds):
    import geotiepoints.modisinterpolator as mi
    tabs = c07.tables(ctx, kinds)
    for (c, k, w), tab in tabs.items():
        for satz in ("zero", "slope"):
            fun = getattr(mi, c07.KINDS[c, k])
            lines = 10 if c == 1 else 2
            sz = c07.zenith(np.random.default_rng(5), satz, lines, w)

            def expected(xyz, tab=tab, sz=sz, c=c):
                zr, st, zc, ss = tab
                c_exp, c_ali = c07.corrections(sz, c)
                r, q = zr[:, None], zc[None, :]
                s, t = ss[None, :], st[:, None]
                a = (s + s * (1 - s) * c_exp[r, q] + t * (1 - t) * c_ali[r, q])[..., None]
                t = t[..., None]
                return (1 - t) * ((1 - a) * xyz[r, q] + a * xyz[r, q + 1]) + t * ((1 - a) * xyz[r + 1, q] + a * xyz[r + 1, q + 1])

            def run(lo, la, rr, rc, fun=fun, sz=sz):
                return quiet(fun, lo, la, sz.astype(lo.dtype))
            out.append(Interp("cviirs %d-%d w%d %s" % (c, k, w, satz), (lines, w), run, expected, rows=satz == "zero",
                              steps=(1.0, 1.0) if c == 1 else (10.0, 5.0), rps=lines, cheap=False))


def vii(ctx, out):
    from geotiepoints.viiinterpolator import tie_points_geo_interpolation
    sizes = [(1, 2, 2, 8), (2, 3, 4, 3), (3, 2, 5, 1)]
    tabs, _ = c08.tables(ctx, sizes)
    for ns, na, nc, f in sizes:
        def run(lo, la, rr, rc, na=na, f=f):
            got = tie_points_geo_interpolation(xr.DataArray(lo, dims=["y", "x"]), xr.DataArray(la, dims=["y", "x"]), na, f,
                                               lat_threshold_use_cartesian=-1)
            return tuple(np.asarray(g.values) for g in got)
        out.append(Interp("vii %d %d %d %d" % (ns, na, nc, f), (ns * na, nc), run,
                          lambda xyz, tab=tabs[ns, na, nc, f]: comps(tab, xyz), steps=(8.0, 8.0), rps=na))


def legacy(ctx, out):
    import geotiepoints
    tabs = c14.tables(ctx, (1,))
    for h in ("k1f2", "k1f4", "k5", "avhrr"):
        lines = {"k5": 2, "avhrr": 1}.get(h, 10)
        fun = getattr(geotiepoints, c14.NAMES[h])
        out.append(Interp("legacy " + h, (lines, c14.WIDTH[h]), lambda lo, la, rr, rc, fun=fun: fun(lo, la),
                          lambda xyz, tab=tabs[h, 1]: comps(tab, xyz), rows=True,
                          steps={"k5": (10.0, 5.0), "avhrr": (1.0, 20.0)}.get(h, (1.0, 1.0)), rps=lines, cheap=False))


def mirror(fine, ties):
    return fine[0] + fine[-1] - fine[::-1], fine[0] + fine[-1] - ties[::-1]


def grids(ctx, out):
    from geotiepoints.geointerpolator import GeoGridInterpolator, GeoInterpolator, GeoSplineInterpolator
    axes = {}
    for k in (1, 2, 3):
        axes[k] = dict(fine=list(range(0, 19)), ties=[0, 4, 9, 13, 18], chunk=0, k=k, den=1)
    axes["out"] = dict(fine=list(range(-2, 22)), ties=[0, 4, 9, 13, 18], chunk=0, k=1, den=1)
    axes["two"] = dict(fine=list(range(0, 9)), ties=[0, 8], chunk=0, k=1, den=1)
    ops = dict(zip(axes, tiegrid.solve(ctx, list(axes.values()), "operators of the grids")))

    def grid(name, rr, rc):
        fr, tr = (np.array(axes[name[0]][x]) for x in ("fine", "ties"))
        fc, tc = (np.array(axes[name[1]][x]) for x in ("fine", "ties"))
        if rr:
            fr, tr = mirror(fr, tr)
        if rc:
            fc, tc = mirror(fc, tc)
        return (tr, tc), (fr, fc)

    def add(label, name, run, filled=False, f4=True):
        op = [ops[n]["filled" if filled else "plain"] for n in name]
        shape = tuple(len(axes[n]["ties"]) for n in name)
        amp = np.abs(op[0]).sum(1).max() * np.abs(op[1]).sum(1).max()
        out.append(Interp("%s %s" % (label, "-".join(str(n) for n in name)), shape, run, lambda xyz, op=op: comps(op, xyz),
                          rows=True, cols=True, steps=(6.0, 6.0), f4=f4, amp=amp))
    for name in [(1, 1), (2, 3), (3, 2), ("two", "two"), (1, "two")]:
        k = [axes[n]["k"] for n in name]

        def legacy_run(lo, la, rr, rc, name=name, k=k):
            ties, fine = grid(name, rr, rc)
            return GeoInterpolator((lo, la), ties, fine, k[0], k[1]).interpolate()

        def spline_run(lo, la, rr, rc, name=name, k=k):
            ties, fine = grid(name, rr, rc)
            return GeoSplineInterpolator(ties, lo, la, kx=k[0], ky=k[1]).interpolate(fine)
        add("GeoInterpolator", name, legacy_run)
        add("GeoSplineInterpolator", name, spline_run)
    for name in [(1, 1), ("two", 1)]:
        def grid_run(lo, la, rr, rc, name=name):
            ties, fine = grid(name, rr, rc)
            return GeoGridInterpolator(ties, lo, la).interpolate(fine)

        def lazy_run(lo, la, rr, rc, name=name):
            ties, fine = grid(name, rr, rc)
            lons, lats = GeoGridInterpolator(ties, lo, la).interpolate(fine, chunks=(5, 7))
            return np.asarray(lons), np.asarray(lats)
        add("GeoGridInterpolator", name, grid_run)
        add("GeoGridInterpolator lazy", name, lazy_run)

    def out_run(lo, la, rr, rc):
        ties, fine = grid(("out", "out"), rr, rc)
        return GeoGridInterpolator(ties, lo, la, bounds_error=False, fill_value=None).interpolate(fine)

    def fill_run(lo, la, rr, rc):
        ties, fine = grid(("out", "out"), rr, rc)
        it = GeoInterpolator((lo, la), ties, fine)
        it.fill_borders("y", "x")
        return it.interpolate()
    add("GeoGridInterpolator extrapolating", ("out", "out"), out_run, filled=True)
    add("GeoInterpolator filled", ("out", "out"), fill_run, filled=True)


def registry(ctx, big=False):
    """The interpolations by name."""
    kinds = list(c07.KINDS) if big else [(1, 2), (5, 1)]
    out = []
    simple(ctx, out, (2, 3, 7, 12) if big else (2, 7))
    cviirs(ctx, out, kinds)
    vii(ctx, out)
    legacy(ctx, out)
    grids(ctx, out)
    return {i.name: i for i in out}
