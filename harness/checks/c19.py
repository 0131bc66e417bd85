"""C19: grid integrals agree with each other and with the trapezoid rule."""
import numpy as np
from kalepy import utils
import gridbind as gb
import kdebind as kb
from core import close, need


def run(chk):
    rng = np.random.default_rng(chk.seed)
    jobs = gb.calc_jobs(chk, 120, 2500) + gb.calc_jobs(chk, 60, 1200, negative=True)[:4]
    for job, res in zip(jobs, chk.tlc_many(jobs)):
        recs = res.records
        if not job.get("simulate") and len(recs) > chk.n(150, 3000):
            recs = [recs[ii] for ii in rng.permutation(len(recs))[:chk.n(150, 3000)]]
        for rec in recs:
            if chk.stop:
                return
            chk.replayed += 1
            one(chk, rec, rng)


def one(chk, rec, rng):
    dim = rec["d"]
    emb = gb.Emb(rng, dim)
    shape = tuple(rec["shape"])
    edges = gb.edges_arg(rng, emb.edges(rec["edges"]))
    ints = emb.plain and rng.random() < 0.5
    arr = np.array(rec["vals"]).reshape(shape)
    arr = arr if ints else arr * emb.amp
    vals = gb.vals_arg(rng, arr)
    big = max(abs(v) for v in rec["vals"]) or 1
    with chk.case("integrals over a grid of shape %s" % (shape,), record=rec, embedding=vars(emb)):
        before = kb.snapshot({"edges": edges, "vals": vals})
        for per in rec["per"]:
            axes = sorted(per["axes"])
            fac = emb.vol(axes) / per["den"]
            atol = 1e-10 * abs(fac) * big * per["den"] * np.prod([max(np.diff(rec["edges"][a - 1])) * len(rec["edges"][a - 1]) for a in axes])
            kw = dict(rtol=1e-9, atol=atol)
            axis = gb.axis_arg(rng, axes, dim)
            what = "axis=%r" % (axis,)
            mass = np.array(per["mass"]).reshape(per["shape"]) * fac
            close(chk, utils.trapz_dens_to_mass(vals, edges, axis=axis), mass, "trapz_dens_to_mass, " + what, **kw)
            left = tuple(shape[i] for i in range(dim) if i + 1 not in axes)
            tot = np.array(per["total"]).reshape(left) * fac
            axis = gb.axis_arg(rng, axes, dim)
            close(chk, utils.trapz_nd(vals, edges, axis=axis), tot, "trapz_nd, axis=%r" % (axis,), **kw)
            if not per["cum"]:
                continue
            axis = gb.axis_arg(rng, axes, dim, several=False) if len(axes) == 1 else None
            what = "axis=%r" % (axis,)
            if dim == 1:
                axis = [None, 0][rng.integers(0, 2)]
            cum = np.array(per["cum"]).reshape(per["shape"]) * fac
            pads = [(1, 0) if i + 1 in axes else (0, 0) for i in range(dim)]
            close(chk, utils.cumtrapz(vals, edges, axis=axis), np.pad(cum, pads), "cumtrapz, " + what, **kw)
            close(chk, utils.cumtrapz(vals, edges, prepend=False, axis=axis), cum, "cumtrapz without zeros, " + what, **kw)
            plain = np.array(per["plain"]).reshape(shape) * (1 if ints else emb.amp)
            close(chk, utils.cumsum(vals, axis=axis), plain, "cumsum, " + what, rtol=1e-9, atol=1e-10 * big * emb.amp * len(rec["vals"]))
        need(chk, kb.unchanged(before, {"edges": edges, "vals": vals}), "arguments are modified")
        chk.sample({"edges": edges, "values": vals, "per axes": rec["per"][0]})
