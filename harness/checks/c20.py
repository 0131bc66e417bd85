"""C20: bin centroids are the centres of mass of the corner densities."""
import numpy as np
from kalepy import utils
import gridbind as gb
import kdebind as kb
from core import close, need


def run(chk):
    rng = np.random.default_rng(chk.seed)
    jobs = gb.calc_jobs(chk, 150, 3000, cents=True)
    nempty = 0
    for job, res in zip(jobs, chk.tlc_many(jobs)):
        recs = res.records
        if not job.get("simulate") and len(recs) > chk.n(250, 3000):
            recs = [recs[ii] for ii in rng.permutation(len(recs))[:chk.n(250, 3000)]]
        for rec in recs:
            if chk.stop:
                return
            chk.replayed += 1
            one(chk, rec, rng)
            nempty += sum(rec["empty"])
    chk.notes["cells_of_zero_density"] = nempty


def one(chk, rec, rng):
    dim = rec["d"]
    emb = gb.Emb(rng, dim)
    shape = tuple(rec["shape"])
    bins = tuple(s - 1 for s in shape)
    arr = np.array(rec["vals"]).reshape(shape)
    arr = arr if (emb.plain and rng.random() < 0.5) else arr * emb.amp
    # the order of the axes is of no importance
    perm = list(rng.permutation(dim)) if rng.random() < 0.5 else list(range(dim))
    arrs = emb.edges(rec["edges"])
    edges = gb.edges_arg(rng, [arrs[p] for p in perm])
    vals = gb.vals_arg(rng, np.transpose(arr, perm))
    with chk.case("centroids of a grid of shape %s" % (shape,), record=rec, embedding=vars(emb)):
        before = kb.snapshot({"edges": edges, "vals": vals})
        got = np.asarray(utils.centroids(edges, vals))
        need(chk, got.shape == (dim,) + tuple(bins[p] for p in perm), "centroids have shape %s for bins %s" % (got.shape, bins))
        empty = np.array(rec["empty"]).reshape(bins)
        for pos, ax in enumerate(perm):
            have = np.transpose(got[pos], np.argsort(perm))
            want = np.array([nn / dd for nn, dd in rec["coms"][ax]]).reshape(bins) * emb.scale[ax] + emb.shift[ax]
            atol = 1e-9 * (emb.scale[ax] + abs(emb.shift[ax]) * 1e-3)
            close(chk, have[~empty], want[~empty], "centroids along dimension %d" % ax, rtol=1e-12, atol=atol)
            cut = [np.newaxis] * dim
            cut[ax] = slice(None)
            lo = np.broadcast_to(arrs[ax][:-1][tuple(cut)], bins)
            hi = np.broadcast_to(arrs[ax][1:][tuple(cut)], bins)
            need(chk, np.all((lo <= have) & (have <= hi)), "centroids along dimension %d are not inside of their cells: %r" % (ax, have))
        need(chk, kb.unchanged(before, {"edges": edges, "vals": vals}), "arguments are modified")
        chk.sample({"edges": edges, "values": vals, "centroids": got})
