"""C18: outlier sampling conserves mass: centroids above threshold, draws below."""
import numpy as np
import kalepy as kale
import gridbind as gb
import gridsample as gs
import kdebind as kb
from core import close, need


def run(chk):
    rng = np.random.default_rng(chk.seed)
    np.random.seed(chk.seed + 18)
    events, cases = [], []
    recs = gs.records(chk, "outlier", 120, 1500) + gs.records(chk, "outlier", 30, 300, dims=(4,), seed=20)
    stats = {"all above": 0, "none above": 0, "some": 0}
    for rec in recs:
        if chk.stop:
            return
        if rec["total"] == 0:
            continue
        chk.replayed += 1
        stats["all above" if sum(rec["outs"]) == 0 else "some" if any(rec["inl"]) else "none above"] += 1
        exact(chk, rec, rng)
        if sum(rec["outs"]) and rng.random() < 0.5:
            law(chk, rec, rng, events, cases)
        if rng.random() < 0.12:
            poisson(chk, rec, rng, events, cases)
    chk.notes["thresholds"] = stats
    poisson_law(chk, recs, rng)
    gs.judge(chk, events, cases, "outlier samples")


def tied(rec):
    two = 2 ** rec["d"]
    return any(mm * two == rec["thr"] * rec["den"] for mm in rec["mass"])


def sample(chk, case, rng, **opts):
    rec = case.rec
    edges, vals, kw = case.args(rng)
    thr = rec["thr"] / 2 ** rec["d"] * case.unit * rec["den"]
    before = kb.snapshot({"edges": edges, "vals": vals, "kw": kw})
    if rng.random() < 0.3 and "interpolate" not in opts:
        opts["interpolate"] = True
    if rng.random() < 0.5:
        got = kale.sample_outliers(edges, vals, thr, **kw, **opts)
        need(chk, len(got) == 2, "sample_outliers does not return points and weights")
        pos, wts = got
        if case.dim == 1:
            need(chk, np.ndim(pos) == 1 or np.size(pos) == 1, "points of a 1D grid have shape %r" % (np.shape(pos),))
            pos = np.reshape(pos, (1, -1))
    else:
        obj = kale.sample.Sample_Outliers(edges, vals, threshold=thr, **kw)
        if rng.random() < 0.3:
            obj.sample()
        nn, pos, wts = obj.sample(**opts)
        need(chk, nn == np.shape(pos)[-1], "%s samples are reported for %r points" % (nn, np.shape(pos)))
    need(chk, kb.unchanged(before, {"edges": edges, "vals": vals, "kw": kw}), "sampling modifies its arguments")
    pos, wts = np.asarray(pos), np.asarray(wts)
    need(chk, wts.shape == (pos.shape[1],) and pos.shape[0] == case.dim, "points have shape %r, weights %r" % (pos.shape, wts.shape))
    flat, fracs = case.cells(chk, pos)
    # a centroid on the edge between two cells would be ambiguous: they lie strictly inside
    inl = np.array(rec["inl"])
    need(chk, np.array_equal(np.bincount(flat, minlength=inl.size)[inl], np.ones(np.count_nonzero(inl))),
         "cells above the threshold do not have one sample each")
    coms = np.array([[cc[0] / cc[1] for cc in com] for com in rec["coms"]]) * case.emb.scale + case.emb.shift
    sel = inl[flat]
    # (the centroid of a cell with given mass, but without density, may be any point inside)
    full = np.array([sum(ff[0]) > 0 for ff in rec["faces"]])
    sure = sel & full[flat]
    close(chk, pos[:, sure].T, coms[flat[sure]], "centroids of cells above the threshold", rtol=1e-9,
          atol=1e-9 * np.max(case.emb.scale + np.abs(case.emb.shift)))
    need(chk, np.all(wts[~sel] == 1), "weights of draws below the threshold are %r" % (wts[~sel],))
    need(chk, np.all(np.array(rec["outs"])[flat[~sel]] > 0), "draws in cells without mass below the threshold")
    return flat, fracs, sel, wts


def exact(chk, rec, rng):
    case = gs.Case(rec, rng, plain=True if tied(rec) else None, amp=None)
    total = sum(rec["outs"]) * case.unit
    if not tied(rec) and total > 0:
        case = gs.Case(rec, rng, amp=case.emb.amp * rng.uniform(0.3, 60) / total)
        # (the new embedding has its own scales)
        total = sum(rec["outs"]) * case.unit
    if total > 1e5:
        case = gs.Case(rec, rng, plain=True)
        total = sum(rec["outs"]) * case.unit
    with chk.case("outliers of a grid of shape %s, threshold %s/%d of masses %s/%d" % (
            case.shape, rec["thr"], 2 ** rec["d"], rec["mass"], rec["den"]), record=rec, embedding=vars(case.emb)):
        flat, fracs, sel, wts = sample(chk, case, rng)
        close(chk, wts[sel], case.mass.ravel()[flat[sel]], "weights of centroids", rtol=1e-9)
        nout = np.count_nonzero(~sel)
        need(chk, abs(nout - total) <= 0.5 + 1e-6 * total, "%d draws for a mass of %r below the threshold" % (nout, total))


def law(chk, rec, rng, events, cases):
    case = gs.Case(rec, rng)
    total = sum(rec["outs"]) * case.unit
    emb = case.emb
    case.emb.amp *= 60000.0 / total
    case.dens = np.array(rec["vals"]).reshape(case.shape) * case.emb.amp
    case.unit *= 60000.0 / total
    case.mass = np.array(rec["mass"], dtype=float).reshape(case.bins) * case.unit
    if tied(rec):
        return
    interpolate = bool(rng.random() < 0.7)
    with chk.case("draws below the threshold, of a grid of shape %s" % (case.shape,), record=rec, embedding=vars(emb)):
        flat, fracs, sel, wts = sample(chk, case, rng, interpolate=interpolate)
        new = [case.cells_event(flat[~sel], mass=rec["outs"])]
        new += case.profile_events(flat[~sel], fracs[:, ~sel], uniform=not interpolate)
        events += new
        cases += [{"record": rec, "edges": case.edges}] * len(new)


def poisson(chk, rec, rng, events, cases):
    if tied(rec):
        return
    case = gs.Case(rec, rng)
    fac = 20.0 / (rec["total"] * case.unit)
    case.emb.amp *= fac
    case.unit *= fac
    case.dens = np.array(rec["vals"]).reshape(case.shape) * case.emb.amp
    case.mass = np.array(rec["mass"], dtype=float).reshape(case.bins) * case.unit
    reps = chk.n(120, 400)
    # each of the numbers by itself, or both
    flags = [dict(poisson_inside=True, poisson_outside=True), dict(poisson_inside=True), dict(poisson_outside=True),
             dict(poisson_inside=True, poisson_outside=False)][rng.integers(0, 4)]
    total = sum(rec["outs"]) * case.unit
    with chk.case("Poisson numbers of outliers %s, of a grid of shape %s" % (flags, case.shape), record=rec, embedding=vars(case.emb)):
        inside = np.zeros(len(rec["mass"]))
        nout = 0
        for _ in range(reps):
            flat, fracs, sel, wts = sample(chk, case, rng, **flags)
            if flags.get("poisson_inside"):
                need(chk, np.all((wts[sel] == np.round(wts[sel])) & (wts[sel] >= 0)), "Poisson weights are %r" % (wts[sel],))
            else:
                close(chk, wts[sel], case.mass.ravel()[flat[sel]], "weights of centroids", rtol=1e-9)
            inside[flat[sel]] += wts[sel]
            num = np.count_nonzero(~sel)
            if not flags.get("poisson_outside"):
                need(chk, abs(num - total) <= 0.5 + 1e-6 * total, "%d draws for a mass of %r below the threshold" % (num, total))
            nout += num
        new = []
        if flags.get("poisson_outside"):
            new.append(dict(what="mean", c=int(nout), m=int(round(reps * total))))
        for kk in np.flatnonzero(rec["inl"]):
            new.append(dict(what="mean", c=int(inside[kk]), m=int(round(reps * case.mass.ravel()[kk]))))
        events += new
        cases += [{"record": rec, "edges": case.edges}] * len(new)


def poisson_law(chk, recs, rng):
    """A mean of two: 0, 1, 2, ... draws, or weights, with the probabilities of Poisson's law."""
    law = [1353, 2707, 2707, 1804, 902, 361, 166]
    cnt = {"draws below the threshold": np.zeros(7, dtype=int), "weight of a centroid": np.zeros(7, dtype=int)}
    recs = [rec for rec in recs if rec["total"] and not tied(rec)]
    for kk, rec in enumerate([recs[i] for i in rng.permutation(len(recs))[:chk.n(30, 120)]]):
        if chk.stop:
            return
        case = gs.Case(rec, rng)
        outs, inls = sum(rec["outs"]), np.flatnonzero(rec["inl"])
        below = outs > 0 and (kk % 2 == 0 or not inls.size)
        fac = 2.0 / ((outs if below else rec["mass"][inls[0]]) * case.unit)
        case.emb.amp *= fac
        case.unit *= fac
        case.dens = np.array(rec["vals"]).reshape(case.shape) * case.emb.amp
        case.mass = np.array(rec["mass"], dtype=float).reshape(case.bins) * case.unit
        with chk.case("Poisson's law, of a grid of shape %s" % (case.shape,), record=rec, embedding=vars(case.emb)):
            for _ in range(150):
                flat, fracs, sel, wts = sample(chk, case, rng, poisson_inside=not below, poisson_outside=below)
                num = np.count_nonzero(~sel) if below else int(wts[sel & (flat == inls[0])][0])
                cnt["draws below the threshold" if below else "weight of a centroid"][min(num, 6)] += 1
    events = [{"c": cc.tolist(), "p": law, "r": 1, "n": int(cc.sum())} for cc in cnt.values()]
    for kk, clause in chk.judge("CountsTrace", events):
        chk.violate("Poisson numbers, %s: %s" % (list(cnt)[kk - 1], clause), event=events[kk - 1])
