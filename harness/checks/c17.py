"""C17: scalars attached to grid samples are the scalar field at the sample."""
import numpy as np
import kalepy as kale
import gridbind as gb
import gridsample as gs
import kdebind as kb
from core import close, need


def run(chk):
    rng = np.random.default_rng(chk.seed)
    np.random.seed(chk.seed + 17)
    events, cases = [], []
    for kind in ("scalar", "proportion"):
        for rec in gs.records(chk, kind, 70, 900) + gs.records(chk, kind, 20, 200, dims=(4,), seed=20):
            if chk.stop:
                return
            if rec["total"] == 0:
                continue
            chk.replayed += 1
            (scalar if kind == "scalar" else proportion)(chk, rec, rng, events, cases)
    gs.judge(chk, events, cases, "samples with scalars")


def expect(rec, flat, fracs, interpolate):
    mean = np.array([ss["mean"][0] / ss["mean"][1] for ss in rec["scalars"]])[flat]
    if interpolate:
        for ii in range(rec["d"]):
            grad = np.array([ss["grad"][ii][0] / ss["grad"][ii][1] for ss in rec["scalars"]])[flat]
            mean = mean + grad * (fracs[ii] - 0.5)
    return mean


def check(chk, case, out, num, interpolate, scale, base=None):
    rec = case.rec
    need(chk, isinstance(out, tuple) and len(out) == 2, "no pair of samples and scalars is returned")
    pos, scal = np.asarray(out[0]), np.asarray(out[1])
    need(chk, pos.shape == (case.dim, num) and scal.shape == (num,), "samples have shape %r, scalars %r, for %d" % (
        pos.shape, scal.shape, num))
    flat, fracs = case.cells(chk, pos)
    want = expect(rec, flat, fracs, interpolate)
    if base is not None:
        mean = expect(rec, flat, fracs, False)
        want = want - mean + base.ravel()[flat] / scale
    worst = max([abs(ss["mean"][0]) + sum(abs(gg[0]) for gg in ss["grad"]) for ss in rec["scalars"]]) + 1
    close(chk, scal / scale, want, "scalars of the samples (interpolate=%s)" % interpolate, rtol=1e-6, atol=1e-7 * worst)
    return flat


def scalar(chk, rec, rng, events, cases):
    case = gs.Case(rec, rng)
    scale = 10.0 ** rng.uniform(-6, 6) if not case.emb.plain else 1
    field = np.array(rec["field"]).reshape(case.shape) * scale
    interpolate = bool(rng.random() < 0.75)
    num = 30000
    with chk.case("scalars on a grid of shape %s (%s masses)" % (case.shape, rec["mkind"]), record=rec, embedding=vars(case.emb)):
        extra = {"scalar_dens": gb.vals_arg(rng, field)}
        base = None
        if rng.random() < 0.25:
            base = rng.normal(0, scale, case.bins)
            extra["scalar_mass"] = gb.vals_arg(rng, base)
        out = gs.draw(chk, case, rng, num, interpolate, extra=extra)
        flat = check(chk, case, out, num, interpolate, scale, base)
        events.append(case.cells_event(flat))
        cases.append({"record": rec})
        out = kale.sample_grid(case.edges, case.dens, 5, scalar_dens=field, return_scalar=False, squeeze=False,
                               mass=case.mass if case.given else None)
        need(chk, np.shape(out) == (case.dim, 5), "samples without scalars have shape %r" % (np.shape(out),))


def proportion(chk, rec, rng, events, cases):
    case = gs.Case(rec, rng)
    scale = 10.0 ** rng.uniform(-6, 6) if not case.emb.plain else 1
    target = np.array(rec["field"]).reshape(case.shape) * scale * (1 if case.emb.plain else case.emb.amp)
    interpolate = bool(rng.random() < 0.75)
    num = 30000
    with chk.case("proportional sampling of a grid of shape %s (%s masses)" % (case.shape, rec["mkind"]), record=rec,
                  embedding=vars(case.emb)):
        edges, vals, kw = case.args(rng)
        if not interpolate or rng.random() < 0.5:
            kw["interpolate"] = interpolate
        target = gb.vals_arg(rng, target)
        before = kb.snapshot({"edges": edges, "vals": vals, "target": target, "kw": kw})
        out = kale.sample_grid_proportional(edges, target, vals, num, **kw)
        need(chk, kb.unchanged(before, {"edges": edges, "vals": vals, "target": target, "kw": kw}), "sampling modifies its arguments")
        flat = check(chk, case, tuple(out), num, interpolate, scale)
        events.append(case.cells_event(flat))
        cases.append({"record": rec})
