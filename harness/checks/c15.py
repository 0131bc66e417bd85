"""C15: grid sampling populates bins in proportion to their mass."""
import numpy as np
import gridsample as gs
from core import need


def run(chk):
    rng = np.random.default_rng(chk.seed)
    np.random.seed(chk.seed + 15)
    events, cases = [], []
    recs = gs.records(chk, "sample", 60, 600) + gs.records(chk, "sample", 30, 300, dims=(4,), seed=20)
    # one-bin-only and mostly empty grids
    recs += gs.records(chk, "sample", 30, 300, seed=30, MassValues={0, 5}, Values={0, 0, 3})
    for rec in recs:
        if chk.stop:
            return
        if rec["total"] == 0:
            continue
        chk.replayed += 1
        case = gs.Case(rec, rng)
        for size in (0, 1, int(rng.integers(2, 40)), None, 200000 if chk.thorough else 60000):
            interpolate = bool(rng.random() < 0.5)
            if size is None:
                # the total mass is the number of samples
                want = rng.integers(1, 400) + rng.uniform(0.05, 0.95)
                if case.given:
                    case.emb.amp = want / rec["total"]
                else:
                    case.emb.amp = want / (case.total / case.emb.amp)
                case.dens = np.array(rec["vals"]).reshape(case.shape) * case.emb.amp
                case.unit = (case.emb.amp if case.given else case.emb.vol(range(1, case.dim + 1))) / rec["den"]
                case.mass = np.array(rec["mass"], dtype=float).reshape(case.bins) * case.unit
            with chk.case("%s samples of a grid of shape %s (%s masses)" % (size, case.shape, rec["mkind"]), record=rec,
                          embedding=vars(case.emb)):
                out = np.asarray(gs.draw(chk, case, rng, size, interpolate))
                num = int(want) if size is None else size
                need(chk, out.shape == (case.dim, num), "samples have shape %r, for %d samples in %d dimensions" % (
                    out.shape, num, case.dim))
                flat, fracs = case.cells(chk, out)
                need(chk, np.all(np.array(rec["mass"])[flat] > 0), "samples in bins without mass")
                if num > 1000:
                    events.append(case.cells_event(flat))
                    cases.append({"record": rec, "edges": case.edges, "interpolate": interpolate})
    heavy(chk, rng, events, cases)
    many(chk, rng, events, cases)
    gs.judge(chk, events, cases, "samples of a grid")


def heavy(chk, rng, events, cases):
    """Cells of very different masses: a few hundred samples for every unit of mass."""
    recs = gs.records(chk, "sample", 25, 60, dims=(1, 2), seed=70, MassValues={0, 1, 10001}, NEdge={3, 7})
    recs = [rec for rec in recs if rec["mkind"] == "given" and sum(mm > 1 for mm in rec["mass"]) == 1 and 1 in rec["mass"]]
    for dim in (1, 2):
        for rec in [rec for rec in recs if rec["d"] == dim][:chk.n(2, 8)]:
            if chk.stop:
                return
            chk.replayed += 1
            case = gs.Case(rec, rng)
            size = 300 * rec["total"]
            with chk.case("%d samples of very different masses" % size, record=rec, embedding=vars(case.emb)):
                out = np.asarray(gs.draw(chk, case, rng, size, bool(rng.random() < 0.5)))
                flat, _ = case.cells(chk, out)
                event = dict(case.cells_event(flat), what="times", k=300)
                events.append(event)
                cases.append({"record": rec, "edges": case.edges})


def many(chk, rng, events, cases):
    """Grids of more than a thousand cells, whose masses the specification derives from the edges and densities."""
    import kalepy as kale
    for kk in range(chk.n(4, 30)):
        if chk.stop:
            return
        dim = 1 + kk % 2
        shape = [int(rng.integers(1100, 1800))] if dim == 1 else [int(v) for v in rng.integers(30, 45, 2)]
        edges = [np.cumsum(rng.choice([1, 1, 2], nn)) for nn in shape]
        vals = rng.choice([0, 1, 1, 2, 5], shape)
        if kk % 4 < 2:
            vals = np.sort(vals, axis=None).reshape(shape)
        vals[tuple(slice(0, int(rng.integers(0, 5))) for _ in shape)] = 0
        scale, amp = 10.0 ** rng.uniform(-3, 3, dim), 10.0 ** rng.uniform(-3, 3)
        corner = vals
        for ax, ee in enumerate(edges):
            ll, rr = [tuple(sl if a == ax else slice(None) for a in range(dim)) for sl in (slice(None, -1), slice(1, None))]
            wid = np.diff(ee).reshape([-1 if a == ax else 1 for a in range(dim)])
            corner = (corner[ll] + corner[rr]) * wid
        times = max(1, chk.n(1000000, 4000000) // int(corner.sum()))
        num = times * int(corner.sum())
        with chk.case("samples of a grid of shape %s" % (shape,), edges=[ee.tolist() for ee in edges], values=vals.tolist()):
            real = [ee * ss for ee, ss in zip(edges, scale)]
            out = np.asarray(kale.sample_grid(real, vals * amp, num, squeeze=False, interpolate=bool(rng.random() < 0.5)))
            need(chk, out.shape == (dim, num), "samples have shape %r" % (out.shape,))
            flat = np.zeros(num, dtype=int)
            for row, ee in zip(out, real):
                need(chk, np.all((row >= ee[0]) & (row <= ee[-1])), "samples outside of the grid")
                flat = flat * (ee.size - 1) + np.clip(np.searchsorted(ee, row, side="right") - 1, 0, ee.size - 2)
            chk.replayed += 1
            events.append(dict(what="many", e=[ee.tolist() for ee in edges], v=vals.ravel().tolist(), k=times,
                               cnt=np.bincount(flat, minlength=corner.size).tolist()))
            cases.append({"shape": shape})
