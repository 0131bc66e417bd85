"""C16: within a bin, samples follow the local linear density."""
import numpy as np
import gridsample as gs
from core import Raw


def run(chk):
    rng = np.random.default_rng(chk.seed)
    np.random.seed(chk.seed + 16)
    events, cases = [], []
    recs = gs.records(chk, "sample", 36, 500, seed=40)
    recs += gs.records(chk, "sample", 12, 200, seed=50, Values={1, 100}, NEdge={2, 3})
    recs += gs.records(chk, "sample", 12, 200, dims=(4,), seed=60)
    for rec in recs:
        if chk.stop:
            return
        if rec["total"] == 0:
            continue
        for interpolate in (True, False) if rng.random() < 0.3 else (True,):
            chk.replayed += 1
            case = gs.Case(rec, rng)
            with chk.case("positions within the bins of a grid of shape %s (%s masses)" % (case.shape, rec["mkind"]), record=rec,
                          embedding=vars(case.emb)):
                out = np.asarray(gs.draw(chk, case, rng, chk.n(150000, 200000), interpolate))
                flat, fracs = case.cells(chk, out)
                new = case.profile_events(flat, fracs, uniform=not interpolate)
                events += new
                cases += [{"record": rec, "edges": case.edges, "interpolate": interpolate}] * len(new)
    # very many samples of a density which varies slowly
    for rec in gs.records(chk, "sample", 1, 4, dims=(1,), seed=80, Values={48, 50}, NEdge={41}, MassValues=Raw("{}")):
        if chk.stop:
            return
        chk.replayed += 1
        case = gs.Case(rec, rng)
        case.emb.amp = 1.0
        with chk.case("small slopes", record=rec, embedding=vars(case.emb)):
            out = np.asarray(gs.draw(chk, case, rng, 5000000, True))
            flat, fracs = case.cells(chk, out)
            event = case.profile_events(flat, fracs)[0]
            events.append(dict(event, what="slopes"))
            cases.append({"record": rec, "edges": case.edges})
    gs.judge(chk, events, cases, "positions in bins")
