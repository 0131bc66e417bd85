"""C12: kept parameters are resampled as exact original values of one datum."""
import numpy as np
import kdecases as kc
import sampling
from core import Raw


def run(chk):
    rng = np.random.default_rng(chk.seed)
    np.random.seed(chk.seed + 99)
    keeps = {1: {"{1}"}, 2: {"{1}", "{2}", "{1, 2}"}, 3: {"{1}", "{2}", "{3}", "{1, 2}", "{2, 3}", "{1, 3}", "{1, 2, 3}"},
             4: {"{1}", "{4}", "{2, 3}", "{1, 4}", "{1, 3, 4}", "{1, 2, 3, 4}"},
             5: {"{5}", "{2, 4}", "{1, 2, 3, 5}", "{2, 3, 4, 5}", "{1, 2, 3, 4, 5}", "{1, 4, 5}"},
             6: {"{1, 6}", "{2, 3, 4, 5}", "{1, 2, 4, 5, 6}", "{1, 2, 3, 4, 5, 6}", "{1, 3, 5}"}}
    refl = {kc.seq(r) for r in ([kc.NIL, kc.NIL], [-1, kc.NIL], [0, kc.NIL], [kc.NIL, 3], [1, kc.NIL], [kc.AUTO, kc.AUTO])}
    each = {dim: dict(Keeps={Raw(k) for k in kk}) for dim, kk in keeps.items()}
    events, cases = [], []
    recs = sampling.records(chk, 27, 300, each=each, QueryModes={"default", "off"})
    recs += sampling.records(chk, 40, 300, seed=10, dims=(2, 3), each=each, QueryModes={"default", "pairs", "off"},
                             StoredModes={"none", "pairs"}, Reflects=refl)
    for rec in recs:
        if chk.stop:
            return
        sizes = [None, 1, int(rng.integers(2, 60))]
        sampling.replay(chk, rec, rng, events, cases, sizes, chk.n(30000, 100000))
    sampling.judge(chk, events, cases, what="samples with kept parameters")
