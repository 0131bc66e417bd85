"""Configurations of specification Kde.tla (which behaviours TLC generates), shared by several checks."""
from core import Raw

NIL, AUTO = -999, 999


def bw(kind, v, sym=""):
    def txt(x):
        return "<<" + ", ".join(txt(y) if isinstance(y, (list, tuple)) else str(y) for y in x) + ">>"
    return Raw('[kind |-> "%s", v |-> %s, sym |-> "%s"]' % (kind, txt(v), sym))


def seq(v):
    return Raw("<<" + ", ".join(seq(y).text if isinstance(y, (list, tuple)) else str(y) for y in v) + ">>")


def bws(dim, rich=True):
    out = [bw("scalar", [2]), bw("scalar", [1]), bw("scalar", [3]), bw("scalar", [2], "scott"),
           bw("diag", [2]), bw("diag", [3])]
    if rich:
        out += [bw("scalar", [2], "silverman"), bw("diag", [2], "scott"), bw("diag", [3], "silverman"),
                bw("scalar", [1], "scott")]
    if dim == 1:
        out += [bw("vec", [3])]
    if dim == 2:
        out += [bw("vec", [1, 3]), bw("vec", [2, 1]), bw("mat", [[2, 1], [1, 3]]), bw("mat", [[1, 1], [1, 2]])]
    if dim == 3:
        out += [bw("vec", [1, 3, 2]), bw("vec", [2, 2, 1]), bw("mat", [[2, 1, 0], [1, 3, 1], [0, 1, 2]])]
    if dim == 4:
        out = [bw("scalar", [2]), bw("diag", [2]), bw("scalar", [2], "scott"), bw("vec", [1, 3, 2, 2]),
               bw("mat", [[2, 1, 0, 1], [1, 3, 1, 0], [0, 1, 2, 1], [1, 0, 1, 2]])]
    if dim > 4:
        out = [bw("scalar", [2]), bw("diag", [2]), bw("scalar", [1], "scott"), bw("scalar", [2], "silverman"),
               bw("vec", [1, 2, 2, 1, 2, 2][:dim])]
    return set(out)


COVS = {
    1: [[], [[4]], [[2]]],
    2: [[], [[4, 1], [1, 2]], [[3, -2], [-2, 3]]],
    3: [[], [[4, 1, 0], [1, 3, -1], [0, -1, 2]]],
    5: [[[2, 1, 0, 0, 0], [1, 2, 0, 0, 0], [0, 0, 1, 0, 0], [0, 0, 0, 3, -1], [0, 0, 0, -1, 1]],
        [[1, 0, 0, 0, 0], [0, 2, 0, 0, 1], [0, 0, 1, 0, 0], [0, 0, 0, 2, 0], [0, 1, 0, 0, 2]]],
    6: [[[2, 1, 0, 0, 0, 0], [1, 2, 0, 0, 0, 0], [0, 0, 1, 0, 0, 0], [0, 0, 0, 2, -1, 0], [0, 0, 0, -1, 1, 0], [0, 0, 0, 0, 0, 2]]],
    4: [[[3, 1, 0, -1], [1, 2, 1, 0], [0, 1, 3, 0], [-1, 0, 0, 2]], [[1, 0, 0, 0], [0, 2, 0, 0], [0, 0, 3, 1], [0, 0, 1, 1]]],
}


def covs(dim):
    return {seq(c) for c in COVS[dim]}


REFLS = [[NIL, NIL], [-1, NIL], [NIL, 4], [0, 3], [-1, 5], [AUTO, AUTO], [AUTO, NIL], [NIL, AUTO], [-1, AUTO]]
KERNELS = {"gaussian", "box", "parabola", "triweight"}


def config(dim, **kw):
    small = (dim == 3)
    cc = dict(
        Dim=dim, Coords=set(range(0, 3 if small else 5)), PCoords=set(range(-1 if small else -2, 4 if small else 7)),
        NSet={4, 5} if small else {2, 3, 5}, WSet={0, 1, 2} if small else {0, 1, 2, 3, 5}, Weighted={True, False},
        Bws=bws(dim), BDen=2, Covs=covs(dim), Kernels=set(KERNELS), Reflects={seq(r) for r in REFLS},
        StoredModes={"none"}, QueryModes={"default"}, ParamSels={seq([])}, NQuery=1, NPoint=4, Grids={False})
    if dim >= 4:
        cc.update(NSet={2, 3, 5}, Coords={0, 1, 3}, PCoords={-1, 0, 1, 2}, WSet={0, 1, 2})
        cc["Reflects"] = {seq(r) for r in [[NIL, NIL], [-1, NIL], [NIL, 3], [AUTO, NIL]]}
    if dim == 2:
        cc["NSet"] = {3, 4, 6}
        cc["Coords"] = {0, 1, 2, 3}
        cc["PCoords"] = set(range(-2, 6))
    cc.update(kw)
    return cc


LAWS = ["LawOrder", "LawSplit", "LawCount", "LawEven", "LawPermute", "LawPosDef"]
