"""Figures without a display, and what is drawn in them."""
import contextlib
import os
import tempfile

os.environ.setdefault("MPLBACKEND", "Agg")
os.environ.setdefault("MPLCONFIGDIR", tempfile.mkdtemp(prefix="verif-mpl-"))
import atexit
import shutil
if os.path.basename(os.environ["MPLCONFIGDIR"]).startswith("verif-mpl-"):
    atexit.register(shutil.rmtree, os.environ["MPLCONFIGDIR"], ignore_errors=True)
import matplotlib
matplotlib.use("Agg")
import matplotlib.pyplot as plt     # noqa
import numpy as np                  # noqa
from kalepy import plot             # noqa


@contextlib.contextmanager
def axes():
    fig = plt.figure(figsize=(3, 3))
    try:
        yield fig.add_subplot()
    finally:
        plt.close("all")


def close_all():
    plt.close("all")


class Drawn:
    """Everything drawn in one panel, by kind; `skip` artists that were there before."""

    def __init__(self, ax, skip=()):
        skip = set(id(aa) for aa in skip)
        self.curves, self.vlines, self.hlines, self.vbands, self.hbands = [], [], [], [], []
        self.points, self.meshes, self.contours, self.filled, self.other = [], [], [], [], []
        for art in list(ax.lines) + list(ax.patches) + list(ax.collections):
            if id(art) in skip:
                continue
            self.add(ax, art)

    def add(self, ax, art):
        from matplotlib import collections, contour, lines, patches
        if isinstance(art, lines.Line2D):
            inx, iny = art.get_transform().contains_branch_seperately(ax.transData)
            xx, yy = art.get_xdata(orig=True), art.get_ydata(orig=True)
            if inx and iny:
                if len(np.atleast_1d(xx)):
                    self.curves.append((xx, yy))
            elif inx:
                self.vlines.append(float(np.ravel(xx)[0]))
            else:
                self.hlines.append(float(np.ravel(yy)[0]))
        elif isinstance(art, patches.Patch):
            inx, iny = art.get_transform().contains_branch_seperately(ax.transData)
            if isinstance(art, patches.Rectangle):
                inx, iny = (art.get_patch_transform() + art.get_transform()).contains_branch_seperately(ax.transData)
                vert = art.get_patch_transform().transform(art.get_path().vertices)
            else:
                vert = art.get_path().vertices
            if inx and not iny:
                self.vbands.append((vert[:, 0].min(), vert[:, 0].max()))
            elif iny and not inx:
                self.hbands.append((vert[:, 1].min(), vert[:, 1].max()))
            else:
                self.other.append(art)
        elif isinstance(art, contour.ContourSet):
            (self.filled if art.filled else self.contours).append(art)
        elif isinstance(art, collections.QuadMesh):
            self.meshes.append(art)
        elif isinstance(art, collections.PathCollection):
            # single contours may also be paths, but not at points of the data
            if art.get_offset_transform().contains_branch(ax.transData):
                self.points.append(art)
        else:
            self.other.append(art)

    def kinds(self):
        out = set()
        for name in ("curves", "vlines", "hlines", "vbands", "hbands", "points", "meshes", "contours", "filled", "other"):
            if getattr(self, name):
                out.add(name)
        return out


def state(ax):
    """To recognise what is drawn later."""
    return list(ax.lines) + list(ax.patches) + list(ax.collections)


def mesh_parts(mesh):
    """Edges along both axes, and values as array[x, y] (masked)."""
    coord = np.asarray(mesh.get_coordinates())
    vals = mesh.get_array()
    shape = (coord.shape[0] - 1, coord.shape[1] - 1)
    vals = np.ma.masked_invalid(np.ma.asarray(vals).reshape(shape)).T
    return coord[0, :, 0], coord[:, 0, 1], vals, coord


def offsets(coll):
    return np.ma.getdata(coll.get_offsets())


def interpolate(cents, vals, points):
    """Values at points, from those on a grid."""
    idx, frac = [], []
    for dd in range(2):
        cc = cents[dd]
        kk = np.clip(np.searchsorted(cc, points[:, dd], side="right") - 1, 0, cc.size - 2)
        ff = (points[:, dd] - cc[kk]) / (cc[kk + 1] - cc[kk])
        idx.append(kk)
        frac.append(ff)
    out = 0
    for aa in (0, 1):
        for bb in (0, 1):
            ww = (frac[0] if aa else 1 - frac[0]) * (frac[1] if bb else 1 - frac[1])
            out = out + ww * vals[idx[0] + aa, idx[1] + bb]
    return out


def padded(points, vals, pad):
    vv = np.pad(vals, pad, mode="constant", constant_values=vals.min())
    out = []
    for pp in points:
        pp = np.asarray(pp, dtype=float)
        before = pp[0] - (pp[1] - pp[0]) * np.arange(pad, 0, -1)
        after = pp[-1] + (pp[-1] - pp[-2]) * np.arange(1, pad + 1)
        out.append(np.concatenate([before, pp, after]))
    return out, vv


def on_lines(chk, cont, cents, vals, what):
    """Contour lines run where interpolated values equal their levels."""
    from core import need
    count = 0
    for lev, segs in zip(cont.levels, cont.allsegs):
        for seg in segs:
            if len(seg) == 0:
                continue
            got = interpolate(cents, vals, seg)
            tol = 1e-6 * np.max(np.abs(vals))
            bad = np.abs(got - lev) > tol
            need(chk, not np.any(bad), "%s: the line of level %g runs through values %r" % (what, lev, got[bad][:4]))
            chk.calls += len(seg)
            count += len(seg)
    return count
