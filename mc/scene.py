"""What is drawn on matplotlib axes, as plain values: the observable behaviour of the plotting functions."""

import numpy as np


def axes(num=1):
    import matplotlib.pyplot as plt
    plt.close('all')
    fig, axs = plt.subplots(1, num, squeeze=False)
    return fig, list(axs[0])


def clear(ax):
    """Remove everything drawn (much faster than a new figure)."""
    for art in list(ax.lines) + list(ax.collections) + list(ax.patches):
        art.remove()
    ax.set_xlim(0.0, 1.0)
    ax.set_ylim(0.0, 1.0)
    ax.set_prop_cycle(None)
    ax.figure.sca(ax)


def values(arr):
    """Floats, with NaN for whatever is not drawn."""
    return np.ma.filled(np.ma.asarray(arr, dtype=float), np.nan)


class Scene:
    """The artists of some axes, by what they show."""

    def __init__(self, ax, skip=()):
        from matplotlib.collections import PathCollection, QuadMesh
        from matplotlib.contour import ContourSet
        self.curves, self.vlines, self.hlines = [], [], []
        self.vspans, self.hspans = [], []
        self.points, self.sizes, self.meshes, self.contours, self.fills, self.others = [], [], [], [], [], []
        self.artists = []
        for line in ax.lines:
            if line in skip:
                continue
            xx, yy = values(line.get_xdata(orig=False)), values(line.get_ydata(orig=False))
            if xx.size == 0:
                continue
            trans = line.get_transform()
            self.artists.append(line)
            if trans == ax.get_xaxis_transform(which='grid'):
                self.vlines.append(float(xx[0]))
            elif trans == ax.get_yaxis_transform(which='grid'):
                self.hlines.append(float(yy[0]))
            else:
                self.curves.append((xx, yy))
        for patch in ax.patches:
            if patch in skip:
                continue
            self.artists.append(patch)
            trans = patch.get_data_transform() if hasattr(patch, 'get_data_transform') else patch.get_transform()
            if hasattr(patch, 'get_xy') and np.ndim(patch.get_xy()) == 2:
                xy = np.asarray(patch.get_xy(), dtype=float)
            else:
                xy = np.asarray(patch.get_path().vertices) if not hasattr(patch, 'get_bbox') else np.asarray(patch.get_bbox().get_points())
            if trans == ax.get_xaxis_transform(which='grid'):
                self.vspans.append((float(xy[:, 0].min()), float(xy[:, 0].max())))
            elif trans == ax.get_yaxis_transform(which='grid'):
                self.hspans.append((float(xy[:, 1].min()), float(xy[:, 1].max())))
            else:
                self.others.append('patch')
        split = [cc for coll in ax.collections for cc in getattr(coll, '_old_style_split_collections', [])]
        for coll in ax.collections:
            if coll in skip or coll in split:       # (matplotlib <3.10 may draw each line of a contour separately)
                continue
            self.artists.append(coll)
            if isinstance(coll, ContourSet):
                segs = [[np.asarray(ss) for ss in ll] for ll in coll.allsegs]
                (self.fills if coll.filled else self.contours).append((np.array(coll.levels), segs))
            elif isinstance(coll, QuadMesh):
                xy = np.asarray(coll.get_coordinates())
                vals = values(coll.get_array()).reshape(xy.shape[0] - 1, xy.shape[1] - 1)
                self.meshes.append((xy[..., 0], xy[..., 1], vals))
            elif isinstance(coll, PathCollection):
                self.points.append(values(coll.get_offsets()))
                sz = np.asarray(coll.get_sizes(), dtype=float)
                self.sizes.append(np.broadcast_to(sz, (len(self.points[-1]),)) if sz.size == 1 else sz)
            else:
                self.others.append(type(coll).__name__)

    def swap(self):
        """The same scene with x and y exchanged (curves, points, lines and bands)."""
        out = object.__new__(Scene)
        out.curves = [(yy, xx) for xx, yy in self.curves]
        out.vlines, out.hlines = self.hlines, self.vlines
        out.vspans, out.hspans = self.hspans, self.vspans
        out.points = [pp[:, ::-1] for pp in self.points]
        out.sizes, out.meshes, out.contours, out.fills = self.sizes, self.meshes, self.contours, self.fills
        out.others, out.artists = self.others, self.artists
        return out

    def stairs(self):
        """(stair-like curves, other curves)"""
        stair, smooth = [], []
        for xx, yy in self.curves:
            if xx.size >= 2 and xx.size % 2 == 0 and np.array_equal(yy[0::2], yy[1::2], equal_nan=True) \
                    and np.array_equal(xx[1:-1:2], xx[2::2], equal_nan=True):
                stair.append((xx, yy))
            else:
                smooth.append((xx, yy))
        return stair, smooth


def counts(data, edges, weights=None):
    """Weight in each bin: closed on the left, the last one also on the right."""
    data = np.asarray(data, dtype=float)
    edges = np.asarray(edges, dtype=float)
    ww = np.ones(data.size) if weights is None else np.asarray(weights, dtype=float)
    out = np.zeros(edges.size - 1)
    for ii in range(edges.size - 1):
        sel = (data >= edges[ii]) & ((data < edges[ii+1]) | ((ii == edges.size - 2) & (data <= edges[ii+1])))
        out[ii] = ww[sel].sum()
    return out


def counts2(data, edges, weights=None):
    """Weight in each 2D bin."""
    data = np.asarray(data, dtype=float)
    ww = np.ones(data.shape[1]) if weights is None else np.asarray(weights, dtype=float)
    out = np.zeros([len(ee) - 1 for ee in edges])
    ex = np.asarray(edges[0], dtype=float)
    for ii in range(len(ex) - 1):
        sel = (data[0] >= ex[ii]) & ((data[0] < ex[ii+1]) | ((ii == len(ex) - 2) & (data[0] <= ex[ii+1])))
        out[ii] = counts(data[1][sel], edges[1], ww[sel])
    return out


def quantile(data, weights, frac):
    """Linear interpolation of the (weighted) cumulative distribution of the data: (lowest, highest) over the orders of ties."""
    data = np.asarray(data, dtype=float)
    if weights is None:
        val = np.interp(frac, np.arange(data.size) / (data.size - 1), np.sort(data))
        return (val, val)
    ww = np.asarray(weights, dtype=float)
    out = []
    for sign in [1, -1]:
        idx = np.lexsort((sign*ww, data))
        cdf = np.cumsum(ww[idx]) / ww.sum()
        out.append(np.interp(frac, cdf, data[idx]))
    return (min(out), max(out))
