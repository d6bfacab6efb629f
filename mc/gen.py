"""Alphabets of inputs: deterministic, small, and with one letter per shortcut visible in the code."""

import itertools

import numpy as np


def lattice(ndim, num, shift=0.0):
    """`num` well-spread, irregular points in (0,1)^ndim: a Kronecker sequence, no randomness."""
    alphas = [0.8566748838545029, 0.733891856627126, 0.6287067210378087, 0.5385972572236101][:ndim]
    if ndim == 1:
        alphas = [0.6180339887498949]
    jj = np.arange(1, num+1)
    return np.array([np.mod(0.5 + shift + aa*jj + 0.01*np.sin(3.0*jj*(ii+1)), 1.0) for ii, aa in enumerate(alphas)])


def dataset(kind, ndim, num):
    """Named data sets of shape (ndim, num)."""
    uu = lattice(ndim, num)
    if kind == 'plain':            # correlated, skewed, both signs
        out = np.array(uu)
        out = 3.0*out - 1.0
        out[0] += 0.5*out[0]**2
        for ii in range(1, ndim):
            out[ii] = out[ii]*(1.0 + 0.3*ii) + 0.6*out[ii-1]
        return out
    if kind == 'ints':             # integer dtype, with ties
        return np.floor(7.0*uu - 2.0).astype(int)
    if kind == 'negative':         # all negative, different scales per dimension
        out = -(0.2 + 2.0*uu)
        for ii in range(ndim):
            out[ii] *= 10.0**ii
        return out
    if kind == 'positive':         # all positive, the mirror image
        return -dataset('negative', ndim, num)
    if kind == 'above1':           # just above one, and just below
        return 0.875 + dataset('positive', ndim, num)
    if kind == 'below1':
        return 1.125 + dataset('negative', ndim, num)
    if kind == 'offset':           # far from zero
        return 1.0e4 + 5.0*dataset('plain', ndim, num)
    if kind == 'tiny':
        return 1.0e-5 * dataset('plain', ndim, num)
    if kind == 'wide':             # heavy tails: one far outlier
        out = dataset('plain', ndim, num)
        out[:, num//2] += 25.0
        return out
    if kind == 'f32':
        return dataset('plain', ndim, num).astype(np.float32)
    raise KeyError(kind)


def weights(kind, num):
    jj = np.arange(num)
    if kind is None:
        return None
    if kind == 'ones':
        return np.ones(num)
    if kind == 'ints':
        return 1 + (jj % 3)
    if kind == 'list':
        return [float(1 + (ii*7 % 5)) for ii in range(num)]
    if kind == 'zeros':            # some entries zero
        ww = 0.5 + (jj*5 % 7)/3.0
        ww[1::3] = 0.0
        return ww
    if kind == 'small':
        return 1.0e-3*(1.0 + (jj*3 % 4))
    if kind == 'skew':             # one dominant
        ww = np.full(num, 0.05)
        ww[num//2] = 4.0
        return ww
    raise KeyError(kind)


def points_around(data, ndim, num=9):
    """Evaluation points: at data points, between, at the mean, and far outside."""
    data = np.atleast_2d(np.asarray(data, dtype=float))
    lo, hi = data.min(axis=1), data.max(axis=1)
    span = np.where(hi > lo, hi - lo, 1.0)
    uu = lattice(ndim, num, shift=0.3)
    pts = lo[:, None] + span[:, None]*(1.6*uu - 0.3)
    extra = np.array([data[:, 0], data[:, -1], data.mean(axis=1), hi + 40*span]).T
    return np.concatenate([pts, extra], axis=1)


def spd(ndim, kind='full'):
    """Explicit covariance matrices."""
    if kind == 'eye':
        return np.eye(ndim)
    if kind in ('small', 'large'):
        return (1e-6 if kind == 'small' else 1e6) * spd(ndim, 'full')
    out = np.diag([1.7, 0.4, 2.5, 0.9, 1.3, 0.7][:ndim])
    if kind == 'diag':
        return out
    for ii in range(ndim):
        for jj in range(ndim):
            if ii != jj:
                out[ii, jj] = 0.3 * (-1)**(ii+jj) * np.sqrt(out[ii, ii]*out[jj, jj])
    return out


def layouts(arr):
    """The same values, in other memory layouts: Fortran order, strided, reversed views, read-only."""
    arr = np.asarray(arr)
    big = np.zeros([2*nn for nn in arr.shape], dtype=arr.dtype)
    strided = big[tuple(slice(None, None, 2) for _ in arr.shape)]
    strided[...] = arr
    back = arr[tuple(slice(None, None, -1) for _ in arr.shape)].copy()[tuple(slice(None, None, -1) for _ in arr.shape)]
    const = arr.copy()
    const.flags.writeable = False
    return [np.asfortranarray(arr), strided, back, const]


def product(**axes):
    """All combinations, as dicts, simplest (first letters) first."""
    names = list(axes)
    combos = itertools.product(*[range(len(axes[nn])) for nn in names])
    combos = sorted(combos, key=lambda cc: (sum(1 for ii in cc if ii), sum(cc), cc))
    return [{nn: axes[nn][ii] for nn, ii in zip(names, cc)} for cc in combos]
