"""Reference semantics of densities on a grid (corners of bins), in plain loops."""

import itertools

import numpy as np


def bins(edges):
    """Indices of all bins, in C order."""
    return list(itertools.product(*[range(len(ee) - 1) for ee in edges]))


def corners(dens, idx):
    """Values at the 2^D corners of bin `idx`: {(0/1,...): value}."""
    return {cc: float(dens[tuple(ii + jj for ii, jj in zip(idx, cc))]) for cc in itertools.product([0, 1], repeat=len(idx))}


def volume(edges, idx):
    return float(np.prod([edges[dd][ii+1] - edges[dd][ii] for dd, ii in enumerate(idx)]))


def mass(edges, dens):
    """Trapezoid mass of every bin."""
    out = np.zeros([len(ee) - 1 for ee in edges])
    for idx in bins(edges):
        out[idx] = volume(edges, idx)*np.mean(list(corners(dens, idx).values()))
    return out


def average(dens, edges, idx):
    return float(np.mean(list(corners(dens, idx).values())))


def gradient(dens, idx, dim):
    """Change across the bin along `dim`, averaged over the other corners."""
    cc = corners(dens, idx)
    hi = np.mean([vv for kk, vv in cc.items() if kk[dim] == 1])
    lo = np.mean([vv for kk, vv in cc.items() if kk[dim] == 0])
    return float(hi - lo)


def slope(dens, idx, dim):
    """Gradient relative to the bin's average."""
    ave = np.mean(list(corners(dens, idx).values()))
    return gradient(dens, idx, dim)/ave if ave > 0.0 else 0.0


def centroid(edges, dens, idx, dim):
    """Center of mass of the linearly interpolated density, along `dim`."""
    lo, wid = edges[dim][idx[dim]], edges[dim][idx[dim]+1] - edges[dim][idx[dim]]
    return lo + wid*(0.5 + slope(dens, idx, dim)/12.0)


def which_bin(edges, vals):
    """(..., D) bin indices of samples (N, D); -1 if outside."""
    out = np.zeros(vals.shape, dtype=int)
    for dd, ee in enumerate(edges):
        ee = np.asarray(ee, dtype=float)
        pos = np.searchsorted(ee, vals[..., dd], side='right') - 1
        pos[vals[..., dd] == ee[-1]] = len(ee) - 2
        pos[(vals[..., dd] < ee[0]) | (vals[..., dd] > ee[-1])] = -1
        out[..., dd] = pos
    return out


EDGES = {
    'even': [0.0, 1.0, 2.0, 3.0],
    'uneven': [-1.0, 0.5, 0.75, 4.0],
    'neg': [-30.0, -20.0, -5.0],
    'two': [2.0, 2.5],
    'small': [1e-5, 2e-5, 5e-5],
    'ints': [0, 2, 3, 7],
}


def density(kind, shape):
    """Named densities at the corners."""
    num = int(np.prod(shape))
    jj = np.arange(num)
    if kind == 'flat':
        return np.full(shape, 2.0)
    if kind == 'ramp':
        return (1.0 + jj).reshape(shape)
    if kind == 'wave':
        return (3.0 + 2.5*np.sin(2.0*jj + 0.3)).reshape(shape)
    if kind == 'zeros':            # some corners are zero: strongest possible gradients
        out = 1.0 + ((3*jj) % 4)
        out[::2] = 0.0
        return out.reshape(shape).astype(float)
    if kind == 'sparse':           # entire bins without mass
        out = np.zeros(num)
        out[-1] = 3.0
        out[num//2] = 1.0
        return out.reshape(shape)
    if kind == 'ints':
        return (1 + (jj*5) % 3).reshape(shape).astype(int)
    if kind == 'huge':
        return 1e12*(1.0 + (jj % 3)).reshape(shape)
    if kind == 'tiny':
        return 1e-9*(1.0 + (jj % 4)).reshape(shape)
    raise KeyError(kind)
