"""C18: the centroids of grid cells are the centers of mass of the interpolated density."""

import itertools

import numpy as np

from mc import gen, grids

ID = 'C18'
TITLE = 'Centroids of grid cells are centers of mass of the interpolated density'
BOUNDS = dict(
    quick='every combination of corner values {0,1,3} of one cell in 1-2 dims (3 dims: {0,2}), 4 edge sets; every grid shape of 2-4 edges in '
          '1-3 dims with 7 densities',
    thorough='corner values {0,1,2,5} in 1-2 dims and {0,1,3} in 3 dims; grid shapes of 2-5 edges',
)
ASSUMPTIONS = ['reference: the integral of the multilinear interpolation; cells without mass need a centroid anywhere within']


def cases(tier):
    quick = (tier == 'quick')
    out = []
    vals = [0, 1, 3] if quick else [0, 1, 2, 5]
    for ndim in [1, 2]:
        for first in itertools.product(vals, repeat=2):
            for ee in ['two', 'neg', 'small', 'ints']:
                out.append(dict(what='cell', ndim=ndim, vals=vals, first=list(first), edges=ee))
    for first in itertools.product([0, 2] if quick else [0, 1, 3], repeat=4):
        out.append(dict(what='cell', ndim=3, vals=[0, 2] if quick else [0, 1, 3], first=list(first), edges='two'))
    lens = [2, 3, 4] if quick else [2, 3, 4, 5]
    for ndim in [1, 2, 3]:
        for shape in itertools.product(lens, repeat=ndim):
            for dens in ['flat', 'ramp', 'wave', 'zeros', 'sparse', 'ints', 'huge', 'tiny']:
                out.append(dict(what='grid', shape=list(shape), dens=dens))
    return out


def compare(rec, edges, dens, given=None):
    from kalepy import utils
    got = np.asarray(utils.centroids(edges if given is None else given, dens))
    ndim = len(edges)
    dens = np.asarray(dens)
    rec.require(got.shape == (ndim,) + tuple(ss-1 for ss in dens.shape), 'centroids(): wrong shape', got=got.shape)
    for bb in grids.bins(edges):
        for dd in range(ndim):
            lo, hi = float(edges[dd][bb[dd]]), float(edges[dd][bb[dd]+1])
            val = got[(dd,) + bb]
            if np.max(list(grids.corners(dens, bb).values())) > 0:
                rec.close(val, grids.centroid(edges, dens, bb, dd), 'centroid of a cell', rtol=1e-9, atol=1e-9*(hi - lo), bin=bb, dim=dd)
            else:
                rec.step()
                rec.require(lo <= val <= hi, 'centroid of an empty cell is outside of it', got=val, bin=bb, dim=dd)


def run(case, rec):
    from kalepy import utils
    rec.state(case)
    if case['what'] == 'cell':
        ndim = case['ndim']
        ee = np.array(grids.EDGES[case['edges']][:2], dtype=float)
        edges = [ee + 0.5*dd for dd in range(ndim)]
        left = 2**ndim - len(case['first'])
        for rest in itertools.product(case['vals'], repeat=left):
            dens = np.array(case['first'] + list(rest)).reshape([2]*ndim)
            rec.state('cell', case['edges'], dens)
            compare(rec, edges, dens)
        rec.trace()
        return
    shape = case['shape']
    dens = grids.density(case['dens'], shape)
    edges = [np.cumsum(0.4 + ((np.arange(nn)*5 + dd) % 3)) - 2.0 for dd, nn in enumerate(shape)]
    copy = np.array(dens), [np.array(ee) for ee in edges]
    compare(rec, edges, dens)
    compare(rec, edges, dens.tolist(), [ee.tolist() for ee in edges])
    for dd in gen.layouts(dens):
        compare(rec, edges, dd)
    if len(shape) == 1:
        compare(rec, edges, dens, edges[0])
    rec.equal(dens, copy[0], 'density was modified')
    rec.equal(edges, copy[1], 'edges were modified')
    # only the relative density matters
    base = np.asarray(utils.centroids(edges, dens))
    for fact in [1e-3, 7.0]:
        rec.close(utils.centroids(edges, dens*fact), base, 'centroids depend on the normalization', rtol=1e-9, atol=1e-9)
    rec.trace()
