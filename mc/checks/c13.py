"""C13: a KDE from a histogram is the KDE of its bin centers, weighted by the (normalized) bin counts."""

import itertools

import numpy as np

from mc import common, gen, ref

ID = 'C13'
TITLE = 'A KDE made from a histogram represents that histogram'
BOUNDS = dict(
    quick='all histograms with counts in {0,1,3} over 2-5 bins (1D), {0,2} over 2x2, 2x3, 3x2 bins (2D), selected 3D; uniform and '
          'non-uniform bins; default, scalar and plugin bandwidths; 4 kernels',
    thorough='counts in {0,1,3} up to 7 bins; 2D {0,1,2} over 2x3',
)
ASSUMPTIONS = ['reference: mixture model with given centers, weights and bandwidths']

BINS = {'uniform': lambda nn: np.linspace(-1.0, 2.0, nn + 1), 'offset': lambda nn: 5.0 + 0.25*np.arange(nn + 1),
        'varied': lambda nn: np.cumsum(0.3 + 0.5*(np.arange(nn + 1) % 3)) - 2.0,
        'ints': lambda nn: np.arange(nn + 1) * 2 - 3}


def hist_ok(flat):
    return np.count_nonzero(flat) >= 2


def cases(tier):
    quick = (tier == 'quick')
    out = []
    for nn in [2, 3, 4, 5] + ([] if quick else [6, 7]):
        for flat in itertools.product([0, 1, 3], repeat=nn):
            if not hist_ok(flat):
                continue
            for bins in BINS if nn <= 4 else ['uniform', 'varied']:
                for bw in ['bin width', 0.7, 'scott', None] if nn <= 3 else ['bin width', 'scott']:
                    for kernel in ref.KERNELS if nn <= 3 else ['gaussian', 'box']:
                        out.append(dict(shape=[nn], hist=list(flat), bins=bins, bw=bw, kernel=kernel))
    for shape in [(2, 2), (2, 3), (3, 2)]:
        for flat in itertools.product([0, 2] if quick else [0, 1, 2], repeat=shape[0]*shape[1]):
            # spread over both dimensions, so that the covariance is regular
            hh = np.array(flat).reshape(shape)
            if np.count_nonzero(hh) < 3 or np.linalg.matrix_rank(_cov(hh, 'varied')) < 2:
                continue
            for bins in ['uniform', 'varied', 'offset']:
                for bw in ['bin width', 0.7, 'silverman']:
                    for kernel in ['gaussian', 'triweight']:
                        out.append(dict(shape=list(shape), hist=list(flat), bins=bins, bw=bw, kernel=kernel))
    hh = np.array([1 + (ii*5) % 4 for ii in range(12)])
    for kk in range(12):
        flat = hh.copy()
        flat[kk] = 0
        for bins in BINS:
            for kernel in ref.KERNELS:
                out.append(dict(shape=[2, 3, 2], hist=flat.tolist(), bins=bins, bw='bin width', kernel=kernel))
    return out


def _edges(shape, bins):
    # a different set of bins in every dimension
    out = []
    for ii, nn in enumerate(shape):
        ee = BINS[bins](nn)
        out.append(ee*(ii + 1) if bins != 'offset' else ee + 3.0*ii)
    return out


def _cov(hist, bins):
    edges = _edges(hist.shape, bins)
    cent = [0.5*(ee[1:] + ee[:-1]) for ee in edges]
    data = np.array([mm.ravel() for mm in np.meshgrid(*cent, indexing='ij')])
    return ref.covariance(data, hist.ravel())


def setup(tier):
    common.warm()


def run(case, rec):
    import kalepy as kale
    shape = tuple(case['shape'])
    ndim = len(shape)
    hist = np.array(case['hist']).reshape(shape)
    edges = _edges(shape, case['bins'])
    cent = [0.5*(ee[1:] + ee[:-1]) for ee in edges]
    wids = [np.mean(np.diff(ee)) for ee in edges]
    data = np.array([mm.ravel() for mm in np.meshgrid(*cent, indexing='ij')])
    bw = case['bw']
    kw = dict(kernel=case['kernel'])
    if bw != 'bin width':
        kw['bandwidth'] = bw
    spec = bw if bw != 'bin width' else (wids[0] if ndim == 1 else wids)
    ww = hist.ravel() / (hist.sum() * np.prod(wids))
    model = ref.Model(data, spec, weights=ww, kernel=case['kernel'])
    rec.state(case)
    forms = [(edges[0] if ndim == 1 else edges, hist), (edges[0].tolist() if ndim == 1 else [ee.tolist() for ee in edges], hist),
             (edges[0] if ndim == 1 else tuple(edges), hist.astype(float)*7.0)]
    forms += [(edges[0] if ndim == 1 else edges, hh) for hh in gen.layouts(hist)]
    pts = gen.points_around(data, ndim, 8)
    pts = np.concatenate([pts, data[:, :3]], axis=1)
    skip = model.near_edge(pts)
    given = pts[0] if ndim == 1 else pts
    for bins, hh in forms:
        before = np.array(hh)
        kde = kale.KDE.from_hist(bins, hh, **kw)
        rec.require(np.array_equal(before, hh), 'from_hist() modified the histogram')
        rec.equal(int(kde.ndim), ndim, 'ndim')
        got = np.atleast_2d(kde.dataset)
        order = np.lexsort(got[::-1])
        want = data[:, np.lexsort(data[::-1])]
        rec.close(got[:, order], want, 'data points are not the centers of the bins', atol=1e-12)
        rec.close(kde.weights[order], ww[np.lexsort(data[::-1])], 'weights are not the counts, normalized to a density')
        rec.close(kde.weights.sum()*np.prod(wids), 1.0, 'weights are not normalized')
        common.dens_close(rec, kde.density(given)[1], model.density(pts), 'density of the histogram', skip)
        common.dens_close(rec, kde.pdf(given)[1], model.density(pts, probability=True), 'pdf of the histogram', skip)
        # the mean of the distribution is that of the histogram
        ave = (data*hist.ravel()).sum(axis=1)/hist.sum()
        rec.close((kde.dataset*kde.weights).sum(axis=1)/kde.weights.sum(), ave, 'mean of the histogram', atol=1e-12)
    rec.trace()
