"""C12: the CDF is the integral of the PDF: monotone, from 0 to 1, in every number of dimensions."""

import numpy as np

from mc import common, gen, ref

ID = 'C12'
TITLE = 'The CDF is a distribution function and the integral of the PDF'
BOUNDS = dict(
    quick='1D: 4 kernels x 5 weightings x 5 data sets x 4 boundary settings x default/given grids; 2D and 3D: 4 kernels x 3 '
          'weightings x boundaries; all queries on a lattice inside, at the ends of, and outside of the range, in 3 orders',
    thorough='as quick with more sizes, bandwidths and finer lattices',
)
ASSUMPTIONS = ['reference: integral of the model density over the range covered by the points, agreement 0.4%-2% on the given grids '
               '(the documented method is linear interpolation on a grid)']


def cases(tier):
    quick = (tier == 'quick')
    out = gen.product(ndim=[1], kernel=ref.KERNELS, weights=[None, 'ints', 'zeros', 'skew', 'small'],
                      num=[12, 2, 5, 130] if quick else [12, 2, 3, 4, 5, 40, 130], data=['plain', 'ints', 'negative', 'offset', 'wide'],
                      refl=[None, 'both', 'first'], bw=[0.4, None] if quick else [0.4, None, 'silverman', 1.0],
                      grid=['default', 'fine', 'bins'])
    out += gen.product(ndim=[2], kernel=ref.KERNELS, weights=[None, 'zeros', 'skew'], num=[9, 20],
                       data=['plain', 'negative'], refl=[None, 'both', 'first'], bw=[0.6, 'vec'], grid=['fine', 'bins'])
    out += gen.product(ndim=[3], kernel=['gaussian', 'parabola', 'triweight'], weights=[None, 'zeros'], num=[9], data=['plain'],
                       refl=[None, 'first'], bw=[0.7], grid=['bins'])
    return [cc for cc in out if common.regular(cc)]


def setup(tier):
    common.warm()


def run(case, rec):
    ndim = case['ndim']
    data = np.atleast_2d(gen.dataset(case['data'], ndim, case['num'])).astype(float)
    refl = None
    if case['refl'] is not None:
        refl = [[float(row.min() - 0.05*np.ptp(row)), float(row.max() + 0.1*np.ptp(row))] for row in data]
        if case['refl'] == 'first':
            refl[0][1] = None
            for ii in range(1, ndim):
                refl[ii] = None
    cfg = {kk: vv for kk, vv in case.items() if kk not in ('refl', 'grid')}
    kw = {}
    nbins = {1: 400, 2: 60, 3: 20}[ndim]
    if case['grid'] == 'fine':
        kw['points'] = []
        for ii, row in enumerate(data):
            wid = 0.9*np.ptp(row)
            kw['points'].append(np.linspace(row.min() - wid, row.max() + wid, nbins + 1 + 7*ii))
        if ndim == 1:
            kw['points'] = kw['points'][0]
    elif case['grid'] == 'bins':
        kw['points'] = nbins if ndim == 1 else [nbins + 3*ii for ii in range(ndim)]
    kde, model, _, ww = common.build(dict(cfg, kw=kw), reflect=refl)
    points = kde.points
    plist = [np.asarray(points)] if ndim == 1 else [np.asarray(pp) for pp in points]
    lo = np.array([pp[0] for pp in plist])
    hi = np.array([pp[-1] for pp in plist])

    # lattice of queries: fractions of the range, including the ends and outside
    fracs = {1: [-0.5, -1e-3, 0.0, 0.1, 0.23, 0.31, 0.5, 0.52, 0.77, 0.9, 0.99, 1.0, 1.001, 2.0],
             2: [-0.2, 0.0, 0.21, 0.5, 0.83, 1.0, 1.3], 3: [-0.1, 0.0, 0.37, 0.7, 1.0, 1.2]}[ndim]
    qs = [ll + np.array(fracs)*(hh - ll) for ll, hh in zip(lo, hi)]
    for qq, ll, hh in zip(qs, lo, hi):
        qq[np.array(fracs) == 1.0] = hh
    mesh = np.array([mm.ravel() for mm in np.meshgrid(*qs, indexing='ij')])
    shape = tuple(len(qq) for qq in qs)
    query = mesh[0] if ndim == 1 else mesh
    got = np.asarray(kde.cdf(query))
    rec.state(case, got)
    rec.require(got.shape == (mesh.shape[1],), 'cdf(): wrong shape', got=got.shape, want=(mesh.shape[1],))
    rec.require(np.all(np.isfinite(got)), 'cdf() is not finite')
    rec.require(np.all(got >= -1e-12) and np.all(got <= 1 + 1e-12), 'cdf() is outside of [0, 1]', lo=got.min(), hi=got.max())
    rec.step(got.size)
    # order and grouping of the queries do not matter
    rec.close(kde.cdf(query[..., ::-1].copy())[::-1], got, 'cdf() depends on the order of the queries', rtol=1e-12, atol=1e-14)
    for jj in [0, got.size//2, got.size-1]:
        one = np.ravel(kde.cdf(query[..., jj:jj+1]))
        rec.close(one, got[jj:jj+1], 'cdf() of a single point', rtol=1e-12, atol=1e-14)
    aslist = query.tolist()
    rec.close(kde.cdf(aslist), got, 'cdf() of a list', rtol=1e-12, atol=1e-14)
    grid = got.reshape(shape)
    for ax in range(ndim):
        rec.require(np.all(np.diff(grid, axis=ax) >= -1e-12), 'cdf() decreases', axis=ax)
        sel = np.array(fracs) <= 0.0
        rec.close(np.compress(sel, grid, axis=ax), np.zeros_like(np.compress(sel, grid, axis=ax)), 'cdf() is not zero below the range', atol=1e-12)
    top = tuple([-1]*ndim)
    rec.close(grid[top], 1.0, 'cdf() is not one above the range', rtol=1e-9)
    full = list(fracs).index(1.0)
    rec.close(grid[tuple([full]*ndim)], 1.0, 'cdf() is not one at the end of the range', rtol=1e-9)

    # against the integral of the model
    fine = {1: 8000, 2: 150, 3: 44}[ndim]
    edges = [np.linspace(ll, hh, fine + 1) for ll, hh in zip(lo, hi)]
    mids = [0.5*(ee[1:] + ee[:-1]) for ee in edges]
    cell = np.array([mm.ravel() for mm in np.meshgrid(*mids, indexing='ij')])
    mass = model.density(cell).reshape([fine]*ndim)
    for ax in range(ndim):
        mass = np.cumsum(mass, axis=ax)
        pad = [(0, 0)]*ndim
        pad[ax] = (1, 0)
        mass = np.pad(mass, pad)
    mass = mass/mass[top]
    import scipy.interpolate
    interp = scipy.interpolate.RegularGridInterpolator(edges, mass)
    want = interp(np.clip(mesh.T, lo, hi))
    std = np.sqrt(np.diag(model.matrix))
    res = max(np.diff(pp).max()/ss for pp, ss in zip(plist, std))
    tol = 0.003 + (0.5*res if model.kernel == 'box' else 0.25*res**2)
    tol = min(tol, 0.06) * ndim
    if res < (0.08 if case['grid'] == 'default' else 0.3):
        rec.close(got, want, 'cdf() is not the integral of the density', rtol=0.0, atol=tol)
        rec.count('integrals_compared', got.size)
    # the grid points themselves (1D): cumulative trapezoids of the PDF
    if ndim == 1:
        pdf = model.density(plist[0], probability=True)
        skip = model.edgy(plist[0])
        if not np.any(skip):
            cum = np.concatenate([[0.0], np.cumsum(0.5*(pdf[1:] + pdf[:-1])*np.diff(plist[0]))])
            rec.close(kde.cdf(plist[0]), cum/cum[-1], 'cdf() at the points is not the cumulative integral', rtol=1e-6, atol=1e-9)
    rec.trace()
