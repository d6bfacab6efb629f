"""C04: density(params=...) is the density of those parameters alone, in the order asked."""

import itertools

import numpy as np

from mc import common, gen, ref

ID = 'C04'
TITLE = 'Restricting to parameters gives the density in those parameters alone'
BOUNDS = dict(
    quick='dims 1-4; every ordered subset of the parameters and every single one; 4 kernels; 3 weightings; 4 bandwidths; with and '
          'without reflection; points, grids and default points',
    thorough='as quick, with more data sets, weightings and bandwidths',
)
ASSUMPTIONS = ['reference: mixture of kernels with the sub-block of the covariance matrix',
               'for Gaussian kernels also compared to the numerical integral over the other parameters']

REFL = {'none': None, 'mixed': [['lo', None], None, ['lo', 'hi'], [None, 'hi']],
        'all': [['lo', 'hi'], ['lo', 'hi'], ['lo', None], ['lo', 'hi']]}


def cases(tier):
    quick = (tier == 'quick')
    out = []
    for ndim in [1, 2, 3, 4]:
        subs = []
        for num in range(1, ndim+1):
            subs += [list(pp) for pp in itertools.permutations(range(ndim), num)]
        subs = [ii for ii in range(ndim)] + subs
        if ndim == 1:
            subs = [0]
        if ndim == 4 and quick:
            subs = [ss for ss in subs if np.size(ss) in (1, 2)] + [[3, 1, 0], [0, 2, 3], [3, 2, 1, 0], [1, 3, 0, 2]]
        out += gen.product(ndim=[ndim], params=subs, kernel=ref.KERNELS, weights=[None, 'zeros'] + ([] if quick else ['ints', 'small']),
                           bw=[0.4, 'vec', 'mat'] + ([] if quick else [None, 'vecmix']), reflect=list(REFL), num=[9],
                           data=['plain'] if quick else ['plain', 'negative', 'offset'])
    return [cc for cc in out if common.regular(dict(cc, num=cc['num']))]


def setup(tier):
    common.warm()


def run(case, rec):
    import kalepy as kale
    ndim = case['ndim']
    data = np.atleast_2d(gen.dataset(case['data'], ndim, case['num']))
    refl = REFL[case['reflect']]
    if refl is not None:
        refl = [None if rr is None else [None if vv is None else float(row.min() - 0.1*np.ptp(row)) if vv == 'lo'
                                         else float(row.max() + 0.05*np.ptp(row)) for vv in rr]
                for rr, row in zip(refl[:ndim], data)]
    kde, model, _, ww = common.build({kk: vv for kk, vv in case.items() if kk not in ('params', 'reflect')}, reflect=refl)
    params = case['params']
    plist = list(np.atleast_1d(params))
    npar = len(plist)
    rec.state(case)
    pts = gen.points_around(data, ndim, 9)[plist]
    want = model.density(pts, params=plist)
    skip = model.edgy(pts, params=plist)
    given = pts[0] if npar == 1 else pts

    args = [params]
    if np.ndim(params):
        args += [tuple(params), np.array(params)]
    for arg in args:
        got = kde.density(given, params=arg)[1]
        common.dens_close(rec, got, want, 'density(params=)', skip)
    got = kde.pdf(given, params=params)[1]
    common.dens_close(rec, got, want/model.ww.sum(), 'pdf(params=)', skip)
    if npar == 1:
        got = kde.density(pts, params=params)[1]
        common.dens_close(rec, got, want, 'density(params=) of (1, M) points', skip)
    # explicit reflection, in the order of `params`
    sub = [[float(row.min() - 0.2*np.ptp(row)), None] for row in data[plist]]
    got = kde.density(given, params=params, reflect=sub)[1]
    common.dens_close(rec, got, model.density(pts, reflect=sub, params=plist), 'density(params=, reflect=)',
                      model.edgy(pts, reflect=sub, params=plist))
    got = kde.density(given, params=params, reflect=False)[1]
    common.dens_close(rec, got, model.clear(pts, plist), 'density(params=, reflect=False)', model.near_edge(pts, plist))
    # the top-level functions
    kw = dict(bandwidth=common.bw_arg(case['bw'], ndim), kernel=case['kernel'], weights=ww, reflect=refl)
    dd = data[0] if ndim == 1 else data
    got = kale.density(dd, points=given, params=params, **kw)[1]
    common.dens_close(rec, got, want, 'kalepy.density(params=)', skip)
    got = kale.pdf(dd, points=given, params=params, **kw)[1]
    common.dens_close(rec, got, want/model.ww.sum(), 'kalepy.pdf(params=)', skip)

    # on a grid, and on the default points
    if npar > 1:
        edges = [np.linspace(row.min() - 0.1, row.max() + 0.2, 4 + ii) for ii, row in enumerate(data[plist])]
        mesh = np.array([mm.ravel() for mm in np.meshgrid(*edges, indexing='ij')])
        want = model.density(mesh, params=plist).reshape([ee.size for ee in edges])
        skip = model.edgy(mesh, params=plist).reshape(want.shape)
        got = kde.density(edges, params=params, grid=True)[1]
        common.dens_close(rec, got, want, 'density(params=, grid=True)', skip)
    if npar == 1 or (npar == 2 and ndim < 4 and case['kernel'] in ('gaussian', 'box')):
        points, got = kde.density(params=params)
        own = kde.points
        own = [own] if ndim == 1 else own
        if npar == 1:
            one = points if np.ndim(points) == 1 else points[0]
            rec.close(one, own[plist[0]], 'default points of a parameter')
            mesh = np.atleast_2d(one)
            shape = (mesh.shape[1],)
        else:
            rec.require(len(points) == npar, 'default points: wrong number of dimensions')
            for pp, par in zip(points, plist):
                rec.close(pp, own[par], 'default points of a parameter')
            mesh = np.array([mm.ravel() for mm in np.meshgrid(*points, indexing='ij')])
            shape = tuple(len(pp) for pp in points)
        sel = np.arange(0, mesh.shape[1], max(1, mesh.shape[1]//97))
        got = np.asarray(got)
        rec.require(got.shape == shape, 'density(params=) on default points: wrong shape', got=got.shape, want=shape)
        common.dens_close(rec, got.ravel()[sel], model.density(mesh[:, sel], params=plist), 'density(params=) on default points',
                          model.edgy(mesh[:, sel], params=plist))

    # true marginal: Gaussian kernels, no reflection
    if case['kernel'] == 'gaussian' and refl is None and ndim in (2, 3) and npar == ndim - 1 and case['bw'] != 'mat':
        other = [ii for ii in range(ndim) if ii not in plist][0]
        std = np.sqrt(model.matrix[other, other])
        lo, hi = data[other].min() - 9*std, data[other].max() + 9*std
        num = 600
        zz = lo + (np.arange(num) + 0.5)*(hi - lo)/num
        for jj in [0, 3, 5]:
            full = np.zeros((ndim, num))
            full[plist] = pts[:, jj][:, None]
            full[other] = zz
            tot = kde.density(full)[1].sum()*(hi - lo)/num
            got = kde.density(pts[:, jj:jj+1], params=params)[1]
            rec.close(np.ravel(got)[0], tot, 'not the integral over the other parameter', rtol=1e-6,
                      atol=1e-9*model.clear(pts, plist).max())
    rec.trace()
