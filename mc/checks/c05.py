"""C05: grids are evaluated in 'ij' order at exactly the given edges; default points cover the probability."""

import numpy as np

from mc import common, gen, ref

ID = 'C05'
TITLE = 'Grid evaluation matches points, and default points cover the distribution'
BOUNDS = dict(
    quick='dims 1-3; 8 grid shapes (square, jagged, single); 4 kernels; 4 weightings; 7 boundary settings; constructor points '
          '(default, int, ints, arrays, mixed) x extrema (default, shared, per dimension, partial); default points of every ordered choice of up to 2 parameters',
    thorough='as quick with more data sets, sizes and bandwidths',
)
ASSUMPTIONS = ['default points must contain the probability to 2% (triweight) - 12% (box: discretization) per dimension, 9% for Gaussian tails']


def cases(tier):
    quick = (tier == 'quick')
    out = []
    shapes = {1: [[5], [1], [2]], 2: [[3, 3], [4, 2], [2, 5], [1, 4]], 3: [[3, 3, 3], [2, 3, 4], [4, 1, 2]]}
    for ndim in [1, 2, 3]:
        out += gen.product(what=['grid'], ndim=[ndim], shape=shapes[ndim], kernel=ref.KERNELS, weights=[None, 'zeros'],
                           refl=[None, 'both', 'first'], num=[12] if quick else [12, 40], bw=[0.4, 'vec'], data=['plain', 'negative'])
        out += gen.product(what=['default'], ndim=[ndim], kernel=ref.KERNELS,
                           weights=[None, 'ints', 'zeros', 'skew', 'small'] if ndim != 2 else [None, 'zeros', 'skew'], bw=[None, 0.4, 'silverman', 'vec'][:4 if ndim < 3 else 2],
                           num=([7, 2, 3, 4, 20, 101, 130] if ndim == 1 else [7, 110]) if ndim < 3 else [12],
                           refl=[None, 'both', 'first', 'auto'],
                           data=['plain', 'ints', 'negative', 'offset', 'wide'] if ndim == 1 else ['plain', 'negative'])
        out += gen.product(what=['given'], ndim=[ndim], kernel=['gaussian', 'box'], weights=[None, 'zeros'], bw=[0.4], num=[14],
                           refl=[None, 'both', 'first'], points=[None, 'int', 'ints', 'arrays', 'mixed'],
                           extrema=[None, 'shared', 'each', 'partial', 'partial2', 'zero'], data=['plain', 'negative'])
    return [cc for cc in out if common.regular(cc)]


def setup(tier):
    common.warm()


def boundaries(refl, data):
    if refl is None:
        return None
    if refl == 'auto':
        return True
    out = [[float(row.min() - 0.05*np.ptp(row)), float(row.max() + 0.1*np.ptp(row))] for row in data]
    if refl == 'first':
        out[0][1] = None
        for ii in range(1, len(out)):
            out[ii] = None
    return out


def run(case, rec):
    ndim = case['ndim']
    data = np.atleast_2d(gen.dataset(case['data'], ndim, case['num'])).astype(float)
    refl = boundaries(case['refl'], data)
    cfg = {kk: vv for kk, vv in case.items() if kk in ('ndim', 'kernel', 'weights', 'bw', 'num', 'data')}
    kw = {}
    if case['what'] == 'given':
        given = {None: None, 'int': 5, 'ints': [4 + ii for ii in range(ndim)],
                 'arrays': [np.linspace(row.min() - 1.0, row.max() + 0.5, 4 + ii) for ii, row in enumerate(data)],
                 'mixed': [None if ii == 1 else (6 if ii == 0 else np.linspace(-1.0, 2.0, 7)) for ii in range(ndim)]}[case['points']]
        ext = {None: None, 'shared': [-4.0, 12.0],
               'each': [[row.min() - 0.5 - ii, row.max() + 1.0 + ii] for ii, row in enumerate(data)],
               'partial': [None if ii != 0 else [row.min() - 2.0, None] for ii, row in enumerate(data)],
               'zero': [[None, 0.0] if row.max() < 0.0 else [None, None] for row in data],
               'partial2': [[None, row.max() + 3.0] for ii, row in enumerate(data)]}[case['extrema']]
        if ndim == 1 and case['points'] in ('arrays', 'ints', 'mixed'):
            given = given[0] if case['points'] == 'arrays' else given[0]
        kw = dict(points=given, extrema=ext)
    kde, model, _, ww = common.build(dict(cfg, kw=kw), reflect=refl)
    rec.state(case)
    want_refl = ref.parse_reflect(refl, data)
    total = model.ww.sum()
    if refl is True:
        # the documented 'just outside of the data'
        got = [list(rr) for rr in kde.reflect]
        want = [[row.min(), row.max()] for row in data]
        rec.close(got, want, 'automatic boundaries are not at the data', rtol=1e-6)
        for rr, row in zip(got, data):
            rec.require(rr[0] <= row.min() and rr[1] >= row.max(), 'automatic boundaries exclude data')
        model.reflect = got

    if case['what'] == 'grid':
        edges = []
        for row, num in zip(data, case['shape']):
            edges.append(row.min() - 0.07*np.ptp(row) + 1.21*np.ptp(row)*(np.arange(num) + 0.37)/num)
        mesh = np.array([mm.ravel() for mm in np.meshgrid(*edges, indexing='ij')])
        skip = model.edgy(mesh).reshape(case['shape'])
        want = model.density(mesh).reshape(case['shape'])
        forms = [edges, tuple(edges), [ee.tolist() for ee in edges]]
        if ndim == 1:
            forms = [edges[0], edges, edges[0].tolist()]
        for form in forms:
            pp, got = kde.density(form, grid=True)
            common.dens_close(rec, got, want, 'density(grid=True)', skip)
            pp = [pp] if (ndim == 1 and np.ndim(pp) == 1) else pp
            rec.require(len(pp) == ndim, 'returned points of a grid: wrong number of dimensions')
            for aa, bb in zip(pp, edges):
                rec.close(aa, bb, 'returned points of a grid are not the edges')
        got = kde.pdf(forms[0], grid=True)[1]
        common.dens_close(rec, got, want/total, 'pdf(grid=True)', skip)
        if refl is not None:
            got = kde.density(forms[0], grid=True, reflect=False)[1]
            common.dens_close(rec, got, model.clear(mesh).reshape(case['shape']), 'density(grid=True, reflect=False)',
                              model.near_edge(mesh).reshape(case['shape']))
        # the grid equals the same points one by one
        got2 = kde.density(mesh if ndim > 1 else mesh[0])[1].reshape(case['shape'])
        got = kde.density(forms[0], grid=True)[1]
        rec.close(got, got2, 'grid differs from the same points', rtol=1e-12)
        rec.trace()
        return

    points = kde.points
    plist = [points] if ndim == 1 else list(points)
    rec.require(len(plist) == ndim, 'points: wrong number of dimensions')
    for pp in plist:
        pp = np.asarray(pp)
        rec.step()
        rec.require(pp.ndim == 1 and pp.size >= 2 and np.all(np.isfinite(pp)) and np.all(np.diff(pp) > 0),
                    'points are not finite and increasing')
    extr = np.asarray(kde.extrema, dtype=float)
    rec.require(extr.shape == (ndim, 2), 'extrema: wrong shape', got=extr.shape)

    if case['what'] == 'default':
        for ii, pp in enumerate(plist):
            rec.require(4 <= len(pp) <= 250, 'unreasonable number of default points', num=len(pp))
            rec.close([pp[0], pp[-1]], extr[ii], 'default points do not span the extrema', rtol=1e-9)
            rec.require(pp[0] <= data[ii].min() and pp[-1] >= data[ii].max(), 'default points do not cover the data')
            lo, hi = (None, None) if want_refl is None or want_refl[ii] is None else want_refl[ii]
            for side, loc, bnd in [(0, pp[0], lo), (1, pp[-1], hi)]:
                if bnd is not None:
                    rec.close(loc, bnd, 'default points do not end at the boundary', rtol=1e-6, atol=1e-6*np.ptp(pp))
        # the points of other parameters, in the order asked
        import itertools
        for params in ([pp for nn in range(1, min(ndim, 2) + 1) for pp in itertools.permutations(range(ndim), nn)] if ndim > 1 else []):
            sub, got = kde.density(params=list(params))
            own = [plist[pp] for pp in params]
            sub = [sub] if len(params) == 1 and np.ndim(sub) == 1 else sub
            rec.require(len(sub) == len(params), 'density(params=) on default points: wrong number of dimensions')
            for aa, bb in zip(sub, own):
                rec.close(aa, bb, 'density(params=) on default points: points of another parameter', params=params)
            shape = tuple(len(pp) for pp in own)
            rec.require(np.shape(got) == shape, 'density(params=) on default points: wrong shape', got=np.shape(got), want=shape)
            idx = np.arange(0, int(np.prod(shape)), max(1, int(np.prod(shape))//67))
            mesh = np.array([pp[jj] for pp, jj in zip(own, np.unravel_index(idx, shape))])
            common.dens_close(rec, np.ravel(got)[idx], model.density(mesh, params=list(params)), 'density(params=) on default points',
                              model.edgy(mesh, params=list(params)))
        if ndim == 3:
            rec.trace()
            return
        out_pts, got = kde.density()
        out_pts = [out_pts] if ndim == 1 else out_pts
        rec.require(len(out_pts) == ndim, 'density(): returned points have the wrong number of dimensions')
        for aa, bb in zip(out_pts, plist):
            rec.close(aa, bb, 'density() on default points: returned other points')
        shape = tuple(len(pp) for pp in plist)
        rec.require(np.shape(got) == shape, 'density() on default points: wrong shape', got=np.shape(got), want=shape)
        # every point of the grid in 1D, and a regular sub-lattice of it in more
        idx = np.arange(0, int(np.prod(shape)), max(1, int(np.prod(shape))//211))
        mesh = np.array([pp[jj] for pp, jj in zip(plist, np.unravel_index(idx, shape))])
        skip = model.edgy(mesh)
        common.dens_close(rec, np.ravel(got)[idx], model.density(mesh), 'density() on default points', skip)
        vol = ref.trapz_nd_weights(plist)
        tot = np.sum(got*vol)/total
        # clipping at 200 bins resolves the kernels only if they are not too narrow
        std = np.sqrt(np.diag(model.matrix)) * (1.0 if ref.FINITE[model.kernel] else 2.0)
        res = max(np.diff(pp).max()/ss for pp, ss in zip(plist, std))
        if res < (0.35 if model.kernel != 'box' else 0.12) and (refl is None or refl is True or case['refl'] in ('both', 'first')):
            narrow = want_refl is not None and any(
                rr is not None and None not in rr and (rr[1]-rr[0]) < 2.5*ss for rr, ss in zip(want_refl, std))
            tol = dict(gaussian=0.09, box=0.12, parabola=0.03, triweight=0.02)[model.kernel]*ndim
            if not narrow:
                rec.require(abs(tot - 1.0) < tol, 'default points do not cover the probability', total=tot)
                rec.count('coverage_checked')
        rec.trace()
        return

    # points or extrema given to the constructor
    own = [None]*ndim
    std = np.sqrt(np.diag(model.matrix))
    for ii in range(ndim):
        ee = [-4.0, 12.0] if case['extrema'] == 'shared' else None
        if case['extrema'] not in (None, 'shared'):
            ee = ext[ii]
        own[ii] = [None, None] if ee is None else list(ee)
        if case['extrema'] is None and want_refl is not None and want_refl[ii] is not None:
            own[ii] = list(want_refl[ii])
        for jj in range(2):
            if own[ii][jj] is None:
                # automatic: outside of the data, by at least half a kernel, and less than 8
                gap = (data[ii].min() - extr[ii, 0]) if jj == 0 else (extr[ii, 1] - data[ii].max())
                rec.require(0.5*std[ii] < gap < 8*std[ii], 'automatic extrema do not enclose the data', gap=gap, std=std[ii])
            else:
                rec.close(extr[ii, jj], own[ii][jj], 'given extrema are not used')
        spec = case['points']
        pp = plist[ii]
        if spec == 'arrays':
            rec.close(pp, np.linspace(data[ii].min() - 1.0, data[ii].max() + 0.5, 4 + ii), 'given points are not used')
        elif spec == 'mixed' and ii == 2:
            rec.close(pp, np.linspace(-1.0, 2.0, 7), 'given points are not used')
        else:
            rec.close([pp[0], pp[-1]], extr[ii], 'points do not span the extrema')
            num = {'int': 5, 'ints': 4 + ii, 'mixed': 6 if ii == 0 else None, None: None}[spec]
            if num is not None:
                rec.close(pp, np.linspace(extr[ii, 0], extr[ii, 1], num + 1), 'number of bins given is not used', atol=1e-9)
    if np.prod([len(pp) for pp in plist]) > 1e5:
        rec.trace()
        return
    got_pts, got = kde.density()
    mesh = np.array([mm.ravel() for mm in np.meshgrid(*plist, indexing='ij')])
    shape = tuple(len(pp) for pp in plist)
    rec.require(np.shape(got) == shape, 'density() on given points: wrong shape', got=np.shape(got), want=shape)
    idx = np.arange(0, mesh.shape[1], max(1, mesh.shape[1]//151))
    common.dens_close(rec, np.ravel(got)[idx], model.density(mesh[:, idx]), 'density() on given points', model.edgy(mesh[:, idx]))
    rec.trace()
