"""C10: resample(keep=...): kept parameters are exact data values of one data point, the others follow the kernel's marginal."""

import numpy as np

from mc import common, gen, law, ref

ID = 'C10'
TITLE = 'Resampling with `keep` keeps exact data values and smooths only the others'
BOUNDS = dict(
    quick='complete choice trees of one draw (2 draws for the joint law of the data points): dims 1-3, every subset of kept parameters in '
          'every accepted form, 4 kernels, 3 weightings, 2 covariances, with and without boundaries; ~1e3-1e4 leaves each',
    thorough='as quick with ~6e4 leaves per tree and all combinations',
)
ASSUMPTIONS = ['continuous draws are quantised to K equal strata; windows, variances are compared within 1-6%; kept values, data-point '
               'probabilities (without boundaries), supports and boundaries are exact']

DATA = {1: [[-0.5, 0.4, 1.0]], 2: [[-0.5, 0.4, 1.0], [3.0, 1.0, -6.0]], 3: [[-0.5, 0.4, 1.0], [3.0, 1.0, -6.0], [10.0, 14.0, 12.0]]}
WTS = {'none': None, 'ints': [1, 3, 2], 'zero': [0.5, 0.0, 1.5]}


def cases(tier):
    quick = (tier == 'quick')
    leaves = 1200 if quick else 60000
    keeps = {1: [0, [0], True, False, []],
             2: [0, 1, [1], [0, 1], True, False, [], -1, [-2]],
             3: [0, 2, [0, 1], [2, 0], [1], [0, 1, 2], True, [], [-1], [-3, 1]]}
    out = []
    for ndim in [1, 2, 3]:
        out += gen.product(what=['clear'], ndim=[ndim], keep=keeps[ndim], form=['list'], kernel=ref.KERNELS, weights=list(WTS),
                           cov=['full', 'eye'] if ndim > 1 else ['full'], size=[1], leaves=[leaves])
        out += gen.product(what=['clear'], ndim=[ndim], keep=keeps[ndim], form=['array', 'tuple'], kernel=['gaussian'], weights=['ints'],
                           cov=['full'], size=[1], leaves=[leaves])
        out += gen.product(what=['clear'], ndim=[ndim], keep=keeps[ndim], form=['list'], kernel=ref.KERNELS if ndim < 3 else ['parabola'],
                           weights=list(WTS), cov=['full'], size=[2], leaves=[1000 if quick else 4000])
        out += gen.product(what=['bad'], ndim=[ndim], keep=[kk for kk in keeps[ndim] if kk is not False and kk != []], form=['list'],
                           kernel=ref.KERNELS[:2], weights=['none', 'zero'], cov=['full'], size=[3], leaves=[0])
    for keep, dims in [(0, [1]), ([1], [0])]:
        out += gen.product(what=['bound'], ndim=[2], keep=[keep], dims=[dims], kind=['lo', 'hi', 'both'], form=['list'], kernel=ref.KERNELS,
                           weights=list(WTS)[::2] if quick else list(WTS), cov=['full', 'eye'], size=[1], leaves=[4*leaves])
    out += gen.product(what=['bound'], ndim=[3], keep=[2, [0, 2]], dims=[[1]], kind=['both', 'lo'], form=['list'], kernel=['gaussian', 'parabola'],
                       weights=['zero'] if quick else ['ints', 'zero'], cov=['full'], size=[1], leaves=[8*leaves])
    return out


def setup(tier):
    common.warm()
    import scipy.special
    scipy.special.betaincinv(1.0, 2.0, 0.5)


def boundaries(case, data, std):
    """Boundaries through the kernels of the extreme data points, in the dimensions `dims`."""
    out = [None]*case['ndim']
    for ii in case['dims']:
        lo = data[ii].min() - 0.4*std[ii] if case['kind'] in ('lo', 'both') else None
        hi = data[ii].max() + 0.3*std[ii] if case['kind'] in ('hi', 'both') else None
        out[ii] = [lo, hi]
    return out


def run(case, rec):
    import kalepy as kale
    ndim, size = case['ndim'], case['size']
    data = np.array(DATA[ndim])
    num = data.shape[1]
    ww = WTS[case['weights']]
    own = np.ones(num) if ww is None else np.asarray(ww, dtype=float)
    cov = gen.spd(ndim, case['cov'])
    kw = dict(bandwidth=0.5, weights=ww, covariance=cov, kernel=case['kernel'])
    model = ref.Model(data, 0.5, weights=ww, kernel=case['kernel'], covariance_in=cov)
    std = np.sqrt(np.diag(model.matrix))
    keep = case['keep']
    if keep is True:
        kept = list(range(ndim))
    elif keep is False:
        kept = []
    else:
        kept = sorted(int(kk) % ndim for kk in np.atleast_1d(keep))
    if isinstance(keep, list):
        keep = {'list': list, 'tuple': tuple, 'array': lambda kk: np.array(kk, dtype=int)}[case['form']](keep)
    free = [ii for ii in range(ndim) if ii not in kept]
    given = data[0] if ndim == 1 else data
    rec.state(case)

    if case['what'] == 'bad':
        # a parameter cannot be kept and reflected at the same time
        for dim in kept:
            refl = [None]*ndim
            refl[dim] = [float(data[dim].min() - 1.0), float(data[dim].max() + 1.0)]
            kde = kale.KDE(given, **kw)
            rec.raises(ValueError, lambda: kde.resample(size, keep=keep, reflect=refl), 'keep and reflect of the same parameter', dim=dim)
            kde = kale.KDE(given, reflect=refl, **kw)
            rec.raises(ValueError, lambda: kde.resample(size, keep=keep), 'keep and reflect of the same parameter', dim=dim)
            # no boundaries for this call: fine
            out = np.atleast_2d(kde.resample(size, keep=keep, reflect=False))
            rec.require(np.all(np.isin(out[dim], data[dim])), 'kept values are not data values', dim=dim)
            rec.step()
        rec.trace()
        return

    refl = None
    if case['what'] == 'bound':
        refl = boundaries(case, data, std)
    kde = kale.KDE(given, reflect=refl, **kw)
    tree = law.walk(lambda: kde.resample(size, keep=keep), case['leaves'], rec, horizon=2.0 if refl is not None else None)
    if tree is None:
        return
    shape = (size,) if ndim == 1 else (ndim, size)
    rec.require(tree.vals.shape[1:] == shape, 'resample(keep=): wrong shape', got=tree.vals.shape[1:], want=shape)
    vals = tree.vals.reshape(len(tree.vals), ndim, size)
    rec.require(np.all(np.isfinite(vals)), 'resample(keep=): not finite')

    which = np.full((len(vals), size), -1)
    if kept:
        # all kept values belong to one and the same data point
        for jj in range(num):
            same = np.all(vals[:, kept, :] == data[kept, jj][None, :, None], axis=1)
            which[same] = jj
        rec.require(np.all(which >= 0), 'kept values are not those of one data point', vals=vals[np.argwhere(which < 0)[0][0] if np.any(which < 0) else 0])
        rec.require(np.all(own[which] > 0), 'data point of zero weight was drawn')

    # probability of the data points
    if kept and refl is None:
        prob = own/own.sum()
        for combo in np.ndindex(*([num]*size)):
            got = tree.prob[np.all(which == np.array(combo), axis=1)].sum()
            rec.close(got, np.prod(prob[list(combo)]), 'joint probability of the data points drawn', rtol=1e-7, atol=1e-9, points=combo)
    if size > 1 or not free:
        return

    fr = np.array(free)
    reach = 1.0001 if ref.FINITE[case['kernel']] else 6.0
    fine = {1: 3000, 2: 200, 3: 60}[ndim]
    kk = float(tree.strata)
    tol = 0.008 + 0.6*max(1, tree.draws)/kk**2
    groups = range(num) if kept else [None]
    totals = {}
    for jj in groups:
        if jj is not None and own[jj] == 0.0:
            continue
        sel = slice(None) if jj is None else (which[:, 0] == jj)
        pp = tree.prob[sel]
        vv = vals[sel][:, fr, 0]
        mod = ref.Model(data if jj is None else data[:, jj:jj+1], 0.5, weights=ww if jj is None else None, kernel=case['kernel'],
                        covariance_in=cov, reflect=refl)
        base = mod.data
        lo, hi = base.min(axis=1) - reach*std, base.max(axis=1) + reach*std
        if refl is not None:
            for ii, rr in enumerate(refl):
                if rr is not None:
                    lo[ii] = lo[ii] if rr[0] is None else max(rr[0], lo[ii])
                    hi[ii] = hi[ii] if rr[1] is None else min(rr[1], hi[ii])
        mid = base.mean(axis=1)[fr]
        wide = 0.6*std[fr]*(1.0 if ref.FINITE[case['kernel']] else 1.6)
        cent = [mid] + [mid + ss*0.8*std[fr]*sgn for ss in [-1, 1] for sgn in ([np.ones(len(fr))] + (
            [np.where(np.arange(len(fr)) == 0, 1.0, -1.0)] if len(fr) > 1 else []))]
        wind = law.bumps(cent, wide)
        (want, second), tot = law.expect(mod.density, lo, hi, fine, [
            lambda xx: wind(xx[:, fr]), lambda xx: np.einsum('ni,nj->nij', xx[:, fr] - mid, xx[:, fr] - mid)])
        totals[jj] = tot
        pp = pp/pp.sum()
        got = np.tensordot(pp, wind(vv), axes=(0, 0))
        extra = 0.02 if refl is not None else 0.0
        rec.close(got, want, 'probability of a window in the parameters which are not kept', rtol=0, atol=tol + extra, point=jj,
                  strata=tree.strata, lost=tree.lost)
        gsec = np.einsum('n,ni,nj->ij', pp, vv - mid, vv - mid)
        scale = np.sqrt(np.outer(np.diag(second), np.diag(second)))
        rec.close(gsec/scale, second/scale, 'covariance of the parameters which are not kept', rtol=0,
                  atol=3*tol + extra + (1.5/kk if not ref.FINITE[case['kernel']] else 0.0), point=jj)
        if refl is not None:
            for ii, rr in enumerate(refl):
                if rr is not None:
                    rec.require(rr[0] is None or np.all(vals[:, ii] >= rr[0]), 'sample below the boundary')
                    rec.require(rr[1] is None or np.all(vals[:, ii] <= rr[1]), 'sample above the boundary')
        elif jj is not None and ref.FINITE[case['kernel']]:
            sub = model.matrix[np.ix_(fr, fr)]
            dev = vv - data[fr, jj]
            r2 = np.einsum('ni,ij,nj->n', dev, np.linalg.inv(sub), dev)
            rec.require(np.all(r2 <= 1.0 + 1e-9), 'sample outside of the kernel\'s support', r2=float(r2.max()))
    if kept and refl is not None:
        # rejection makes data points near a boundary less likely
        want = np.array([own[jj]*totals.get(jj, 0.0) for jj in range(num)])
        got = np.array([tree.prob[which[:, 0] == jj].sum() for jj in range(num)])
        rec.close(got/got.sum(), want/want.sum(), 'probability of the data points drawn, with boundaries', rtol=0, atol=0.03)
