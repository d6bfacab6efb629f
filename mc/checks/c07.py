"""C07: metamorphic laws: re-ordering, re-scaling, re-expressing the same data does not change the distribution."""

import itertools

import numpy as np

from mc import common, gen, law as laws, ref

ID = 'C07'
TITLE = 'Equivalent descriptions of the same data give the same distribution'
BOUNDS = dict(
    quick='all 24 orders of 4 points and 6 rotations/reversals of 9; all orders of 2-4 parameters; affine maps; 5 weight scalings; '
          'replication, splitting and zero-weight points; 9 array forms; 4 kernels x 4 weightings x dims 1-3; the exact law of the points drawn '
          '(complete choice trees), the CDF and the default points under 10 re-descriptions of 3 points',
    thorough='as quick with all 120 orders of 5 points, more data sets and bandwidths',
)
ASSUMPTIONS = ['differential oracle: the real code against itself, agreement to 1e-6']


HOWS = ['order', 'reverse', 'params', 'scale', 'shift', 'weights', 'norm', 'zeros', 'split', 'lists']
WTS = {'none': None, 'ints': [1, 3, 2], 'zero': [0.5, 0.0, 1.5], 'list': [0.2, 0.1, 0.7]}
PTS = np.array([[-0.5, 0.4, 1.0], [0.3, 1.0, -0.6], [0.0, 0.5, 0.2]])


def cases(tier):
    quick = (tier == 'quick')
    base = dict(kernel=ref.KERNELS, weights=[None, 'ints', 'zeros', 'skew'], ndim=[1, 2, 3],
                bw=[None, 0.4, 'silverman', 'vec'] if quick else [None, 0.4, 'silverman', 'vec', 'mat'],
                data=['plain', 'negative'] if quick else ['plain', 'negative', 'offset', 'wide'])
    out = []
    for ndim in [1, 2, 3]:
        num = 4 if quick else 5
        orders = [list(pp) for pp in itertools.permutations(range(num))]
        bb = dict(base, ndim=[ndim], data=['plain'])
        out += gen.product(law=['order'], order=orders, num=[num], **dict(bb, bw=[None, 0.4], weights=[None, 'ints', 'skew']))
        num = 17
        idx = np.arange(num)
        orders = [np.roll(idx, kk).tolist() for kk in [1, 5, 9]] + [idx[::-1].tolist(), ((idx*5) % num).tolist(), ((idx*3) % num).tolist()]
        out += gen.product(law=['order'], order=orders, num=[num], **dict(base, ndim=[ndim]))
        if ndim > 1:
            out += gen.product(law=['params'], order=[list(pp) for pp in itertools.permutations(range(ndim))][1:], num=[17],
                               **dict(base, ndim=[ndim]))
        out += gen.product(law=['affine'], map=['shift', 'scale', 'flip', 'each', 'shear'], num=[17], **dict(base, ndim=[ndim]))
        out += gen.product(law=['wscale'], scale=[2, 0.25, 1e-3, 1e6, 'norm'], num=[17], **dict(base, ndim=[ndim], weights=['ints', 'zeros', 'skew']))
        out += gen.product(law=['ones', 'twos'], num=[17, 130], **dict(base, ndim=[ndim], weights=[None]))
        out += gen.product(law=['zeros'], num=[17], **dict(base, ndim=[ndim]))
        out += gen.product(law=['replicate', 'split'], num=[8], **dict(base, ndim=[ndim], bw=[0.4, 'vec']))
        out += gen.product(law=['form'], form=['list', 'tuple', 'fortran', 'strided', 'readonly', 'int', 'float32', 'nested', 'reversed_view'],
                           num=[17], **dict(base, ndim=[ndim], data=['plain', 'ints']))
    # not only the density: the law of the points drawn, and the CDF
    for ndim in [1, 2, 3]:
        out += gen.product(law=['draws', 'cdf'], how=HOWS if ndim > 1 else [hh for hh in HOWS if hh != 'params'], num=[3], ndim=[ndim], kernel=ref.KERNELS,
                           weights=['none', 'ints', 'zero', 'list'], bw=[0.4, 'vec'] if ndim > 1 else [0.4], refl=[0, 1], data=['plain'])
    return [cc for cc in out if cc['law'] in ('draws', 'cdf') and (cc['ndim'] == 1 or not quick or cc['how'] in HOWS[:6] and cc['bw'] == 'vec' and
                                                                   (cc['law'] == 'cdf' or cc['ndim'] == 2 and cc['weights'] != 'ints')) or
            cc['law'] not in ('draws', 'cdf') and common.regular(cc)]


def setup(tier):
    common.warm()


def make(data, weights, case, **over):
    import kalepy as kale
    ndim = case['ndim']
    kw = dict(bandwidth=common.bw_arg(case['bw'], ndim), kernel=case['kernel'], weights=weights)
    kw.update(over)
    return kale.KDE(data[0] if ndim == 1 else data, **kw)


def values(kde, pts):
    pts = pts[0] if len(pts) == 1 else pts
    return kde.density(pts)[1], kde.pdf(pts)[1]


def run(case, rec):
    ndim, num, law = case['ndim'], case['num'], case['law']
    if law in ('draws', 'cdf'):
        _whole(case, rec)
        return
    data = np.array(gen.dataset(case['data'], ndim, num), dtype=float)
    ww = gen.weights(case['weights'], num)
    pts = gen.points_around(data, ndim, 10)
    model = ref.Model(data, common.bw_arg(case['bw'], ndim), weights=ww, kernel=case['kernel'])
    skip = model.near_edge(pts)
    kde = make(data, ww, case)
    dens, prob = values(kde, pts)
    rec.state(case, dens)

    def same(kde2, pts2, what, fd=1.0, fp=1.0, skip=skip):
        dd, pp = values(kde2, pts2)
        common.dens_close(rec, dd, dens*fd, what + ': density', skip, rtol=1e-6)
        common.dens_close(rec, pp, prob*fp, what + ': pdf', skip, rtol=1e-6)

    if law == 'order':
        order = case['order']
        w2 = None if ww is None else np.asarray(ww)[order]
        same(make(data[:, order], w2, case), pts, 'order of the data points')
    elif law == 'params':
        order = case['order']
        bw = common.bw_arg(case['bw'], ndim)
        if np.ndim(bw) == 1:
            bw = [bw[ii] for ii in order]
        elif np.ndim(bw) == 2:
            bw = np.asarray(bw)[np.ix_(order, order)]
        same(make(data[order], ww, case, bandwidth=bw), pts[order], 'order of the parameters')
    elif law == 'affine':
        mm = np.eye(ndim)
        off = np.zeros(ndim)
        if case['map'] == 'shift':
            off = 3.0 - 7.0*np.arange(1, ndim+1)
        elif case['map'] == 'scale':
            mm = 12.5*mm
        elif case['map'] == 'flip':
            mm = -mm
        elif case['map'] == 'each':
            mm = np.diag([0.01, 40.0, 3.0][:ndim])
            off = off + 1.0
        elif case['map'] == 'shear':
            mm = mm + np.diag(0.7*np.ones(ndim-1), 1)
            if case['bw'] in ('vec', 'mat'):
                rec.trace()
                rec.step()
                return      # bandwidths per parameter are tied to these parameters
        det = abs(np.linalg.det(mm))
        same(make(mm @ data + off[:, None], ww, case), mm @ pts + off[:, None], 'affine map ' + case['map'], 1.0/det, 1.0/det)
    elif law == 'wscale':
        ww = np.asarray(ww, dtype=float)
        fact = 1.0/ww.sum() if case['scale'] == 'norm' else case['scale']
        kde2 = make(data, ww*fact, case)
        same(kde2, pts, 'scaling of the weights', fact, 1.0)
        rec.close(kde2.neff, kde.neff, 'neff depends on the scale of the weights', rtol=1e-9)
    elif law in ('ones', 'twos'):
        val = 1 if law == 'ones' else 2
        for dtype in (float, int):
            kde2 = make(data, np.full(num, val, dtype=dtype), case)
            same(kde2, pts, 'uniform weights', val, 1.0)
            rec.close(kde2.neff, kde.neff, 'neff of uniform weights', rtol=1e-9)
    elif law == 'zeros':
        w2 = np.ones(num) if ww is None else np.asarray(ww, dtype=float)
        extra = data[:, :3] + 2.5
        d2 = np.concatenate([data[:, :5], extra, data[:, 5:]], axis=1)
        w2 = np.concatenate([w2[:5], np.zeros(3), w2[5:]])
        kde2 = make(d2, w2, case)
        same(kde2, pts, 'data points of zero weight')
        rec.close(kde2.neff, kde.neff, 'neff counts points of zero weight', rtol=1e-9)
    elif law in ('replicate', 'split'):
        cov = ref.covariance(data)
        kde = make(data, ww, case, covariance=cov)
        dens, prob = values(kde, pts)
        model = ref.Model(data, common.bw_arg(case['bw'], ndim), weights=ww, kernel=case['kernel'], covariance_in=cov)
        skip = model.near_edge(pts)
        w1 = np.ones(num) if ww is None else np.asarray(ww, dtype=float)
        if law == 'replicate':
            # a point with weight w is w copies of it
            cnt = np.ones(num, dtype=int) + (np.arange(num) % 3)
            one = make(data, w1*cnt, case, covariance=cov)
            dens, prob = values(one, pts)
            two = make(np.repeat(data, cnt, axis=1), np.repeat(w1, cnt), case, covariance=cov)
            same(two, pts, 'repeated points', skip=skip)
            if ww is None:
                same(make(np.repeat(data, cnt, axis=1), None, case, covariance=cov), pts, 'repeated points without weights', skip=skip)
        else:
            # densities of the parts add up
            for cut in [1, 3, num-1]:
                parts = []
                for sel in (slice(None, cut), slice(cut, None)):
                    if np.sum(w1[sel]) == 0.0:
                        continue
                    part = make(data[:, sel], None if ww is None else w1[sel], case, covariance=cov)
                    parts.append(values(part, pts)[0])
                common.dens_close(rec, sum(parts), dens, 'densities of two halves do not add up', skip, rtol=1e-6)
    elif law == 'form':
        form = case['form']
        d0 = data[0] if ndim == 1 else data
        if form == 'list':
            d2 = d0.tolist()
        elif form == 'tuple':
            d2 = tuple(d0.tolist()) if ndim == 1 else tuple(tuple(rr) for rr in d0.tolist())
        elif form == 'fortran':
            d2 = np.asfortranarray(d0)
        elif form == 'strided':
            big = np.full(d0.shape[:-1] + (2*num,), 99.0)
            big[..., ::2] = d0
            d2 = big[..., ::2]
        elif form == 'reversed_view':
            d2 = d0[..., ::-1].copy()[..., ::-1]
        elif form == 'readonly':
            d2 = d0.copy()
            d2.setflags(write=False)
        elif form == 'int':
            if case['data'] != 'ints':
                rec.trace()
                rec.step()
                return
            d2 = d0.astype(int)
        elif form == 'float32':
            d2 = d0.astype(np.float32)
            kde = make(data.astype(np.float32).astype(float), ww, case)
            dens, prob = values(kde, pts)
            if case['kernel'] == 'box':
                skip = skip | ref.Model(data, common.bw_arg(case['bw'], ndim), weights=ww, kernel='box').near_edge(pts, tol=1e-3)
        elif form == 'nested':
            d2 = data if ndim == 1 else [rr for rr in data]
        import kalepy as kale
        w2 = ww
        if ww is not None:
            w2 = list(ww) if form in ('list', 'nested') else (tuple(ww) if form == 'tuple' else np.asarray(ww))
        kde2 = kale.KDE(d2, bandwidth=common.bw_arg(case['bw'], ndim), kernel=case['kernel'], weights=w2)
        same(kde2, pts, 'data given as ' + form, skip=skip)
    rec.trace()


def _whole(case, rec):
    """Two descriptions of the same distribution: the laws of the points drawn, and the CDFs, agree."""
    import kalepy as kale
    ndim, how = case['ndim'], case['how']
    data = PTS[:ndim]
    ww = WTS[case['weights']]
    bw = 0.4 if case['bw'] != 'vec' else np.array([0.3, 0.5, 0.4])[:ndim]
    cov = gen.spd(ndim, 'full') if ndim > 1 else np.array([[1.3]])
    refl = [[-0.8, None], [-0.9, 1.6], None][:ndim] if case['refl'] else None
    w1 = np.ones(3) if ww is None else np.array(ww, dtype=float)
    scale, shift, perm = np.ones(ndim), np.zeros(ndim), np.arange(ndim)
    d2, w2 = data, ww
    if how in ('order', 'reverse'):
        order = [1, 2, 0] if how == 'order' else [2, 1, 0]
        d2, w2 = data[:, order], None if ww is None else w1[order]
    elif how == 'params':
        perm = np.arange(ndim)[::-1]
    elif how == 'scale':
        scale = np.array([2.0**-10, 64.0, 4.0])[:ndim]
    elif how == 'shift':
        shift = np.array([-7.0, 30.0, 1.5])[:ndim]
    elif how == 'weights':
        w2 = w1*8.0
    elif how == 'norm':
        w2 = w1/w1.sum()
    elif how == 'zeros':
        d2, w2 = np.concatenate([data[:, :1], data[:, :2] + 1.5, data[:, 1:]], axis=1), np.concatenate([w1[:1], [0.0, 0.0], w1[1:]])
    elif how == 'split':
        d2, w2 = np.concatenate([data, data[:, 1:]], axis=1), np.concatenate([w1*[1.0, 0.25, 0.5], w1[1:]*[0.75, 0.5]])
    elif how == 'lists':
        d2, w2 = data.tolist(), None if ww is None else list(ww)
    d2 = np.asarray(d2)[perm]*scale[perm, None] + shift[perm, None]
    if how == 'lists':
        d2 = d2.tolist()
    cov2 = (cov*np.outer(scale, scale))[np.ix_(perm, perm)]
    bw2 = bw if np.isscalar(bw) else bw[perm]
    refl2 = None
    if refl is not None:
        refl2 = [None if refl[ii] is None else [None if bb is None else bb*scale[ii] + shift[ii] for bb in refl[ii]] for ii in perm]
    one = kale.KDE(data[0] if ndim == 1 else data, weights=ww, bandwidth=bw, covariance=cov, kernel=case['kernel'], reflect=refl, helper=False)
    two = kale.KDE(d2[0] if ndim == 1 else d2, weights=w2, bandwidth=bw2, covariance=cov2, kernel=case['kernel'], reflect=refl2, helper=False)
    rec.state(case)
    std = np.sqrt(np.diag(cov))*bw
    if case['law'] == 'draws':
        num = {1: 20, 2: 6, 3: 4}[ndim] if (ndim > 1 or case['kernel'] != 'parabola') else 8
        horizon = 1.0 if refl is not None else None
        trees = [laws.walk(lambda: kk.resample(size=1, reflect=None if refl is None else rr), 1e9, rec, horizon=horizon, strata=num)
                 for kk, rr in [(one, refl), (two, refl2)]]
        if any(tt is None for tt in trees):
            return
        vals = [tt.vals.reshape(len(tt.vals), ndim) for tt in trees]
        back = np.empty_like(vals[1])
        back[:, perm] = vals[1]
        trees[0].vals, trees[1].vals = vals[0], (back - shift)/scale
        cent = np.concatenate([data.T, data.T + 0.6*std, data.T - 0.8*std])
        wind = laws.bumps(cent, 0.8*std)
        # (the draws themselves are the same, but for those of exchanged parameters)
        tol = 0.03 if how == 'params' else 1e-7
        rec.close(trees[1].mean(wind), trees[0].mean(wind), 'the law of the points drawn differs', rtol=0, atol=tol)
        for pw in (1, 2):
            got, want = [tt.mean(lambda vv: vv**pw) for tt in (trees[1], trees[0])]
            rec.close(got, want, 'moments of the points drawn differ', rtol=tol, atol=(0.05 if how == 'params' else 1e-7)*std.max()**pw)
        rec.close(trees[1].lost, trees[0].lost, 'not as many draws are rejected', atol=0.02 if how == 'params' else 1e-9)
    elif ndim < 3:
        lo, hi = data.min(axis=1) - 2*std, data.max(axis=1) + 2*std
        pts = lo[:, None] + (hi - lo)[:, None]*np.array([[0.0, 0.2, 0.35, 0.5, 0.65, 0.8, 1.0], [0.3, 0.8, 0.5, 0.45, 0.7, 0.2, 1.0]])[:ndim]
        if how in ('scale', 'shift', 'lists', 'order', 'reverse'):
            for ii in range(ndim):
                aa, bb = [np.asarray(kk.points if ndim == 1 else kk.points[ii]) for kk in (one, two)]
                rec.require(abs(aa.size - bb.size) <= (how == 'shift'), 'not as many default points', got=bb.size, want=aa.size, dim=ii)
                if aa.size == bb.size:
                    rec.close((bb - shift[ii])/scale[ii], aa, 'default points differ', rtol=1e-7, atol=1e-7*np.ptp(aa), dim=ii)
        pts2 = pts[perm]*scale[perm, None] + shift[perm, None]
        aa, bb = [kk.cdf(pp[0] if ndim == 1 else pp) for kk, pp in [(one, pts), (two, pts2)]]
        rec.close(bb, aa, 'CDFs differ', rtol=0, atol=1e-6 if how in ('order', 'reverse', 'lists', 'scale') else 0.12 if how in ('zeros', 'split') else 0.05)
    rec.step()
    rec.trace()
