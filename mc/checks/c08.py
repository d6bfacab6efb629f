"""C08: the exact output law of resample(), over the complete tree of its random choices, is the KDE's density."""

import numpy as np

from mc import common, gen, law, ref, rng

ID = 'C08'
TITLE = 'Resampled points are distributed as the KDE density, independently'
BOUNDS = dict(
    quick='complete choice trees of one sample of each kernel alone (4e4 leaves), of 1 draw (dims 1-3, 4 kernels, 4 weightings, 3 covariances, 8 boundary settings) with K strata per '
          'continuous draw and exact discrete draws, ~6e3-5e4 leaves each; of 2 and 3 joint draws with exact data-point law; one history each of 2.5e5 draws',
    thorough='as quick with ~2e5 leaves per tree and more configurations',
)
ASSUMPTIONS = ['continuous draws are quantised to the midpoint quantiles of K equal strata; expectations of 10+ smooth windows, mean and '
               'covariance are compared within 1-5% of their range',
               'a finite kernel\'s support, the boundaries and the law of the chosen data point are exact']

DATA = {1: {'close': [[-0.5, 0.4, 1.0]], 'far': [[-40.0, 0.0, 60.0]], 'one': [[2.0]], 'many': [[-40.0, 0.0, 60.0, 110.0, 150.0, 210.0]]},
        2: {'close': [[-0.5, 0.4, 1.0], [0.3, 1.0, -0.6]], 'far': [[-40.0, 0.0, 60.0], [10.0, -50.0, 30.0]], 'one': [[2.0], [-1.0]], 'many': [[-40.0, 0.0, 60.0, 110.0, 150.0], [10.0, -50.0, 30.0, 0.0, 20.0]]},
        3: {'close': [[-0.5, 0.4, 1.0], [0.3, 1.0, -0.6], [0.0, 0.5, 0.2]],
            'far': [[-40.0, 0.0, 60.0], [10.0, -50.0, 30.0], [0.0, 30.0, -45.0]], 'one': [[2.0], [-1.0], [0.5]]}}
WTS = {'none': None, 'ints': [1, 3, 2], 'zero': [0.5, 0.0, 1.5], 'list': [0.2, 0.1, 0.7], 'steep': [1.0, 1e-4, 300.0], 'six': [1.0, 0.5, 0.0, 2.0, 4.0, 0.25]}

# boundaries by dimension, around 'close' data
REFL = {'clear': None, 'lo': [-0.8, None], 'hi': [None, 1.2], 'both': [-0.9, 1.6], 'tight': [-0.55, 1.05]}


def cases(tier):
    quick = (tier == 'quick')
    size = {1: 1500, 2: 9000, 3: 11000}
    if not quick:
        size = {1: 40000, 2: 150000, 3: 150000}
    out = []
    for ndim in [1, 2, 3]:
        covs = ['full', 'eye'] if ndim > 1 else ['full']
        out += gen.product(what=['one'], ndim=[ndim], kernel=ref.KERNELS, data=['one'], weights=['none'], cov=covs,
                           bw=[0.5, 'vec'] if ndim > 1 else [0.5], refl=['clear'], leaves=[size[ndim]])
        out += gen.product(what=['one'], ndim=[ndim], kernel=ref.KERNELS, data=['close'], weights=list(WTS)[:4], cov=covs if ndim < 3 else ['full'],
                           bw=[0.5], refl=['clear'], leaves=[size[ndim]])
    out += gen.product(what=['one'], ndim=[1], kernel=ref.KERNELS, data=['close'], weights=['none', 'zero', 'list'], cov=['full'], bw=[0.3, 0.5],
                       refl=['lo', 'hi', 'both', 'tight'], leaves=[size[1]])
    combos = [['lo', 'clear'], ['clear', 'hi'], ['both', 'both'], ['hi', 'both'], ['clear', 'both']]
    out += gen.product(what=['one'], ndim=[2], kernel=ref.KERNELS, data=['close'], weights=['none', 'list'], cov=['full'], bw=[0.3],
                       refl=combos, leaves=[size[2]])
    out += gen.product(what=['one'], ndim=[3], kernel=['gaussian', 'parabola'], data=['close'], weights=['list'], cov=['full'], bw=[0.3],
                       refl=[['both', 'clear', 'lo']], leaves=[size[3]])
    # the kernels alone, finely: `sample()` of the distributions
    out += gen.product(what=['class'], ndim=[1, 2, 3], kernel=ref.KERNELS, leaves=[40000 if quick else 300000])
    # rejections: kernel wider than the interval, two rounds of draws
    out += gen.product(what=['deep'], ndim=[1], kernel=['box', 'gaussian'], data=['close'], weights=['none', 'list', 'zero'], cov=['full'],
                       bw=[1.0], refl=['tight'], leaves=[12000])
    # joint law of several draws
    out += gen.product(what=['joint'], ndim=[1, 2, 3], kernel=ref.KERNELS, data=['far'], weights=list(WTS)[:5], cov=['full'], bw=[0.5], size=[2],
                       refl=['clear', 'wide'], leaves=[3000 if quick else 60000])
    out += gen.product(what=['joint'], ndim=[1, 2], kernel=['gaussian', 'box'], data=['many'], weights=['none', 'six'], cov=['full'], bw=[0.5], size=[2],
                       refl=['clear', 'wide'], leaves=[6000 if quick else 60000])
    out += gen.product(what=['joint'], ndim=[1], kernel=['gaussian', 'box'], data=['far'], weights=list(WTS)[:5], cov=['full'], bw=[0.5], size=[3],
                       refl=['clear', 'wide'], leaves=[3000 if quick else 60000])
    # more draws than fit in a chunk: every third of one long history
    out += gen.product(what=['long'], ndim=[1, 2, 3], kernel=ref.KERNELS, data=['close'], weights=['none', 'zero', 'list'], cov=['full'], bw=[0.4],
                       refl=['clear', 'both'], size=[250002])
    return out


def setup(tier):
    common.warm()
    import scipy.special
    scipy.special.betaincinv(1.0, 2.0, 0.5)


def run(case, rec):
    import kalepy as kale
    ndim = case['ndim']
    if case['what'] == 'class':
        _class(case, rec)
        return
    data = np.array(DATA[ndim][case['data']])
    num = data.shape[1]
    ww = WTS[case['weights']] if num > 1 else None
    ww = ww[:num] if ww is not None else None
    cov = gen.spd(ndim, case['cov'])
    if ndim == 1:
        cov = np.array([[1.3]])
    bw = case['bw'] if case['bw'] != 'vec' else [0.35, 0.6, 0.45][:ndim]
    refl = case['refl']
    if refl == 'wide':
        refl = [[-500.0, 500.0]]*ndim
    elif isinstance(refl, str):
        refl = None if refl == 'clear' else [list(REFL[refl])] + [None]*(ndim-1)
    else:
        refl = [None if REFL[rr] is None else list(REFL[rr]) for rr in refl]
    kde = kale.KDE(data[0] if ndim == 1 else data, bandwidth=bw, weights=ww, covariance=cov, kernel=case['kernel'], reflect=refl)
    model = ref.Model(data, bw, weights=ww, kernel=case['kernel'], covariance_in=cov, reflect=refl)
    std = np.sqrt(np.diag(model.matrix))
    finite = ref.FINITE[model.kernel]
    inv = np.linalg.inv(model.matrix)
    rec.state(case)
    size = case.get('size', 1)
    deep = (case['what'] == 'deep')
    if case['what'] == 'long':
        _long(kde, model, data, refl, size, rec)
        return

    def draw():
        out = kde.resample(size=size)
        return out

    shape = (size,) if ndim == 1 else (ndim, size)
    if deep:
        tree = law.walk(draw, case['leaves'], rec, horizon=6, strata=24 if size == 1 else None)
    else:
        tree = law.walk(draw, case['leaves'], rec, horizon=2.0 if (refl is not None and case['refl'] != 'wide') else None)
    if tree is None:
        return
    rec.require(tree.vals.shape[1:] == shape, 'resample(): wrong shape', got=tree.vals.shape[1:], want=shape)
    vals = tree.vals.reshape(len(tree.vals), ndim, size)
    rec.require(np.all(np.isfinite(vals)), 'resample(): not finite')
    rec.require(tree.lost < 0.6, 'resample() rejects almost everything', lost=tree.lost)

    # support: within a kernel of a data point of non-zero weight (or of its mirror image), and within the boundaries
    own = np.ones(num) if ww is None else np.asarray(ww, dtype=float)
    if finite:
        best = np.full((len(vals), size), np.inf)
        for img_data in (model.images(data, refl) if refl is not None else [data]):
            # kernels are mirrored with their data points
            sign = np.ones(ndim)
            if refl is not None:
                base = np.zeros((ndim, 1))
                sign = np.where(np.ravel(next_img_sign(img_data, data)) > 0, 1.0, -1.0)
            minv = inv * np.outer(sign, sign)
            for jj in range(num):
                if own[jj] == 0.0:
                    continue
                dev = vals - img_data[:, jj][None, :, None]
                best = np.minimum(best, np.einsum('nis,ij,njs->ns', dev, minv, dev))
        rec.require(np.all(best <= 1.0 + 1e-9), 'sample outside of the kernels\' support', r2=float(best.max()))
    if refl is not None:
        for ii, rr in enumerate(refl):
            if rr is None:
                continue
            if rr[0] is not None:
                rec.require(np.all(vals[:, ii] >= rr[0]), 'sample below the boundary', low=float(vals[:, ii].min()), dim=ii)
            if rr[1] is not None:
                rec.require(np.all(vals[:, ii] <= rr[1]), 'sample above the boundary', high=float(vals[:, ii].max()), dim=ii)

    if case['what'] == 'joint':
        # which data point: exact joint law of independent draws
        dist = np.stack([np.sum((vals - data[:, jj][None, :, None])**2, axis=1) for jj in range(num)], axis=-1)
        which = np.argmin(dist, axis=-1)                     # (leaves, size)
        pw = own/own.sum()
        for combo in np.ndindex(*([num]*size)):
            got = tree.prob[np.all(which == np.array(combo), axis=1)].sum()
            rec.close(got, np.prod(pw[list(combo)]), 'joint probability of the data points drawn', rtol=1e-7, atol=1e-9, points=combo)
        # the noise of different draws is independent (uncorrelated values, and squares), and of the right size
        noise = vals - data[:, which].transpose(1, 0, 2)
        noise = noise/std[None, :, None]
        var = dict(gaussian=1.0, box=1.0/(ndim+2), parabola=1.0/(ndim+4), triweight=1.0/(ndim+8))[model.kernel]
        pp = tree.prob/tree.prob.sum()
        loose = 0.15 + 1.2/tree.strata
        for ss in range(size):
            got = np.einsum('n,ni->i', pp, noise[:, :, ss]**2)
            rec.close(got/var, np.ones(ndim), 'variance of one of several draws', rtol=loose)
            for tt in range(ss):
                cross = np.einsum('n,ni,nj->ij', pp, noise[:, :, ss], noise[:, :, tt])/var
                rec.close(cross, np.zeros((ndim, ndim)), 'draws are correlated', atol=0.02)
                sq = np.einsum('n,n,n->', pp, np.sum(noise[:, :, ss]**2, axis=1), np.sum(noise[:, :, tt]**2, axis=1))
                s1 = np.einsum('n,n->', pp, np.sum(noise[:, :, ss]**2, axis=1))
                s2 = np.einsum('n,n->', pp, np.sum(noise[:, :, tt]**2, axis=1))
                rec.close(sq/(s1*s2), 1.0, 'sizes of the noise of different draws are correlated', rtol=0.02)
        return

    # windows: at data points, beside them along every parameter and diagonal, at the boundaries
    wide = 0.5*std*(1.0 if finite else 1.6)
    cent = [data[:, jj] for jj in range(num)]
    for jj in (range(num) if num == 1 else [0, num-1]):
        for ii in range(ndim):
            for sg in [-1, 1]:
                cc = data[:, jj].copy()
                cc[ii] += sg*0.7*std[ii]*(1.0 if finite else 1.5)
                cent.append(cc)
        if ndim > 1:
            for sg in [-1, 1]:
                cc = data[:, jj].copy()
                cc[0] += 0.6*std[0]
                cc[1] += sg*0.6*std[1]
                cent.append(cc)
    if refl is not None:
        for ii, rr in enumerate(refl):
            for loc in ([] if rr is None else rr):
                if loc is not None:
                    cc = data.mean(axis=1)
                    cc[ii] = loc
                    cent.append(cc)
    wind = law.bumps(cent, wide)
    reach = 1.0001 if finite else 6.0
    lo = data.min(axis=1) - reach*std
    hi = data.max(axis=1) + reach*std
    if refl is not None:
        for ii, rr in enumerate(refl):
            if rr is not None:
                lo[ii] = rr[0] if rr[0] is not None else lo[ii] - 0.5*reach*std[ii]
                hi[ii] = rr[1] if rr[1] is not None else hi[ii] + 0.5*reach*std[ii]
    fine = {1: 6000, 2: 260, 3: 64}[ndim]

    def dens(xx):
        return model.density(xx)

    (want, mean, second), tot = law.expect(dens, lo, hi, fine, [
        wind, lambda vv: vv, lambda vv: np.einsum('ni,nj->nij', vv - data.mean(axis=1), vv - data.mean(axis=1))])
    got = tree.mean(lambda vv: wind(vals[:, :, 0]))
    gmean = tree.mean(lambda vv: vals[:, :, 0])
    dev = vals[:, :, 0] - data.mean(axis=1)
    gsec = tree.mean(lambda vv: np.einsum('ni,nj->nij', dev, dev))
    kk = float(tree.strata)
    tol = 0.004 + 0.4*max(1, tree.draws)/kk**2 + (0.01 if deep else 0.0)
    scale = np.sqrt(np.diag(second))
    norm = np.outer(scale, scale)
    rec.count('windows_compared', len(want))
    rec.close(got, want, 'probability of a window', rtol=0.0, atol=tol, strata=tree.strata, lost=tree.lost)
    scale = np.sqrt(np.diag(second))
    rec.close(gmean/scale, mean/scale, 'mean', rtol=0.0, atol=2*tol)
    rec.close(gsec/norm, second/norm, 'covariance', rtol=0.0, atol=3*tol + (1.5/kk if not finite else 0.0))


def _long(kde, model, data, refl, size, rec):
    """Moments of every third of a (fixed) long history are those of the density, to 6 times their standard error."""
    ndim = len(data)
    std = np.sqrt(np.diag(model.matrix))
    reach = 1.0001 if ref.FINITE[model.kernel] else 6.0
    lo, hi = data.min(axis=1) - reach*std, data.max(axis=1) + reach*std
    for ii, rr in enumerate(refl or []):
        if rr is not None:
            lo[ii], hi[ii] = rr
    mid = data.mean(axis=1)
    fine = {1: 6000, 2: 300, 3: 90}[ndim]

    def moments(vv):
        dev = vv - mid
        two = np.einsum('ni,nj->nij', dev, dev).reshape(len(vv), -1)
        return np.concatenate([dev, two, dev**3], axis=1)

    (want, sq), _ = law.expect(lambda xx: model.density(xx), lo, hi, fine, [moments, lambda vv: moments(vv)**2])
    scale = np.sqrt(sq)
    np.random.seed(2468)
    vals = np.asarray(kde.resample(size=size, squeeze=False)).T
    rec.equal(vals.shape, (size, ndim), 'resample(): wrong shape')
    for part in range(3):
        got = moments(vals[part*size//3:(part + 1)*size//3]).mean(axis=0)
        rec.close(got/scale, want/scale, 'moments of a third of a long history', rtol=0.0, atol=6.0/np.sqrt(size/3) + 0.004, part=part)
        for ii in range(ndim):
            rec.step()
    rec.trace()


def _class(case, rec):
    """Characteristic functions along several directions, and of the radius, agree with those of the density."""
    import kalepy.kernels
    ndim, kind = case['ndim'], ref.kname(case['kernel'])
    dist = kalepy.kernels.get_distribution_class(case['kernel'])
    rec.state(case)
    tree = law.walk(lambda: dist.sample(1, ndim=ndim, squeeze=False), case['leaves'], rec)
    if tree is None:
        return
    rec.require(tree.vals.shape[1:] == (ndim, 1), 'sample(): wrong shape', got=tree.vals.shape[1:])
    for num, given, shape in [(7, None, (7,)), (7, 1, (7,)), (7, 2, (2, 7)), (6, 3, (3, 6))]:
        got = np.shape(dist.sample(num) if given is None else dist.sample(num, ndim=given))
        rec.equal(got, shape, 'sample(): shape by default', ndim=given)
    vals = tree.vals[:, :, 0]
    top = 1.0 if ref.FINITE[kind] else 6.0
    rec.require(not ref.FINITE[kind] or np.all(np.sum(vals**2, axis=1) <= 1.0 + 1e-9), 'sample outside of the support')
    # radial density p(r) ~ r^(D-1) f(r)
    num = 4000
    rad = (np.arange(num) + 0.5)*top/num
    prob = ref.shape_func(kind, rad**2)*rad**(ndim-1)
    prob = prob/prob.sum()
    kk = float(tree.strata)
    tol = 0.0015 + 0.4*tree.draws/kk**2 if ndim == 1 else 0.004 + (0.3 if ref.FINITE[kind] else 2.0)*tree.draws/kk**1.5
    scale = 1.0 if ref.FINITE[kind] else 0.35
    dirs = [np.eye(ndim)[ii] for ii in range(ndim)]
    if ndim > 1:
        dirs += [np.array([1.0, sg] + [0.0]*(ndim-2))/np.sqrt(2.0) for sg in [-1.0, 1.0]]
    # average of cos(k r u) over directions u
    ave = {1: lambda zz: np.cos(zz), 2: lambda zz: scipy_j0(zz), 3: lambda zz: np.sinc(zz/np.pi)}[ndim]
    for kk in [1.0, 2.0, 3.0, 4.5]:
        want = np.sum(prob*ave(kk*scale*rad))
        for uu in dirs:
            got = tree.mean(lambda vv: np.cos(kk*scale*(vals @ uu)))
            rec.close(got, want, 'characteristic function of the samples of a kernel', atol=tol, rtol=0.0, strata=tree.strata, freq=kk, along=uu.tolist())
            odd = tree.mean(lambda vv: np.sin(kk*scale*(vals @ uu)))
            rec.close(odd, 0.0, 'samples of a kernel are not symmetric', atol=tol, rtol=0.0, strata=tree.strata, freq=kk, along=uu.tolist())
        got = tree.mean(lambda vv: np.cos(kk*scale*np.sqrt(np.sum(vals**2, axis=1))))
        rec.close(got, np.sum(prob*np.cos(kk*scale*rad)), 'radii of the samples of a kernel', atol=tol, rtol=0.0, strata=tree.strata, freq=kk)


def scipy_j0(zz):
    import scipy.special
    return scipy.special.j0(zz)


def next_img_sign(img, data):
    """+1/-1 per dimension: whether `img` is mirrored there (an image is c - x)."""
    if data.shape[1] == 1:
        return np.where(np.isclose(img[:, 0], data[:, 0]), 1.0, -1.0)
    d1 = img[:, 1] - img[:, 0]
    d0 = data[:, 1] - data[:, 0]
    return np.where(np.isclose(d1, d0), 1.0, -1.0)
