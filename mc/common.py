"""Building KDEs and models from JSON-able configurations."""

import numpy as np

from mc import core, gen, ref


def kernel_arg(name):
    """JSON name -> what is passed to kalepy ('class:box' passes the distribution class)."""
    if isinstance(name, str) and name.startswith('class:'):
        import kalepy.kernels
        return kalepy.kernels.get_distribution_class(name[6:])
    return name


def kernel_ref(name):
    if isinstance(name, str):
        name = name.replace('class:', '').strip().lower()
    return name


def bw_arg(spec, ndim):
    """JSON bandwidth letter -> argument."""
    if spec is None or isinstance(spec, (int, float)):
        return spec
    if spec in ('scott', 'silverman'):
        return spec
    if spec == 'vec':
        return [0.35, 0.6, 0.45, 0.5][:ndim] if ndim > 1 else 0.35
    if spec == 'vecmix':
        return ['scott', 0.5, 'silverman', 0.7][:ndim] if ndim > 1 else 'scott'
    if spec == 'arr':
        return np.array([0.7, 0.4, 0.55, 0.5][:ndim])
    if spec == 'mat':
        out = np.full((ndim, ndim), 0.2)
        out[np.arange(ndim), np.arange(ndim)] = [0.5, 0.4, 0.6, 0.7][:ndim]
        return out
    if spec == 'one':
        return [0.45]
    raise KeyError(spec)


def rescale_arg(spec, ndim):
    if spec is None or isinstance(spec, (int, float)):
        return spec
    if spec == 'mat':
        out = np.full((ndim, ndim), 0.5)
        out[np.arange(ndim), np.arange(ndim)] = [1.3, 0.8, 1.1, 0.9][:ndim]
        return out
    raise KeyError(spec)


def build(cfg, **over):
    """(kde, model, data, weights) of a configuration."""
    import kalepy as kale
    cfg = dict(cfg, **over)
    ndim, num = cfg['ndim'], cfg['num']
    data = gen.dataset(cfg.get('data', 'plain'), ndim, num)
    if ndim == 1 and not cfg.get('nested'):
        data = data[0]
    if cfg.get('aslist'):
        data = data.tolist()
    ww = gen.weights(cfg.get('weights'), num)
    cov = cfg.get('cov')
    if cov is not None:
        cov = gen.spd(ndim, cov)
    kw = dict(bandwidth=bw_arg(cfg.get('bw'), ndim), weights=ww, kernel=kernel_arg(cfg.get('kernel')))
    if cov is not None:
        kw['covariance'] = cov
    if cfg.get('neff') is not None:
        kw['neff'] = cfg['neff']
    if cfg.get('diagonal'):
        kw['diagonal'] = True
    if cfg.get('rescale') is not None:
        kw['bw_rescale'] = rescale_arg(cfg['rescale'], ndim)
    refl = cfg.get('reflect')
    if refl is not None:
        kw['reflect'] = refl
    kw.update(cfg.get('kw', {}))
    kde = kale.KDE(data, **kw)
    model = ref.Model(data, kw['bandwidth'], weights=ww, kernel=kernel_ref(cfg.get('kernel')), reflect=refl,
                      covariance_in=cov, neff_in=cfg.get('neff'), diagonal=bool(cfg.get('diagonal')),
                      bw_rescale=kw.get('bw_rescale'))
    return kde, model, data, ww


def regular(cfg):
    """True if the configuration's kernel matrix is well-conditioned (decided from the inputs alone)."""
    ndim, num = cfg['ndim'], cfg['num']
    cov = cfg.get('cov')
    if cov is None:
        if num < 2:
            return False
        ww = gen.weights(cfg.get('weights'), num)
        if ww is not None and np.count_nonzero(ww) < 2:
            return False
        cov = ref.covariance(gen.dataset(cfg.get('data', 'plain'), ndim, num), ww)
    else:
        cov = gen.spd(ndim, cov)
    diag = np.diag(cov)
    if not np.all(diag > 0):
        return False
    corr = cov / np.sqrt(np.outer(diag, diag))
    return bool(np.linalg.eigvalsh(corr).min() > 1e-3)


def warm():
    """Compile the kernels once, before forking."""
    import kalepy as kale
    for kk in ref.KERNELS:
        for dd in [np.arange(4.0), np.array([[0.0, 1, 2, 5], [1.0, 0, 2, 2]])]:
            for ww in [None, np.array([1.0, 2, 1, 1])]:
                pts = np.zeros((np.atleast_2d(dd).shape[0], 2))
                kde = kale.KDE(dd, kernel=kk, weights=ww)
                kde.density(pts)
                kde.density(pts, reflect=[[-5.0, 9.0]]*pts.shape[0])


def dens_close(rec, got, want, what, skip=None, rtol=1e-7, **detail):
    """Compare densities; points at a kernel's jump (skip) are not compared."""
    got = np.asarray(got, dtype=float)
    want = np.asarray(want, dtype=float)
    rec.require(got.shape == want.shape, what + ': wrong shape', got=got.shape, want=want.shape, **detail)
    if skip is not None and np.any(skip):
        got = got[~skip]
        want = want[~skip]
    scale = np.max(np.abs(want)) if want.size else 0.0
    rec.close(got, want, what, rtol=rtol, atol=1e-9*scale, **detail)


def defaults(rec, what, draw, clear, explicit, orders=True):
    """Arguments left out have their defaults: leaving out any one, or all, draws the same as giving all of them.

    `draw(**kw)` returns the Scene drawn.
    """
    def content(**kw):
        clear()
        np.random.seed(5)
        sc = draw(**kw)
        return core.canon([sc.curves, sc.vlines, sc.hlines, sc.vspans, sc.hspans, sc.points, sc.sizes, sc.meshes, sc.contours, sc.fills, sc.others])

    want = content(**explicit)
    for left in [set(explicit)] + [{key} for key in explicit] + [set(explicit) - {key} for key in explicit]:
        got = content(**{key: val for key, val in explicit.items() if key not in left})
        rec.equal(got, want, what + ': an argument left out does not have its default', left=sorted(left))
        rec.step()
