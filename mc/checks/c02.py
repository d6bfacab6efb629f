"""C02: every kernel is a normalized, elliptically symmetric, non-increasing density with the right support."""

import itertools
import math

import numpy as np

from mc import common, gen, ref

ID = 'C02'
TITLE = 'Kernels and KDEs integrate to one, with the right support and symmetry'
BOUNDS = dict(
    quick='4 kernels x dims 1-5 x 5 covariances x 4 bandwidths, along all axis/diagonal directions, Gauss-Legendre in radius; '
          'mixtures in 1-2 dims',
    thorough='dims 1-6, more bandwidths, mixtures in 1-3 dims',
)
ASSUMPTIONS = ['integral = surface of the sphere times the radial Gauss-Legendre integral (96 nodes), tolerance 1e-6']


def cases(tier):
    quick = (tier == 'quick')
    dims = [1, 2, 3, 4, 5] + ([] if quick else [6])
    out = gen.product(what=['kernel'], kernel=ref.KERNELS, ndim=dims, cov=['eye', 'diag', 'full', 'small', 'large'],
                      bw=[1.0, 0.3, 2, 'vec'] + ([] if quick else [0.05, 7.0]), at=[0.0, -3.0])
    out += gen.product(what=['class'], kernel=ref.KERNELS + ['epanechnikov'], ndim=dims)
    out += gen.product(what=['mixture'], kernel=ref.KERNELS, ndim=[1], num=[2, 3, 5, 30] + ([] if quick else [4, 130]),
                       weights=[None, 'ints', 'zeros', 'small', 'skew'], bw=[None, 0.5, 0.1, 'silverman'],
                       data=['plain', 'ints', 'negative', 'wide'])
    out += gen.product(what=['mixture'], kernel=ref.KERNELS, ndim=[2], num=[6], weights=[None, 'ints', 'small'],
                       bw=[None, 0.6, 'vec'], data=['plain', 'negative'])
    if not quick:
        out += gen.product(what=['mixture'], kernel=['gaussian', 'triweight'], ndim=[3], num=[6], weights=[None, 'ints'],
                           bw=[None, 'vec'], data=['plain'])
    return [cc for cc in out if cc['what'] != 'mixture' or common.regular(cc)]


def setup(tier):
    common.warm()


def directions(ndim):
    out = []
    for ii in range(ndim):
        vec = np.zeros(ndim)
        vec[ii] = 1.0
        out.append(vec)
        out.append(-vec)
    for signs in itertools.product([1.0, -1.0], repeat=ndim):
        out.append(np.array(signs)/math.sqrt(ndim))
    vec = np.arange(1.0, ndim+1) * (-1.0)**np.arange(ndim)
    out.append(vec/np.linalg.norm(vec))
    return out


def radial(rec, func, ndim, finite, kind):
    """`func(r, u)`: profile in whitened radius along unit direction `u`."""
    xx, ww = np.polynomial.legendre.leggauss(96)
    top = 1.0 if finite else 11.0
    rad = 0.5*top*(xx + 1.0)
    prof = None
    for uu in directions(ndim):
        got = func(rad, uu)
        rec.step()
        rec.require(got.shape == rad.shape and np.all(np.isfinite(got)), 'profile has wrong shape or is not finite')
        rec.require(np.all(got >= 0.0), 'negative density')
        rec.require(np.all(np.diff(got) <= 1e-9*got.max()), 'density increases away from the center')
        rec.require(got[0] > 0.0, 'no density at the center')
        if prof is None:
            prof = got
        rec.close(got, prof, 'not elliptically symmetric', rtol=1e-6, atol=1e-7*prof.max(), direction=uu)
        if finite:
            out = func(np.array([1.0 + 1e-6, 1.2, 3.0, 50.0]), uu)
            rec.close(out, np.zeros(4), 'density outside of the support')
            rec.require(func(np.array([0.98]), uu)[0] > 0.0, 'no density inside of the support')
    tot = ref.sphere(ndim) * np.sum(ww * rad**(ndim-1) * prof) * 0.5*top
    var = ref.sphere(ndim) * np.sum(ww * rad**(ndim+1) * prof) * 0.5*top
    return tot, var


VAR = dict(gaussian=lambda dd: dd, box=lambda dd: dd/(dd+2.0), parabola=lambda dd: dd/(dd+4.0),
           triweight=lambda dd: dd/(dd+8.0))


def run(case, rec):
    import kalepy as kale
    import kalepy.kernels
    ndim, kind = case['ndim'], ref.kname(case['kernel'])
    rec.state(case)
    if case['what'] == 'kernel':
        cov = gen.spd(ndim, case['cov'])
        bw = case['bw']
        if bw == 'vec':
            bw = [0.5 + 0.3*ii for ii in range(ndim)]
        center = np.full((ndim, 1), case['at'])
        kde = kale.KDE(center, bandwidth=bw, covariance=cov, kernel=case['kernel'])
        mat = cov * (np.diag(np.square(bw)) if np.ndim(bw) else bw**2)
        chol = np.linalg.cholesky(mat)
        scale = math.sqrt(np.linalg.det(mat))

        def func(rr, uu):
            pts = center + chol @ (uu[:, None]*rr[None, :])
            return kde.pdf(pts)[1] * scale

        tot, var = radial(rec, func, ndim, ref.FINITE[kind], kind)
        rec.close(tot, 1.0, 'kernel does not integrate to one', rtol=1e-6)
        rec.close(var, VAR[kind](ndim), 'kernel has the wrong variance', rtol=1e-6)
        rec.trace()
        return

    if case['what'] == 'class':
        dist = kalepy.kernels.get_distribution_class(case['kernel'])

        def func(rr, uu):
            return dist.evaluate(uu[:, None]*rr[None, :])

        tot, var = radial(rec, func, ndim, ref.FINITE[kind], kind)
        rec.close(tot, 1.0, 'distribution does not integrate to one', rtol=1e-6)
        rec.close(var, VAR[kind](ndim), 'distribution has the wrong variance', rtol=1e-6)
        rec.require(bool(dist().FINITE) == bool(ref.FINITE[kind]), 'wrong finite support flag')
        for rr in [0.0, 0.5, 0.98, 1.02, 2.0, 30.0]:
            for uu in directions(ndim):
                want = (rr < 1.0) or (not ref.FINITE[kind])
                pts = uu[:, None] * np.array([rr, 0.0, rr])[None, :]
                for arg in [pts, pts.tolist()] + ([pts[0], pts[0].tolist()] if ndim == 1 else []):
                    got = np.asarray(dist.inside(arg))
                    rec.require(got.shape == (3,) and got.tolist() == [want, True, want],
                                'inside() does not match the support', radius=rr, direction=uu, got=got)
                    rec.step()
                val = np.asarray(dist.evaluate(pts))
                rec.require(val.shape == (3,) and bool(val[0] > 0) == want,
                            'evaluate() does not match the support', radius=rr, direction=uu, got=val)
        same = [case['kernel'].upper(), ' ' + case['kernel'] + ' ', dist]
        rec.require(all(kalepy.kernels.get_distribution_class(nn) is dist for nn in same),
                    'distribution is not found by its name (any case) or class')
        if ndim <= 4:
            edges = [np.linspace(-1.3, 1.1 + 0.1*ii, 4 + ii) for ii in range(ndim)]
            got = dist.grid(edges)
            want = dist.evaluate(np.array([gg.ravel() for gg in np.meshgrid(*edges, indexing='ij')]))
            rec.close(got, want.reshape([ee.size for ee in edges]), 'grid() is not evaluate() on the grid')
        rec.trace()
        return

    kde, model, data, ww = common.build(case)
    total = model.ww.sum()
    std = np.sqrt(np.diag(model.matrix))
    reach = 1.0 if ref.FINITE[kind] else 9.0
    xx, gl = np.polynomial.legendre.leggauss(12)

    def nodes(dim, per=1):
        if reach == 1.0:
            cuts = np.concatenate([model.data[dim] - std[dim], model.data[dim], model.data[dim] + std[dim]])
        else:
            cuts = np.concatenate([model.data[dim] + kk*std[dim] for kk in [-9, -5, -3, -2, -1, 0, 1, 2, 3, 5, 9]])
        cuts = np.unique(np.round(cuts, 12))
        if cuts.size > 400:
            cuts = np.linspace(cuts[0], cuts[-1], 400)
        mid, half = 0.5*(cuts[1:] + cuts[:-1]), 0.5*np.diff(cuts)
        return (mid[:, None] + half[:, None]*xx[None, :]).ravel(), (half[:, None]*gl[None, :]).ravel()

    if ndim == 1:
        xs, wt = nodes(0)
        dens = kde.density(xs)[1]
        rec.require(np.all(dens >= 0), 'negative density')
        rec.close(np.sum(wt*dens), total, 'density does not integrate to the total weight', rtol=2e-6)
        rec.close(np.sum(wt*kde.pdf(xs)[1]), 1.0, 'pdf does not integrate to one', rtol=2e-6)
        ave = np.sum(model.ww*model.data[0])/total
        rec.close(np.sum(wt*xs*dens)/total, ave, 'mean of the density is not the weighted mean of the data',
                  rtol=1e-5, atol=1e-5*std[0])
    else:
        num = 160 if ndim == 2 else 50
        lo = model.data.min(axis=1) - reach*std*1.0001
        hi = model.data.max(axis=1) + reach*std*1.0001
        edges = [np.linspace(ll, hh, num) for ll, hh in zip(lo, hi)]
        vol = np.prod([ee[1]-ee[0] for ee in edges])
        vals = kde.density(edges, grid=True)[1]
        tol = dict(gaussian=1e-4, box=0.03, parabola=3e-3, triweight=1e-3)[kind] * (1 if ndim == 2 else 5)
        rec.close(vals.sum()*vol, total, 'density does not integrate to the total weight', rtol=tol)
        pdf = kde.pdf(edges, grid=True)[1]
        rec.close(pdf.sum()*vol, 1.0, 'pdf does not integrate to one', rtol=tol)
    rec.trace()
