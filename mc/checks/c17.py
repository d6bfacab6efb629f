"""C17: integrals, cumulative integrals and masses on a grid agree with the trapezoid rule, along any axes."""

import itertools

import numpy as np

from mc import gen, grids

ID = 'C17'
TITLE = 'Grid integrals, masses and cumulative integrals are consistent along any axes'
BOUNDS = dict(
    quick='every grid shape of 2-4 edges per dimension in 1-3 dims (2 in 4 dims), 3 families of edges, 7 functions, every subset of the axes',
    thorough='every grid shape of 2-6 edges in 1-3 dims, 2-3 in 4 dims, 5 families of edges',
)
ASSUMPTIONS = ['reference: plain loops over the bins and their corners']


def edge(kind, num, dim):
    jj = np.arange(num, dtype=float)
    if kind == 'even':
        return jj*(0.5 + dim)
    if kind == 'uneven':
        return np.cumsum(0.3 + ((jj*7 + dim) % 3)) - 5.0
    if kind == 'ints':
        return np.cumsum(1 + ((np.arange(num)*3 + dim) % 4))
    if kind == 'log':
        return 10.0**(jj*0.7 - 3)
    if kind == 'down':
        return 4.0 - jj*(1.0 + dim) - 0.1*jj**2


def function(kind, shape, edges):
    num = int(np.prod(shape))
    mesh = np.meshgrid(*edges, indexing='ij')
    if kind == 'bilinear':
        return np.prod([1.0 + 0.5*mm for mm in mesh], axis=0)
    if kind == 'signed':
        return np.sin(1.7*np.arange(num)).reshape(shape) - 0.2
    if kind == 'bool':
        return (np.arange(num) % 3 == 0).reshape(shape)
    return grids.density(kind, shape)


def cases(tier):
    quick = (tier == 'quick')
    lens = [2, 3, 4] if quick else [2, 3, 4, 5, 6]
    kinds = ['even', 'uneven', 'ints'] + ([] if quick else ['log', 'down'])
    out = []
    for ndim in [1, 2, 3]:
        for shape in itertools.product(lens, repeat=ndim):
            for kk in kinds:
                out.append(dict(shape=list(shape), edges=kk))
    for shape in itertools.product([2] if quick else [2, 3], repeat=4):
        out += [dict(shape=list(shape), edges=kk) for kk in kinds]
    return out


def ref_mass(func, edges, axes):
    """Trapezoid mass along `axes` only."""
    out = np.array(func, dtype=float)
    for ax in axes:
        wid = np.diff(edges[ax])
        src = np.moveaxis(out, ax, 0)
        res = np.array([0.5*(src[ii] + src[ii+1])*wid[ii] for ii in range(len(wid))])
        out = np.moveaxis(res, 0, ax)
    return out


def run(case, rec):
    from kalepy import utils
    shape = case['shape']
    ndim = len(shape)
    edges = [edge(case['edges'], nn, dd) for dd, nn in enumerate(shape)]
    rec.state(case)
    subsets = [None] + [list(cc) for num in range(1, ndim+1) for cc in itertools.combinations(range(ndim), num)]
    for kind in ['flat', 'ramp', 'wave', 'zeros', 'signed', 'ints', 'bilinear']:
        func = function(kind, shape, edges)
        given = edges
        forms = [(func, given), (func.tolist(), [ee.tolist() for ee in edges])]
        if ndim == 1:
            forms.append((func, edges[0]))
        if kind in ('wave', 'ints'):
            forms += [(ff, given) for ff in gen.layouts(func)]
        scale = np.abs(func).max()*np.prod([np.ptp(ee) for ee in edges])
        for ff, ee in forms:
            for axes in subsets:
                full = list(range(ndim)) if axes is None else axes
                want = ref_mass(func, edges, full)
                args = [axes] if axes is None else [axes, tuple(axes), np.array(axes)] + ([axes[0]] if len(axes) == 1 else [])
                if axes is not None and len(axes) > 1:
                    args.append(axes[::-1])
                tiny = 1e-11*np.abs(func).max()*np.prod([np.ptp(edges[ax]) for ax in full])
                tot = want.sum(axis=tuple(full))
                for ax in args:
                    rec.close(utils.trapz_dens_to_mass(ff, ee, axis=ax), want, 'trapz_dens_to_mass()', rtol=1e-10, atol=tiny, kind=kind, axis=repr(ax))
                    rec.close(utils.trapz_nd(ff, ee, axis=ax), tot, 'trapz_nd()', rtol=1e-10, atol=tiny, kind=kind, axis=repr(ax))
                if axes is None or len(axes) == 1:
                    ax = None if axes is None else axes[0]
                    cum = want
                    for dd in full:
                        cum = np.cumsum(cum, axis=dd)
                    rec.close(utils.cumtrapz(ff, ee, prepend=False, axis=ax), cum, 'cumtrapz(prepend=False)', rtol=1e-10, atol=tiny, kind=kind,
                              axis=ax)
                    pad = np.zeros([nn if dd in full else cc for dd, (nn, cc) in enumerate(zip(shape, cum.shape))])
                    pad[tuple(slice(1, None) if dd in full else slice(None) for dd in range(ndim))] = cum
                    rec.close(utils.cumtrapz(ff, ee, axis=ax), pad, 'cumtrapz()', rtol=1e-10, atol=tiny, kind=kind, axis=ax)
        # plain cumulative sums
        cum = np.array(func)
        for dd in range(ndim):
            rec.close(utils.cumsum(func, axis=dd), np.cumsum(func, axis=dd), 'cumsum(axis=)', rtol=1e-12, atol=1e-12*scale)
            cum = np.cumsum(cum, axis=dd)
        copy = np.array(func)
        rec.close(utils.cumsum(func), cum, 'cumsum()', rtol=1e-12, atol=1e-11*scale)
        rec.close(utils.cumsum(func.tolist()), cum, 'cumsum() of a list', rtol=1e-12, atol=1e-11*scale)
        rec.equal(func, copy, 'cumsum() changed its input')
        # the exact integral of multilinear functions
        if kind == 'bilinear':
            exact = np.prod([(ee[-1] - ee[0]) + 0.25*(float(ee[-1])**2 - float(ee[0])**2) for ee in edges])
            rec.close(utils.trapz_nd(func, edges), exact, 'integral of a multilinear function', rtol=1e-9, atol=1e-9*scale)
    # grids which do not match are rejected
    for dd in range(ndim):
        bad = list(edges)
        bad[dd] = np.append(bad[dd], bad[dd][-1] + 1)
        for name in ['trapz_dens_to_mass', 'trapz_nd', 'cumtrapz']:
            rec.raises(ValueError, lambda: getattr(utils, name)(func, bad), name + '() of edges which do not match', dim=dd)
    rec.trace()
