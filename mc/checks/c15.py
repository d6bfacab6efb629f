"""C15: outlier sampling: heavy bins become weighted centroids, light bins are sampled with unit weight, and mass is conserved."""

import numpy as np
import scipy.stats

from mc import gen, grids, law, rng

ID = 'C15'
TITLE = 'Outlier sampling conserves mass: weighted centroids inside, unit samples outside'
BOUNDS = dict(
    quick='7 edge sets in 1-3 dims, 6 densities, with and without `mass`, 8 thresholds covering none/some/all bins and ties; complete choice '
          'trees of up to 2 outliers (Poisson numbers included); flags and forms of the arguments',
    thorough='as quick, with up to 3 outliers and all edge pairs',
)
ASSUMPTIONS = ['continuous draws are quantised to K equal strata, Poisson draws are exact up to a tail of 1e-4',
               'bins of zero mass are not inliers for any threshold >= 0']

SETS = [['even'], ['two'], ['uneven'], ['neg'], ['even', 'two'], ['neg', 'uneven'], ['two', 'neg', 'two']]


def cases(tier):
    quick = (tier == 'quick')
    out = gen.product(what=['split'], edges=SETS, dens=['ramp', 'wave', 'zeros', 'sparse', 'ints', 'flat'], mass=[None, 'other'],
                      level=[0.0, 0.2, 0.5, 0.8, 0.99, 'tie', 'above', 'below'], interp=[True, False])
    out += gen.product(what=['law'], edges=[['even'], ['uneven'], ['neg'], ['even', 'two'], ['two', 'two']], dens=['ramp', 'wave', 'zeros'],
                       outs=[1, 2] if quick else [1, 2, 3], interp=[True, False], mass=['scaled'])
    out += gen.product(what=['poisson'], edges=[['even'], ['neg'], ['two', 'neg']], dens=['ramp', 'wave'], which=['in', 'out', 'both'],
                       mass=['scaled'])
    return out


def build(case):
    edges = [np.array(grids.EDGES[ee], dtype=float) for ee in case['edges']]
    shape = [ee.size for ee in edges]
    dens = grids.density(case['dens'], shape)
    return edges, dens, grids.mass(edges, dens)


def other_mass(shape):
    return (1.0 + (np.arange(np.prod(shape))*3) % 5).reshape(shape)


def check_inliers(rec, edges, dens, true, threshold, vals, weights, nsamp, want_w=True):
    """Inliers come first, in any order: one per heavy bin, at its centroid."""
    ndim = len(edges)
    heavy = [bb for bb in grids.bins(edges) if true[bb] > threshold]
    nin = len(heavy)
    rec.require(vals.shape[0] == ndim and vals.ndim == 2, 'samples: wrong shape', got=vals.shape)
    rec.require(weights.shape == (vals.shape[1],), 'weights: wrong shape', got=weights.shape, want=vals.shape[1])
    rec.require(nsamp == vals.shape[1], 'number of samples returned is not the number stated', got=vals.shape[1], stated=int(nsamp))
    rec.require(vals.shape[1] >= nin, 'fewer samples than heavy bins', got=vals.shape[1], want=nin)
    where = grids.which_bin(edges, vals[:, :nin].T)
    found = sorted(tuple(ww) for ww in where)
    rec.equal([list(map(int, ff)) for ff in found], [list(bb) for bb in heavy], 'inliers are not one per heavy bin')
    for kk in range(nin):
        bb = tuple(where[kk])
        if np.max(list(grids.corners(dens, bb).values())) > 0:
            want = [grids.centroid(edges, dens, bb, dd) for dd in range(ndim)]
            rec.close(vals[:, kk], want, 'inlier is not at the centroid of its bin', rtol=1e-8,
                      atol=1e-9*max(np.abs(ee).max() for ee in edges), bin=bb)
        if want_w:
            rec.close(weights[kk], true[bb], 'weight of an inlier is not the mass of its bin', rtol=1e-9, bin=bb)
    return nin


def run(case, rec):
    import kalepy as kale
    edges, dens, own = build(case)
    ndim = len(edges)
    given = edges if ndim > 1 else edges[0]
    rec.state(case)
    if case['what'] == 'split':
        mass = None if case['mass'] is None else other_mass(own.shape)
        true = own if mass is None else mass
        lev = case['level']
        top = true.max()
        threshold = {'tie': float(np.median(np.sort(true.ravel())[::-1][:true.size])), 'above': 2.0*top, 'below': 1e-9*top}.get(lev) \
            if isinstance(lev, str) else lev*top
        if lev == 'tie':
            threshold = float(np.sort(true.ravel())[true.size//2])
        near = np.abs(true - threshold) < 1e-9*top
        if mass is None and np.any(near) and case['dens'] not in ('ints', 'flat', 'ramp'):
            # whether a mass computed in floating point exceeds itself is not defined
            return
        if mass is None and np.any(near):
            exact = np.all([np.all(ee == np.round(4*ee)/4) for ee in edges])
            if not exact:
                return
        light = np.where(true > threshold, 0.0, true)
        nout = int(np.around(light.sum()))
        if abs(abs(light.sum() - np.floor(light.sum())) - 0.5) < 1e-6 or nout > 5000:
            return
        np.random.seed(11)
        args = dict(interpolate=case['interp'])
        nsamp, vals, weights = kale.Sample_Outliers(given, dens, threshold=threshold, mass=mass).sample(**args)
        nin = check_inliers(rec, edges, dens, true, threshold, np.asarray(vals), np.asarray(weights), nsamp)
        rec.require(vals.shape[1] - nin == nout, 'number of outliers is not the mass of the light bins', got=vals.shape[1] - nin, want=nout)
        rec.close(weights[nin:], np.ones(nout), 'weights of outliers')
        rec.close(weights.sum(), true.sum(), 'total weight is not the total mass', rtol=1e-9, atol=0.5 + 1e-6)
        if nout > 0:
            where = grids.which_bin(edges, vals[:, nin:].T)
            rec.require(np.all(where >= 0), 'outlier outside of the grid')
            rec.require(np.all(light[tuple(where.T)] > 0), 'outlier in a heavy or empty bin')
        # top-level function: the same samples
        np.random.seed(11)
        v2, w2 = kale.sample_outliers(given, dens, threshold, mass=mass, **args)
        rec.close(v2, vals[0] if ndim == 1 else vals, 'sample_outliers() is not Sample_Outliers', rtol=0)
        rec.close(w2, weights, 'sample_outliers() is not Sample_Outliers', rtol=0)
        # lists
        np.random.seed(11)
        v2, w2 = kale.sample_outliers([ee.tolist() for ee in edges] if ndim > 1 else edges[0].tolist(), dens.tolist(), threshold,
                                      mass=None if mass is None else mass.tolist(), **args)
        rec.close(v2, vals[0] if ndim == 1 else vals, 'sample_outliers() of lists')
        rec.close(w2, weights, 'sample_outliers() of lists')
        rec.raises(ValueError, lambda: kale.sample_outliers(given, dens, threshold, nsamp=3), 'number of samples for outliers')
        rec.raises(ValueError, lambda: kale.Sample_Outliers(given, dens, threshold=threshold).sample(return_scalar=True), 'scalars for outliers')
        rec.trace()
        return

    # masses such that the light bins add up to a small number
    order = np.argsort(own.ravel(), kind='stable')
    mass = np.zeros(own.size)
    half = max(1, own.size//2) if own.size > 1 else 1
    outs = case.get('outs', 2)
    lightbins, heavybins = order[:half], order[half:]
    if own.size == 1:
        lightbins, heavybins = order, order[:0]
    mass[lightbins] = outs*(1.0 + np.arange(half))/np.sum(1.0 + np.arange(half))
    mass[heavybins] = 3.5 + 0.25*np.arange(len(heavybins))
    if case['what'] == 'poisson':
        mass[lightbins] = 0.7*(1.0 + np.arange(half))/np.sum(1.0 + np.arange(half))
        mass[heavybins] = 1.5 + 0.25*np.arange(len(heavybins))
        heavybins, extra = heavybins[:2], heavybins[2:]
        mass[extra] = 0.0
    mass = mass.reshape(own.shape)
    threshold = 3.0 if case['what'] == 'law' else 1.0
    sampler = kale.Sample_Outliers(given, dens, threshold=threshold, mass=mass)
    nin = len(heavybins)

    if case['what'] == 'law':
        budget = {1: 2500, 2: 5000, 3: 12000}[outs]*(1 if ndim == 1 else 4)
        got = []

        def draw():
            nsamp, vals, weights = sampler.sample(interpolate=case['interp'])
            return np.concatenate([np.asarray(vals), np.asarray(weights, dtype=float)[np.newaxis]])

        tree = law.walk(draw, budget, rec, kmax=60)
        if tree is None:
            return
        rec.require(tree.vals.shape[1:] == (ndim+1, nin+outs), 'wrong number of samples', got=tree.vals.shape[1:], want=(ndim+1, nin+outs))
        for leaf in tree.vals[::max(1, len(tree.vals)//7)]:
            check_inliers(rec, edges, dens, mass, threshold, leaf[:ndim], leaf[ndim], nin+outs)
        rec.close(tree.vals[:, ndim, nin:], np.ones((len(tree.vals), outs)), 'weights of outliers')
        vals = np.moveaxis(tree.vals[:, :ndim, nin:], 1, 2)
        idx = grids.which_bin(edges, vals)
        rec.require(np.all(idx >= 0), 'outlier outside of the grid')
        light = np.where(mass > threshold, 0.0, mass).ravel()
        prob = light/light.sum()
        pp = tree.prob/tree.prob.sum()
        kk = tree.strata
        for num, bb in enumerate(grids.bins(edges)):
            sel = np.all(idx == np.array(bb), axis=-1)             # (leaves, outs)
            frac = np.sum(pp[:, None]*sel)/outs
            if prob[num] == 0.0:
                inner = sel.copy()
                for dd in range(ndim):
                    inner &= (vals[..., dd] > edges[dd][bb[dd]]) & (vals[..., dd] < edges[dd][bb[dd]+1])
                rec.require(not np.any(inner), 'outlier in a heavy or empty bin', bin=bb)
                continue
            rec.close(frac, prob[num], 'probability of a bin for outliers', rtol=0, atol=1.0/kk + 1e-9, bin=bb)
            for dd in range(ndim):
                lo, hi = edges[dd][bb[dd]], edges[dd][bb[dd]+1]
                grad = grids.slope(dens, bb, dd) if case['interp'] else 0.0
                ww = (pp[:, None]*sel)[sel]
                rel = (vals[..., dd][sel] - lo)/(hi - lo)
                rec.close(np.sum(ww*rel)/np.sum(ww), 0.5 + grad/12, 'mean position of outliers in a bin', rtol=0, atol=0.003 + 0.7/kk**1.5,
                          bin=bb, dim=dd)
                rec.close(np.sum(ww*rel**2)/np.sum(ww), 1.0/3 + grad/12, 'second moment of outliers in a bin', rtol=0,
                          atol=0.004 + 0.9/kk**1.5, bin=bb, dim=dd)
        return

    # Poisson numbers: the law of the weights and of the number of samples
    flags = dict(poisson_inside=case['which'] in ('in', 'both'), poisson_outside=case['which'] in ('out', 'both'))
    laws = {}
    leaves = 0
    for pp, out, _ in rng.explore_law(lambda: sampler.sample(interpolate=False, **flags), 1, max_leaves=100000):
        nsamp, vals, weights = out
        leaves += 1
        check_inliers(rec, edges, dens, mass, threshold, np.asarray(vals), np.asarray(weights), nsamp, want_w=not flags['poisson_inside'])
        weights = np.asarray(weights)
        rec.require(np.all(weights[nin:] == 1), 'weights of outliers', weights=weights)
        where = grids.which_bin(edges, np.asarray(vals)[:, :nin].T)
        key = [0]*nin
        heavy = [bb for bb in grids.bins(edges) if mass[bb] > threshold]
        for ii in range(nin):
            key[heavy.index(tuple(where[ii]))] = float(weights[ii])
        key = (tuple(key), len(weights) - nin)
        laws[key] = laws.get(key, 0.0) + pp
    rec.step(leaves)
    rec.trace(leaves)
    rec.count('choice_tree_leaves', leaves)
    tot = mass[mass <= threshold].sum()
    heavy = [mass[bb] for bb in grids.bins(edges) if mass[bb] > threshold]
    for (ww, nout), pp in laws.items():
        want = scipy.stats.poisson.pmf(nout, tot) if flags['poisson_outside'] else float(nout == int(np.around(tot)))
        for wi, mm in zip(ww, heavy):
            want *= scipy.stats.poisson.pmf(wi, mm) if flags['poisson_inside'] else float(np.isclose(wi, mm))
        rec.close(pp, want, 'Poisson law of weights and numbers', rtol=1e-3, atol=1e-9, weights=ww, outliers=nout)
