"""C14: exact output law of grid sampling over the complete tree of its random choices."""

import itertools

import numpy as np

from mc import gen, grids, law, rng

ID = 'C14'
TITLE = 'Samples of a gridded density follow its linear interpolation, bin by bin'
BOUNDS = dict(
    quick='complete choice trees of one sample (24-150 strata per draw in 1-3 dims) for 6 edge sets, 8 densities, with and without `mass`, '
          'with and without interpolation; of two joint samples; sizes and forms of the arguments; one history each of 2e5 samples',
    thorough='as quick with 2x the strata, all combinations of edges',
)
ASSUMPTIONS = ['continuous draws are quantised to K equal strata: bin probabilities are compared within the quantum (plus 1e-9), moments and '
               'window probabilities in a bin within 1-3%',
               'the positions along different dimensions within a bin are compared as marginals']


def cases(tier):
    quick = (tier == 'quick')
    fact = 1 if quick else 2
    out = []
    dens = ['flat', 'ramp', 'wave', 'zeros', 'sparse', 'ints', 'huge', 'tiny']
    out += gen.product(what=['law'], edges=[[ee] for ee in grids.EDGES], dens=dens, mass=[None, 'own', 'other'], interp=[True, False],
                       strata=[60*fact])
    pairs = [['even', 'two'], ['neg', 'uneven'], ['two', 'two'], ['small', 'neg']]
    if not quick:
        pairs = [list(pp) for pp in itertools.product(grids.EDGES, repeat=2)]
    out += gen.product(what=['law'], edges=pairs, dens=dens, mass=[None, 'other'], interp=[True, False], strata=[24])
    out += gen.product(what=['law'], edges=[['two', 'neg', 'two']] + ([] if quick else [['uneven', 'two', 'two']]), dens=['wave', 'zeros', 'sparse'],
                       mass=[None], interp=[True, False], strata=[12])
    out += gen.product(what=['joint'], edges=[['even'], ['neg']], dens=['ramp', 'zeros', 'wave'], mass=[None, 'other'], interp=[True], strata=[10*fact])
    out += gen.product(what=['joint'], edges=[['two', 'neg']], dens=['zeros', 'wave'], mass=[None], interp=[True], strata=[4])
    out += gen.product(what=['forms'], edges=[['even'], ['two'], ['ints'], ['even', 'two'], ['neg', 'uneven'], ['two', 'two'], ['two', 'neg', 'even']],
                       dens=['ramp', 'zeros', 'ints'], mass=[None, 'other'], interp=[True])
    out += gen.product(what=['long'], edges=[['uneven'], ['neg', 'uneven'], ['two', 'neg', 'two']], dens=['ramp', 'zeros', 'wave'], mass=[None, 'other'],
                       interp=[True, False])
    return out


def _long(sampler, edges, true, interp, rec):
    """Number of samples in every bin, for a (fixed) history of many draws: within 6 times the standard deviation."""
    size = 200003
    np.random.seed(1357)
    out = np.atleast_2d(sampler.sample(size, interpolate=interp))
    rec.equal(out.shape, (len(edges), size), 'sample(): wrong shape')
    got = np.histogramdd(out.T, bins=edges)[0]
    rec.equal(got.sum(), size, 'samples out of the grid')
    want = true/true.sum()*size
    rec.close(got, want, 'number of samples in every bin', rtol=0.0, atol=6*np.sqrt(np.maximum(want, 1e-12)))
    rec.require(np.all(got[want == 0] == 0), 'samples in empty bins')
    for row in out:
        rec.require(np.unique(row).size > size - 5, 'samples are repeated')
    rec.trace()


def other_mass(shape):
    out = (1.0 + (np.arange(np.prod(shape))*3) % 5).reshape(shape)
    out.flat[0] = 0.0 if out.size > 2 else out.flat[0]
    return out


def run(case, rec):
    import kalepy as kale
    edges = [np.array(grids.EDGES[ee]) for ee in case['edges']]
    ndim = len(edges)
    shape = [ee.size for ee in edges]
    dens = grids.density(case['dens'], shape)
    own = grids.mass(edges, dens)
    mass = None
    if case['mass'] == 'own':
        mass = own
    elif case['mass'] == 'other':
        mass = other_mass(own.shape)
    true = own if mass is None else mass
    if case['dens'] == 'sparse' and case['mass'] == 'other' and ndim == 1:
        pass
    given = edges if ndim > 1 else edges[0]
    if case['what'] == 'forms':
        return forms(case, rec, given, edges, dens, mass, true)
    rec.state(case)
    sampler = kale.Sample_Grid(given, dens, mass=mass)
    if case['what'] == 'long':
        return _long(sampler, edges, true, case['interp'], rec)
    size = 2 if case['what'] == 'joint' else 1
    budget = case['strata']**(size*(1 + ndim))
    tree = law.walk(lambda: sampler.sample(size, interpolate=case['interp']), budget + 0.5, rec, kmax=case['strata'])
    if tree is None:
        return
    strata = tree.strata
    rec.require(tree.vals.shape[1:] == (ndim, size), 'sample(): wrong shape', got=tree.vals.shape[1:])
    vals = np.moveaxis(tree.vals, 1, 2)                   # (leaves, size, D)
    rec.require(np.all(np.isfinite(vals)), 'sample(): not finite')
    idx = grids.which_bin(edges, vals)
    rec.require(np.all(idx >= 0), 'sample outside of the grid')
    flat = np.ravel_multi_index(tuple(idx[..., dd] for dd in range(ndim)), own.shape)        # (leaves, size)
    prob = true.ravel()/true.sum()
    pp = tree.prob/tree.prob.sum()

    if size == 2:
        quantum = 2.2/strata
        for aa in range(prob.size):
            for bb in range(aa, prob.size):
                sel = ((flat[:, 0] == aa) & (flat[:, 1] == bb)) | ((flat[:, 0] == bb) & (flat[:, 1] == aa))
                want = prob[aa]*prob[bb]*(1 if aa == bb else 2)
                rec.close(pp[sel].sum(), want, 'joint probability of the bins of two samples', rtol=0, atol=quantum, bins=(aa, bb))
        lo = np.array([np.asarray(ee)[idx[..., dd]] for dd, ee in enumerate(edges)])
        hi = np.array([np.asarray(ee)[idx[..., dd]+1] for dd, ee in enumerate(edges)])
        rel = (np.moveaxis(vals, 2, 0) - lo)/(hi - lo)    # (D, leaves, size)
        for dd in range(ndim):
            for aa in range(prob.size):
                sel = (flat[:, 0] == aa) & (flat[:, 1] == aa)
                if pp[sel].sum() < 1e-3:
                    continue
                ww = pp[sel]/pp[sel].sum()
                r0, r1 = rel[dd, sel, 0], rel[dd, sel, 1]
                cov = np.sum(ww*r0*r1) - np.sum(ww*r0)*np.sum(ww*r1)
                rec.close(cov, 0.0, 'positions of two samples in one bin are correlated', atol=0.004)
        return

    flat, vals, idx = flat[:, 0], vals[:, 0], idx[:, 0]
    quantum = 1.0/strata + 1e-9
    total = 0.0
    for num, bb in enumerate(grids.bins(edges)):
        sel = (flat == num)
        got = pp[sel].sum()
        total += got
        if prob[num] == 0.0:
            # the edge shared with the next bin is not told apart
            inner = sel.copy()
            for dd in range(ndim):
                inner &= (vals[:, dd] > edges[dd][bb[dd]]) & (vals[:, dd] < edges[dd][bb[dd]+1])
            rec.require(not np.any(inner), 'sample in a bin without mass', bin=bb)
            continue
        rec.close(got, prob[num], 'probability of a bin', rtol=0, atol=quantum, bin=bb)
        if got == 0.0:
            continue
        ww = pp[sel]/got
        for dd in range(ndim):
            lo, hi = float(edges[dd][bb[dd]]), float(edges[dd][bb[dd]+1])
            rel = (vals[sel, dd] - lo)/(hi - lo)
            grad = grids.slope(dens, bb, dd) if case['interp'] else 0.0
            tol = 0.002 + 1.0/strata**1.5
            for power, want in [(1, 0.5 + grad/12), (2, 1.0/3 + grad/12), (3, 0.25 + 0.075*grad)]:
                rec.close(np.sum(ww*rel**power), want, 'moment of the position in a bin', rtol=0, atol=tol, bin=bb, dim=dd, power=power,
                          grad=grad)
            for frac in [0.25, 0.5, 0.75]:
                want = frac + 0.5*grad*(frac**2 - frac)
                rec.close(np.sum(ww*(rel < frac)), want, 'cumulative probability in a bin', rtol=0, atol=1.01/strata + 1e-9, bin=bb, dim=dd,
                          frac=frac, grad=grad)
            # no accumulation on few points: as many different positions as strata
            rec.require(np.unique(np.round(rel, 12)).size >= strata, 'samples fall on few positions in a bin', bin=bb, dim=dd,
                        num=int(np.unique(np.round(rel, 12)).size))


def forms(case, rec, given, edges, dens, mass, true):
    """Accepted forms of the arguments, sizes and shapes."""
    import kalepy as kale
    ndim = len(edges)
    rec.state(case)
    alts = [(given, dens, mass)]
    alts.append((tuple(edges) if ndim > 1 else [edges[0]], dens.tolist(), None if mass is None else mass.tolist()))
    alts.append(([ee.tolist() for ee in edges] if ndim > 1 else edges[0].tolist(), dens, mass))
    alts += [(given, dd, mm) for dd, mm in zip(gen.layouts(dens), [None]*4 if mass is None else gen.layouts(mass))]
    copies = [np.array(ee) for ee in edges], np.array(dens), np.array(true)

    def same(func):
        env = rng.TreeEnv([3, 2, 5, 1, 4, 0, 2, 2, 5, 3], 7)
        with rng.active(env):
            return np.array(func())

    for size in [None, 0, 1, 5, 3.0, np.int64(4)]:
        want = int(true.sum()) if size is None else int(size)
        first = None
        for ee, dd, mm in alts:
            out = same(lambda: kale.Sample_Grid(ee, dd, mass=mm).sample(size))
            rec.require(out.shape == (ndim, want), 'Sample_Grid.sample(): wrong shape', got=out.shape, want=(ndim, want), size=repr(size))
            if first is None:
                first = out
            rec.close(out, first, 'sample depends on the form of the arguments')
            out = same(lambda: kale.sample_grid(ee, dd, size, mass=mm))
            rec.close(out, first[0] if ndim == 1 else first, 'sample_grid() is not Sample_Grid', rtol=0)
            out = same(lambda: kale.sample_grid(ee, dd, nsamp=size, mass=mm, squeeze=False))
            rec.close(out, first, 'sample_grid(squeeze=False)', rtol=0)
            if ndim == 1:
                out = same(lambda: kale.sample_grid(ee, dd, nsamp=size, mass=mm, squeeze=True))
                rec.close(out, first[0], 'sample_grid(squeeze=True)', rtol=0)
            flat = same(lambda: kale.sample_grid(ee, dd, size, mass=mm, interpolate=False))
            rec.close(flat, same(lambda: kale.Sample_Grid(ee, dd, mass=mm).sample(size, interpolate=False))[0 if ndim == 1 else slice(None)],
                      'sample_grid(interpolate=False)', rtol=0)
    for ee, cc in zip(edges, copies[0]):
        rec.equal(ee, cc, 'edges were modified')
    rec.equal(dens, copies[1], 'density was modified')
    rec.equal(true, copies[2], 'mass was modified')
    # inconsistent shapes are rejected
    bad = [ee for ee in edges]
    bad[0] = np.append(bad[0], bad[0][-1] + 1)
    rec.raises(ValueError, lambda: kale.Sample_Grid(bad if ndim > 1 else bad[0], dens), 'edges longer than the density')
    bad = list(edges) + [np.array([0.0, 1.0])]
    rec.raises(ValueError, lambda: kale.Sample_Grid(bad, dens), 'more edges than dimensions')
    wrong = np.ones([ss + 1 for ss in true.shape])
    rec.raises(ValueError, lambda: kale.Sample_Grid(given, dens, mass=wrong), 'mass at the edges instead of in the bins')
    rec.trace()
