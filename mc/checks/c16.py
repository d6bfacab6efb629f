"""C16: scalars sampled with a gridded density are those of the very place sampled, whatever the random choices."""

import itertools

import numpy as np

from mc import gen, grids, rng

ID = 'C16'
TITLE = 'Scalars sampled with a grid are interpolated at the sampled positions'
BOUNDS = dict(
    quick='complete choice trees (4-16 strata) of one sample and 3 joint samples, 7 edge sets in 1-3 dims, 4 densities, 5 scalar fields, '
          'with and without interpolation and explicit bin scalars; proportional sampling with zero portions',
    thorough='as quick, with all pairs of edge sets and 2x the strata',
)
ASSUMPTIONS = ['expected: the average at the corners of the bin, plus the average change along each dimension times the offset from its '
               'center; exact for linear scalar fields']

SETS = [['even'], ['two'], ['uneven'], ['neg'], ['small'], ['even', 'two'], ['neg', 'uneven'], ['two', 'neg', 'two']]


def cases(tier):
    quick = (tier == 'quick')
    sets = list(SETS)
    if not quick:
        sets += [list(pp) for pp in itertools.product(grids.EDGES, repeat=2)]
    out = gen.product(what=['grid'], edges=sets, dens=['ramp', 'wave', 'zeros', 'ints'], scalar=['linear', 'wave', 'const', 'ints', 'negative'],
                      binned=[0, 1], interp=[True, False], size=[1, 3])
    out += gen.product(what=['portion'], edges=sets, dens=['ramp', 'wave', 'zeros'], scalar=['wave', 'ints', 'sparse'], binned=[0],
                       interp=[True, False], size=[1, 3])
    for cc in out:
        cc['strata'] = ({1: 16, 2: 6, 3: 4}[len(cc['edges'])] if cc['size'] == 1 else {1: 3, 2: 2, 3: 2}[len(cc['edges'])])
        if not quick and cc['size'] == 1:
            cc['strata'] *= 2
    return [cc for cc in out if cc['size'] == 1 or len(cc['edges']) < 3]


def field(kind, edges):
    shape = [len(ee) for ee in edges]
    mesh = np.meshgrid(*edges, indexing='ij')
    jj = np.arange(np.prod(shape)).reshape(shape)
    if kind == 'linear':
        return 5.0 + sum((1.0 + 2*ii)*mm/np.ptp(edges[ii]) for ii, mm in enumerate(mesh))
    if kind == 'wave':
        return 2.0 + np.cos(1.3*jj)
    if kind == 'const':
        return np.full(shape, -3.0)
    if kind == 'ints':
        return (jj*7) % 5
    if kind == 'negative':
        return -1.0e3*(1.0 + (jj*3) % 4)
    if kind == 'sparse':
        out = np.zeros(shape)
        out.flat[-1] = 2.0
        out.flat[-2] = 1.0
        return out


def run(case, rec):
    import kalepy as kale
    edges = [np.array(grids.EDGES[ee], dtype=float) for ee in case['edges']]
    ndim = len(edges)
    dens = grids.density(case['dens'], [ee.size for ee in edges])
    scal = field(case['scalar'], edges)
    given = edges if ndim > 1 else edges[0]
    size = case['size']
    rec.state(case)
    if case['what'] == 'portion':
        # positions are sampled from `portion`; the scalar is the density per portion
        portion = np.abs(np.asarray(scal, dtype=float)) + (0.0 if case['scalar'] == 'sparse' else 0.5)
        base = portion
        ratio = np.zeros(dens.shape)
        ratio[portion != 0.0] = dens[portion != 0.0]/portion[portion != 0.0]
        func = lambda: kale.sample_grid_proportional(given, dens, portion, size, interpolate=case['interp'])   # noqa
        scal, binned = ratio, None
    else:
        base = dens
        binned = None
        if case['binned']:
            binned = 7.0 + np.arange(np.prod([ee.size - 1 for ee in edges]), dtype=float).reshape([ee.size - 1 for ee in edges])
        sampler = kale.Sample_Grid(given, dens, scalar_dens=scal, scalar_mass=binned)
        func = lambda: sampler.sample(size, interpolate=case['interp'])   # noqa
    copies = np.array(scal), np.array(dens)
    true = grids.mass(edges, base)
    if true.sum() <= 0.0:
        return
    scale = np.abs(scal).max() + (0 if binned is None else np.abs(binned).max())
    leaves = 0
    for pp, out, _ in rng.explore_law(func, case['strata'], max_leaves=300000):
        leaves += 1
        rec.require(isinstance(out, tuple) and len(out) == 2, 'no scalars returned')
        vals, got = np.asarray(out[0]), np.asarray(out[1])
        rec.require(vals.shape == (ndim, size) and got.shape == (size,), 'wrong shape of samples or scalars', vals=vals.shape, got=got.shape)
        idx = grids.which_bin(edges, vals.T)
        rec.require(np.all(idx >= 0), 'sample outside of the grid')
        for kk in range(size):
            bb = tuple(int(ii) for ii in idx[kk])
            lo = np.array([edges[dd][bb[dd]] for dd in range(ndim)])
            hi = np.array([edges[dd][bb[dd]+1] for dd in range(ndim)])
            rel = (vals[:, kk] - lo)/(hi - lo)
            if np.any((rel < 1e-9) | (rel > 1 - 1e-9)):
                continue            # shared by two bins
            want = grids.average(scal, edges, bb) if binned is None else binned[bb]
            if case['interp']:
                want += sum(grids.gradient(scal, bb, dd)*(rel[dd] - 0.5) for dd in range(ndim))
            rec.require(abs(got[kk] - want) <= 1e-9*scale + 1e-12*abs(want), 'scalar is not that of the sampled position', got=float(got[kk]),
                        want=float(want), bin=bb, rel=rel)
            if case['scalar'] == 'linear' and binned is None and case['interp'] and case['what'] == 'grid':
                exact = 5.0 + sum((1.0 + 2*ii)*vals[ii, kk]/np.ptp(edges[ii]) for ii in range(ndim))
                rec.require(abs(got[kk] - exact) <= 1e-9*scale, 'linear scalar is not reproduced exactly', got=float(got[kk]), want=float(exact))
    rec.step(leaves)
    rec.trace(leaves)
    rec.count('choice_tree_leaves', leaves)
    if case['what'] == 'grid' and size == 1:
        alt = {}
        seq = [2, 1, 0, 1, 1, 2, 0, 2, 1, 0, 2, 1]

        def once(func):
            with rng.active(rng.TreeEnv(seq, 3)):
                return func()

        base = once(lambda: sampler.sample(3, interpolate=case['interp']))
        alt['no scalars'] = once(lambda: sampler.sample(3, interpolate=case['interp'], return_scalar=False))
        rec.close(alt['no scalars'], base[0], 'samples depend on whether scalars are returned', rtol=0)
        asked = once(lambda: sampler.sample(3, interpolate=case['interp'], return_scalar=True))
        rec.require(isinstance(asked, tuple) and len(asked) == 2, 'scalars asked for are not returned')
        for got, want in zip(asked, base):
            rec.close(got, want, 'scalars asked for differ from those given anyway', rtol=0)
        plain = once(lambda: kale.Sample_Grid(given, dens).sample(3, interpolate=case['interp']))
        rec.close(plain, base[0], 'samples depend on the scalars', rtol=0)
        top = once(lambda: kale.sample_grid(given, dens, 3, scalar_dens=scal, scalar_mass=binned, interpolate=case['interp']))
        rec.require(isinstance(top, tuple) and len(top) == 2, 'sample_grid() returned no scalars')
        rec.close(top[0], base[0][0] if ndim == 1 else base[0], 'sample_grid() with scalars is not Sample_Grid', rtol=0)
        rec.close(top[1], base[1], 'sample_grid() with scalars is not Sample_Grid', rtol=0)
        req = once(lambda: kale.Sample_Grid(given, dens).sample(3, interpolate=case['interp'], return_scalar=True))
        rec.close(req, plain, 'scalars asked for without any', rtol=0)
    rec.equal(scal, copies[0], 'scalars were modified')
    rec.equal(dens, copies[1], 'density was modified')
