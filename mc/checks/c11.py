"""C11: every query is a function of its arguments and the constructor's: all operation histories up to a depth give the same answers."""

import copy
import itertools

import numpy as np

from mc import common, core, gen

ID = 'C11'
TITLE = 'Queries do not depend on, nor change, what was asked before'
BOUNDS = dict(
    quick='all sequences of 3 operations (17 operations, of which 4 are rejected) on a KDE in 12 configurations, all sequences of 2 on every '
          'ordered pair of KDEs sharing their input, all sequences of 3 (8-9 operations) on samplers in 8 configurations',
    thorough='sequences of 4 operations on one KDE (12 configurations), of 3 on pairs, of 5 on samplers',
)
ASSUMPTIONS = ['the answer expected is the one of a fresh object, with the same state of the random generator',
               'arrays handed out are not modified by the caller']

CFGS = {
    '1d': dict(ndim=1, num=7, bw=0.4),
    '1d-reflect': dict(ndim=1, num=7, bw=0.4, weights='zeros', refl=[[True, 9.0]], kernel='parabola'),
    '1d-auto': dict(ndim=1, num=7, weights='ints', refl=True, kernel='box', points=9),
    '1d-points': dict(ndim=1, num=7, bw='silverman', points=[-2.0, -1.0, 0.5, 2.0, 4.0]),
    '2d': dict(ndim=2, num=8, bw=0.5, points=[6, 7]),
    '2d-reflect': dict(ndim=2, num=8, bw='vec', weights='list', refl=[[-9.0, True], None], points=[6, 7]),
    '2d-both': dict(ndim=2, num=8, bw='mat', weights='zeros', refl=[[True, True], [None, 30.0]], points=5, kernel='triweight'),
    '2d-extrema': dict(ndim=2, num=8, bw=0.5, extrema=[[-4.0, None], None], points=[5, 6], kernel='box'),
    '2d-diagonal': dict(ndim=2, num=8, bw=0.5, diagonal=True, points=[5, 6], refl=[None, True]),
    '3d': dict(ndim=3, num=9, bw=0.6, points=[4, 4, 5], weights='ints'),
    '3d-reflect': dict(ndim=3, num=9, bw=0.6, points=4, refl=[None, [True, None], [None, True]]),
    '2d-ints': dict(ndim=2, num=8, bw=0.7, data='ints', points=[5, 5], weights='ints'),
}

GRID_CFGS = ['1d', '1d-mass', '1d-scalar', '2d', '2d-mass', '2d-scalar', 'outliers-1d', 'outliers-2d']


class Setup:
    """Input arrays of a configuration: made once, shared by all the objects of a history."""

    def __init__(self, cfg):
        self.cfg = cfg
        ndim = cfg['ndim']
        data = gen.dataset(cfg.get('data', 'plain'), ndim, cfg['num'])
        self.data = data if ndim > 1 else data[0]
        self.ww = gen.weights(cfg.get('weights'), cfg['num'])
        self.refl = copy.deepcopy(cfg.get('refl'))
        self.extrema = copy.deepcopy(cfg.get('extrema'))
        self.points = copy.deepcopy(cfg.get('points'))
        self.bw = common.bw_arg(cfg.get('bw'), ndim)
        full = np.atleast_2d(np.asarray(self.data, dtype=float))
        pts = gen.points_around(full, ndim, 5)
        self.pts = pts if ndim > 1 else pts[0]
        self.edges = [np.linspace(dd.min() - 0.3, dd.max() + 0.3, 3 + ii) for ii, dd in enumerate(full)]
        self.other = [[float(dd.min() - 0.1), float(dd.max() + 0.4)] for dd in full]
        self.partial = [True] + [None]*(ndim-1)
        self.sub = [True]

    def new(self):
        import kalepy as kale
        return kale.KDE(self.data, bandwidth=self.bw, weights=self.ww, kernel=self.cfg.get('kernel'), reflect=self.refl,
                        extrema=self.extrema, points=self.points, diagonal=self.cfg.get('diagonal', False))

    def inputs(self):
        return core.canon([self.data, self.ww, self.refl, self.extrema, self.points, self.bw, self.pts, self.edges, self.other,
                           self.partial, self.sub])


def rejected(func):
    try:
        func()
    except Exception as err:
        return 'rejected:' + type(err).__name__
    return 'accepted'


OPS = {
    'points': lambda kk, ss: kk.points,
    'density': lambda kk, ss: kk.density(),
    'pdf': lambda kk, ss: kk.pdf(),
    'density-at': lambda kk, ss: kk.density(ss.pts),
    'pdf-at': lambda kk, ss: kk.pdf(ss.pts),
    'density-grid': lambda kk, ss: kk.density(ss.edges if len(ss.edges) > 1 else ss.edges[0], grid=(len(ss.edges) > 1)),
    'density-clear': lambda kk, ss: kk.density(ss.pts, reflect=False),
    'density-reflect': lambda kk, ss: kk.density(ss.pts, reflect=ss.other),
    'density-partial': lambda kk, ss: kk.density(ss.pts, reflect=ss.partial),
    'density-params': lambda kk, ss: kk.density(ss.pts[0] if kk.ndim > 1 else ss.pts, params=0, reflect=ss.sub),
    'density-params-last': lambda kk, ss: kk.density(params=kk.ndim - 1),
    'cdf': lambda kk, ss: kk.cdf(ss.pts),
    'resample': lambda kk, ss: kk.resample(5),
    'resample-other': lambda kk, ss: kk.resample(4, reflect=ss.other, squeeze=False),
    'resample-keep': lambda kk, ss: kk.resample(3, keep=0, reflect=False),
    'bad-points': lambda kk, ss: rejected(lambda: kk.density(np.zeros((kk.ndim + 2, 3)))),
    'bad-reflect': lambda kk, ss: rejected(lambda: kk.density(ss.pts, reflect=[[3.0, 1.0]]*kk.ndim)),
    'bad-cdf': lambda kk, ss: rejected(lambda: kk.cdf(ss.pts, params=[0])),
    'bad-keep': lambda kk, ss: rejected(lambda: kk.resample(3, keep=0, reflect=[[-99.0, 99.0]] + [None]*(kk.ndim-1))),
}
RANDOM = ('resample', 'resample-other', 'resample-keep', 'bad-keep')
ATTRS = ['dataset', 'weights', 'bandwidth', 'covariance', 'neff', 'ndim', 'ndata', 'reflect', 'extrema']


def attrs(kde):
    return core.canon([getattr(kde, nn) for nn in ATTRS] + [kde.kernel.matrix, kde.kernel.matrix_inv, kde.kernel.norm,
                                                            type(kde.kernel.distribution).__name__])


def rng_state():
    st = np.random.get_state()
    return (st[1].tobytes(), st[2], st[3])


def cases(tier):
    quick = (tier == 'quick')
    out = []
    depth = 3 if quick else 4
    for cc in CFGS:
        for op in OPS:
            out.append(dict(what='one', cfg=cc, first=op, depth=depth))
    for aa, bb in itertools.permutations(CFGS, 2):
        same = (CFGS[aa]['ndim'] == CFGS[bb]['ndim'])
        if same:
            out.append(dict(what='pair', cfgs=[aa, bb], depth=2 if quick else 3))
    for cc in GRID_CFGS:
        out.append(dict(what='grid', cfg=cc, depth=3 if quick else 5))
    return out


def setup(tier):
    common.warm()


def apply(op, kde, sets):
    """Canonical answer, with a fixed state of the random generator; queries leave the generator alone."""
    np.random.seed(4321)
    before = rng_state()
    errs = np.geterr()
    val = OPS[op](kde, sets)
    ans = core.canon(val)
    touched = (rng_state() != before)
    return ans, touched, (np.geterr() == errs)


def history(ops, kdes, which, setss, fresh, rec):
    inputs = [ss.inputs() for ss in setss]
    base = [attrs(kk) for kk in kdes]
    for pos, (op, ww) in enumerate(zip(ops, which)):
        ans, touched, errs = apply(op, kdes[ww], setss[ww])
        rec.step()
        if ans != fresh[ww][op]:
            rec.fail('answer depends on the history', history=list(zip(ops[:pos+1], which[:pos+1])), got=ans.decode()[:300],
                     fresh=fresh[ww][op].decode()[:300])
        if touched and op not in RANDOM:
            rec.fail('query changes the state of the random generator', history=ops[:pos+1])
        if not errs:
            rec.fail('query changes numpy\'s error settings', history=ops[:pos+1])
    for ii, ss in enumerate(setss):
        if ss.inputs() != inputs[ii]:
            rec.fail('input arrays or lists were modified', history=list(zip(ops, which)), cfg=ss.cfg)
        if attrs(kdes[ii]) != base[ii]:
            rec.fail('attributes changed by queries', history=list(zip(ops, which)), cfg=ss.cfg)
    rec.trace()
    rec.state('history', [ss.cfg for ss in setss], ops, which)


def run(case, rec):
    if case['what'] == 'grid':
        return samplers(case, rec)
    if case['what'] == 'one':
        sets = Setup(CFGS[case['cfg']])
        made = sets.inputs()
        fresh = [{op: apply(op, sets.new(), sets)[0] for op in OPS}]
        rec.require(sets.inputs() == made, 'constructor or first query modified its input', cfg=case['cfg'])
        for op in OPS:
            if op.startswith('bad'):
                rec.require(b'rejected' in fresh[0][op], 'invalid request accepted', op=op)
        for rest in itertools.product(OPS, repeat=case['depth']-1):
            ops = [case['first']] + list(rest)
            history(ops, [sets.new()], [0]*len(ops), [sets], fresh, rec)
        return
    # two objects, sharing the data where they have the same one, in every interleaving
    setss = [Setup(CFGS[cc]) for cc in case['cfgs']]
    if np.shape(setss[0].data) == np.shape(setss[1].data) and CFGS[case['cfgs'][0]].get('data') == CFGS[case['cfgs'][1]].get('data'):
        setss[1].data = setss[0].data
        setss[1].pts = setss[0].pts
        setss[1].other = setss[0].other
        setss[1].partial = setss[0].partial
    fresh = [{op: apply(op, ss.new(), ss)[0] for op in OPS} for ss in setss]
    for ops in itertools.product(OPS, repeat=case['depth']):
        for which in itertools.product([0, 1], repeat=case['depth']):
            if which[0] != 0 or len(set(which)) < 2:
                continue
            history(list(ops), [ss.new() for ss in setss], list(which), setss, fresh, rec)


# ---- samplers

def sampler(name, edges, dens, mass, scalar):
    import kalepy as kale
    if name.startswith('outliers'):
        return kale.Sample_Outliers(edges, dens, threshold=3.0)
    if name.endswith('mass'):
        return kale.Sample_Grid(edges, dens, mass=mass)
    if name.endswith('scalar'):
        return kale.Sample_Grid(edges, dens, scalar_dens=scalar)
    return kale.Sample_Grid(edges, dens)


def samplers(case, rec):
    import kalepy as kale
    name = case['cfg']
    ndim = 2 if '2d' in name else 1
    edges = [np.array([0.0, 1.0, 2.5, 3.0]), np.array([-1.0, 0.5, 2.0])][:ndim]
    shape = [ee.size for ee in edges]
    dens = 1.0 + 3.0*np.abs(np.sin(np.arange(np.prod(shape)))).reshape(shape)
    dens[0] *= 5.0
    mass = 2.0 + np.arange(np.prod([ss-1 for ss in shape]), dtype=float).reshape([ss-1 for ss in shape])
    scalar = np.cos(np.arange(np.prod(shape))).reshape(shape)
    other = np.array(dens[::-1])
    given = edges if ndim > 1 else edges[0]
    arrays = [edges, dens, mass, scalar, other]
    if name.startswith('outliers'):
        ops = {
            'sample': lambda ss: ss.sample(),
            'poisson': lambda ss: ss.sample(poisson_outside=True),
            'poisson-in': lambda ss: ss.sample(poisson_inside=True),
            'flat': lambda ss: ss.sample(interpolate=False),
            'bad': lambda ss: rejected(lambda: ss.sample(return_scalar=True)),
            'function': lambda ss: kale.sample_outliers(given, dens, 3.0),
            'function-other': lambda ss: kale.sample_outliers(given, other, 5.0),
        }
    else:
        ops = {
            'sample': lambda ss: ss.sample(5),
            'default': lambda ss: ss.sample(),
            'flat': lambda ss: ss.sample(4, interpolate=False),
            'noscalar': lambda ss: ss.sample(3, return_scalar=False),
            'scalar': lambda ss: ss.sample(3, return_scalar=True),
            'grid': lambda ss: ss.grid,
            'function': lambda ss: kale.sample_grid(given, dens, 4, mass=mass),
            'function-other': lambda ss: kale.sample_grid(given, other, 4, scalar_dens=scalar),
        }

    def answer(op, ss):
        np.random.seed(77)
        val = ops[op](ss)
        return core.canon(list(val) if isinstance(val, tuple) else val)

    made = core.canon(arrays)
    fresh = {op: answer(op, sampler(name, given, dens, mass, scalar)) for op in ops}
    for hist in itertools.product(ops, repeat=case['depth']):
        ss = sampler(name, given, dens, mass, scalar)
        for pos, op in enumerate(hist):
            ans = answer(op, ss)
            rec.step()
            if ans != fresh[op]:
                rec.fail('sampler: answer depends on the history', history=hist[:pos+1], got=ans.decode()[:300], fresh=fresh[op].decode()[:300])
        if core.canon(arrays) != made:
            rec.fail('sampler: input arrays were modified', history=hist)
        rec.trace()
        rec.state('sampler', name, hist)
