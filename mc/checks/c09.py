"""C09: resample() returns exactly the number of points asked for, every one a genuine accepted draw, for every accept/reject history."""

import numpy as np

from mc import gen, ref, rng

ID = 'C09'
TITLE = 'Resampling returns exactly as many points as asked for, in bounds, and ends'
BOUNDS = dict(
    quick='every accept/reject history with at most 3-5 rejected draws, for 1-5 points in 1-3 dims, 4 chunk sizes, and the history which '
          'rejects everything; sizes None/0/1/int/float/numpy for 4 kernels, dims 1-3, with and without boundaries; one history each of 1e5 to 2.5e5 draws',
    thorough='every accept/reject history with at most 5-8 rejected draws, for 1-7 points, 6 chunk sizes',
)
ASSUMPTIONS = ['a draw is accepted or rejected by its size alone: the environment answers every request for a random number with a small '
               'distinct value or a far-out one',
               'RuntimeError instead of samples is accepted only in the history which rejects everything']

MINI = 1e-7


class Env(rng.Env):
    """Every scalar draw is either a fresh small value (choice 0) or far out (choice 1, at most `limit` times)."""

    def __init__(self, prefix, limit, reject_all=False, horizon=20000):
        self.prefix = prefix
        self.limit = limit
        self.reject_all = reject_all
        self.trail = []
        self.fars = 0
        self.tag = 0
        self.horizon = horizon
        self.calls = 0

    def _far(self):
        self.calls += 1
        if self.calls > self.horizon:
            self.halt(rng.Truncated())
        if self.reject_all:
            return True
        if self.fars >= self.limit:
            return False
        pos = len(self.trail)
        pick = self.prefix[pos] if pos < len(self.prefix) else 0
        self.trail.append((pick, 2))
        self.fars += pick
        return bool(pick)

    def _new(self):
        self.tag += 1
        return self.tag

    def gauss(self):
        return 1.0e3 + self._new() if self._far() else MINI*self._new()

    def unit(self, kind):
        far = self._far()
        return 1.0 - 1e-9*self._new() if far else 0.5 + MINI*self._new()

    def pick(self, probs):
        return int(np.flatnonzero(np.asarray(probs) > 0)[0])


def cases(tier):
    quick = (tier == 'quick')
    out = []
    sizes = [1, 2, 3, 4, 5] if quick else [1, 2, 3, 4, 5, 6, 7]
    for ndim in [1, 2, 3]:
        limit = {1: 5, 2: 3, 3: 3}[ndim] if quick else {1: 8, 2: 5, 3: 4}[ndim]
        out += gen.product(what=['history'], ndim=[ndim], kernel=['gaussian'], chunk=[None, 1, 2, 3] + ([] if quick else [4, 5]),
                           size=sizes if ndim < 3 else sizes[:4], limit=[limit], form=['full', 'partial'] if ndim > 1 else ['full'])
        # many more chunks than tries per chunk
        out += gen.product(what=['history'], ndim=[ndim], kernel=['gaussian'], chunk=[1, 2], size=[12, 25, 40] if ndim == 1 else [12, 23],
                           limit=[1] if quick else [2], form=['full'])
        out += gen.product(what=['never'], ndim=[ndim], kernel=['gaussian'], chunk=[None, 2], size=[1, 3], form=['full'])
    out += gen.product(what=['history'], ndim=[1], kernel=['box'], chunk=[None, 2], size=sizes, limit=[4 if quick else 7], form=['full'])
    out += gen.product(what=['never'], ndim=[1], kernel=['box'], chunk=[None, 2], size=[1, 3], form=['full'])
    out += gen.product(what=['shape'], ndim=[1, 2, 3], kernel=ref.KERNELS, refl=[None, 'some', 'all', True], weights=[None, 'zeros'],
                       nested=[0, 1], squeeze=[True, False], num=[5, 2, 1])
    # beyond the default size of a chunk
    out += gen.product(what=['large'], ndim=[1, 2, 3], kernel=ref.KERNELS, refl=[None, 'some', 'all'], weights=[None, 'zeros'], num=[5],
                       size=[100000, 100001, 250003] if quick else [99999, 100000, 100001, 200000, 250003, 1000001])
    return out


def setup(tier):
    import scipy.special
    scipy.special.betaincinv(1.0, 2.0, 0.5)


def explore(func, limit, rec, max_runs=2000000):
    prefix = []
    runs = 0
    while prefix is not None:
        env = Env(prefix, limit)
        with rng.active(env):
            yield func(), env
        runs += 1
        rec.step()
        rec.trace()
        rec.state('history', tuple(pp for pp, _ in env.trail))
        if runs > max_runs:
            raise RuntimeError('more than {} histories'.format(max_runs))
        prefix = rng.next_prefix(env.trail)
    rec.count('accept_reject_histories', runs)


def histories(case, rec):
    import kalepy as kale
    ndim, size = case['ndim'], case['size']
    kw = dict(chunk=case['chunk']) if case['chunk'] is not None else {}
    # one data point: the draws alone make the samples
    wide = 1.0 if case['kernel'] == 'gaussian' else 4.0
    kde = kale.KDE(np.zeros((ndim, 1)) if ndim > 1 else np.zeros(1), bandwidth=1.0, covariance=wide*np.eye(ndim), kernel=case['kernel'],
                   reflect=[[-0.6, 0.5]] + ([[-0.6, 0.5]]*(ndim-1) if case['form'] == 'full' else [None]*(ndim-1)), **kw)
    bounded = ndim if case['form'] == 'full' else 1
    shape = (size,) if ndim == 1 else (ndim, size)
    if case['what'] == 'never':
        env = Env([], 0, reject_all=True)
        rec.step()
        rec.trace()
        rec.state('never', case)
        try:
            with rng.active(env):
                out = kde.resample(size)
        except rng.Truncated:
            rec.fail('does not end if every draw is rejected', draws=env.calls)
        except RuntimeError:
            return
        rec.fail('returned samples although every draw was rejected', out=repr(out)[:200])

    for out, env in explore(lambda: kde.resample(size), case['limit'], rec):
        hist = [pp for pp, _ in env.trail]
        out = np.asarray(out)
        rec.require(out.shape == shape, 'wrong number of samples', got=out.shape, want=shape, history=hist)
        vals = np.atleast_2d(out)[:bounded]
        rec.require(np.all((vals >= -0.6) & (vals <= 0.5)), 'sample out of bounds', vals=vals, history=hist)
        rec.require(np.all(np.abs(vals) < 1e-3) and np.all(vals != 0.0), 'a sample is not one of the accepted draws', vals=vals, history=hist)
        for row in np.atleast_2d(out):
            rec.require(np.unique(row).size == size, 'a draw was returned more than once', vals=row, history=hist)


def shapes(case, rec):
    import kalepy as kale
    ndim, num = case['ndim'], case['num']
    data = np.array(gen.dataset('plain', ndim, 5), dtype=float)[:, :num]
    ww = gen.weights(case['weights'], num)
    refl = case['refl']
    lo, hi = data.min(axis=1), data.max(axis=1)
    if refl == 'all':
        refl = [[float(aa - 0.5), float(bb + 0.7)] for aa, bb in zip(lo, hi)]
    elif refl == 'some':
        refl = [[float(lo[0] - 0.4), None]] + [None]*(ndim-1)
    elif refl is True and num < 2:
        return
    given = data if (ndim > 1 or case['nested']) else data[0]
    copies = (np.array(given), None if ww is None else np.array(ww))
    kw = dict(bandwidth=0.4, covariance=gen.spd(ndim), kernel=case['kernel'])
    kde = kale.KDE(given, weights=ww, reflect=refl, **kw)
    rec.state(case)
    flat = (ndim == 1 and case['squeeze'])
    sizes = [None, 1, 4, 0, 3.0, np.int64(2), np.float64(6.0), 7.9]
    for size in sizes:
        want = num if size is None else int(size)
        shape = (want,) if flat else (ndim, want)
        args = {} if case['squeeze'] else dict(squeeze=False)
        env = rng.TreeEnv([], 6)
        with rng.active(env):
            out = np.asarray(kde.resample(size, **args))
        rec.require(out.shape == shape, 'resample(): wrong shape', got=out.shape, want=shape, size=repr(size))
        rec.step()
        np.random.seed(1234)
        out = np.asarray(kde.resample(size=size, **args))
        rec.require(out.shape == shape, 'resample(): wrong shape', got=out.shape, want=shape, size=repr(size))
        rec.require(np.all(np.isfinite(out)), 'resample(): not finite')
        rec.step()
        if case['squeeze']:
            np.random.seed(1234)
            top = kale.resample(given, size=size, weights=ww, reflect=refl, **kw)
            rec.close(top, out, 'kalepy.resample() is not KDE.resample()', rtol=0)
        # boundaries given to resample() replace those of the KDE
        for other in [False, [[float(aa - 0.2), float(bb + 0.2)] for aa, bb in zip(lo, hi)], [None]*ndim]:
            plain = kale.KDE(given, weights=ww, reflect=other if other is not False else None, **kw)
            np.random.seed(99)
            one = kde.resample(size, reflect=other, **args)
            np.random.seed(99)
            two = plain.resample(size, **args)
            rec.close(one, two, 'resample(reflect=) is not that of a KDE with this `reflect`', rtol=0)
            if other and size:
                for row, rr in zip(np.atleast_2d(one), other):
                    if rr is not None:
                        rec.require(np.all((row >= rr[0]) & (row <= rr[1])), 'sample out of bounds', size=repr(size))
    rec.equal(np.array(given), copies[0], 'resample() changed the data')
    if ww is not None:
        rec.equal(np.array(ww), copies[1], 'resample() changed the weights')
    rec.trace()


def large(case, rec):
    """One (fixed) history of more draws than fit in a chunk: number, bounds, and no point twice."""
    import kalepy as kale
    ndim, num, size = case['ndim'], case['num'], case['size']
    data = np.array(gen.dataset('plain', ndim, num), dtype=float)
    lo, hi = data.min(axis=1), data.max(axis=1)
    refl = case['refl']
    if refl == 'all':
        refl = [[float(aa - 0.5), float(bb + 0.7)] for aa, bb in zip(lo, hi)]
    elif refl == 'some':
        refl = [[float(lo[0] - 0.4), None]] + [None]*(ndim-1)
    kde = kale.KDE(data, weights=gen.weights(case['weights'], num), reflect=refl, bandwidth=0.4, covariance=gen.spd(ndim), kernel=case['kernel'])
    rec.state(case)
    np.random.seed(4321)
    out = np.asarray(kde.resample(size, squeeze=False))
    rec.equal(out.shape, (ndim, size), 'resample(): wrong shape')
    rec.require(np.all(np.isfinite(out)), 'resample(): not finite')
    for ii, rr in enumerate(refl or []):
        for loc, sg in ([] if rr is None else zip(rr, [1.0, -1.0])):
            rec.require(loc is None or np.all(sg*out[ii] >= sg*loc), 'sample out of bounds', dim=ii)
    rec.step()
    for row in out:
        rec.require(np.unique(row).size > size - 5, 'samples are repeated', repeated=size - np.unique(row).size)
    rec.trace()


def run(case, rec):
    if case['what'] == 'shape':
        shapes(case, rec)
    elif case['what'] == 'large':
        large(case, rec)
    else:
        histories(case, rec)
