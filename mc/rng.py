"""Randomness as an environment the checker decides.

``install()`` replaces the functions of ``numpy.random`` (before kalepy is imported) by dispatchers.  With
no controller active they are numpy's own functions.  With one active, every *scalar* draw made by the code
is a choice point: the controller picks one of the finitely many answers allowed there.  ``explore_law``
walks the complete tree of choices of a piece of code (stateless search: re-execute with a longer prefix)
and returns the exact output law under the quantised environment:

  continuous draws   K strata of equal probability, each represented by the quantile of its midpoint
  discrete draws     every outcome of non-zero probability, with its exact probability

Nothing is assumed about how many draws the code makes, in which order, or of which distribution.
"""

import functools

import numpy as np

_active = None
_installed = False


class Uncontrolled(Exception):
    """The code asked for a kind of randomness which is not modelled."""


class Truncated(BaseException):
    """The choice tree is deeper than the horizon (BaseException: not to be swallowed by the code)."""


NAMES = [
    'uniform', 'random', 'random_sample', 'ranf', 'sample', 'rand', 'normal', 'standard_normal', 'randn',
    'multivariate_normal', 'choice', 'randint', 'random_integers', 'poisson', 'permutation', 'shuffle',
    'exponential', 'standard_exponential', 'beta', 'gamma', 'standard_gamma', 'chisquare', 'triangular',
    'seed', 'binomial', 'multinomial', 'lognormal', 'power', 'laplace', 'dirichlet', 'bytes',
]
_GEN = ['default_rng', 'RandomState', 'Generator']


def install():
    global _installed
    if _installed:
        return
    _installed = True
    for name in NAMES + _GEN:
        orig = getattr(np.random, name, None)
        if orig is None:
            continue
        if name in _GEN:
            if name == 'default_rng':
                setattr(np.random, name, _dispatch_gen(orig))
            continue
        setattr(np.random, name, _dispatch(name, orig))


def _dispatch(name, orig):
    @functools.wraps(orig)
    def wrapper(*args, **kwargs):
        if _active is None:
            return orig(*args, **kwargs)
        return getattr(_active, name)(*args, **kwargs)
    return wrapper


def _dispatch_gen(orig):
    @functools.wraps(orig)
    def wrapper(*args, **kwargs):
        if _active is None:
            return orig(*args, **kwargs)
        return _active
    return wrapper


class active:

    def __init__(self, ctrl):
        self.ctrl = ctrl

    def __enter__(self):
        global _active
        if _active is not None:
            raise RuntimeError('nested RNG control')
        _active = self.ctrl
        return self.ctrl

    def __exit__(self, kind, err, trace):
        global _active
        _active = None
        # the code may have caught the exception that ends the exploration of this branch, and continued (or
        # failed while handling it)
        if (self.ctrl.stop is not None) and (kind is None or issubclass(kind, Exception)):
            raise self.ctrl.stop
        return False


def _shape(size):
    if size is None:
        return None
    if np.isscalar(size):
        return (int(size),)
    return tuple(int(ss) for ss in size)


class Env:
    """Base: numpy.random look-alike whose scalar draws come from `unit()` and `pick()`."""

    stop = None

    def halt(self, err):
        self.stop = err
        raise err

    def __getattr__(self, name):
        if name.startswith('_'):
            raise AttributeError(name)
        self.halt(Uncontrolled('numpy.random.' + name))

    # ---- to be provided

    def unit(self, kind):
        """One draw of a Uniform(0,1); `kind` is what it is used for."""
        raise NotImplementedError

    def pick(self, probs):
        """Index of one outcome, with the given probabilities."""
        raise NotImplementedError

    def gauss(self):
        """One standard normal draw."""
        import scipy.special
        return float(scipy.special.ndtri(self.unit('normal')))

    # ---- helpers

    def _fill(self, func, size):
        shape = _shape(size)
        if shape is None:
            return func()
        out = np.empty(shape)
        flat = out.reshape(-1)
        for ii in range(flat.size):
            flat[ii] = func()
        return out

    def _ppf(self, func, params, size):
        """`func(u, *params)` with numpy's broadcasting of parameters."""
        shape = _shape(size)
        if shape is None and all(np.ndim(pp) == 0 for pp in params):
            return func(self.unit('ppf'), *params)
        if shape is None:
            shape = np.broadcast(*params).shape
        uu = self._fill(lambda: self.unit('ppf'), shape)
        return np.asarray(func(uu, *params))

    # ---- numpy.random

    def seed(self, *args, **kwargs):
        return None

    def random(self, size=None, **kwargs):
        return self._fill(lambda: self.unit('uniform'), size)

    random_sample = ranf = sample = random

    def rand(self, *shape):
        return self.random(shape if shape else None)

    def uniform(self, low=0.0, high=1.0, size=None):
        if size is None and (np.ndim(low) or np.ndim(high)):
            size = np.broadcast(low, high).shape
        return low + (np.asarray(high) - low) * self.random(size) if size is not None or np.ndim(low) \
            else low + (high - low) * self.unit('uniform')

    def standard_normal(self, size=None, **kwargs):
        return self._fill(self.gauss, size)

    def randn(self, *shape):
        return self.standard_normal(shape if shape else None)

    def normal(self, loc=0.0, scale=1.0, size=None):
        if size is None and (np.ndim(loc) or np.ndim(scale)):
            size = np.broadcast(loc, scale).shape
        return loc + scale * self.standard_normal(size)

    def lognormal(self, mean=0.0, sigma=1.0, size=None):
        return np.exp(self.normal(mean, sigma, size))

    def multivariate_normal(self, mean, cov, size=None, **kwargs):
        mean = np.asarray(mean, dtype=float)
        cov = np.asarray(cov, dtype=float)
        shape = _shape(size) or ()
        zz = self.standard_normal(tuple(shape) + (mean.size,))
        uu, ss, vv = np.linalg.svd(cov)
        if np.allclose(cov, np.eye(mean.size)):
            return mean + zz
        return mean + zz @ (uu * np.sqrt(ss)).T

    def exponential(self, scale=1.0, size=None):
        return self._ppf(lambda uu, sc: -np.log1p(-uu) * sc, (scale,), size)

    def standard_exponential(self, size=None, **kwargs):
        return self.exponential(1.0, size)

    def beta(self, a, b, size=None):
        import scipy.special
        return self._ppf(lambda uu, aa, bb: scipy.special.betaincinv(aa, bb, uu), (a, b), size)

    def gamma(self, shape, scale=1.0, size=None):
        import scipy.special
        return self._ppf(lambda uu, aa, sc: scipy.special.gammaincinv(aa, uu) * sc, (shape, scale), size)

    def standard_gamma(self, shape, size=None, **kwargs):
        return self.gamma(shape, 1.0, size)

    def chisquare(self, df, size=None):
        return self.gamma(np.asarray(df)/2.0, 2.0, size)

    def power(self, a, size=None):
        return self._ppf(lambda uu, aa: uu ** (1.0/aa), (a,), size)

    def triangular(self, left, mode, right, size=None):
        import scipy.stats
        return self._ppf(lambda uu, ll, mm, rr: scipy.stats.triang.ppf(uu, (mm-ll)/(rr-ll), ll, rr-ll),
                         (left, mode, right), size)

    def laplace(self, loc=0.0, scale=1.0, size=None):
        import scipy.stats
        return self._ppf(lambda uu, ll, sc: scipy.stats.laplace.ppf(uu, ll, sc), (loc, scale), size)

    def choice(self, a, size=None, replace=True, p=None, **kwargs):
        pop = np.arange(a) if np.ndim(a) == 0 else np.asarray(a)
        num = len(pop)
        if num < 1:
            raise ValueError('a must be non-empty')
        probs = np.full(num, 1.0/num) if p is None else np.asarray(p, dtype=float)
        if probs.shape != (num,):
            raise ValueError("'a' and 'p' must have same size")
        if np.any(probs < 0) or not np.isclose(probs.sum(), 1.0, rtol=0, atol=1e-8) or np.any(np.isnan(probs)):
            raise ValueError('probabilities are not non-negative and do not sum to 1')
        shape = _shape(size)
        cnt = 1 if shape is None else int(np.prod(shape))
        idx = []
        left = np.array(probs)
        for ii in range(cnt):
            if left.sum() <= 0:
                raise ValueError("Cannot take a larger sample than population when 'replace=False'")
            kk = self.pick(left / left.sum())
            idx.append(kk)
            if not replace:
                left[kk] = 0.0
        if shape is None:
            return pop[idx[0]]
        return pop[np.array(idx, dtype=int)].reshape(shape + pop.shape[1:])

    def randint(self, low, high=None, size=None, dtype=int, endpoint=False):
        if high is None:
            low, high = 0, low
        low, high = int(low), int(high) + (1 if endpoint else 0)
        num = high - low
        probs = np.full(num, 1.0/num)
        shape = _shape(size)
        if shape is None:
            return low + self.pick(probs)
        return np.array([low + self.pick(probs) for _ in range(int(np.prod(shape)))], dtype=int).reshape(shape)

    integers = randint

    def random_integers(self, low, high=None, size=None):
        if high is None:
            low, high = 1, low
        return self.randint(low, high + 1, size)

    def poisson(self, lam=1.0, size=None):
        import scipy.stats
        lam = np.asarray(lam, dtype=float)
        shape = _shape(size)
        if shape is None:
            shape = lam.shape
        lams = np.broadcast_to(lam, shape).reshape(-1)
        out = []
        for ll in lams:
            kmax = int(scipy.stats.poisson.ppf(1 - 1e-4, ll)) if ll > 0 else 0
            probs = scipy.stats.poisson.pmf(np.arange(kmax+1), ll)
            out.append(self.pick(probs / probs.sum()))
        out = np.array(out, dtype=int).reshape(shape)
        return out if out.ndim else int(out)

    def binomial(self, n, p, size=None):
        import scipy.stats
        shape = _shape(size)
        cnt = 1 if shape is None else int(np.prod(shape))
        probs = scipy.stats.binom.pmf(np.arange(int(n)+1), int(n), float(p))
        out = np.array([self.pick(probs/probs.sum()) for _ in range(cnt)], dtype=int)
        return int(out[0]) if shape is None else out.reshape(shape)

    def multinomial(self, n, pvals, size=None):
        pvals = np.asarray(pvals, dtype=float)
        shape = _shape(size)
        cnt = 1 if shape is None else int(np.prod(shape))
        out = np.zeros((cnt, pvals.size), dtype=int)
        for ii in range(cnt):
            for jj in range(int(n)):
                out[ii, self.pick(pvals/pvals.sum())] += 1
        return out[0] if shape is None else out.reshape(shape + (pvals.size,))

    def _order(self, num):
        left = list(range(num))
        out = []
        while left:
            kk = self.pick(np.full(len(left), 1.0/len(left)))
            out.append(left.pop(kk))
        return np.array(out, dtype=int)

    def permutation(self, x, **kwargs):
        arr = np.arange(x) if np.ndim(x) == 0 else np.array(x)
        return arr[self._order(len(arr))]

    def shuffle(self, x, **kwargs):
        order = self._order(len(x))
        x[:] = np.array(x)[order]


class TreeEnv(Env):
    """Follows `prefix`, then takes option 0; records the options at every choice point."""

    def __init__(self, prefix, strata, horizon=100000):
        self.prefix = prefix
        self.strata = strata
        self.horizon = horizon
        self.trail = []          # (choice, options)
        self.prob = 1.0
        self._units = [(ii + 0.5)/strata for ii in range(strata)]
        import scipy.special
        self._norms = [float(vv) for vv in scipy.special.ndtri(np.array(self._units))]

    def _choose(self, num):
        pos = len(self.trail)
        if pos >= self.horizon:
            self.halt(Truncated())
        pick = self.prefix[pos] if pos < len(self.prefix) else 0
        if pick >= num:
            raise RuntimeError('divergence while replaying a choice prefix')
        self.trail.append((pick, num))
        return pick

    def unit(self, kind):
        pick = self._choose(self.strata)
        self.prob /= self.strata
        return self._units[pick]

    def gauss(self):
        pick = self._choose(self.strata)
        self.prob /= self.strata
        return self._norms[pick]

    def pick(self, probs):
        opts = [ii for ii, pp in enumerate(probs) if pp > 0.0]
        if len(opts) == 1:
            return opts[0]
        pick = self._choose(len(opts))
        kk = opts[pick]
        self.prob *= float(probs[kk])
        return kk


def next_prefix(trail):
    """Depth-first successor of a complete trail, or None."""
    trail = list(trail)
    while trail:
        pick, num = trail.pop()
        if pick + 1 < num:
            return [pp for pp, _ in trail] + [pick + 1]
    return None


def count_draws(func):
    """Number of scalar continuous draws of one default execution of `func`."""
    env = TreeEnv([], 3)
    with active(env):
        func()
    return sum(1 for _ in env.trail), env.trail


def explore_law(func, strata, horizon=100000, max_leaves=2000000):
    """All executions of `func()` in the quantised environment: yields (probability, output, trail length).

    Executions longer than `horizon` choices yield (probability of the truncated subtree, None, ...).
    """
    prefix = []
    leaves = 0
    while prefix is not None:
        env = TreeEnv(prefix, strata, horizon)
        try:
            with active(env):
                out = func()
            yield env.prob, out, len(env.trail)
        except Truncated:
            yield env.prob, None, len(env.trail)
        leaves += 1
        if leaves > max_leaves:
            raise RuntimeError('choice tree larger than {} leaves'.format(max_leaves))
        prefix = next_prefix(env.trail)
