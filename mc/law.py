"""Output laws of random code, by walking its complete choice tree, and their comparison with a density."""

import numpy as np

from mc import rng


class Law:

    def __init__(self, prob, vals, lost, strata, draws, leaves):
        self.prob = prob          # probability of every leaf
        self.vals = vals          # (leaves, ...) outputs
        self.lost = lost          # probability of the truncated leaves
        self.strata = strata
        self.draws = draws
        self.leaves = leaves

    def mean(self, func):
        """Expectation of func(vals) (given that the run was not truncated)."""
        ff = func(self.vals)
        pp = self.prob / self.prob.sum()
        return np.tensordot(pp, ff, axes=(0, 0))


def walk(func, budget, rec, horizon=None, strata=None, kmin=2, kmax=200):
    """Law of `func()`; the number of strata is the largest which keeps the tree within `budget` leaves."""
    try:
        env = rng.TreeEnv([], 2, 100000)
        with rng.active(env):
            first = np.array(func(), dtype=float)
        env2 = rng.TreeEnv([], 2, 100000)
        with rng.active(env2):
            again = np.array(func(), dtype=float)
    except rng.Uncontrolled as err:
        rec.note('randomness not modelled: {}'.format(err))
        return None
    if first.shape != again.shape or not np.array_equal(first, again, equal_nan=True):
        rec.note('randomness outside of the modelled environment')
        return None
    # continuous choice points show up with 2 options at K=2, and with 5 at K=5
    env3 = rng.TreeEnv([], 5, 100000)
    with rng.active(env3):
        func()
    trail = [nn for _, nn in env3.trail]
    trail2 = [nn for _, nn in env.trail]
    ndisc, ncont = 1.0, 0
    for aa, bb in zip(trail, trail2):
        if aa == 5 and bb == 2:
            ncont += 1
        else:
            ndisc *= aa
    if horizon is not None:
        horizon = int(horizon * len(trail)) if isinstance(horizon, float) else horizon
    if strata is None:
        strata = kmax if ncont == 0 else int((budget / ndisc) ** (1.0/ncont) + 1e-9)
        strata = int(np.clip(strata, kmin, kmax))
        strata += strata % 2        # even: the median (a singular direction, for normal draws) is not a stratum
    probs, vals, lost, leaves = [], [], 0.0, 0
    for pp, out, nn in rng.explore_law(func, strata, horizon=horizon or 100000, max_leaves=int(50*budget) + 1000):
        leaves += 1
        if out is None:
            lost += pp
            continue
        probs.append(pp)
        vals.append(np.array(out, dtype=float))
    rec.step(leaves)
    rec.trace(leaves)
    rec.count('choice_tree_leaves', leaves)
    prob = np.array(probs)
    if not np.isclose(prob.sum() + lost, 1.0, rtol=0, atol=1e-6):
        rec.fail('probabilities of the choice tree do not add up', total=float(prob.sum() + lost))
    shapes = set(vv.shape for vv in vals)
    if len(shapes) != 1:
        rec.fail('output shape depends on the random draws', shapes=sorted(map(str, shapes)))
    return Law(prob, np.array(vals), lost, strata, ncont, leaves)


def bumps(centers, widths):
    """func(vals (n, D)) -> (n, B): Gaussian windows at `centers` (B, D)."""
    centers = np.asarray(centers, dtype=float)
    widths = np.asarray(widths, dtype=float)

    def func(vals):
        out = np.empty((len(vals), len(centers)))
        for ii, cc in enumerate(centers):
            out[:, ii] = np.exp(-0.5*np.sum(((vals - cc)/widths)**2, axis=-1))
        return out

    return func


def expect(density, lo, hi, num, funcs):
    """Numerical expectation of every func over a (not necessarily normalized) density on a box; and total mass."""
    edges = [np.linspace(ll, hh, num + 1) for ll, hh in zip(lo, hi)]
    mids = [0.5*(ee[1:] + ee[:-1]) for ee in edges]
    cell = np.array([mm.ravel() for mm in np.meshgrid(*mids, indexing='ij')])
    vol = np.prod([ee[1] - ee[0] for ee in edges])
    pp = density(cell)*vol
    tot = pp.sum()
    return [np.tensordot(pp, ff(cell.T), axes=(0, 0))/tot for ff in funcs], tot
