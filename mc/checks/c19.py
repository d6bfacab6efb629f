"""C19: quantiles and histograms of all small weighted samples agree with their definitions."""

import itertools

import numpy as np
import scipy.stats

from mc import core

ID = 'C19'
TITLE = 'Weighted quantiles and histograms of any sample follow their definitions'
BOUNDS = dict(
    quick='every ordered sample of 1-5 values from {-2,0,1,4} with 4 weightings (all weightings from {1,2,5} for 3 values), 11 percentiles, '
          'every axis of 2D arrays up to 3x4; every sample of 1-4 values with every set of 1-4 bins from 5 edges; samples of 1e3 to 2e4 values',
    thorough='samples of 1-6 values from {-2,0,1,4,7}; all weightings from {1,2,5} for 4 values',
)
ASSUMPTIONS = ['quantiles are interpolated between the sorted values, located at the middle of their share of the total weight']

PERCS = [0.0, 0.05, 0.1587, 0.25, 0.4, 0.5, 0.6, 0.75, 0.8413, 0.95, 1.0]


def cases(tier):
    quick = (tier == 'quick')
    vals = [-2.0, 0.0, 1.0, 4.0] if quick else [-2.0, 0.0, 1.0, 4.0, 7.0]
    out = []
    for num in range(1, 6 if quick else 7):
        for first in vals:
            for ww in [None, 'ramp', 'zero', 'skew']:
                out.append(dict(what='quantile', num=num, first=first, vals=vals, weights=ww))
    for num in [2, 3] if quick else [2, 3, 4]:
        for first in vals:
            out.append(dict(what='quantile', num=num, first=first, vals=vals, weights='all'))
    for shape in itertools.product([1, 2, 3], [1, 2, 3, 4]):
        for ww in [None, 'ramp', 'skew']:
            for dtype in ['float', 'int']:
                out.append(dict(what='axis', shape=list(shape), weights=ww, dtype=dtype))
    for num in range(1, 5 if quick else 6):
        for first in vals[:4]:
            for ww in [None, 'ramp', 'zero', 'ints']:
                out.append(dict(what='hist', num=num, first=first, vals=vals[:4], weights=ww))
    for num in [1, 2, 5, 12, 40]:
        for ww in [None, 'ramp', 'zero', 'ints']:
            out.append(dict(what='auto', num=num, weights=ww))
    for num in [1000, 4099, 20011]:
        for ww in [None, 'ramp', 'ints', 'skew']:
            out.append(dict(what='large', num=num, weights=ww))
    return out


def weights(kind, num):
    jj = np.arange(num)
    if kind is None:
        return None
    if kind == 'ramp':
        return 0.5 + jj
    if kind == 'ints':
        return 1 + (jj*2) % 3
    if kind == 'zero':
        out = np.ones(num)
        out[0] = 0.0 if num > 1 else 1.0
        return out
    if kind == 'skew':
        return np.where(jj == num//2, 10.0, 0.1)


def reference(values, percs, ww):
    """By hand: piecewise-linear through (middle of cumulative share, value)."""
    pairs = sorted(zip(values, ww), key=lambda vw: vw[0])
    tot = sum(vw[1] for vw in pairs)
    pos, cum = [], 0.0
    for vv, wi in pairs:
        pos.append((cum + 0.5*wi)/tot)
        cum += wi
    out = []
    for pp in percs:
        if pp <= pos[0]:
            out.append(pairs[0][0])
        elif pp >= pos[-1]:
            out.append(pairs[-1][0])
        else:
            kk = max(ii for ii in range(len(pos)) if pos[ii] <= pp)
            frac = (pp - pos[kk])/(pos[kk+1] - pos[kk])
            out.append(pairs[kk][0] + frac*(pairs[kk+1][0] - pairs[kk][0]))
    return np.array(out)


def run(case, rec):
    from kalepy import utils
    num = case.get('num')
    if case['what'] == 'quantile':
        ws = [weights(case['weights'], num)]
        if case['weights'] == 'all':
            ws = [np.array(ww, dtype=float) for ww in itertools.product([1, 2, 5], repeat=num)]
        for rest in itertools.product(case['vals'], repeat=num-1):
            values = np.array([case['first']] + list(rest))
            for ww in ws:
                own = np.ones(num) if ww is None else ww
                # ties share their weight: only the order of equal values with different weights is not defined
                tied = any(len(set(own[values == vv])) > 1 for vv in values)
                copies = np.array(values), np.array(own)
                got = np.asarray(utils.quantiles(values, percs=PERCS, weights=ww))
                rec.state(values, own)
                rec.require(got.shape == (len(PERCS),), 'quantiles(): wrong shape', got=got.shape)
                rec.require(np.all(np.diff(got) >= -1e-12), 'quantiles are not monotonic', values=values, weights=own, got=got)
                rec.require(got.min() >= values.min() and got.max() <= values.max(), 'quantiles outside of the sample', values=values)
                if not tied:
                    rec.close(got, reference(values, PERCS, own), 'quantiles()', rtol=1e-9, atol=1e-9, values=values, weights=own)
                    order = np.argsort(values, kind='stable')[::-1]
                    rec.close(utils.quantiles(values[order], percs=PERCS, weights=None if ww is None else own[order]), got,
                              'quantiles depend on the order of the sample', rtol=1e-9, atol=1e-9)
                    rec.close(utils.quantiles(values.tolist(), percs=PERCS, weights=None if ww is None else own.tolist()), got, 'quantiles of lists')
                order = np.argsort(values, kind='stable')
                rec.close(utils.quantiles(values[order], percs=PERCS, weights=None if ww is None else own[order], values_sorted=True),
                          reference(values[order], PERCS, own[order]) if not tied else
                          utils.quantiles(values[order], percs=PERCS, weights=None if ww is None else own[order]), 'quantiles(values_sorted=True)',
                          rtol=1e-9, atol=1e-9)
                rec.close(utils.quantiles(values, percs=PERCS, weights=3.0*own), got, 'quantiles depend on the scale of the weights',
                          rtol=1e-9, atol=1e-9)
                sigs = [-2.0, -1.0, 0.0, 0.5, 3.0]
                rec.close(utils.quantiles(values, sigmas=sigs, weights=ww), utils.quantiles(values, percs=scipy.stats.norm.cdf(sigs), weights=ww),
                          'quantiles(sigmas=)')
                rec.close(utils.iqrange(values, weights=ww), np.diff(utils.quantiles(values, percs=[0.25, 0.75], weights=ww))[0], 'iqrange()',
                          atol=1e-12)
                rec.equal((values, own), copies, 'quantiles() changed its input')
        rec.trace()
        return
    if case['what'] == 'large':
        values = np.sin(1.0 + np.arange(num)**1.5)*3.0
        ww = weights(case['weights'], num)
        own = np.ones(num) if ww is None else np.asarray(ww, dtype=float)
        rec.state(case)
        want = reference(values, PERCS, own)
        rec.close(utils.quantiles(values, percs=PERCS, weights=ww), want, 'quantiles()', rtol=1e-9, atol=1e-9)
        edges = np.linspace(-2.5, 3.0, 41)
        want = [own[(values >= aa) & ((values < bb) if bb < 3.0 else (values <= bb))].sum() for aa, bb in zip(edges[:-1], edges[1:])]
        rec.close(utils.histogram(values, bins=edges, weights=ww)[0], want, 'histogram()', rtol=1e-9)
        rec.trace()
        return

    if case['what'] == 'axis':
        shape = case['shape']
        values = np.sin(2.3*np.arange(np.prod(shape)) + 0.4).reshape(shape)*10
        if case['dtype'] == 'int':
            values = values.astype(int)
        ww = weights(case['weights'], int(np.prod(shape)))
        ww = None if ww is None else ww.reshape(shape)
        own = np.ones(shape) if ww is None else ww
        rec.state(case)
        for ax in [0, 1, -1]:
            got = np.asarray(utils.quantiles(values, percs=PERCS, weights=ww, axis=ax))
            want = []
            for ii in range(shape[1 - ax if ax >= 0 else 0]):
                want.append(np.take(values, ii, axis=1 - ax if ax >= 0 else 0))
            wws = [np.take(own, ii, axis=1 - ax if ax >= 0 else 0) for ii in range(len(want))]
            for vv, wi, gg in zip(want, wws, got):
                if any(len(set(wi[vv == xx])) > 1 for xx in vv):
                    continue
                rec.close(gg, reference(vv, PERCS, wi), 'quantiles(axis=)', rtol=1e-9, atol=1e-9, axis=ax)
            rec.require(got.shape == (len(want), len(PERCS)), 'quantiles(axis=): wrong shape', got=got.shape, axis=ax)
        if not any(len(set(own[values == xx])) > 1 for xx in values.ravel()):
            rec.close(utils.quantiles(values, percs=PERCS, weights=ww), reference(values.ravel(), PERCS, own.ravel()), 'quantiles() of an array', rtol=1e-9,
                      atol=1e-9)
        rec.trace()
        return

    if case['what'] == 'auto':
        values = 3.0*np.sin(1.1*np.arange(num)**1.3) + 0.01*np.arange(num)
        ww = weights(case['weights'], num)
        own = np.ones(num) if ww is None else np.asarray(ww, dtype=float)
        rec.state(case)
        for bins in [None, 4, 'auto'] if ww is None else [None, 4]:
            hist, edges = utils.histogram(values, bins=bins, weights=ww)
            rec.require(len(edges) == len(hist) + 1 and np.all(np.diff(edges) > 0), 'histogram(): bad edges', bins=bins)
            rec.close(np.sum(hist), own.sum(), 'histogram() with automatic bins loses points', rtol=1e-9, bins=bins)
            dens, _ = utils.histogram(values, bins=bins, weights=ww, density=True, probability=True)
            rec.close(np.sum(dens*np.diff(edges)), 1.0, 'histogram(density, probability) does not integrate to one', rtol=1e-9, bins=bins)
        rec.trace()
        return

    edges_all = [-3.0, -2.0, 0.5, 4.0, 6.0]
    ww = weights(case['weights'], num)
    own = np.ones(num) if ww is None else np.asarray(ww, dtype=float)
    for rest in itertools.product(case['vals'], repeat=num-1):
        values = np.array([case['first']] + list(rest))
        for nb in range(2, 6):
            for edges in itertools.combinations(edges_all, nb):
                rec.state(values, own, edges)
                want = np.zeros(nb - 1)
                for vv, wi in zip(values, own):
                    for bb in range(nb - 1):
                        if edges[bb] <= vv < edges[bb+1] or (bb == nb - 2 and vv == edges[-1]):
                            want[bb] += wi
                wid = np.diff(edges)
                for dens, prob in itertools.product([False, True], repeat=2):
                    hist, ee = utils.histogram(values, bins=list(edges), weights=ww, density=dens, probability=prob)
                    ref = want/(wid if dens else 1.0)/(own.sum() if prob else 1.0)
                    rec.close(hist, ref, 'histogram()', rtol=1e-9, atol=1e-12, values=values, edges=edges, density=dens, probability=prob)
                    rec.close(ee, edges, 'histogram() edges')
                hist, ee = utils.histogram(values.tolist(), bins=np.array(edges), weights=None if ww is None else own.tolist())
                rec.close(hist, want, 'histogram() of lists', rtol=1e-9)
    rec.trace()
