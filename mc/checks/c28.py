"""C28: removing and adding covariance are inverse, cumulative sums and summaries are right, for all small arrays."""

import itertools
import re

import numpy as np

from mc import gen

ID = 'C28'
TITLE = 'Covariance, cumulative sum and summary helpers match their definitions'
BOUNDS = dict(
    quick='covariances of 1-4 dims (4 families) x data of 1-20 points; every subset of kept parameters; every shape of 1-3 entries in 1-4 dims x axes x dtypes; '
          'every sample of 1-5 values from 4; text of every length up to 9 x number shown',
    thorough='as quick with every sample of up to 6 values from 5',
)
ASSUMPTIONS = ['summaries of integer data show quantiles truncated to integers, and are not compared']


def cases(tier):
    quick = (tier == 'quick')
    out = []
    for ndim in [1, 2, 3, 4]:
        for cov in ['full', 'diag', 'scales', 'near']:
            out.append(dict(what='cov', ndim=ndim, cov=cov))
    for ndim in [1, 2, 3, 4]:
        out.append(dict(what='cumsum', ndim=ndim))
    for num in range(1, 6 if quick else 7):
        for first in [-1.5, 0.0, 2.0, 40.0] + ([] if quick else [1e-4]):
            out.append(dict(what='stats', num=num, first=first, quick=quick))
    out.append(dict(what='text'))
    return out


def matrix(kind, ndim):
    full = np.array([[1.0, 0.4, -0.3, 0.2], [0.4, 2.0, 0.5, -0.6], [-0.3, 0.5, 1.5, 0.1], [0.2, -0.6, 0.1, 0.7]])[:ndim, :ndim]
    if kind == 'full':
        return full
    if kind == 'diag':
        return np.diag(np.diag(full))
    scale = 10.0**np.array([-3, 2, 0, 1])[:ndim]
    if kind == 'scales':
        return full*np.outer(scale, scale)
    return np.full((ndim, ndim), 0.95) + 0.05*np.eye(ndim)


def run(case, rec):
    globals()['run_' + case['what']](case, rec)


def run_cov(case, rec):
    from kalepy import utils
    ndim = case['ndim']
    cov = matrix(case['cov'], ndim)
    tol = dict(rtol=1e-8, atol=1e-10*np.sqrt(np.diag(cov).max()))
    for num in [1, 2, ndim + 1, ndim + 2, 8, 20]:
        data = gen.dataset('plain', ndim, num)
        rec.state(case, num)
        keep, mat = np.array(data), np.array(cov)
        cold = utils.add_cov(data, cov)
        back = utils.rem_cov(cold, cov)
        rec.close(back, data, 'covariance added and removed', rtol=1e-8, atol=1e-8)
        rec.close(utils.add_cov(utils.rem_cov(data, cov), cov), data, 'covariance removed and added', rtol=1e-8, atol=1e-8)
        rec.close(utils.add_cov(2.0*data, cov), 2.0*cold, 'add_cov() is linear', **tol)
        rec.equal(data, keep, 'data are modified')
        rec.equal(cov, mat, 'covariance is modified')
        # any square root of the covariance will do: unit vectors give it
        root = utils.add_cov(np.eye(ndim), cov)
        scale = np.sqrt(np.outer(np.diag(cov), np.diag(cov)))
        rec.close(root.dot(root.T)/scale, cov/scale, 'add_cov() has the covariance', rtol=1e-9, atol=1e-10)
        rec.close(cold, root.dot(data), 'add_cov() is linear in the data', **tol)
        if num > ndim + 1:
            for scaled in [data, cold]:
                white = utils.rem_cov(scaled)
                rec.close(np.atleast_2d(np.cov(white)), np.eye(ndim), 'rem_cov() leaves unit covariance', rtol=1e-6, atol=1e-6)
                rec.close(utils.add_cov(white, np.atleast_2d(np.cov(scaled))), scaled, 'sample covariance removed and added', rtol=1e-7, atol=1e-7*np.abs(scaled).max())
        rec.trace()
    inv = utils.matrix_invert(cov)
    rec.close(inv.dot(cov), np.eye(ndim), 'matrix_invert()', rtol=1e-7, atol=1e-7)
    # singular: Moore-Penrose
    sing = np.array(cov)
    sing[0, :] = 0.0
    sing[:, 0] = 0.0
    pinv = utils.matrix_invert(sing, helper=False)
    norm = np.abs(sing).max()
    rec.close(sing.dot(pinv).dot(sing)/(norm or 1.0), sing/(norm or 1.0), 'matrix_invert() of a singular matrix', rtol=1e-7, atol=1e-7)
    for size in range(ndim + 1):
        for kept in itertools.combinations(range(ndim), size):
            rec.state(case, 'keep', kept)
            want = np.array(cov)
            want[list(kept), :] = 0.0
            want[:, list(kept)] = 0.0
            forms = [list(kept), np.array(kept, dtype=int)] + ([kept[0]] if size == 1 else []) + ([True] if size == ndim else []) \
                + ([None, False] if size == 0 else [])
            for form in forms:
                rec.close(utils.cov_keep_vars(cov, form), want, 'cov_keep_vars()', rtol=0, keep=repr(form))
                rec.equal(cov, mat, 'covariance is modified')
                for refl in itertools.product([None, [0.0, 1.0]], repeat=ndim):
                    if any(refl[kk] is not None for kk in kept):
                        rec.raises(ValueError, lambda: utils.cov_keep_vars(cov, form, reflect=list(refl)), 'keep and reflect')
                    else:
                        rec.close(utils.cov_keep_vars(cov, form, reflect=list(refl)), want, 'cov_keep_vars() with reflect', rtol=0)
            rec.trace()


def run_cumsum(case, rec):
    from kalepy import utils
    ndim = case['ndim']
    for shape in itertools.product([1, 2, 3], repeat=ndim):
        for dtype in [float, int]:
            vals = np.array([(7*ii + 3) % 11 - 4 + (0.5 if dtype is float else 0) for ii in range(int(np.prod(shape)))], dtype=dtype).reshape(shape)
            for given in [vals, vals.tolist(), np.asfortranarray(vals)]:
                for axis in [None] + list(range(-ndim, ndim)):
                    rec.state(case, shape, str(dtype), axis)
                    want = np.zeros(shape)
                    axes = range(ndim) if axis is None else [axis % ndim]
                    for idx in np.ndindex(*shape):
                        sel = tuple(slice(0, ii+1) if dd in axes else slice(ii, ii+1) for dd, ii in enumerate(idx))
                        want[idx] = np.sum(vals[sel])
                    before = np.array(vals)
                    rec.close(utils.cumsum(given, axis=axis), want, 'cumsum()', axis=axis, shape=shape)
                    rec.equal(vals, before, 'values are modified')
            rec.trace()


def quantile(values, ww, frac):
    order = np.argsort(values, kind='stable')
    values, ww = np.array(values)[order], np.array(ww)[order]
    mid = (np.cumsum(ww) - 0.5*ww)/np.sum(ww)
    return float(np.interp(frac, mid, values))


def numbers(text):
    return [float(xx) for xx in re.findall(r'[-+]?(?:\d+\.?\d*(?:e[-+]?\d+)?|nan|inf)', text)]


def run_stats(case, rec):
    from kalepy import utils
    letters = [-1.5, 0.0, 2.0, 40.0] + ([] if case['quick'] else [1e-4])
    percs = [0.0, 0.16, 0.5, 0.84, 1.0]
    for rest in itertools.product(letters, repeat=case['num']-1):
        vals = [case['first']] + list(rest)
        rec.state('stats', vals)
        data = np.array(vals)
        ones = np.ones(len(vals))
        rec.close(utils.iqrange(data), quantile(vals, ones, 0.75) - quantile(vals, ones, 0.25), 'iqrange()', rtol=1e-9, atol=1e-12)
        if min(vals) > 0:
            logs = np.log10(vals)
            rec.close(utils.iqrange(data, log=True), quantile(logs, ones, 0.75) - quantile(logs, ones, 0.25), 'iqrange() of logs', rtol=1e-9, atol=1e-12)
        if len(set(vals)) == len(vals):
            ww = 1.0 + np.arange(len(vals)) % 3
            rec.close(utils.iqrange(data, weights=ww), quantile(vals, ww, 0.75) - quantile(vals, ww, 0.25), 'weighted iqrange()', rtol=1e-9, atol=1e-12)
            pos = 10.0 ** (data / 10.0)
            rec.close(utils.iqrange(pos, log=True, weights=ww), (quantile(vals, ww, 0.75) - quantile(vals, ww, 0.25)) / 10.0, 'weighted iqrange() of logs',
                      rtol=1e-7, atol=1e-9)
        for form, tol in [(None, None), (':.4f', 6e-5), ('.3e', None), ('.10g', 1e-7)]:
            for ave, std in itertools.product([False, True], repeat=2):
                text = utils.stats_str(data, ave=ave, std=std, format=form)
                want = ([np.mean(vals)] if ave else []) + ([np.std(vals)] if std else []) + [quantile(vals, ones, pp) for pp in percs]
                rec.require(('ave' in text) == ave and ('std' in text) == std, 'stats_str() labels', text=text)
                got = numbers(text.split(', for (')[0])
                rec.require(len(got) == len(want), 'stats_str() has the wrong number of values', text=text)
                # values are displayed with two to four digits
                rec.close(got, want, 'stats_str() values', rtol=6e-3, atol=6e-3 if tol is None else tol, text=text)
                labels = numbers(text.split(', for (')[1])
                rec.close(labels, [0, 16, 50, 84, 100], 'stats_str() labels of percentiles', rtol=0)
        rec.trace()


def run_text(case, rec):
    from kalepy import utils
    for size in range(0, 10):
        data = [1.25*ii - 2.0 for ii in range(size)]
        for num in [None, 0, 1, 2, 3, 4]:
            if num == 0 and size > 0:
                continue
            for given in [data, np.array(data), tuple(data)]:
                rec.state('text', size, num)
                text = utils.array_str(given, num=num, format=':.4f')
                rec.step()
                cut = (num is not None) and size > 2*num
                want = data if not cut else data[:num] + data[-num:]
                rec.require(('...' in text) == cut, 'array_str() is shortened', text=text, num=num)
                rec.require(text.startswith('[') and text.endswith(']'), 'array_str() brackets', text=text)
                rec.close(numbers(text.replace('...', ' ')), want, 'array_str() values', rtol=1e-4, atol=1e-4, text=text)
    for lo, hi, num in itertools.product([-2.0, 0.0, 1], [3.0, 10], [2, 3, 7]):
        rec.state('bins', lo, hi, num)
        xe, xc, dx = utils.bins(lo, hi, num)
        want = np.array([lo + (hi - lo)*ii/(num - 1) for ii in range(num)])
        rec.close(xe, want, 'bins() edges')
        rec.close(xc, 0.5*(want[1:] + want[:-1]), 'bins() centers')
        rec.close(dx, np.full(num-1, (hi - lo)/(num - 1)), 'bins() widths')
    for nums in itertools.product([1, 2, 3], repeat=3):
        axes = [np.arange(nn) + 0.5*ii for ii, nn in enumerate(nums)]
        got = utils.meshgrid(*axes)
        for ii, gg in enumerate(got):
            for idx in np.ndindex(*nums):
                rec.require(gg[idx] == axes[ii][idx[ii]], 'meshgrid() is in matrix order', shape=nums)
        rec.step()
    rec.equal(utils.run_if_script(lambda xx: xx + 1, 3), 4, 'run_if_script()')
    rec.equal(utils.run_if_notebook(lambda xx: xx + 1, 3), None, 'run_if_notebook()')
    rec.equal(utils.run_if_notebook(lambda xx: xx + 1, 3, otherwise=lambda xx: -xx), -3, 'run_if_notebook() otherwise')
    rec.trace()
