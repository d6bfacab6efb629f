"""C21: extrema, spacings, subdivisions, midpoints and bounds of all small inputs."""

import itertools

import numpy as np

from mc import gen

ID = 'C21'
TITLE = 'Extrema, spacing, midpoints, subdivision and bounds keep their contracts'
BOUNDS = dict(
    quick='every sample of 1-4 values from 6 (or 5 integers), with every combination of stretch (4), log-stretch (3), previous (5), limit (6), positive; '
          'arrays of 1-3 dims of 1-4 entries along every axis subset; every sample of 1-3 values with bounds from 5 values or None in 1-2 dims',
    thorough='as quick with samples of 1-5 values and arrays up to 5 entries',
)
ASSUMPTIONS = ['bounds are compared in the open interior and exterior; with `outside`, in one dimension']

VALS = [-3.0, -0.5, 0.25, 1.0, 2.0, 50.0]
INTS = [-3, 0, 1, 2, 50]


def cases(tier):
    quick = (tier == 'quick')
    out = []
    for num in range(1, 5 if quick else 6):
        for first in VALS:
            out.append(dict(what='minmax', num=num, first=first))
        for first in INTS:
            out.append(dict(what='minmax', num=num, first=first, ints=True))
    for ndim in [1, 2, 3]:
        for shape in itertools.product([2, 3, 4] if quick else [2, 3, 4, 5], repeat=ndim):
            out.append(dict(what='mid', shape=list(shape)))
    for num in range(2, 6):
        for div in range(1, 6 if quick else 10):
            out.append(dict(what='divide', num=num, div=div))
    for scale in ['log', 'lin', 'linear', 'logarithmic']:
        for lo, hi in itertools.product([1e-3, 0.2, 1.0, 7.0], [9.0, 10.0, 1.2e3]):
            out.append(dict(what='spacing', scale=scale, lo=lo, hi=hi))
    for num in [1, 2, 3]:
        for ndim in [1, 2]:
            for lo in [None, -1.0, 0.25]:
                out.append(dict(what='bound', num=num, ndim=ndim, lo=lo))
    return out


def minmax(case, rec):
    from kalepy import utils
    for rest in itertools.product(INTS if case.get('ints') else VALS, repeat=case['num']-1):
        values = np.array([case['first']] + list(rest))
        rec.state('minmax', values)
        for positive, stretch, prev, limit in itertools.product(
                [False, True], [None, 0.0, 0.5, [0.1, 2.0], 'log0.5', 'log[0,1]'], [None, [0.0, 1.0], [None, 100.0], [-9.0, None], [None, None]],
                [None, [-1.0, 1.5], [None, 1.0], [0.5, None], [None, None], [-100.0, 100.0]]):
            log = isinstance(stretch, str)
            sel = values[values > 0] if positive else values
            if sel.size == 0 or (log and np.any(sel <= 0)):
                continue
            lo, hi = float(sel.min()), float(sel.max())
            kw = {}
            if stretch is not None:
                fact = stretch
                if log:
                    fact = 0.5 if stretch == 'log0.5' else [0.0, 1.0]
                f0, f1 = (fact, fact) if np.isscalar(fact) else fact
                kw['log_stretch' if log else 'stretch'] = fact
                if log:
                    mid, half = 0.5*(np.log10(lo) + np.log10(hi)), 0.5*(np.log10(hi) - np.log10(lo))
                    lo, hi = 10**(mid - (1 + f0)*half), 10**(mid + (1 + f1)*half)
                else:
                    mid, half = 0.5*(lo + hi), 0.5*(hi - lo)
                    lo, hi = mid - (1 + f0)*half, mid + (1 + f1)*half
            if prev is not None:
                lo = lo if prev[0] is None else min(lo, prev[0])
                hi = hi if prev[1] is None else max(hi, prev[1])
            if limit is not None:
                lo = lo if limit[0] is None else max(lo, limit[0])
                hi = hi if limit[1] is None else min(hi, limit[1])
            copies = repr((prev, limit, kw)), np.array(values)
            got = utils.minmax(values, positive=positive, prev=prev, limit=limit, **kw)
            rec.close(got, [lo, hi], 'minmax()', rtol=1e-10, atol=1e-12, values=values, positive=positive, stretch=stretch, prev=prev, limit=limit)
            rec.require(repr((prev, limit, kw)) == copies[0], 'minmax() changed its arguments')
            rec.equal(values, copies[1], 'minmax() changed the data')
        for prev in [None, [0.0, 1.0]]:
            got = utils.minmax([], prev=prev)
            rec.require(got is None if prev is None else list(got) == prev, 'minmax() of nothing is not the previous extrema')
    rec.raises(ValueError, lambda: utils.minmax(values, stretch=0.1, log_stretch=0.1), 'two stretches')
    rec.trace()


def mid(case, rec):
    from kalepy import utils
    shape = case['shape']
    ndim = len(shape)
    arr = (1.0 + np.arange(np.prod(shape))**1.5).reshape(shape)
    rec.state(case)
    subsets = [None] + [list(cc) for num in range(1, ndim+1) for cc in itertools.combinations(range(ndim), num)]
    for data in [arr, (arr*3).astype(int)]:
        for log in [False, True]:
            src = np.log10(data) if log else data.astype(float)
            for axes in subsets:
                want = src
                for ax in (range(ndim) if axes is None else axes):
                    ww = np.moveaxis(want, ax, 0)
                    want = np.moveaxis(np.array([0.5*(ww[ii] + ww[ii+1]) for ii in range(len(ww)-1)]), 0, ax)
                want = 10.0**want if log else want
                args = [axes] if axes is None else [axes, tuple(axes)] + ([axes[0]] if len(axes) == 1 else [])
                if axes == [ndim-1]:
                    args.append(-1)
                for ax in args:
                    rec.close(utils.midpoints(data, log=log, axis=ax), want, 'midpoints()', rtol=1e-11, axis=repr(ax), log=log)
                    rec.close(utils.midpoints(data, log=log, axis=ax, squeeze=True), want.squeeze(), 'midpoints(squeeze=True)', rtol=1e-11)
                if axes == [ndim-1]:
                    rec.close(utils.midpoints(data, log=log), want, 'midpoints() along the last axis', rtol=1e-11)
    rec.equal(arr, (1.0 + np.arange(np.prod(shape))**1.5).reshape(shape), 'midpoints() changed its input')
    if ndim == 1:
        rec.close(utils.midpoints(arr.tolist()), 0.5*(arr[1:] + arr[:-1]), 'midpoints() of a list')
    # linspace with centers and widths
    if ndim == 2:
        for lo, hi in [(0.0, 1.0), (-3.0, 9.0)]:
            xe, xc, dx = utils.bins(lo, hi, shape[0])
            rec.close(xe, np.linspace(lo, hi, shape[0]), 'bins() edges')
            rec.close(xc, 0.5*(xe[1:] + xe[:-1]), 'bins() centers', atol=1e-12)
            rec.close(dx, np.diff(xe), 'bins() widths')
    # 'ij' meshes
    edges = [np.arange(nn) + 0.1*dd for dd, nn in enumerate(shape)]
    mesh = utils.meshgrid(*edges)
    for dd in range(ndim):
        rec.require(np.shape(mesh[dd]) == tuple(shape), 'meshgrid(): wrong shape', got=np.shape(mesh[dd]), want=shape)
        for idx in np.ndindex(*shape):
            rec.require(mesh[dd][idx] == edges[dd][idx[dd]], 'meshgrid(): wrong order', idx=idx, dim=dd)
    rec.trace()


def divide(case, rec):
    from kalepy import utils
    num, div = case['num'], case['div']
    rec.state(case)
    for base in [np.cumsum(1.0 + np.arange(num)), 10.0**np.arange(num) * 1e-2, np.arange(1, num+1), 5.0 - 1.3*np.arange(num)]:
        for log in [False, True]:
            if log and np.any(base <= 0):
                continue
            src = np.log10(base) if log else base.astype(float)
            want = []
            for ii in range(num-1):
                want += [src[ii] + (src[ii+1] - src[ii])*kk/(div+1) for kk in range(div+1)]
            want.append(src[-1])
            want = 10.0**np.array(want) if log else np.array(want)
            for given in [base, base.tolist(), tuple(base)]:
                rec.close(utils.subdivide(given, num=div, log=log), want, 'subdivide()', rtol=1e-10, atol=1e-12, log=log)
    rec.trace()


def spacing(case, rec):
    from kalepy import utils
    lo, hi, scale = case['lo'], case['hi'], case['scale']
    log = scale.startswith('log')
    data = np.array([hi, lo, 0.5*(lo + hi)])
    rec.state(case)
    for num in [2, 3, 10, 7.0]:
        got = utils.spacing(data, scale, num=num)
        want = np.logspace(np.log10(lo), np.log10(hi), int(num)) if log else np.linspace(lo, hi, int(num))
        rec.close(got, want, 'spacing()', rtol=1e-10)
    whole = np.array([3, 40, 7])
    rec.close(utils.spacing(whole, scale, num=4), np.logspace(np.log10(3), np.log10(40), 4) if log else np.linspace(3, 40, 4),
              'spacing() of integers', rtol=1e-10)
    got = utils.spacing(whole, scale, num=3, **{'log_stretch' if log else 'stretch': 0.1})
    mid, half = (0.5*np.log10(3*40), 0.55*np.log10(40/3)) if log else (21.5, 1.1*18.5)
    want = [mid - half, mid, mid + half]
    rec.close(got, 10.0**np.array(want) if log else want, 'stretched spacing() of integers', rtol=1e-10)
    got = utils.spacing(data, scale)
    rec.close([got[0], got[-1]], [lo, hi], 'spacing() does not span the data', rtol=1e-10)
    step = np.diff(np.log10(got) if log else got)
    rec.close(step, np.full(step.size, step.mean()), 'spacing() is not even', rtol=1e-8)
    if log:
        for dex in [3, 10]:
            got = utils.spacing(data, scale, dex=dex)
            rec.require(np.all(np.diff(np.log10(got)) <= 1.0/dex + 1e-9), 'spacing(): fewer points per decade than asked for', dex=dex)
        for decades in [1, 2, 5]:
            for dex in [1, 2, 4, 10]:
                got = utils.spacing([lo, lo*10.0**decades], scale, dex=dex)
                # (rounding may add one)
                rec.require(decades*dex + 1 <= len(got) <= decades*dex + 2 and (len(got) == decades*dex + 1 or lo not in (1.0, 0.5)),
                            'spacing(): not the points per decade asked for', dex=dex, decades=decades, got=len(got))
    got = utils.spacing(data, scale, num=4, limit=[None, 8.0])
    rec.close(got[-1], 8.0, 'spacing() beyond the limit', rtol=1e-10)
    got = utils.spacing(data, scale, num=4, stretch=0.5) if not log else utils.spacing(data, scale, num=4, log_stretch=0.5)
    rec.require(got[0] < lo and got[-1] > hi, 'spacing() is not stretched')
    rec.raises(RuntimeError, lambda: utils.spacing(data, 'cubic'), 'unknown scale')
    rec.trace()


def bound(case, rec):
    from kalepy import utils
    vals = [-3.0, -0.5, 0.3, 2.0, 50.0]
    ndim, num = case['ndim'], case['num']
    his = [None, 1.0, 10.0]
    second = [(None, None)] if ndim == 1 else [(None, None), (-1.0, 1.0), (0.0, None), (None, 10.0)]
    for hi in his:
        for bnd2 in second:
            bounds = [[case['lo'], hi]] + ([list(bnd2)] if ndim == 2 else [])
            for combo in itertools.product(vals, repeat=num*ndim):
                if ndim == 2 and num == 3 and combo[0] > combo[1]:
                    continue
                data = np.array(combo).reshape(ndim, num)
                inside = np.ones(num, dtype=bool)
                for row, (ll, hh) in zip(data, bounds):
                    if ll is not None:
                        inside &= (row > ll)
                    if hh is not None:
                        inside &= (row < hh)
                rec.state('bound', data, bounds)
                got = utils.bound_indices(data, bounds)
                rec.equal(np.asarray(got).tolist(), inside.tolist(), 'bound_indices()', data=data, bounds=bounds)
                if ndim == 1:
                    rec.equal(np.asarray(utils.bound_indices(data[0], bounds[0])).tolist(), inside.tolist(), 'bound_indices() of 1D data')
                    rec.equal(np.asarray(utils.bound_indices(data[0], bounds[0], outside=True)).tolist(), (~inside).tolist(),
                              'bound_indices(outside=True)', data=data, bounds=bounds)
    rec.trace()


def run(case, rec):
    dict(minmax=minmax, mid=mid, divide=divide, spacing=spacing, bound=bound)[case['what']](case, rec)
