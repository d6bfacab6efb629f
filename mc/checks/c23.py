"""C23: the drawn one-dimensional histograms, densities, confidence bands and carpets show the data."""

import matplotlib
import matplotlib.artist
import numpy as np

from mc import common, gen, ref, scene

ID = 'C23'
TITLE = '1D plots draw the true histogram, density, quantiles and data'
BOUNDS = dict(
    quick='hist1d: 3 data sets x 4 weightings x 6 forms of edges x all combinations of density, probability, renormalize, joints, positive, '
          'nonzero, rotate; confidence: data x weights x quantiles x rotate x median; carpet: limits x weights x rotate x random; dist1d: all '
          'combinations of its four components x rotate x probability x weights x edges x sources (array, list, 1D KDE, each parameter of a 3D KDE)',
    thorough='as quick with more data sets and weightings',
)
ASSUMPTIONS = ['matplotlib draws the coordinates it is given; reference: counts, densities and quantiles by definition']

EDGES = {'none': None, 'int': 4, 'one': 1, 'array': np.array([-1.5, -0.4, 0.0, 0.7, 2.5]), 'list': [-1.0, 0.5, 1.0],
         'wide': np.linspace(-6.0, 9.0, 7), 'ints': np.array([-2, 0, 1, 4])}


def cases(tier):
    quick = (tier == 'quick')
    out = []
    data = ['plain', 'ints', 'wide'] + ([] if quick else ['negative', 'offset', 'f32'])
    for dd in data:
        for ww in [None, 'zeros', 'ints', 'minus'] + ([] if quick else ['small', 'skew']):
            for ee in EDGES:
                out.append(dict(what='hist', data=dd, ww=ww, edges=ee))
            for aslist in [False, True]:
                if ww != 'minus':
                    out.append(dict(what='confidence', data=dd, ww=ww, aslist=aslist))
                    out.append(dict(what='carpet', data=dd, ww=ww, aslist=aslist))
    for src in ['array', 'list', 'kde', 'kde3']:
        for dd in ['plain', 'ints'] + ([] if quick else ['wide', 'negative']):
            for ww in [None, 'zeros', 'list', 'skew'] + ([] if quick else ['ints', 'small']):
                for ee in ['none', 'int', 'array', 'list', 'wide']:
                    for kk in ['gaussian'] if (src == 'array' or quick and ee != 'none') else ref.KERNELS:
                        out.append(dict(what='dist', src=src, data=dd, ww=ww, edges=ee, kernel=kk))
    for dd in data:
        for ww in [None, 'skew']:
            out.append(dict(what='defaults', data=dd, ww=ww))
    return out


def _weights(kind, num):
    if kind == 'minus':
        return np.where(np.arange(num) % 4 == 0, -1.0, 0.5) * (1.0 + np.arange(num) % 3)
    return gen.weights(kind, num)


def run(case, rec):
    rec.state(case)
    dict(hist=_hist, confidence=_confidence, carpet=_carpet, dist=_dist, defaults=_defaults)[case['what']](case, rec)
    rec.trace()


def _freeze(*arrs):
    return [np.array(aa, dtype=float) if aa is not None else None for aa in arrs]


def _same(rec, before, after, what):
    for bb, aa in zip(before, after):
        if bb is not None:
            rec.require(np.array_equal(bb, np.array(aa, dtype=float)), what + ' modified its inputs')


def _hist(case, rec):
    import kalepy as kale
    num = 12
    data = gen.dataset(case['data'], 1, num)[0]
    ww = _weights(case['ww'], num)
    fig, (ax, other) = scene.axes(2)
    ee = EDGES[case['edges']]
    before = _freeze(data, ww, ee)
    tot = num if ww is None else np.sum(ww)
    for opt in gen.product(density=[False, True], probability=[False, True], renormalize=[False, True, 2.5, None], joints=[True, False],
                           positive=[True, False], nonzero=[None, True], rotate=[False, True], given=[True, False]):
        if case['ww'] == 'minus' and opt['probability']:
            continue
        scene.clear(ax)
        given, nonzero = opt.pop('given'), opt.pop('nonzero')
        kw = dict(opt)
        if nonzero:
            kw['nonzero'] = True
        if given:
            fig.sca(other)
            kw['ax'] = ax
        else:
            fig.sca(ax)
        hist, edges, line = kale.plot.hist1d(data, edges=ee, weights=ww, **kw)
        _same(rec, before, (data, ww, ee), 'hist1d()')
        info = dict(opt=dict(opt, nonzero=nonzero))
        edges = np.asarray(edges, dtype=float)
        if ee is not None and np.iterable(ee):
            rec.close(edges, np.array(ee, dtype=float), 'edges are not those given', **info)
        elif ee is not None:
            rec.close(edges, np.linspace(data.min(), data.max(), ee+1), 'edges do not span the data', atol=1e-9, **info)
        else:
            rec.require(edges[0] <= data.min() and edges[-1] >= data.max(), 'automatic edges do not include the data', **info)
        want = scene.counts(data, edges, ww)
        if opt['density']:
            want = want / np.diff(edges)
        if opt['probability']:
            want = want / tot
        rec.close(hist, want, 'returned histogram', atol=1e-12, **info)
        rec.require(len(other.lines) == 0 and len(ax.lines) == 1, 'not drawn on the axes to be used', **info)
        sc = scene.Scene(ax)
        if opt['rotate']:
            sc = sc.swap()
        (xx, yy), = sc.curves
        if opt['renormalize'] and not want.max() > 0:
            continue
        if opt['renormalize']:
            want = want / want.max() * float(opt['renormalize'])
        wx = np.repeat(edges, 2)[1:-1].reshape(-1, 2)
        wy = np.repeat(want[:, None], 2, axis=1)
        hide = np.zeros(want.size, dtype=bool)
        if nonzero:
            hide |= (want == 0.0)
        if opt['positive']:
            hide |= (want < 0.0)
        wy[hide] = np.nan
        if not opt['joints']:
            wx = np.concatenate([wx, np.full((len(wx), 1), np.nan)], axis=1)
            wy = np.concatenate([wy, np.full((len(wy), 1), np.nan)], axis=1)
        # points with either coordinate missing are not drawn
        wx, wy = wx.ravel().copy(), wy.ravel().copy()
        lost = np.isnan(wx) | np.isnan(wy)
        wx[lost] = wy[lost] = np.nan
        lost = np.isnan(xx) | np.isnan(yy)
        xx, yy = xx.copy(), yy.copy()
        xx[lost] = yy[lost] = np.nan
        rec.close(xx, wx, 'the drawn edges', atol=1e-12, **info)
        rec.close(yy, wy, 'the drawn heights', atol=1e-12, **info)
        rec.require(line in ax.lines, 'the drawn line is not returned', **info)


def _bands(rec, sc, data, ww, quants, median, info):
    """Bands hold the stated fractions around the median."""
    order = np.argsort(quants)
    got = sorted(sc.vspans, key=lambda ab: (-ab[0], ab[1]))
    rec.require(len(sc.hspans) == 0 and len(sc.hlines) == 0, 'bands along the wrong axis', **info)
    rec.equal(len(got), len(quants), 'number of confidence bands', **info)
    tol = 1e-9*max(1.0, np.abs(data).max())
    for kk, ii in enumerate(order):
        for val, frac in zip(got[kk], [0.5 - 0.5*quants[ii], 0.5 + 0.5*quants[ii]]):
            lo, hi = scene.quantile(data, ww, frac)
            rec.step()
            rec.require(lo - tol <= val <= hi + tol, 'limits of the confidence bands', frac=frac, got=val, want=(lo, hi), **info)
    if median:
        rec.equal(len(sc.vlines), 1, 'median lines', **info)
        lo, hi = scene.quantile(data, ww, 0.5)
        rec.require(lo - tol <= sc.vlines[0] <= hi + tol, 'median line', got=sc.vlines[0], want=(lo, hi), **info)
    else:
        rec.equal(len(sc.vlines), 0, 'median drawn although not asked for', **info)


def _sig(quants):
    if quants is None:
        return 1.0 - np.exp(-0.5*np.square([0.5, 1.0, 1.5, 2.0]))
    return np.atleast_1d(quants)


def _confidence(case, rec):
    import kalepy as kale
    fig, (ax, other) = scene.axes(2)
    for num in [2, 3, 8, 11]:
        data = gen.dataset(case['data'], 1, num)[0]
        ww = _weights(case['ww'], num)
        arg, warg = (data.tolist(), None if ww is None else list(ww)) if case['aslist'] else (data, ww)
        before = _freeze(arg, warg)
        for quants in ['default', None, [0.5], 0.3, [0.9, 0.5], (0.1, 0.5, 0.95), [0.0, 1.0]]:
            for rotate in [False, True]:
                for median in [None, True, False]:
                    for given in [True, False]:
                        scene.clear(ax)
                        kw = dict(rotate=rotate)
                        if quants != 'default':
                            kw['quantiles'] = quants
                        if median is not None:
                            kw['median'] = median
                        if given:
                            fig.sca(other)
                            kw['ax'] = ax
                        kale.plot.confidence(arg, weights=warg, **kw)
                        _same(rec, before, (arg, warg), 'confidence()')
                        sc = scene.Scene(ax)
                        if rotate:
                            sc = sc.swap()
                        qq = [0.5, 0.9] if quants == 'default' else _sig(quants)
                        _bands(rec, sc, data, ww, qq, median in [None, True], dict(num=num, kw=repr(kw)[:80]))
                        rec.equal(len(other.lines) + len(other.patches), 0, 'drawn on other axes')


def _subset(rec, part, full, what, **info):
    """Each of `part` is one of `full`, used at most once."""
    rec.step()
    full = sorted(np.asarray(full, dtype=float).tolist())
    for vv in sorted(np.asarray(part, dtype=float).tolist()):
        if vv not in full:
            rec.fail(what, value=vv, **info)
        full.remove(vv)


def _carpet(case, rec):
    import kalepy as kale
    fig, (ax, other) = scene.axes(2)
    for num in [1, 2, 5, 9]:
        data = gen.dataset(case['data'], 1, num)[0]
        if case['data'] == 'ints':
            data = np.arange(num)*3 - 4         # distinct
        ww = _weights(case['ww'], num)
        arg = data.tolist() if case['aslist'] else data
        warg = None if ww is None else np.asarray(ww)
        before = _freeze(arg, warg)
        for limit in [None, 1, 2, 4, num, num + 3]:
            for rotate in [False, True]:
                for random in ['normal', 'uniform', 'Uniform']:
                    for extra in [dict(), dict(yave=-2.0), dict(ystd=0.5), dict(yave=3.0, ystd=0.25), dict(shift=-1.0), dict(shift=None),
                                  dict(fancy=True), dict(ylim=(-3.0, -1.0)), dict(ylim=(-2.0, 0.0))]:
                        if extra.get('fancy') and (min(num, limit or num) < 2 or (ww is not None and np.min(warg) <= 0)):
                            continue        # no dispersion to be scaled with
                        scene.clear(ax)
                        fig.sca(other)
                        extra = dict(extra)
                        ylim = extra.pop('ylim', (0.0, 4.0))        # of which only the upper sets the scale
                        (ax.set_xlim if rotate else ax.set_ylim)(*ylim)
                        rv, extr = kale.plot.carpet(arg, weights=warg, ax=ax, limit=limit, rotate=rotate, random=random, **extra)
                        _same(rec, before, (arg, warg), 'carpet()')
                        info = dict(num=num, limit=limit, rotate=rotate, random=random, extra=extra, ylim=ylim)
                        sc = scene.Scene(ax)
                        pts = sc.points[0]
                        if rotate:
                            pts = pts[:, ::-1]
                        size = num if limit is None else min(num, limit)
                        rec.equal(pts.shape, (size, 2), 'number of points drawn', **info)
                        # points without weight need not be visible
                        vis = ~np.isnan(pts[:, 0])
                        if size == num:
                            have = data.astype(float) if ww is None else data[warg != 0].astype(float)
                            _subset(rec, have, pts[vis, 0], 'data points are not drawn', **info)
                        _subset(rec, pts[vis, 0], data, 'points are not (a subset of) the data', **info)
                        rec.require(np.all(vis) or (ww is not None and np.min(warg) <= 0.0), 'points are not visible', **info)
                        if not np.all(vis):
                            continue
                        rec.require(rv in ax.collections and len(other.collections) == 0, 'not drawn on the axes given', **info)
                        yave, ystd, shift = extra.get('yave'), extra.get('ystd'), extra.get('shift') or 0.0
                        if ystd is None:
                            ystd = 0.02*abs(ylim[1]) if yave is None else abs(yave)/5.0
                        if yave is None:
                            yave = -5.0*ystd
                        yy = pts[:, 1] - shift
                        rec.require(np.all(np.isfinite(yy)), 'points have no ordinate', **info)
                        rec.require(size < 4 or ystd == 0.0 or np.ptp(yy) > 0.05*ystd, 'ordinates are not random', yy=yy, **info)
                        if random != 'normal':
                            rec.require(np.all(np.abs(yy - yave) <= ystd*(1 + 1e-9)), 'ordinates are not within `ystd` of `yave`',
                                        yy=yy, **info)
                        else:
                            rec.require(np.all(np.abs(yy - yave) <= 8*ystd), 'ordinates are not around `yave`', yy=yy, **info)
                        rec.close(extr, [yy.min(), yy.max()], 'returned extent', atol=1e-9, **info)
                        # sizes follow the weights (of the same points)
                        sz = sc.sizes[0]
                        uniq = len(set(data.tolist())) == num
                        if ww is not None and uniq and not extra.get('fancy') and np.min(warg) > 0:
                            wof = np.array([warg[np.argmin(np.abs(data - vv))] for vv in pts[:, 0]], dtype=float)
                            for aa in range(size):
                                for bb in range(size):
                                    rec.require(wof[aa] < wof[bb] or sz[aa] >= sz[bb] - 1e-9 or wof[aa] == wof[bb],
                                                'sizes do not follow the weights', ww=wof, sizes=sz, **info)


def _dist(case, rec):
    import kalepy as kale
    num = 10
    ww = gen.weights(case['ww'], num)
    src = case['src']
    kern = case['kernel']
    ee = EDGES[case['edges']]
    params = [0]
    if src == 'kde3':
        data = gen.dataset(case['data'], 3, num)
        params = [0, 1, 2]
    else:
        data = gen.dataset(case['data'], 1, num)
    model = ref.Model(data, None, weights=ww, kernel=kern if src.startswith('kde') else None)
    kde = kale.KDE(data if src == 'kde3' else data[0], weights=ww, kernel=kern) if src.startswith('kde') else None
    fig, (ax, other) = scene.axes(2)
    quick_edges = case['edges'] in ('none', 'array')
    for opt in gen.product(density=[None, True, False, 2.0], hist=[None, True, False], confidence=[False, True], carpet=[False, True, 3, 1],
                           rotate=[False, True], probability=[True, False], quantiles=[None, [0.5, 0.9]] if quick_edges else [None]):
        if opt['density'] == 2.0 and (opt['carpet'] or opt['confidence']):
            continue
        if not opt['confidence'] and opt['quantiles']:
            continue
        for pp in params if not opt['carpet'] else params[-1:]:
            dd = data[pp].astype(float)
            scene.clear(ax)
            fig.sca(other)
            # give the carpet, and it alone, a known ordinate
            kw = dict(opt)
            if src == 'kde3':
                kw['param'] = pp
            if kde is None:
                kw['weights'] = ww
            arg = kde if kde is not None else (data[0].tolist() if src == 'list' else data[0])
            before = _freeze(data, ww, ee)
            handle = kale.plot.dist1d(arg, ax=ax, edges=ee, **kw)
            _same(rec, before, (data, ww, ee), 'dist1d()')
            info = dict(opt=opt, param=pp)
            rec.equal(len(other.lines) + len(other.collections) + len(other.patches), 0, 'drawn on other axes', **info)
            dens = opt['density']
            if dens is None:
                dens = kde is not None
            hist = opt['hist']
            if hist is None:
                hist = kde is None
            sc = scene.Scene(ax)
            if opt['rotate']:
                sc = sc.swap()
            stairs, smooth = sc.stairs()
            rec.equal((len(stairs), len(smooth)), (int(bool(hist)), int(bool(dens))), 'histograms and densities drawn', **info)
            tot = float(num if ww is None else np.sum(ww))
            if hist:
                xx, yy = stairs[0]
                edges = np.append(xx[0::2], xx[-1])
                if ee is not None and np.iterable(ee):
                    rec.close(edges, np.array(ee, dtype=float), 'edges of the histogram', **info)
                else:
                    rec.require(edges[0] <= dd.min() + 1e-9 and edges[-1] >= dd.max() - 1e-9 and
                                (ee is None or edges.size == ee + 1), 'automatic bins do not include the data', **info)
                    edges[0], edges[-1] = min(edges[0], dd.min()), max(edges[-1], dd.max())
                want = scene.counts(dd, edges, ww) / np.diff(edges)
                if opt['probability']:
                    want = want / tot
                rec.close(yy[0::2], want, 'heights of the histogram', rtol=1e-7, atol=1e-9*max(want.max(), 1e-12), **info)
            if dens:
                xx, yy = smooth[0]
                if ee is not None and np.iterable(ee):
                    rec.close(xx, np.array(ee, dtype=float), 'locations of the density', **info)
                else:
                    rec.require(xx.size >= 2 and np.all(np.diff(xx) > 0) and xx[0] <= dd.min() + 1e-9 and xx[-1] >= dd.max() - 1e-9
                                and (ee is None or xx.size == ee + 1), 'the density does not cover the data', xx=xx, **info)
                want = model.density(xx[None, :], params=[pp], probability=opt['probability']) * float(dens)
                skip = model.near_edge(xx[None, :], params=[pp])
                rec.close(yy[~skip], want[~skip], 'the drawn density', rtol=1e-7, atol=1e-9*max(want.max(), 1e-30), **info)
            if opt['confidence']:
                _bands(rec, sc, dd, ww, _sig(opt['quantiles']), True, info)
            else:
                rec.equal(len(sc.vspans) + len(sc.hspans) + len(sc.vlines) + len(sc.hlines), 0, 'confidence drawn although not asked for', **info)
            if opt['carpet']:
                rec.equal(len(sc.points), 1, 'carpets drawn', **info)
                pts = sc.points[0]
                size = num if opt['carpet'] is True else min(num, opt['carpet'])
                rec.equal(len(pts), size, 'points in the carpet', **info)
                vis = ~np.isnan(pts[:, 0])
                if size == num:
                    have = dd if ww is None else dd[np.asarray(ww) != 0]
                    _subset(rec, have, pts[vis, 0], 'data points are not in the carpet', **info)
                _subset(rec, pts[vis, 0], dd, 'carpet is not (a subset of) the data', **info)
                rec.require(np.all(vis) or (ww is not None and np.min(ww) <= 0.0), 'carpet is not visible', **info)
                if ww is not None and np.min(ww) > 0.0 and len(set(dd.tolist())) == num and size == num:
                    wof = np.array([float(ww[int(np.argmin(np.abs(dd - vv)))]) for vv in pts[:, 0]])
                    sz = sc.sizes[0]
                    lo, hi = np.argmin(wof), np.argmax(wof)
                    if 2.0 <= wof[hi]/wof[lo] <= 9.0:
                        rec.require(sz[lo] < sz[hi], 'sizes of the carpet do not follow the weights', ww=wof, sizes=sz, **info)
            else:
                rec.equal(len(sc.points), 0, 'carpet drawn although not asked for', **info)
            drawn = dens or hist or opt['confidence'] or opt['carpet']
            rec.require((handle is not None) or not drawn, 'nothing returned for the legend', **info)
            parts = handle if isinstance(handle, tuple) else (handle,)
            rec.require(not drawn or all(isinstance(pp, matplotlib.artist.Artist) for pp in parts), 'what is returned cannot be used in a legend', got=repr(handle), **info)


def _defaults(case, rec):
    import kalepy as kale
    num = 12
    data = gen.dataset(case['data'], 1, num)[0]
    three = gen.dataset(case['data'], 3, num)
    ww = _weights(case['ww'], num)
    kde = kale.KDE(three, weights=ww)
    fig, (ax, other) = scene.axes(2)
    funcs = {
        'hist1d': (lambda **kw: kale.plot.hist1d(data, **dict(dict(weights=ww), **kw)),
                   dict(edges=None, density=False, probability=False, renormalize=False, joints=True, positive=True, rotate=False)),
        'confidence': (lambda **kw: kale.plot.confidence(data, weights=ww, **kw), dict(quantiles=[0.5, 0.9], median=True, rotate=False)),
        'carpet': (lambda **kw: kale.plot.carpet(data, weights=ww, **kw),
                   dict(ystd=None, yave=None, shift=0.0, limit=None, fancy=False, random='normal', rotate=False)),
        'dist1d': (lambda **kw: kale.plot.dist1d(data, weights=ww, **kw),
                   dict(edges=None, probability=True, rotate=False, density=False, confidence=False, hist=True, carpet=True, quantiles=None)),
        'dist1d of a KDE': (lambda **kw: kale.plot.dist1d(kde, **kw),
                            dict(edges=None, probability=True, param=0, rotate=False, density=True, confidence=False, hist=False, carpet=True)),
        'draw_hist1d': (lambda **kw: kale.plot.draw_hist1d(ax, np.arange(5.0), np.array([3.0, 0.0, -1.0, 2.0]), **kw),
                        dict(renormalize=False, nonzero=False, positive=False, joints=True, rotate=False)),
    }
    for name, (func, explicit) in funcs.items():
        common.defaults(rec, name + '()', lambda **kw: (func(**kw), scene.Scene(ax))[1], lambda: scene.clear(ax), explicit)
