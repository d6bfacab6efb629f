"""C25: every panel of a corner plot shows the parameters of its row and column, within its limits."""

import itertools

import numpy as np

from mc import gen, ref, scene
from mc.checks import c24

ID = 'C25'
TITLE = 'Corner plots show the right parameters in every panel, within limits'
BOUNDS = dict(
    quick='layout: 1-4 parameters x 4 origins x rotate x labels x ticks x limits x given axes; content: 5 methods x 1-3 parameters x stored or given '
          'array, list, KDE x weights x rotate x origin x edges, and overridden components; limits: all sequences of two plots of different data x limit '
          'arguments x initial limits; targets: every combination of target and limits per parameter; legends: sizes 1-6 x origins x places; figures: '
          'given or not x current figure x spacing x size x grid; rejection: every other number of parameters x 5 methods x 3 forms of data',
    thorough='as quick with 4 parameters and sequences of three plots',
)
ASSUMPTIONS = ['matplotlib draws the coordinates it is given; reference: as for the single panels (C23, C24)']

METHODS = ['plot', 'clean', 'hist', 'plot_kde', 'plot_data']
# what is shown by default, as documented
SHOWS = {
    'plot': dict(density=1, confidence=1, carpet=1, hist1=0, hist=1, scatter=1, contour=1),
    'clean': dict(density=1, confidence=0, carpet=0, hist1=0, hist=0, scatter=0, contour=1),
    'hist': dict(density=0, confidence=0, carpet=0, hist1=1, hist=1, scatter=0, contour=0),
    'plot_kde': dict(density=1, confidence=1, carpet=0, hist1=0, hist=0, scatter=0, contour=1),
    'plot_data': dict(density=0, confidence=0, carpet=1, hist1=1, hist=1, scatter=1, contour=0),
}


def cases(tier):
    quick = (tier == 'quick')
    out = []
    for size in [2, 1, 3, 4]:
        for origin in ['tl', 'tr', 'bl', 'br', 'TL', 'Br', ['b', 'l']]:
            if size != 2 and origin not in ['tl', 'tr', 'bl', 'br']:
                continue
            for rotate in [None, False] + ([] if size == 4 else [True]):
                out.append(dict(what='layout', size=size, origin=origin, rotate=rotate))
    for size in [1, 2, 3]:
        for origin in ['tl', 'br']:
            out.append(dict(what='figure', size=size, origin=origin))
    for size in [1, 2, 3, 4]:
        for meth in METHODS:
            out.append(dict(what='reject', size=size, meth=meth))
    for size in [2, 3, 1] + ([] if quick else [4]):
        for meth in METHODS:
            for src in ['array', 'list', 'kde', 'given', 'givenkde']:
                for ww in [None, 'zeros', 'skew'] if quick else [None, 'zeros', 'skew', 'list', 'small']:
                    for rotate, origin in [(True, 'tl'), (False, 'br')]:
                        if quick and size == 3 and (ww == 'skew' or src == 'list'):
                            continue
                        out.append(dict(what='plot', size=size, meth=meth, src=src, ww=ww, rotate=rotate, origin=origin,
                                        data='ints' if (ww == 'skew') else 'plain'))
    for size in [1, 2, 3]:
        for num in [2] if quick else [2, 3]:
            for meths in itertools.product(METHODS if num == 2 else ['clean', 'hist', 'plot_data'], repeat=num):
                if quick and size == 3 and (len(set(meths)) == 1 or meths[0] not in ['clean', 'hist']):
                    continue
                out.append(dict(what='limits', size=size, meths=list(meths)))
    for size in [1, 2, 3]:
        for rotate in [True, False]:
            for origin in ['tl', 'br']:
                for lims in ['none', 'given'] + (['pair'] if size != 2 else []):
                    for first in [None, 0.0, 1.5]:
                        out.append(dict(what='target', size=size, rotate=rotate, origin=origin, lims=lims, first=first))
    for size in [2, 1, 3, 4, 5, 6]:
        for origin in ['tl', 'tr', 'bl', 'br']:
            if size < 4 or not quick or origin in ('tl', 'br'):
                out.append(dict(what='legend', size=size, origin=origin))
    return out


def run(case, rec):
    import matplotlib.pyplot as plt
    rec.state(case)
    plt.close('all')
    dict(layout=_layout, figure=_figure, reject=_reject, plot=_plot, limits=_limits, target=_target, legend=_legend)[case['what']](case, rec)
    plt.close('all')
    rec.trace()


def panels(axes):
    """(row, column, axes) of the visible triangle."""
    return [(ii, jj, axes[ii, jj]) for ii in range(len(axes)) for jj in range(ii+1)]


def shared(ii, jj, size, rotate):
    """Parameters along x and y of a panel (None for the density)."""
    if ii != jj:
        return jj, ii
    return (None, jj) if (rotate and jj == size-1) else (jj, None)


def _placed(rec, axes, origin, **info):
    """The triangle fills the corner of the figure, ordered outwards."""
    size = len(axes)
    boxes = [[axes[ii, jj].get_position() for jj in range(size)] for ii in range(size)]
    for ii in range(size):
        for jj in range(size):
            box = boxes[ii][jj]
            rec.step()
            if jj > 0:
                left = boxes[ii][jj-1].x0 < box.x0
                rec.require(left == (origin[1].lower() == 'l'), 'order of the columns', **info)
                rec.require(abs(boxes[ii][jj-1].y0 - box.y0) < 1e-9, 'panels of a row are not in line', **info)
            if ii > 0:
                above = boxes[ii-1][jj].y0 > box.y0
                rec.require(above == (origin[0].lower() == 'b'), 'order of the rows', **info)
                rec.require(abs(boxes[ii-1][jj].x0 - box.x0) < 1e-9, 'panels of a column are not in line', **info)
            rec.require(axes[ii, jj].get_visible() == (jj <= ii), 'visible panels', at=(ii, jj), **info)


def _layout(case, rec):
    import kalepy as kale
    import matplotlib.pyplot as plt
    size, origin = case['size'], case['origin']
    kw = dict(origin=origin)
    rotate = True
    if case['rotate'] is not None:
        kw['rotate'] = rotate = case['rotate']
    data = gen.dataset('plain', size, 9)
    names = ['alpha', 'beta', 'gamma', 'delta'][:size]
    ticks = [[0.0, 1.0], [-1.0, 0.5, 2.0], None, [0.25]][:size]
    lims = [[-1.0, 2.0], [0.0, 5.0], [-3.0, -2.5], [10.0, 20.0]][:size]
    for src in ['int', 'data', 'kde']:
        for labels in [None, names]:
            for tick in [None, ticks]:
                for lim in ['none', 'each', 'array'] + (['pair'] if size != 2 else []):
                    for own in [False, True]:
                        if src != 'int' and (own or tick or lim == 'array'):
                            continue
                        # one option at a time in larger figures
                        if size > 2 and (labels is not None) + (tick is not None) + (lim != 'none') + own + (src != 'int') > (4 - size or 1):
                            continue
                        plt.close('all')
                        arg = {'int': size, 'data': data, 'kde': None}[src]
                        if src == 'kde':
                            arg = kale.KDE(data)
                        given = {'none': None, 'each': lims, 'array': np.array(lims), 'pair': [0.5, 3.0]}[lim]
                        want = [[0.5, 3.0]]*size if lim == 'pair' else lims
                        before = repr((labels, tick, given))
                        kk = dict(kw)
                        axes = None
                        if own:
                            fig, axes = plt.subplots(size, size, squeeze=False)
                            kk['axes'] = axes
                        crn = kale.Corner(arg, labels=labels, ticks=tick, limits=given, **kk)
                        info = dict(src=src, labels=bool(labels), ticks=bool(tick), lim=lim, own=own)
                        rec.require(repr((labels, tick, given)) == before, 'Corner() modified its arguments', **info)
                        rec.equal(np.shape(crn.axes), (size, size), 'shape of the axes', **info)
                        rec.equal(crn.size, size, 'size', **info)
                        if own:
                            rec.require(crn.fig is fig and all(crn.axes[idx] is axes[idx] for idx in np.ndindex(size, size)),
                                        'given axes are not used', **info)
                        else:
                            _placed(rec, crn.axes, origin, **info)
                        last = size - 1
                        for ii, jj, ax in panels(crn.axes):
                            at = dict(at=(ii, jj), **info)
                            px, py = shared(ii, jj, size, rotate)
                            # labels along the outer rows and columns only
                            wx = names[jj] if (labels and ii == last and px is not None) else ''
                            rec.equal(ax.get_xlabel(), wx, 'label of x', **at)
                            wy = names[ii] if (labels and jj == 0 and ii != 0) else ''
                            if not (ii == jj == 0 and last == 0):
                                rec.equal(ax.get_ylabel(), wy, 'label of y', **at)
                            if labels and ii == last and px is not None:
                                rec.equal(ax.xaxis.get_label_position(), 'top' if origin[0].lower() == 't' else 'bottom', 'side of the label', **at)
                            if labels and jj == 0 and ii != 0:
                                rec.equal(ax.yaxis.get_label_position(), 'right' if origin[1].lower() == 'r' else 'left', 'side of the label', **at)
                            if tick:
                                if px is not None and ticks[px] is not None:
                                    rec.close(np.sort(ax.get_xticks()), ticks[px], 'ticks of x', **at)
                                if py is not None and ticks[py] is not None:
                                    rec.close(np.sort(ax.get_yticks()), ticks[py], 'ticks of y', **at)
                            if given is not None:
                                if px is not None:
                                    rec.close(ax.get_xlim(), want[px], 'limits of x', **at)
                                if py is not None:
                                    rec.close(ax.get_ylim(), want[py], 'limits of y', **at)


def _figure(case, rec):
    """The figure which is given is used and arranged as asked for, and no other figure is touched."""
    import kalepy as kale
    import matplotlib as mpl
    import matplotlib.figure     # noqa
    import matplotlib.pyplot as plt
    size, origin = case['size'], case['origin']
    names = ['left', 'right', 'bottom', 'top', 'hspace', 'wspace']
    for given, current in [(None, None), (None, 'other'), ('fig', 'fig'), ('fig', 'other'), ('bare', None), ('bare', 'other')]:
        for spacing in [dict(), dict(left=0.3), dict(left=0.2, right=0.7, bottom=0.15, top=0.8), dict(hspace=0.4, wspace=0.3), dict(hspace=0.0)]:
            for figsize in [None, 5, [5, 4]]:
                if figsize is not None and given is not None:
                    continue
                plt.close('all')
                fig = plt.figure(figsize=[4, 4]) if given == 'fig' else mpl.figure.Figure(figsize=[4, 4]) if given == 'bare' else None
                other = None
                if current == 'other':
                    other, ax = plt.subplots()
                elif current == 'fig':
                    plt.figure(fig.number)
                nums = plt.get_fignums()
                before = None if other is None else [getattr(other.subplotpars, nn) for nn in names]
                kw = dict(spacing)
                if fig is not None:
                    kw['fig'] = fig
                if figsize is not None:
                    kw['figsize'] = figsize
                info = dict(given=given, current=current, spacing=spacing, figsize=figsize)
                crn = kale.Corner(size, origin=origin, **kw)
                rec.trace()
                if fig is not None:
                    rec.require(crn.fig is fig and all(ax.figure is fig for ax in crn.axes.flat), 'the given figure is not used', **info)
                else:
                    rec.require(crn.fig is not other, 'an existing figure is used', **info)
                rec.equal(len(crn.fig.axes), size*size, 'axes of the figure', **info)
                rec.equal(len(plt.get_fignums()), len(nums) + (1 if fig is None else 0), 'number of figures', **info)
                if other is not None:
                    rec.equal([getattr(other.subplotpars, nn) for nn in names], before, 'another figure was re-arranged', **info)
                    rec.equal(len(other.axes), 1, 'another figure was drawn on', **info)
                if figsize is not None:
                    rec.close(crn.fig.get_size_inches(), np.ones(2)*figsize, 'size of the figure', **info)
                for nn, vv in spacing.items():
                    rec.close(getattr(crn.fig.subplotpars, nn), vv, 'spacing of the panels', name=nn, **info)
                boxes = [ax.get_position() for ax in crn.axes.flat]
                if 'left' in spacing:
                    rec.close(min(bb.x0 for bb in boxes), spacing['left'], 'left of the panels', **info)
                if 'right' in spacing:
                    rec.close([max(bb.x1 for bb in boxes), min(bb.y0 for bb in boxes), max(bb.y1 for bb in boxes)],
                              [spacing[nn] for nn in ['right', 'bottom', 'top']], 'sides of the panels', **info)
                _placed(rec, crn.axes, origin, **info)
    for kw, want in [(dict(), True), (dict(grid=True), True), (dict(grid=False), False), (dict(grid=None), False), (dict(grid=dict(color='r')), 'r'), (dict(axes=1), True)]:
        plt.close('all')
        kw = dict(kw)
        if 'axes' in kw:
            kw['axes'] = plt.subplots(ncols=size, nrows=size, squeeze=False)[1]
        crn = kale.Corner(size, origin=origin, **kw)
        rec.trace()
        for ii, jj, ax in panels(crn.axes):
            for axis in [ax.xaxis, ax.yaxis]:
                lines = [ll for ll in axis.get_gridlines() if ll.get_visible()]
                rec.equal(len(lines) > 0, want is not False, 'grid of the panels', row=ii, col=jj, kw=sorted(kw))
                if isinstance(want, str):
                    rec.equal(set(mpl.colors.to_hex(ll.get_color()) for ll in lines), set([mpl.colors.to_hex(want)]), 'color of the grid', row=ii, col=jj)


def _drawn(crn):
    """Everything that is drawn, and within which limits."""
    out = []
    for ax in crn.axes.flat:
        sc = scene.Scene(ax)
        out.append((len(sc.artists), ax.get_xlim(), ax.get_ylim()))
    return out


def _reject(case, rec):
    """What cannot be shown in the panels is rejected, and leaves the figure as it was."""
    import kalepy as kale
    import matplotlib.pyplot as plt
    size, meth = case['size'], case['meth']
    good = gen.dataset('plain', size, 12)

    def refused(func, what, **info):
        rec.step()
        try:
            func()
        except ValueError:
            return
        except Exception as err:
            rec.fail(what + ': failed instead of being rejected', error=repr(err), **info)
        rec.fail(what + ' accepted', **info)

    for before in [False, True]:
        for src in ['array', 'list', 'kde']:
            for num in [1, 2, 3, 4]:
                if num == size:
                    continue
                plt.close('all')
                crn = kale.Corner(size)
                if before:
                    getattr(crn, meth)(good)
                have = _drawn(crn)
                data = gen.dataset('ints', num, 12)
                data = data.tolist() if src == 'list' else kale.KDE(data) if src == 'kde' else data
                info = dict(src=src, num=num, before=before)
                refused(lambda: getattr(crn, meth)(data), 'data of another number of parameters', **info)
                rec.trace()
                rec.require(_drawn(crn) == have, 'rejected data have changed the figure', **info)
                if num == size % 4 + 1:
                    # what is plotted afterwards is not affected
                    getattr(crn, meth)(good)
                    ref_ = kale.Corner(size)
                    for _ in range(1 + before):
                        getattr(ref_, meth)(good)
                    rec.equal([bb[0] for bb in _drawn(crn)], [bb[0] for bb in _drawn(ref_)], 'drawn after data were rejected', **info)
                    if size > 1:
                        rec.close([bb[1:] for (ii, jj, _), bb in zip(panels(crn.axes), [_drawn(crn)[ii*size + jj] for ii, jj, _ in panels(crn.axes)]) if ii != jj],
                                  [bb[1:] for (ii, jj, _), bb in zip(panels(ref_.axes), [_drawn(ref_)[ii*size + jj] for ii, jj, _ in panels(ref_.axes)]) if ii != jj],
                                  'limits after data were rejected', **info)
    plt.close('all')
    crn = kale.Corner(size)
    have = _drawn(crn)
    refused(lambda: getattr(crn, meth)(), 'no data at all')
    refused(lambda: getattr(crn, meth)(kale.KDE(good), weights=np.ones(12)), 'weights of a KDE')
    for lens in [size - 1, size + 1]:
        for name in ['targets', 'upper_limits', 'lower_limits']:
            args = dict(targets=[0.5]*size, upper_limits=None, lower_limits=None)
            args[name] = [0.5]*lens
            refused(lambda: crn.target(**args), 'another number of ' + name, num=lens)
    rec.require(_drawn(crn) == have, 'what was rejected has changed the figure')
    nums = plt.get_fignums()
    refused(lambda: kale.Corner(kale.KDE(good), weights=np.ones(12)), 'weights of a KDE')
    refused(lambda: kale.Corner(size + 0.5), 'a fraction of a parameter')
    for origin in ['x', 'tlx', 'tt', 'lr', 'lt', 'xy', '']:
        refused(lambda: kale.Corner(size, origin=origin), 'unknown origin', origin=origin)
    rec.equal(plt.get_fignums(), nums, 'figures left behind')


EDGES = {'none': None, 'int': 5, 'ints': [4, 6, 3, 5], 'each': [np.linspace(-2.0, 4.0, 5), np.array([-2.5, 0.0, 1.0, 4.5]), np.linspace(-3, 6, 4),
                                                                 np.linspace(-3, 8, 6)], 'one': np.linspace(-2.0, 5.0, 6)}
OVER = [(dict(), dict()), (dict(hist=True), dict(scatter=False)), (dict(density=False, carpet=False), dict(contour=False, median=False)),
        (dict(confidence=True), dict(hist=True, mask_dense=True, mask_below=False))]


def judge(rec, crn, meth, data, ww, model, edges, rotate, dist1d, dist2d, quantiles=None, **info):
    """Every panel shows what it should, of the right parameters."""
    import kalepy as kale
    size = len(data)
    shows = dict(SHOWS[meth])
    for kk, vv in dist1d.items():
        shows['hist1' if kk == 'hist' else kk] = int(vv)
    for kk, vv in dist2d.items():
        if kk in shows:
            shows[kk] = int(vv)
    tot = float(len(data[0]) if ww is None else np.sum(ww))
    for ii, jj, ax in panels(crn.axes):
        at = dict(at=(ii, jj), **info)
        sc = scene.Scene(ax)
        px, py = shared(ii, jj, size, rotate)
        if ii == jj:
            if px is None:
                sc = sc.swap()
            dd = data[jj].astype(float)
            stairs, smooth = sc.stairs()
            rec.equal((len(stairs), len(smooth)), (shows['hist1'], shows['density']), 'histograms and densities shown', **at)
            rec.equal((len(sc.points), min(1, len(sc.vspans)), len(sc.hspans)), (shows['carpet'], shows['confidence'], 0), 'carpets and bands shown', **at)
            for xx, yy in smooth:
                want = model.density(xx[None, :], params=[jj], probability=True)
                rec.close(yy, want, 'density of the parameter', rtol=1e-6, atol=1e-9*max(want.max(), 1e-30), **at)
                rec.require(xx.size >= 2, 'empty density', **at)
                if edges is not None and np.iterable(edges[jj]):
                    rec.close(xx, np.array(edges[jj], dtype=float), 'locations of the density', **at)
            for xx, yy in stairs:
                ee = np.append(xx[0::2], xx[-1])
                if edges is not None and np.iterable(edges[jj]):
                    rec.close(ee, np.array(edges[jj], dtype=float), 'edges', **at)
                elif edges is not None:
                    rec.equal(ee.size, edges[jj] + 1, 'number of bins', **at)
                want = scene.counts(dd, ee, ww) / np.diff(ee) / tot
                rec.close(yy[0::2], want, 'histogram of the parameter', rtol=1e-7, atol=1e-9*max(want.max(), 1e-30), **at)
            for pts in sc.points:
                vis = ~np.isnan(pts[:, 0])
                have = dd if ww is None else dd[np.asarray(ww) != 0]
                rec.step()
                rec.require(set(np.round(have, 9)) <= set(np.round(pts[vis, 0], 9)) <= set(np.round(dd, 9)), 'carpet of the parameter', **at)
            if shows['confidence']:
                for lo, hi in sc.vspans:
                    rec.require(dd.min() - 1e-9 <= lo <= hi <= dd.max() + 1e-9, 'bands of the parameter', **at)
                num = 4 if quantiles is None else len(quantiles)
                rec.equal(len(sc.vspans), num, 'number of bands', **at)
                c0, c1 = scene.quantile(dd, ww, 0.5)
                rec.require(len(sc.vlines) == 1 and c0 - 1e-9 <= sc.vlines[0] <= c1 + 1e-9, 'median of the parameter', got=sc.vlines, want=(c0, c1), **at)
        else:
            sub = data[[px, py]].astype(float)
            rec.equal((len(sc.points), len(sc.meshes), len(sc.contours)), (shows['scatter'], shows['hist'], shows['contour']), 'components shown', **at)
            med = int(dist2d.get('median', True))
            rec.equal((len(sc.vlines), len(sc.hlines)), (med, med), 'medians shown', **at)
            if med:
                for val, dd in zip([sc.vlines[0], sc.hlines[0]], sub):
                    lo, hi = c24._median(dd, ww)
                    rec.require(lo - 1e-9 <= val <= hi + 1e-9, 'medians of the parameters', got=val, want=(lo, hi), **at)
            for pts in sc.points:
                rec.require(sorted(map(tuple, np.round(pts, 9))) == sorted(map(tuple, np.round(sub.T, 9))), 'points of the parameters', **at)
            for xx, yy, vals in sc.meshes:
                ee = [xx[0, :], yy[:, 0]]
                if edges is not None:
                    for kk, pp in enumerate([px, py]):
                        if np.iterable(edges[pp]):
                            rec.close(ee[kk], np.array(edges[pp], dtype=float), 'edges', **at)
                        else:
                            rec.equal(ee[kk].size, edges[pp] + 1, 'number of bins', **at)
                _, want, _ = c24._density(sub, ee, ww)
                shown = ~np.isnan(vals.T)
                rec.close(vals.T[shown], want[shown], 'histogram of the parameters', atol=1e-12, **at)
                if dist2d.get('mask_below', SHOWS[meth].get('mask_below', meth not in ['clean', 'hist'])) is False:
                    rec.require(np.all(shown), 'bins are hidden', **at)
            for levs, segs in sc.contours:
                grid = model.kde.density(params=[px, py])[0]
                mesh = np.meshgrid(*grid, indexing='ij')
                dens = model.density(np.array([mm.ravel() for mm in mesh]), params=[px, py]).reshape(mesh[0].shape)
                gx, gy, field = c24._filtered([np.asarray(gg) for gg in grid], dens, None, None, True)
                qq = quantiles if quantiles is not None else 1.0 - np.exp(-0.5*np.square([0.5, 1.0, 1.5, 2.0]))
                c24._levels_ok(rec, levs, field, qq, **at)
                c24._lines_ok(rec, (levs, segs), gx[:, 0], gy[0, :], field, **at)
        rec.require(not sc.others, 'unexpected artists', others=sc.others, **at)


def _make(case, rec, data, ww):
    """(corner, arguments of the method)"""
    import kalepy as kale
    kw = dict(rotate=case['rotate'], origin=case['origin'])
    src = case['src']
    args, kwm = [], {}
    if src in ('array', 'list'):
        arg = data.tolist() if src == 'list' else data
        crn = kale.Corner(arg, weights=ww, **kw)
    elif src == 'kde':
        crn = kale.Corner(kale.KDE(data, weights=ww), **kw)
    elif src == 'given':
        crn = kale.Corner(len(data), **kw)
        args, kwm = [data], dict(weights=ww)
    else:
        # other data is stored
        crn = kale.Corner(data[:, ::-1] + 1.0, **kw)
        args = [kale.KDE(data, weights=ww)]
    return crn, args, kwm


def _plot(case, rec):
    import kalepy as kale
    import matplotlib.pyplot as plt
    size, meth = case['size'], case['meth']
    data = gen.dataset(case['data'], size, 11)
    ww = gen.weights(case['ww'], 11)
    model = ref.Model(data, None, weights=ww)
    model.kde = kale.KDE(data, weights=ww)
    if case['src'] == 'givenkde' and meth in ('plot_data',):
        # plot_data() takes data; a KDE is accepted also
        pass
    letters = ['none'] if case['src'] not in ('array', 'kde') else list(EDGES)
    for ee in letters:
        for num, (d1, d2) in enumerate(OVER):
            if num and (ee != 'none' or size == 3 and case['ww']):
                continue
            for quants in [None, [0.5, 0.9], [0.7]] if (num == 0 and ee == 'none') else [None]:
                plt.close('all')
                crn, args, kwm = _make(case, rec, data, ww)
                edges = EDGES[ee]
                kw = dict(kwm)
                if quants is not None:
                    kw['quantiles'] = quants
                if edges is not None:
                    if ee in ('ints', 'each'):
                        edges = edges[:size]
                        if size == 1 and ee == 'ints':
                            continue
                    kw['edges'] = edges
                    edges = list(edges) if ee in ('ints', 'each') else [edges]*size
                if meth == 'plot_data' and 'confidence' in d1 and quants is not None:
                    continue
                d1c, d2c = dict(d1), dict(d2)
                before = (np.array(data), None if ww is None else np.array(ww))
                handle = getattr(crn, meth)(*args, dist1d=d1c, dist2d=d2c, **kw)
                info = dict(spec=ee, opt1=d1, opt2=d2, qq=repr(quants))
                rec.require(d1c == d1 and d2c == d2, 'the options were modified', **info)
                rec.require(np.array_equal(before[0], data) and (ww is None or np.array_equal(before[1], ww)), 'the data was modified', **info)
                judge(rec, crn, meth, data, ww, model, edges, case['rotate'], d1, d2, quants, **info)
                if meth in ('plot', 'clean', 'plot_kde') and not (d1.get('density') is False):
                    rec.require(handle is not None, 'nothing returned for the legend', **info)
                # the limits are the same along every parameter, and include the data
                _same_limits(rec, crn, case['rotate'], **info)
                if ee not in ('each', 'one'):
                    lims = _lims(crn, case['rotate'])
                    for pp in range(size):
                        rec.require(lims[pp][0] <= data[pp].min() and lims[pp][1] >= data[pp].max(), 'the limits exclude data', lims=lims, **info)
                if case['src'] == 'array' and num == 0 and meth == 'plot':
                    plt.close('all')
                    crn, handle = kale.corner(data, kwcorner=dict(weights=ww, rotate=case['rotate'], origin=case['origin']),
                                              labels=list('abcd')[:size], **({} if edges is None else dict(edges=EDGES[ee] if ee in ('int', 'one') else edges)))
                    judge(rec, crn, meth, data, ww, model, edges, case['rotate'], {}, {}, None, entry='corner()', **info)
                    if size > 1:
                        rec.equal(crn.axes[size-1, 0].get_xlabel(), 'a', 'labels of corner()')


def _lims(crn, rotate):
    size = len(crn.axes)
    out = [None]*size
    for ii, jj, ax in panels(crn.axes):
        px, py = shared(ii, jj, size, rotate)
        if px is not None:
            out[px] = tuple(ax.get_xlim())
        elif py is not None:
            out[py] = tuple(ax.get_ylim())
    return out


def _same_limits(rec, crn, rotate, **info):
    size = len(crn.axes)
    lims = _lims(crn, rotate)
    for ii, jj, ax in panels(crn.axes):
        px, py = shared(ii, jj, size, rotate)
        if px is not None:
            rec.close(ax.get_xlim(), lims[px], 'panels of the same parameter have different limits', at=(ii, jj), **info)
        if py is not None:
            rec.close(ax.get_ylim(), lims[py], 'panels of the same parameter have different limits', at=(ii, jj), **info)


def _stretched(vals):
    lo, hi = float(np.min(vals)), float(np.max(vals))
    mid, half = 0.5*(lo + hi), 0.5*(hi - lo)
    return np.array([mid - 1.1*half, mid + 1.1*half])


def _limits(case, rec):
    import kalepy as kale
    import matplotlib.pyplot as plt
    size = case['size']
    sets = [gen.dataset('plain', size, 8), 0.5*gen.dataset('plain', size, 8) + 3.0, gen.dataset('ints', size, 8) - 4]
    edges = [[np.linspace(-2.0 - kk, 4.0 + kk + ii, 5) for ii in range(size)] for kk in [0, 1, 2]]
    given = [[-1.0 - ii, 1.0] for ii in range(size)]
    for rotate in [True, False]:
        for init in ['none', 'given', 'array']:
            for flags in itertools.product([None, True, False], repeat=len(case['meths'])):
                if size > 1 and (not rotate or init == 'array') and len(set(flags)) > 1:
                    continue
                if size > 2 and init == 'given' and not any(flags):
                    continue
                plt.close('all')
                lims = {'none': None, 'given': [list(gg) for gg in given], 'array': np.array(given)}[init]
                crn = kale.Corner(size, rotate=rotate, limits=lims)
                want = [None]*size if lims is None else [np.array(gg) for gg in given]
                info = dict(rot=rotate, init=init, flags=flags)
                for kk, (meth, flag) in enumerate(zip(case['meths'], flags)):
                    data = sets[kk]
                    prev = _lims(crn, rotate) if kk else None
                    quick2 = dict(contour=False, scatter=False, mask_dense=False)
                    getattr(crn, meth)(data, edges=edges[kk], dist2d=quick2, **({} if flag is None else dict(limit=flag)))
                    auto = (init == 'none') if flag is None else flag
                    if auto:
                        for pp in range(size):
                            new = _stretched(data[pp] if meth in ('hist', 'plot_data') else edges[kk][pp])
                            want[pp] = new if want[pp] is None else np.array([min(new[0], want[pp][0]), max(new[1], want[pp][1])])
                    if want[0] is not None and (auto or init != 'none' or kk == 0):
                        got = _lims(crn, rotate)
                        for pp in range(size):
                            rec.close(got[pp], want[pp], 'limits of the axes', atol=1e-9, step=kk, param=pp, **info)
                        _same_limits(rec, crn, rotate, step=kk, **info)
                if lims is not None:
                    rec.require(np.array_equal(lims, given), 'given limits were modified', **info)
    if size > 1:
        # a single pair, for all parameters
        if size != 2:
            crn = kale.Corner(size, limits=[-7.0, 8.0])
            crn.clean(sets[0])
            for pp, ll in enumerate(_lims(crn, True)):
                rec.close(ll, [-7.0, 8.0], 'limits given once', param=pp)


def _target(case, rec):
    import kalepy as kale
    import matplotlib.pyplot as plt
    size, rotate = case['size'], case['rotate']
    data = gen.dataset('plain', size, 8)
    vals = [0.5, 1.5, -0.5][:size]
    letters = [None, 0.0, 0.7]
    for lims in [case['lims']]:
        plt.close('all')
        given = [[-3.0 - ii, 4.0] for ii in range(size)]
        crn = kale.Corner(data, rotate=rotate, origin=case['origin'], limits={'none': None, 'given': given, 'pair': [-3.5, 4.5]}[lims])
        if lims == 'pair':
            given = [[-3.5, 4.5]]*size
        crn.hist(dist2d=dict(median=False))
        extr = [np.array(ll) for ll in (_lims(crn, rotate))]
        if lims != 'none':
            for pp in range(size):
                rec.close(extr[pp], given[pp], 'limits of the axes')
        for tgt in itertools.product([case['first']], *[[None, 0.0, 1.5]]*(size-1)):
            for upper, lower in itertools.product([None] + list(itertools.product(letters, repeat=size))[1:], repeat=2):
                if size == 3 and (upper is not None) and (lower is not None) and (upper != lower) and any(tgt):
                    continue
                if size == 3 and len(set(list(tgt) + list(upper or []) + list(lower or []))) > 2:
                    continue
                olds = {}
                for ii, jj, ax in panels(crn.axes):
                    olds[ii, jj] = list(ax.lines) + list(ax.patches) + list(ax.collections)
                kw = {}
                if upper is not None:
                    kw['upper_limits'] = list(upper)
                if lower is not None:
                    kw['lower_limits'] = list(lower)
                crn.target(list(tgt), **kw)
                up = upper or [None]*size
                lo = lower or [None]*size
                info = dict(lims=lims, targets=tgt, upper=upper, lower=lower)
                for ii, jj, ax in panels(crn.axes):
                    at = dict(at=(ii, jj), **info)
                    sc = scene.Scene(ax, skip=olds[ii, jj])
                    px, py = shared(ii, jj, size, rotate)
                    for pp, lines, spans, name in [(px, sc.vlines, sc.vspans, 'x'), (py, sc.hlines, sc.hspans, 'y')]:
                        wl = [] if (pp is None or tgt[pp] is None) else [tgt[pp]]
                        rec.close(sorted(lines), wl, 'lines at the targets along ' + name, **at)
                        ws = []
                        if pp is not None and up[pp] is not None:
                            ws.append((extr[pp][0], up[pp]))
                        if pp is not None and lo[pp] is not None:
                            ws.append((lo[pp], extr[pp][1]))
                        rec.close(np.array(sorted(spans)).reshape(-1, 2), np.array(sorted(ws)).reshape(-1, 2), 'allowed ranges along ' + name, atol=1e-9, **at)
                    rec.equal(len(sc.curves) + len(sc.points) + len(sc.others), 0, 'unexpected artists', **at)
                    for art in list(ax.lines) + list(ax.patches) + list(ax.collections):
                        if art not in olds[ii, jj]:
                            art.remove()
        # legends name the handles
        handle, = crn.axes[0, 0].plot([], [])
        leg = crn.legend([handle, handle], ['one', 'two'])
        rec.equal([tt.get_text() for tt in leg.get_texts()], ['one', 'two'], 'legend')
        rec.require(leg in crn.fig.legends, 'the legend is not in the figure')


PLACES = {'lower left': (0, 0), 'upper right': (1, 1), 'upper left': (0, 1), 'lower right': (1, 0), 'center': (0.5, 0.5)}


def _legend(case, rec):
    """Legends show the given handles with the given labels, at the place asked for; by default off the panels."""
    import kalepy as kale
    import matplotlib as mpl
    import matplotlib.pyplot as plt
    size, origin = case['size'], case['origin']
    crn = kale.Corner(size, origin=origin)
    handles = []
    for num in range(2 if size < 4 else 1):
        handles.append(crn.clean(gen.dataset('plain', size, 9) + num) if size < 4 else crn.axes[0, 0].plot([0, 1], [0, 1], color='red')[0])
    labels = ['first', 'second'][:len(handles)]
    colors = [mpl.colors.to_rgba(hh.get_color())[:3] for hh in handles]
    fig = crn.fig
    renderer = fig.canvas.get_renderer()
    boxes = [ax.get_window_extent(renderer) for _, _, ax in panels(crn.axes)]
    for how in ['default', 'index', 'bbox', 'bbox_to_anchor', 'transform']:
        for loc in [None] + list(PLACES):
            if loc is None and how != 'default':
                continue
            for ncol in [1, 2]:
                kw = dict() if ncol == 1 else dict(ncol=2, title='name')
                want = None
                if how == 'index':
                    kw['index'] = (size-1, 0)
                    box = crn.axes[size-1, 0].get_position()
                    want = fig.transFigure.transform((box.x0, box.y0))
                elif how in ('bbox', 'bbox_to_anchor'):
                    kw[how] = (0.4, 0.7)
                    want = fig.transFigure.transform((0.4, 0.7))
                elif how == 'transform':
                    ax = crn.axes[size-1, 0]
                    kw['bbox_to_anchor'] = (0.25, 0.5)
                    kw['bbox_transform'] = ax.transAxes
                    want = ax.transAxes.transform((0.25, 0.5))
                if loc is not None:
                    kw['loc'] = loc
                info = dict(how=how, loc=loc, ncol=ncol)
                leg = crn.legend(handles, labels, **kw)
                rec.step()
                rec.equal([tt.get_text() for tt in leg.get_texts()], labels, 'labels of the legend', **info)
                keys = [mpl.colors.to_rgba(hh.get_color())[:3] for hh in leg.get_lines()]
                rec.require(len(keys) == len(colors) and np.allclose(keys, colors), 'handles of the legend', got=keys, want=colors, **info)
                if ncol == 2:
                    rec.equal(leg.get_title().get_text(), 'name', 'title of the legend', **info)
                leg.set_figure(fig)
                box = leg.get_window_extent(renderer)
                leg.draw(renderer)
                box = leg.get_window_extent(renderer)
                if loc is not None and want is not None:
                    fx, fy = PLACES[loc]
                    got = (box.x0 + fx*box.width, box.y0 + fy*box.height)
                    rec.close(got, want, 'place of the legend', atol=1.5, **info)
                elif how == 'default' and loc is None and ncol == 1:
                    for bb in boxes:
                        over = (min(bb.x1, box.x1) - max(bb.x0, box.x0), min(bb.y1, box.y1) - max(bb.y0, box.y0))
                        rec.require(min(over) < 1.5, 'the legend covers a panel', over=over, **info)
                leg.remove()
