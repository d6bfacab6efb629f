"""C29: plots are drawn with the colors, colormaps and line styles asked for, in every component and panel."""

import itertools

import numpy as np

from mc import gen, scene

ID = 'C29'
TITLE = 'Plots use the color, colormap and line style asked for, in every component'
BOUNDS = dict(
    quick='dist1d: 16 combinations of components x 2 sources x rotate x 6 colors x line styles; dist2d: 8 combinations x 6 colors x 7 colormaps x '
          'line styles; carpet, confidence, contour, hist1d, hist2d; Corner: 5 methods x 1-3 parameters x colors x colormaps; all sequences of 3 '
          'plots (4 functions or 5 methods, with and without a color) on the same axes',
    thorough='as quick, with sequences of 4 plots and every combination in figures of 4 parameters',
)
ASSUMPTIONS = ['matplotlib draws artists with the colors they hold']

COLORS = [None, 'red', '#2060a0', (0.1, 0.7, 0.3), 'C3', '0.5']
STYLES = [None, '-', '--', ':']


def cmaps():
    import matplotlib as mpl
    return [None, 'viridis', 'Reds', mpl.cm.plasma, mpl.colors.ListedColormap(['r', 'g', 'b', 'k']), ['#ff0000', 'blue', '0.25'], 'Blues_r']


NUM_CMAPS = 7
METHODS = ['plot', 'clean', 'hist', 'plot_kde', 'plot_data']
FUNCS = ['dist1d', 'dist2d', 'carpet', 'confidence', 'contour']


def cases(tier):
    quick = (tier == 'quick')
    out = []
    for comps in itertools.product([False, True], repeat=4):
        for src in ['data', 'kde']:
            for rotate in [False, True]:
                out.append(dict(what='dist1d', comps=list(comps), src=src, rotate=rotate))
    for comps in itertools.product([False, True], repeat=3):
        for cm in range(NUM_CMAPS):
            out.append(dict(what='dist2d', comps=list(comps), cmap=cm))
    for cm in range(NUM_CMAPS):
        out.append(dict(what='single', cmap=cm))
    for size in [2, 1, 3] + ([] if quick else [4]):
        for meth in METHODS:
            for cm in range(NUM_CMAPS):
                if quick and size != 2 and cm in (2, 4, 6):
                    continue
                out.append(dict(what='corner', size=size, meth=meth, cmap=cm))
    num = 3 if quick else 4
    for seq in itertools.product(FUNCS, repeat=num):
        out.append(dict(what='cycle', seq=list(seq)))
    for seq in itertools.product(METHODS if quick else METHODS[:4], repeat=num if quick else 3):
        out.append(dict(what='cycle2', seq=list(seq)))
    return out


def run(case, rec):
    import matplotlib.pyplot as plt
    rec.state(case)
    np.random.seed(7)
    dict(dist1d=_dist1d, dist2d=_dist2d, single=_single, corner=_corner, cycle=_cycle, cycle2=_cycle2)[case['what']](case, rec)
    plt.close('all')
    rec.trace()


# ---- what is drawn

def rgb(col):
    import matplotlib as mpl
    return mpl.colors.to_rgba_array(col)[:, :3]


def cycle(num):
    """The color of the `num`th plot."""
    import matplotlib.pyplot as plt
    cols = plt.rcParams['axes.prop_cycle'].by_key()['color']
    return cols[num % len(cols)]


def resolve(cmap):
    import matplotlib as mpl
    import matplotlib.pyplot as plt
    if isinstance(cmap, list):
        return mpl.colors.ListedColormap(cmap)
    return plt.get_cmap(cmap)


def color_ok(rec, got, want, what, **info):
    rec.step()
    got, want = rgb(got), rgb(want)
    rec.require(got.shape[0] >= 1 and np.allclose(got, want[0], atol=2e-3), what, got=got.tolist(), want=want.tolist(), **info)


def cmap_ok(rec, got, want, color, what, **info):
    """The colormap used is the one given; otherwise it runs from light to dark tones of the color."""
    import matplotlib as mpl
    at = np.linspace(0.0, 1.0, 41)
    rec.step()
    if want is not None:
        rec.require(np.allclose(got(at), resolve(want)(at), atol=5e-3), what + ': not the one given', want=repr(want), got=got(at[::10]).tolist(), **info)
        return
    cols = got(at)[:, :3]
    lum = cols @ np.array([0.299, 0.587, 0.114])
    rec.require(np.all(np.diff(lum) < 1e-9) and lum[0] > lum[-1] + 0.2, what + ': not from light to dark', got=lum[::10].tolist(), **info)
    hsv = mpl.colors.rgb_to_hsv(rgb(color)[0])
    if hsv[1] > 0.05:
        mid = mpl.colors.rgb_to_hsv(got(0.5)[:3])
        diff = abs(mid[0] - hsv[0])
        rec.require(min(diff, 1 - diff) < 0.03 and mid[1] > 0.1, what + ': does not match the color', got=mid.tolist(), want=hsv.tolist(), **info)


def lines_in(rec, cont, cmap, color, what, **info):
    """The colors of contours come out of the colormap, and differ."""
    at = np.linspace(0.0, 1.0, 512)
    num = len(cont.levels)
    cols = cont.cmap(cont.norm(cont.levels))[:, :3]
    drawn = cont.get_edgecolor()[:, :3]
    rec.step()
    rec.require(np.allclose(drawn, cols[:len(drawn)], atol=5e-3), what + ': contours do not use their colormap', **info)
    if cmap is not None and num > 1:
        base = resolve(cmap)(at)[:, :3]
        tol = 0.03 if resolve(cmap).N > 16 else 0.45      # (colors are interpolated)
        for col in drawn:
            dist = np.linalg.norm(base - col, axis=1).min()
            rec.require(dist < tol, what + ': color not of the colormap', got=col.tolist(), dist=float(dist), **info)
    elif cmap is None:
        import matplotlib as mpl
        hsv = mpl.colors.rgb_to_hsv(rgb(color)[0])
        if hsv[1] > 0.05:
            for col in drawn:
                mid = mpl.colors.rgb_to_hsv(col)
                diff = abs(mid[0] - hsv[0])
                rec.require(min(diff, 1 - diff) < 0.05, what + ': does not match the color', got=mid.tolist(), want=hsv.tolist(), **info)
    if num > 1 and (cmap is None or resolve(cmap).N > 16):
        rec.require(len(np.unique(np.round(drawn, 3), axis=0)) == len(drawn), what + ': contours are not distinguishable', **info)


def style(ls):
    return {None: '-'}.get(ls, ls)


def check1(rec, ax, color, ls=None, skip=(), hist=None, dens=None, lw=None, **info):
    """All artists of a 1D distribution have the color; returns the number of them."""
    from matplotlib.collections import PathCollection
    sc = scene.Scene(ax, skip=skip)
    for art in sc.artists:
        if isinstance(art, PathCollection):
            color_ok(rec, art.get_facecolor(), color, 'color of the points', **info)
        elif hasattr(art, 'get_facecolor'):
            color_ok(rec, art.get_facecolor(), color, 'color of the bands', **info)
        else:
            color_ok(rec, art.get_color(), color, 'color of the lines', **info)
            if lw is not None and np.size(art.get_xdata()) > 2:
                rec.equal(float(art.get_linewidth()), float(lw), 'width of the lines', **info)
            if ls is not None and np.size(art.get_xdata()) > 2:
                rec.equal(art.get_linestyle(), ls, 'style of the lines', **info)
    return len(sc.artists)


def check2(rec, ax, color, cmap, ls='-', skip=(), **info):
    from matplotlib.collections import PathCollection, QuadMesh
    from matplotlib.contour import ContourSet
    sc = scene.Scene(ax, skip=skip)
    for art in sc.artists:
        if isinstance(art, ContourSet):
            if art.filled:
                color_ok(rec, art.get_facecolor(), 'white', 'mask over the points', **info)
                continue
            lines_in(rec, art, cmap, color, 'contours', **info)
            # dashes: None for solid lines
            for _, dash in art.get_linestyle():
                rec.require((dash is None) == (style(ls) in ('-', 'solid')), 'style of the contours', got=repr(dash), **info)
        elif isinstance(art, QuadMesh):
            cmap_ok(rec, art.cmap, cmap, color, 'colormap of the histogram', **info)
        elif isinstance(art, PathCollection):
            color_ok(rec, art.get_facecolor(), color, 'color of the points', **info)
        else:
            color_ok(rec, art.get_color(), color, 'color of the medians', **info)
            rec.equal(art.get_linestyle(), style(ls), 'style of the medians', **info)
    return len(sc.artists)


def want_color(color, cmap, num=0):
    if color is not None:
        return color
    if cmap is not None:
        return resolve(cmap)(0.5)
    return cycle(num)


# ---- cases

def _dist1d(case, rec):
    import kalepy as kale
    _, (ax,) = scene.axes()
    data = gen.dataset('plain', 1, 9)[0]
    src = kale.KDE(data) if case['src'] == 'kde' else data
    den, conf, hist, carp = case['comps']
    total = den + conf*5 + hist + carp
    for color in COLORS:
        for ls in STYLES:
            for lw in [None, 3.5]:
                if lw and (ls or color == 'C3'):
                    continue
                scene.clear(ax)
                kw = dict() if lw is None else dict(lw=lw)
                info = dict(col=repr(color), style=repr(ls), width=repr(lw))
                kale.dist1d(src, ax=ax, density=den, confidence=conf, hist=hist, carpet=carp, rotate=case['rotate'], color=color, ls=ls, **kw)
                if ls is None:
                    # without a style: distinguishable when both are shown
                    styles = [art.get_linestyle() for art in scene.Scene(ax).artists if hasattr(art, 'get_linestyle') and hasattr(art, 'get_xdata')
                              and np.size(art.get_xdata()) > 2]
                    rec.equal(sorted(styles), sorted((['--'] if hist else ['-']) * den + ['-'] * hist), 'default styles', **info)
                num = check1(rec, ax, want_color(color, None), ls=ls, lw=lw, **info)
                rec.equal(num, total, 'number of artists', **info)


def _dist2d(case, rec):
    import kalepy as kale
    _, (ax,) = scene.axes()
    data = gen.dataset('plain', 2, 11)
    kde = kale.KDE(data)
    cont, hist, scat = case['comps']
    cmap = cmaps()[case['cmap']]
    for color in COLORS:
        for ls in STYLES[1:]:
            for outline in [True, False]:
                if ls != '-' and (not outline or color in ('C3', '0.5')):
                    continue
                scene.clear(ax)
                info = dict(col=repr(color), style=repr(ls), cm=repr(cmap)[:40], outline=outline)
                kale.dist2d(kde, ax=ax, contour=cont, hist=hist, scatter=scat, color=color, cmap=cmap, ls=ls, outline=outline)
                num = check2(rec, ax, want_color(color, cmap), cmap, ls, **info)
                rec.require(num >= 2 + cont + hist + scat, 'number of artists', got=num, **info)


def _single(case, rec):
    import kalepy as kale
    from matplotlib.collections import QuadMesh
    _, (ax,) = scene.axes()
    data = gen.dataset('plain', 2, 11)
    cmap = cmaps()[case['cmap']]
    for color in COLORS:
        info = dict(col=repr(color), cm=repr(cmap)[:40])
        for smooth, quants in itertools.product([None, 1.0], [None, [0.3, 0.6, 0.9]]):
            scene.clear(ax)
            kale.contour(data, ax=ax, color=color, cmap=cmap, smooth=smooth, quantiles=quants)
            rec.equal(check2(rec, ax, want_color(color, cmap), cmap, func='contour', **info), 1, 'number of artists', **info)
        if cmap is None:
            for rotate in [False, True]:
                for ww in [None, np.arange(1.0, 12.0)]:
                    scene.clear(ax)
                    kw = dict() if color is None else dict(color=color)
                    kale.carpet(data[0], weights=ww, ax=ax, rotate=rotate, **kw)
                    check1(rec, ax, want_color(color, None), func='carpet', **info)
                    scene.clear(ax)
                    kale.confidence(data[0], weights=ww, ax=ax, rotate=rotate, **kw)
                    check1(rec, ax, want_color(color, None), func='confidence', **info)
                    scene.clear(ax)
                    kale.hist1d(data[0], weights=ww, ax=ax, rotate=rotate, **kw)
                    check1(rec, ax, want_color(color, None), func='hist1d', **info)
        elif not isinstance(cmap, list) and color is None:
            for below in [False, 0.1]:
                scene.clear(ax)
                kale.hist2d(data, ax=ax, cmap=cmap, mask_below=below)
                meshes = [art for art in scene.Scene(ax).artists if isinstance(art, QuadMesh)]
                rec.equal(len(meshes), 1, 'number of histograms', **info)
                cmap_ok(rec, meshes[0].cmap, cmap, color, 'colormap of the histogram', **info)


def judge(rec, crn, color, cmap, ls='-', skip=None, **info):
    for ii in range(crn.size):
        for jj in range(ii+1):
            ax = crn.axes[ii, jj]
            sk = () if skip is None else skip[ax]
            if ii == jj:
                check1(rec, ax, color, skip=sk, at=(ii, jj), **info)
            else:
                check2(rec, ax, color, cmap, ls, skip=sk, at=(ii, jj), **info)


def _corner(case, rec):
    import kalepy as kale
    import matplotlib.pyplot as plt
    size, meth = case['size'], case['meth']
    data = gen.dataset('plain', size, 11)
    kde = kale.KDE(data)
    cmap = cmaps()[case['cmap']]
    for color in COLORS if (size == 2) else COLORS[:3]:
        for ls in ['-', '--'] if meth in ('clean', 'plot_kde') else ['-']:
            plt.close('all')
            crn = kale.Corner(kde)
            kw = dict(ls=ls) if ls != '-' else dict()
            info = dict(col=repr(color), cm=repr(cmap)[:40], style=ls)
            getattr(crn, meth)(color=color, cmap=cmap, **kw)
            judge(rec, crn, want_color(color, cmap), cmap, ls, **info)
            if ls != '-':
                for ax in np.diagonal(crn.axes):
                    for line in ax.lines:
                        if np.size(line.get_xdata()) > 2:
                            rec.equal(line.get_linestyle(), ls, 'style of the density', **info)
    if meth == 'plot':
        plt.close('all')
        crn, _ = kale.corner(data, color='red', cmap=cmap)
        judge(rec, crn, 'red', cmap, func='corner')
        rec.step()


def _draw(kale, name, data, ax, color):
    kw = dict() if color is None else dict(color=color)
    if name in ('carpet', 'confidence'):
        getattr(kale, name)(data[0], ax=ax, **kw)
    elif name == 'dist1d':
        kale.dist1d(data[0], ax=ax, density=True, confidence=True, carpet=True, **kw)
    else:
        getattr(kale, name)(data, ax=ax, **kw)


def _cycle(case, rec):
    """Each plot without a color takes the next one; plots with a color leave the others unchanged."""
    import kalepy as kale
    _, (ax,) = scene.axes()
    data = gen.dataset('plain', 2, 7)
    for given in itertools.product([False, True], repeat=len(case['seq'])):
        scene.clear(ax)
        ax.set_prop_cycle(None)
        used = 0
        seen = []
        for name, own in zip(case['seq'], given):
            color = 'magenta' if own else None
            _draw(kale, name, data, ax, color)
            want = color if own else cycle(used)
            used += (not own)
            info = dict(seq=case['seq'], given=given, at=name)
            if name in ('dist2d', 'contour'):
                check2(rec, ax, want, None, skip=seen, **info)
            else:
                check1(rec, ax, want, skip=seen, **info)
            seen = list(ax.lines) + list(ax.collections) + list(ax.patches)
        rec.state(case['seq'], given)


def _cycle2(case, rec):
    import kalepy as kale
    import matplotlib.pyplot as plt
    data = gen.dataset('plain', 2, 7)
    kde = kale.KDE(data)
    plt.close('all')
    crn = kale.Corner(kde)
    cells = [ax for ax in crn.axes.ravel()]
    for given in itertools.product([0, 1, 2], repeat=len(case['seq'])):
        if sum(bool(gg) for gg in given) > 1:
            continue
        for ax in cells:
            scene.clear(ax)
        used = 0
        skip = {ax: [] for ax in cells}
        for meth, own in zip(case['seq'], given):
            kw = [dict(), dict(color='magenta'), dict(cmap='viridis')][own]
            getattr(crn, meth)(**kw)
            want = want_color(kw.get('color'), kw.get('cmap'), used)
            used += (not own)
            judge(rec, crn, want, kw.get('cmap'), skip=skip, seq=case['seq'], given=given, on=meth)
            skip = {ax: list(ax.lines) + list(ax.collections) + list(ax.patches) for ax in cells}
        rec.state(case['seq'], given)
