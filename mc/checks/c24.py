"""C24: the drawn two-dimensional histograms, contours, medians and points show the data and its density."""

import itertools

import numpy as np

from mc import common, gen, ref, scene

ID = 'C24'
TITLE = '2D plots draw the true histogram, contours, medians and data'
BOUNDS = dict(
    quick='hist2d: data x weights x 6 forms of edges x 5 masks; contour: data x weights x edges x 5 sets of quantiles x smooth x upsample x pad; '
          'dist2d: all combinations (for KDEs: all pairs of changes) of median, scatter, contour, hist, mask_dense, masks, edges, quantiles x sources (array, 2D KDE, '
          'every ordered pair of a 3D KDE) x kernels x weights x boundaries; draw_contour2d: levels or quantiles x pairs of widths, outlines, styles, opacity, '
          'colors x no, vertical, horizontal colorbar',
    thorough='as quick with more data sets, weightings, pads and filters',
)
ASSUMPTIONS = ['matplotlib draws the coordinates it is given, and interpolates contours linearly along the lines of the grid; scipy.ndimage '
               'interpolates and smooths; reference: counts, densities and quantiles by definition']

EDGES = {'none': None, 'int': 4, 'ints': [3, 5], 'both': np.linspace(-4.0, 9.0, 6), 'each': [np.array([-3.0, -0.5, 0.0, 1.0, 4.0]), np.linspace(-3, 5, 6)],
         'lists': [[-2, 0, 1, 3], [-3, -1, 2]]}
QUANTS = {'none': None, 'two': [0.5, 0.9], 'rev': [0.95, 0.7, 0.4], 'one': [0.6], 'low': [0.01, 0.8]}


def cases(tier):
    quick = (tier == 'quick')
    out = []
    data = ['plain', 'ints', 'wide'] + ([] if quick else ['negative', 'f32'])
    for dd in data:
        for ww in [None, 'zeros', 'ints', 'skew'] + ([] if quick else ['small', 'list']):
            for ee in EDGES:
                out.append(dict(what='hist', data=dd, ww=ww, edges=ee))
                for qq in QUANTS:
                    out.append(dict(what='contour', data=dd, ww=ww, edges=ee, quants=qq))
    for dd in data:
        for ww in [None, 'skew']:
            for bar in [None, 'vertical', 'horizontal']:
                out.append(dict(what='drawn', data=dd, ww=ww, bar=bar))
    dists = []
    for src in ['array', 'kde', 'kde3']:
        for kern in ['gaussian', 'box'] if quick else ref.KERNELS:
            if src == 'array' and kern != 'gaussian':
                continue
            for refl in [None, 'first', 'all'] if src != 'array' else [None]:
                for ww in [None, 'zeros'] + ([] if quick else ['skew', 'small']):
                    for dd in ['plain', 'ints'] + ([] if quick else ['wide', 'negative']):
                        if kern == 'box' and (dd != 'plain' or ww is None):
                            continue
                        pairs = {'array': [None], 'kde': [None, [1, 0]], 'kde3': [None] + [list(pp) for pp in itertools.permutations(range(3), 2)]}[src]
                        for pp in pairs:
                            dists.append(dict(what='dist', src=src, kernel=kern, refl=refl, ww=ww, data=dd, params=pp))
    for dd in data:
        for ww in [None, 'skew']:
            dists.append(dict(what='defaults', data=dd, ww=ww))
    return out + dists


def run(case, rec):
    rec.state(case)
    dict(hist=_hist, contour=_contour, drawn=_drawn, dist=_dist, defaults=_defaults)[case['what']](case, rec)
    rec.trace()


def _mesh(rec, sc, edges, want, what, either=None, **info):
    """The mesh shows the values `want` (NaN where hidden) in the cells of the edges."""
    rec.equal(len(sc.meshes), 1, 'histograms drawn', **info)
    xx, yy, vals = sc.meshes[0]
    ex, ey = [np.asarray(ee, dtype=float) for ee in edges]
    rec.close(xx, np.broadcast_to(ex[None, :], (ey.size, ex.size)), what + ': columns', atol=1e-9, **info)
    rec.close(yy, np.broadcast_to(ey[:, None], (ey.size, ex.size)), what + ': rows', atol=1e-9, **info)
    vals = vals.T.copy()
    want = want.copy()
    if either is not None:
        vals[either] = want[either] = 0.0
    rec.close(vals, want, what + ': values', atol=1e-12*max(1e-30, np.nanmax(np.append(want.ravel(), 0.0))), **info)


def _edges_ok(rec, edges, spec, data, **info):
    edges = [np.asarray(ee, dtype=float) for ee in edges]
    for ii in range(2):
        given = {'both': EDGES['both'], 'each': EDGES['each'][ii], 'lists': EDGES['lists'][ii]}.get(spec)
        if given is not None:
            rec.close(edges[ii], np.array(given, dtype=float), 'edges are not those given', **info)
        else:
            num = {'int': 4, 'ints': EDGES['ints'][ii]}.get(spec)
            rec.require(np.all(np.diff(edges[ii]) > 0) and edges[ii][0] <= data[ii].min() and edges[ii][-1] >= data[ii].max(),
                        'automatic edges do not include the data', **info)
            rec.require(num is None or len(edges[ii]) == num + 1, 'number of bins', **info)
    return edges


def _density(data, edges, ww):
    cnt = scene.counts2(data, edges, ww)
    area = np.diff(edges[0])[:, None] * np.diff(edges[1])[None, :]
    return cnt, cnt / area / cnt.sum(), area


def _hist(case, rec):
    import kalepy as kale
    num = 14
    data = gen.dataset(case['data'], 2, num)
    ww = gen.weights(case['ww'], num)
    fig, (ax, other) = scene.axes(2)
    for mask in [False, True, None, 0.01, 0.05, 0.2]:
        for form in ['array', 'list', 'given']:
            scene.clear(ax)
            fig.sca(other if form == 'given' else ax)
            kw = dict(ax=ax) if form == 'given' else {}
            arg = [dd.tolist() for dd in data] if form == 'list' else data
            before = np.array(data, dtype=float)
            edges, hist, rv = kale.plot.hist2d(arg, edges=EDGES[case['edges']], weights=ww, mask_below=mask, **kw)
            rec.require(np.array_equal(before, data), 'hist2d() modified the data')
            info = dict(mask=mask, form=form)
            edges = _edges_ok(rec, edges, case['edges'], data, **info)
            cnt, dens, _ = _density(data, edges, ww)
            want, either = dens.copy(), None
            if mask is True:
                ave = 1.0 if ww is None else np.mean(ww)
                want[cnt < 0.9*ave] = np.nan
                either = (cnt >= 0.89*ave) & (cnt < (1 + 1e-9)*ave) if ww is not None else None
            elif mask:
                want[dens < mask] = np.nan
                either = np.isclose(dens, mask)
            rec.equal(len(other.collections), 0, 'drawn on other axes', **info)
            _mesh(rec, scene.Scene(ax), edges, want, 'the drawn histogram', either, **info)
            got = scene.values(hist)
            if either is not None:
                got, want = np.where(either, 0.0, got), np.where(either, 0.0, want)
            rec.close(got, want, 'returned histogram', atol=1e-12, **info)
            rec.require(rv in ax.collections, 'the drawn mesh is not returned', **info)


def levels(field, quants):
    """For each quantile: the acceptable levels (several, if a rounding error decides)."""
    vals = np.sort(np.asarray(field, dtype=float).ravel())[::-1]
    cum = np.cumsum(vals) / vals.sum()
    out = []
    for qq in quants:
        opts = set()
        for eps in [-1e-9, 0.0, 1e-9]:
            sel = np.flatnonzero(cum <= qq + eps)
            # the cumulative sum of positive values increases; with negative ones (overshooting interpolation) the last counts
            opts.add(float(vals[sel[-1]] if sel.size else vals[0]))
        out.append(sorted(opts))
    return out


def _levels_ok(rec, got, field, quants, **info):
    """The drawn levels are those of the quantiles, each once."""
    got = np.asarray(got, dtype=float)
    opts = levels(field, quants)
    scale = np.max(np.abs(field))
    rec.require(np.all(np.diff(got) > 0), 'levels are not increasing', got=got, **info)
    for oo in opts:
        rec.step()
        rec.require(any(np.any(np.abs(got - vv) <= 1e-7*scale) for vv in oo), 'a quantile has no contour', want=oo, got=got, **info)
    for gg in got:
        rec.step()
        rec.require(any(abs(gg - vv) <= 1e-7*scale for oo in opts for vv in oo), 'a contour does not enclose any quantile', level=gg, opts=opts, **info)


def _along(coord, pos, tol):
    """(index, fraction) of a position along grid lines."""
    ii = int(np.clip(np.searchsorted(coord, pos) - 1, 0, coord.size - 2))
    frac = (pos - coord[ii]) / (coord[ii+1] - coord[ii])
    if frac < tol:
        frac = 0.0
    if frac > 1 - tol:
        frac = 1.0
    return ii, frac


def _lines_ok(rec, contour, xx, yy, field, skip=None, **info):
    """Every vertex of every contour is where the density crosses its level, and there are some if it does so anywhere."""
    levs, segs = contour
    scale = np.max(np.abs(field))
    if not (np.all(np.diff(xx) > 0) and np.all(np.diff(yy) > 0)):
        rec.count('grids_not_monotonic')
        return
    for lev, lines in zip(levs, segs):
        num = sum(len(ss) for ss in lines)
        if np.any(field > lev*(1 + 1e-9)) and np.any(field < lev - 1e-9*scale):
            rec.require(num > 0, 'a contour is not drawn', level=lev, **info)
        for ss in lines:
            for px, py in ss:
                ii, fx = _along(xx, px, 1e-7)
                jj, fy = _along(yy, py, 1e-7)
                rec.step()
                rec.require(fx in (0.0, 1.0) or fy in (0.0, 1.0), 'a contour is not on the grid of the density', vertex=(px, py), **info)
                aa = field[ii, jj]*(1-fx)*(1-fy) + field[ii+1, jj]*fx*(1-fy) + field[ii, jj+1]*(1-fx)*fy + field[ii+1, jj+1]*fx*fy
                near = np.ptp(field[ii:ii+2, jj:jj+2])
                rec.require(abs(aa - lev) <= 1e-5*near + 1e-9*scale, 'a contour is not at its level', vertex=(px, py), level=lev, density=aa, **info)


def _padded(edges, field, pad):
    if pad in [None, False]:
        return edges, field
    pad = 1 if pad is True else pad
    out = np.full([nn + 2*pad for nn in field.shape], field.min())
    out[pad:-pad, pad:-pad] = field
    steps = np.arange(1, pad + 1)
    new = []
    for ee in edges:
        new.append(np.concatenate([ee[0] - steps[::-1]*(ee[1] - ee[0]), ee, ee[-1] + steps*(ee[-1] - ee[-2])]))
    return new, out


def _filtered(edges, field, smooth, upsample, pad):
    """Field (and its 1D coordinates) after padding, interpolation and smoothing."""
    import scipy.ndimage
    edges, field = _padded(edges, field, pad)
    if field.shape[0] == len(edges[0]) - 1:
        edges = [0.5*(ee[1:] + ee[:-1]) for ee in edges]
    xx, yy = np.meshgrid(*edges, indexing='ij')
    if upsample not in [None, False]:
        up = 2 if upsample is True else upsample
        xx, yy, field = [scipy.ndimage.zoom(aa, up) for aa in [xx, yy, field]]
        if smooth not in [None, False]:
            smooth = smooth * up
    if smooth not in [None, False]:
        field = scipy.ndimage.gaussian_filter(field, smooth)
    return xx, yy, field


def _contour(case, rec):
    import kalepy as kale
    num = 14
    data = gen.dataset(case['data'], 2, num)
    ww = gen.weights(case['ww'], num)
    quants = QUANTS[case['quants']]
    full = (case['edges'] in ('int', 'each')) and case['data'] == 'plain'
    fig, (ax, other) = scene.axes(2)
    for opt in gen.product(smooth=['default', None, False, 0.5], upsample=['default', None, False, 3] + ([True] if full else []),
                           pad=['default', True, None, 2] + ([False] if full else [])):
        scene.clear(ax)
        fig.sca(other)
        kw = {kk: vv for kk, vv in opt.items() if vv != 'default'}
        edges, hist, cont = kale.plot.contour(data.tolist() if opt['pad'] is None else data, edges=EDGES[case['edges']], ax=ax, weights=ww, quantiles=quants, **kw)
        info = dict(opt=opt)
        sc = scene.Scene(ax)
        rec.equal((len(sc.contours), len(other.collections)), (1, 0), 'contours drawn', **info)
        # bins: those given, or read off from another histogram with the same specification
        bins = EDGES[case['edges']]
        if case['edges'] in ('none', 'int', 'ints'):
            scene.clear(other)
            bins, _, _ = kale.plot.hist2d(data, edges=bins, weights=ww, ax=other)
            scene.clear(other)
        elif case['edges'] == 'both':
            bins = [bins, bins]
        bins = [np.asarray(ee, dtype=float) for ee in bins]
        _, dens, _ = _density(data, bins, ww)
        get = lambda name, dflt: dflt if opt[name] == 'default' else opt[name]
        xx, yy, field = _filtered(bins, dens, get('smooth', 1.0), get('upsample', 2), get('pad', 1))
        scale = np.abs(field).max()
        rec.close(hist, field, 'the density of which contours are drawn', rtol=1e-7, atol=1e-9*scale, **info)
        rec.close(edges[0], xx, 'locations', atol=1e-9, **info)
        rec.close(edges[1], yy, 'locations', atol=1e-9, **info)
        qq = quants if quants is not None else 1.0 - np.exp(-0.5*np.square([0.5, 1.0, 1.5, 2.0]))
        _levels_ok(rec, sc.contours[0][0], field, qq, **info)
        _lines_ok(rec, sc.contours[0], xx[:, 0], yy[0, :], field, **info)


def _drawn(case, rec):
    """Contours of a given histogram: levels, widths and styles of the lines, and the marks in a colorbar."""
    import kalepy as kale
    import matplotlib as mpl
    import matplotlib.pyplot as plt
    data = gen.dataset(case['data'], 2, 14)
    ww = gen.weights(case['ww'], 14)
    edges = [np.linspace(dd.min() - 0.1, dd.max() + 0.1, nn) for dd, nn in zip(data, [7, 6])]
    hist, *_ = np.histogram2d(*data, bins=edges, weights=ww, density=True)
    top = hist.max()
    for opt in gen.product(levels=[None, [0.4], [0.2, 0.5], [0.1, 0.3, 0.7]], quantiles=[None, [0.6], [0.9, 0.3]], lw=['default', 2.5, 'each'],
                           name=['lw', 'linewidths'], outline=[True, False], ls=['default', '--'], alpha=['default', 0.4], colors=[None, 'cmap', 'single']):
        changed = sum(1 for kk, vv in [('lw', 'default'), ('name', 'lw'), ('outline', True), ('ls', 'default'), ('alpha', 'default'), ('colors', None)] if opt[kk] != vv)
        if changed > 2 or (opt['lw'] == 'default' and opt['name'] != 'lw') or (opt['levels'] and opt['quantiles']):
            continue
        plt.close('all')
        fig, ax = plt.subplots()
        bar, old = None, []
        if case['bar']:
            # the scale which is used in the colorbar is its own
            smap = mpl.cm.ScalarMappable(norm=mpl.colors.Normalize(-0.5*top, 2.0*top), cmap='Greys')
            bar = fig.colorbar(smap, ax=ax, orientation=case['bar'])
            old = list(bar.ax.lines)
        kw = dict(cbar=bar, outline=opt['outline'], quantiles=opt['quantiles'])
        levs = None if opt['levels'] is None else [ff*top for ff in opt['levels']]
        if levs is not None:
            kw['levels'] = levs
        want = _levels_of(hist, opt['quantiles']) if levs is None else levs
        widths = 1.5
        if opt['lw'] != 'default':
            widths = opt['lw'] if opt['lw'] != 'each' else [0.5 + ii for ii in range(len(want))]
            kw[opt['name']] = widths
        if opt['ls'] != 'default':
            kw['ls'] = opt['ls']
        if opt['alpha'] != 'default':
            kw['alpha'] = opt['alpha']
        if opt['colors'] == 'cmap':
            kw['cmap'] = 'viridis'
        elif opt['colors'] == 'single':
            kw['colors'] = 'C3'
        info = dict(opt=opt)
        _, field, cont = kale.plot.draw_contour2d(ax, edges, hist, **kw)
        rec.trace()
        sc = scene.Scene(ax)
        rec.equal(len(sc.contours), 1, 'contours drawn', **info)
        got = np.asarray(sc.contours[0][0])
        if levs is None:
            qq = opt['quantiles'] or 1.0 - np.exp(-0.5*np.square([0.5, 1.0, 1.5, 2.0]))
            _levels_ok(rec, got, field, qq, **info)
        else:
            rec.close(got, levs, 'levels given', rtol=1e-12, **info)
        # ---- widths, styles and outlines of each of the levels
        lines = cont.collections
        rec.equal(len(lines), len(got), 'lines of the contours', **info)
        widths = np.broadcast_to(widths, len(want))[:len(got)]
        for ii, line in enumerate(lines):
            rec.step()
            if len(want) == len(got):
                rec.close(line.get_linewidth()[0], widths[ii], 'width of the lines', level=ii, **info)
            dashed = line.get_linestyle()[0][1] is not None
            rec.equal(dashed, opt['ls'] == '--', 'style of the lines', level=ii, **info)
            wide = [ee._gc['linewidth'] for ee in (line.get_path_effects() or []) if 'linewidth' in getattr(ee, '_gc', {})]
            rec.equal(len(wide) > 0, opt['outline'], 'outlines of the lines', level=ii, **info)
            if wide and len(want) == len(got):
                rec.require(max(wide) > widths[ii], 'an outline is covered by its line', wide=wide, width=widths[ii], level=ii, **info)
            if opt['alpha'] != 'default':
                rec.close(line.get_edgecolor()[0][3], opt['alpha'], 'opacity of the lines', level=ii, **info)
            if opt['colors'] == 'single':
                rec.close(line.get_edgecolor()[0][:3], mpl.colors.to_rgb('C3'), 'color of the lines', level=ii, **info)
        # ---- marks in the colorbar
        if bar is not None:
            marks = [ll for ll in bar.ax.lines if ll not in old]
            rec.equal(len(marks), len(got), 'marks in the colorbar', **info)
            across, along = ('xdata', 'ydata') if case['bar'] == 'vertical' else ('ydata', 'xdata')
            for mark in marks:
                pos = np.asarray(getattr(mark, 'get_' + along)(), dtype=float)
                rec.require(pos.size == 2 and pos[0] == pos[1], 'a mark is not across the colorbar', got=pos, **info)
                ii = int(np.argmin(np.abs(got - pos[0])))
                rec.close(pos[0], got[ii], 'position of a mark', atol=1e-9*top, **info)
                if opt['colors'] != 'single':
                    rec.close(mpl.colors.to_rgb(mark.get_color()), lines[ii].get_edgecolor()[0][:3], 'color of a mark', atol=1e-9, level=ii, **info)
            rec.equal(len(set(float(getattr(mm, 'get_' + along)()[0]) for mm in marks)), len(got), 'levels marked', **info)
    plt.close('all')


def _levels_of(field, quants):
    """The number of lines which are drawn follows from the quantiles."""
    return quants or [0.0]*4


def _median(dd, ww):
    if ww is None:
        return np.median(dd), np.median(dd)
    out = []
    ww = np.asarray(ww, dtype=float)
    for sign in [1, -1]:
        idx = np.lexsort((sign*ww, dd))
        cdf = (np.cumsum(ww[idx]) - 0.5*ww[idx]) / ww.sum()
        out.append(np.interp(0.5, cdf, dd[idx]))
    return min(out), max(out)


def _dist(case, rec):
    import kalepy as kale
    num = 12
    src = case['src']
    ndim = 3 if src == 'kde3' else 2
    data = gen.dataset(case['data'], ndim, num)
    ww = gen.weights(case['ww'], num)
    refl = case['refl']
    if refl is not None:
        lo, hi = data.min(axis=1).astype(float), data.max(axis=1).astype(float)
        refl = [[lo[ii] - 0.1*(ii + 1), hi[ii] + 0.2] if (ii == 0 or refl == 'all') else None for ii in range(ndim)]
    kde = None if src == 'array' else kale.KDE(data, weights=ww, kernel=case['kernel'], reflect=refl)
    model = ref.Model(data, None, weights=ww, kernel=case['kernel'], reflect=refl)
    pp = case['params'] or [0, 1]
    sub = data[pp].astype(float)
    grid = (kde or kale.KDE(data, weights=ww)).density(params=pp)[0]
    mesh = np.meshgrid(*grid, indexing='ij')
    flat = np.array([mm.ravel() for mm in mesh])
    dens = model.density(flat, params=pp).reshape(mesh[0].shape)
    fig, (ax, other) = scene.axes(2)
    first = True
    for opt in gen.product(median=[True, False], scatter=[True, False, 5, 1], contour=[True, False], hist=[True, False],
                           mask_dense=[None, True, False], mask_below=[False, 0.02, True], edges=['none', 'each', 'int'],
                           quantiles=[None, [0.9, 0.5], [0.6]], sigmas=[None, [1.0, 2.0]]):
        changed = sum(1 for kk, vv in [('mask_below', False), ('edges', 'none'), ('quantiles', None), ('sigmas', None), ('mask_dense', None)]
                      if opt[kk] != vv)
        if changed > (1 if opt['contour'] else 2) or (opt['quantiles'] and opt['sigmas']):
            continue
        # a single level: with each combination of components
        if opt['quantiles'] == [0.6] and (changed > 1 or not opt['contour']):
            continue
        # a single point: with each combination of components
        if opt['scatter'] == 1 and opt['scatter'] is not True and changed > 0:
            continue
        if src != 'array' and changed + sum(1 for kk in ['median', 'scatter', 'contour', 'hist'] if opt[kk] is not True) > 2:
            continue
        scene.clear(ax)
        fig.sca(other)
        kw = dict(opt)
        kw['edges'] = EDGES[opt['edges']]
        if case['params'] is not None:
            kw['params'] = case['params']
        if kde is None:
            kw['weights'] = ww
        info = dict(opt=opt)
        before = [np.array(aa, dtype=float) for aa in [data] + ([] if ww is None else [ww])]
        handle = kale.plot.dist2d((data.tolist() if opt['edges'] == 'each' else data) if kde is None else kde, ax=ax, **kw)
        rec.require((handle is not None) or not (opt['contour'] or opt['hist'] or opt['scatter']), 'nothing returned for the legend', **info)
        for bb, aa in zip(before, [data, ww]):
            rec.require(np.array_equal(bb, np.array(aa, dtype=float)), 'dist2d() modified its inputs')
        sc = scene.Scene(ax)
        rec.equal(len(other.lines) + len(other.collections), 0, 'drawn on other axes', **info)
        rec.equal(len(sc.curves) + len(sc.others) + len(sc.vspans) + len(sc.hspans), 0, 'unexpected artists', **info)
        # ---- points
        rec.equal(len(sc.points), int(bool(opt['scatter'])), 'scatters drawn', **info)
        if opt['scatter']:
            pts = sc.points[0]
            size = num if opt['scatter'] is True else opt['scatter']
            rec.equal(pts.shape, (size, 2), 'points drawn', **info)
            have = [tuple(np.round(xy, 9)) for xy in sub.T]
            for xy in pts:
                xy = tuple(np.round(xy, 9))
                rec.require(xy in have, 'a point is not in the data', xy=xy, **info)
                have.remove(xy)
            rec.step(size)
        # ---- medians
        rec.equal((len(sc.vlines), len(sc.hlines)), (int(opt['median']),)*2, 'median lines', **info)
        if opt['median']:
            for val, dd in zip([sc.vlines[0], sc.hlines[0]], sub):
                lo, hi = _median(dd, ww)
                rec.step()
                rec.require(lo - 1e-9 <= val <= hi + 1e-9, 'median line', got=val, want=(lo, hi), **info)
        # ---- histogram
        rec.equal(len(sc.meshes), int(opt['hist']), 'histograms drawn', **info)
        if opt['hist']:
            xx, yy, vals = sc.meshes[0]
            edges = [xx[0, :], yy[:, 0]]
            lims = sub
            if refl is not None and opt['edges'] != 'each':
                # automatic edges span the boundaries
                lims = np.array([sub[ii] if refl[pp[ii]] is None else np.append(sub[ii], refl[pp[ii]])[-num:] for ii in range(2)])
            _edges_ok(rec, edges, opt['edges'], lims, **info)
            _, want, _ = _density(sub, edges, ww)
            either = None
            if opt['mask_below'] is True:
                # the bins shown are a matter of taste, but not their values, nor are empty bins shown
                either = np.isnan(vals.T) & (want < want.max())
                want[want == 0.0] = np.nan
            elif opt['mask_below']:
                either = np.isclose(want, opt['mask_below'])
                want[want <= opt['mask_below']] = np.nan
            if opt['mask_below'] is not True or not np.all(np.isnan(vals)):
                _mesh(rec, sc, edges, want, 'the drawn histogram', either, **info)
        # ---- contours
        rec.equal(len(sc.contours), int(opt['contour']), 'contours drawn', **info)
        quants = opt['quantiles']
        if quants is None:
            quants = 1.0 - np.exp(-0.5*np.square(opt['sigmas'] or [0.5, 1.0, 1.5, 2.0]))
        if opt['contour']:
            xx, yy, field = _filtered([np.asarray(gg) for gg in grid], dens, None, None, True)
            _levels_ok(rec, sc.contours[0][0], field, quants, **info)
            if first or opt['quantiles']:
                _lines_ok(rec, sc.contours[0], xx[:, 0], yy[0, :], field, **info)
                first = False
        # ---- mask over dense regions: within the lowest contour
        mask = opt['mask_dense']
        if mask is None:
            mask = bool(opt['scatter']) and (opt['hist'] or opt['contour'])
        if opt['contour']:
            rec.equal(len(sc.fills), int(bool(mask)), 'masks drawn', **info)
            if mask:
                rec.close(sc.fills[0][0][0], sc.contours[0][0].min(), 'the mask is not within the lowest contour', rtol=1e-9, **info)
        elif not mask:
            rec.equal(len(sc.fills), 0, 'masks drawn', **info)


def _defaults(case, rec):
    import kalepy as kale
    num = 12
    data = gen.dataset(case['data'], 2, num)
    three = gen.dataset(case['data'], 3, num)
    ww = gen.weights(case['ww'], num)
    kde = kale.KDE(three, weights=ww)
    fig, (ax, other) = scene.axes(2)
    grid = [np.arange(4.0), np.arange(5.0)]
    hist = np.array([[1.0, 2.0, 0.0, 1.0], [0.0, 5.0, 3.0, 1.0], [2.0, 1.0, 1.0, 0.0]])
    shown = dict(median=True, scatter=True, contour=True, hist=True, smooth=None, upsample=None, pad=True, ls='-', outline=True, edges=None,
                 quantiles=None, sigmas=None)
    funcs = {
        'hist2d': (lambda **kw: kale.plot.hist2d(data, weights=ww, **kw), dict(edges=None, mask_below=False)),
        'dist2d': (lambda **kw: kale.plot.dist2d(data, weights=ww, **kw), shown),
        'dist2d of a KDE': (lambda **kw: kale.plot.dist2d(kde, **kw), dict(shown, params=[0, 1])),
        'draw_contour2d': (lambda **kw: kale.plot.draw_contour2d(ax, grid, hist, **kw), dict(smooth=None, upsample=None, pad=True, outline=True, cbar=None)),
        'draw_hist2d': (lambda **kw: kale.plot.draw_hist2d(ax, grid, hist, **kw), dict(mask_below=None)),
        'contour': (lambda **kw: kale.plot.contour(data, weights=ww, **kw), dict(edges=None, quantiles=None)),
    }
    for name, (func, explicit) in funcs.items():
        common.defaults(rec, name + '()', lambda **kw: (func(**kw), scene.Scene(ax))[1], lambda: scene.clear(ax), explicit)
