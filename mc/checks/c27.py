"""C27: arguments are accepted exactly if they are valid, and rejected calls change nothing."""

import itertools

import numpy as np

from mc import core, gen, ref

ID = 'C27'
TITLE = 'Invalid arguments are rejected, valid ones accepted, and nothing changes'
BOUNDS = dict(
    quick='weights: every sequence of 0-4 entries from {0, 1, 2.5, -1, nan, inf} for 2 and 3 points; reflect: every combination of 1-3 rows (2 in 3D and more) from 20 letters, '
          'wrong numbers of rows included, x entry points; params: every sequence of 1-3 x number of rows of points x grid, in 1-4 dims; bandwidths: every shape '
          'up to 4x4 in 1-4 dims; kernel and bandwidth names: every single-character edit; grids: every shape of density, mass and scalars of 0-4 '
          'dims; corner plots: every pair of origin letters, sizes, numbers of targets and limits; weights of all plots and quantiles',
    thorough='as quick with every combination of 3 rows, and sequences of weights up to 5 entries',
)
ASSUMPTIONS = ['validity is decided by an independent predicate for each argument; non-finite data and boundaries are outside of the contract']

NAN, INF = float('nan'), float('inf')
LETTERS = [0, 1, 2.5, -1, NAN, INF]
ROWS = [None, True, [None, None], [-1.5, 2.5], [2.5, -1.5], [1.0, 1.0], [0.2, None], [None, 0.7], [True, None], [None, True],
        [True, 3.0], [-4.0, True], [True, True], [True, -50.0], [50.0, True], [0.1], [0.1, 0.2, 0.3], [], 5.0, False]
NAMES = ['gaussian', 'box', 'parabola', 'epanechnikov', 'triweight']
DATA = {nd: gen.dataset('plain', nd, 6) for nd in [1, 2, 3, 4]}


def cases(tier):
    quick = (tier == 'quick')
    out = []
    for num in [2, 3]:
        for size in range(0, 5 if quick else 6):
            for first in LETTERS if size > 2 else [None]:
                out.append(dict(what='weights', num=num, size=size, first=first))
    for ndim in [1, 2, 3]:
        for rows in range(0, ndim + 2):
            if rows < 2:
                out.append(dict(what='reflect', ndim=ndim, rows=rows, first=None))
                continue
            for first in range(len(ROWS)):
                if rows < 3:
                    out.append(dict(what='reflect', ndim=ndim, rows=rows, first=[first]))
                elif rows == 3:
                    for sec in range(len(ROWS)):
                        if not quick or first in [0, 1, 3, 4, 15, 18] or sec in [4, 15]:
                            out.append(dict(what='reflect', ndim=ndim, rows=rows, first=[first, sec]))
                else:
                    out.append(dict(what='reflect', ndim=ndim, rows=rows, first=[first]*(rows-1)))
    for ndim in [1, 2, 3, 4]:
        for num in range(0, 4):
            out.append(dict(what='params', ndim=ndim, num=num))
        out.append(dict(what='bandwidth', ndim=ndim))
        out.append(dict(what='cdf', ndim=ndim))
        out.append(dict(what='size', ndim=ndim))
    for name in NAMES + ['scott', 'silverman']:
        out.append(dict(what='names', name=name))
    for ndim in [1, 2, 3]:
        for arg in ['edges', 'dens', 'mass', 'scalar_dens', 'scalar_mass']:
            out.append(dict(what='grid', ndim=ndim, arg=arg))
    out.append(dict(what='data'))
    out.append(dict(what='plotweights'))
    out.append(dict(what='origin'))
    for size in [1, 2, 3]:
        for form in ['plot', 'clean', 'hist', 'plot_kde', 'plot_data', 'target', 'axes']:
            out.append(dict(what='corner', size=size, form=form))
    out.append(dict(what='panels'))
    return out


def judge(rec, valid, func, what, excs=ValueError, **detail):
    """The call must succeed exactly if it is valid."""
    if not valid:
        rec.count('rejected')
        rec.raises(excs, func, what, **detail)
        return None
    rec.count('accepted')
    rec.step()
    try:
        return func()
    except Exception as err:
        rec.fail(what + ': valid, but rejected', got=repr(err)[:300], **detail)


def frozen(obj):
    return core.canon(obj)


def show(kde):
    """Everything observable that a rejected call could have changed."""
    pts = kde.dataset[:, :3]
    np.random.seed(5)
    return [kde.density(pts)[1], kde.density(pts, probability=True)[1], kde.resample(4), kde.weights, kde.reflect, kde.extrema,
            kde.bandwidth, kde.neff, kde.dataset]


def run(case, rec):
    globals()['run_' + case['what']](case, rec)


# ---- weights

def weights_valid(ww, num):
    return len(ww) == num and all(np.isfinite(xx) and xx >= 0 for xx in ww) and any(xx > 0 for xx in ww)


def run_weights(case, rec):
    import kalepy as kale
    num, size = case['num'], case['size']
    data = {1: np.array([0.3, -1.0, 2.0])[:num], 2: np.array([[0.3, -1.0, 2.0], [1.0, 1.5, -0.5]])[:, :num]}
    cov = {1: [[1.0]], 2: [[1.0, 0.2], [0.2, 1.5]]}
    pts = {1: np.array([0.0, 1.0]), 2: np.array([[0.0, 1.0], [0.5, -0.2]])}
    free = size if case['first'] is None else size - 1
    for rest in itertools.product(LETTERS, repeat=free):
        ww = list(rest) if case['first'] is None else [case['first']] + list(rest)
        rec.state('weights', num, [repr(xx) for xx in ww])
        valid = weights_valid(ww, num)
        for ndim in [1, 2]:
            for form in [list, np.array, tuple]:
                given = form(ww)
                before = frozen(given)
                kde = judge(rec, valid, lambda: kale.KDE(data[ndim], bandwidth=0.6, covariance=cov[ndim], weights=given), 'KDE() weights', weights=ww)
                rec.equal(frozen(given), before, 'weights given are modified')
                if valid:
                    model = ref.Model(data[ndim], 0.6, weights=np.array(ww, dtype=float), kernel=None, covariance_in=cov[ndim])
                    rec.close(kde.density(pts[ndim])[1], model.density(np.atleast_2d(pts[ndim])), 'density with valid weights', weights=ww)
                if form is list and not valid:
                    judge(rec, False, lambda: kale.density(data[ndim], pts[ndim], bandwidth=0.6, covariance=cov[ndim], weights=given), 'density() weights', weights=ww)
                    judge(rec, False, lambda: kale.resample(data[ndim], bandwidth=0.6, covariance=cov[ndim], weights=given), 'resample() weights', weights=ww)
        rec.trace()


# ---- reflect

def row_valid(row, data):
    if row is None or row is True:
        return True
    if not isinstance(row, list) or len(row) != 2:
        return False
    lo, hi = [ext if rr is True else rr for rr, ext in zip(row, [np.min(data), np.max(data)])]
    return lo is None or hi is None or lo < hi


def run_reflect(case, rec):
    import kalepy as kale
    ndim, rows, first = case['ndim'], case['rows'], case['first']
    data = DATA[ndim]
    kde = kale.KDE(data, bandwidth=0.4)
    base = frozen(show(kde))
    given = data[0] if ndim == 1 else data
    flat = kale.KDE(given, bandwidth=0.4)
    if rows == 0:
        combos = [[]]
    elif rows == 1:
        combos = [[rr] for rr in ROWS]
    elif rows <= 3:
        combos = [[ROWS[ff] for ff in first] + list(cc) for cc in itertools.product(ROWS, repeat=rows-len(first))]
    else:
        combos = [[ROWS[ff] for ff in first] + [rr] for rr in ROWS]
    if ndim == 1 and rows == 1:
        # a single pair can be given by itself
        combos += [rr for rr in ROWS if isinstance(rr, list)]
    for refl in combos:
        rec.state('reflect', ndim, repr(refl))
        valid = len(refl) == ndim and all(row_valid(rr, dd) for rr, dd in zip(refl, data))
        if ndim == 1 and len(refl) == 2 and not any(isinstance(rr, list) for rr in refl):
            valid = row_valid(refl, data[0])
            if False in [rr for rr in refl if isinstance(rr, bool)]:
                continue    # `False` as a boundary has no meaning
        before = frozen(refl)
        made = judge(rec, valid, lambda: kale.KDE(given, bandwidth=0.4, reflect=refl), 'KDE() reflect', reflect=repr(refl))
        dens = judge(rec, valid, lambda: kde.density(data, reflect=refl), 'density() reflect', reflect=repr(refl))
        judge(rec, valid, lambda: flat.density(data, reflect=refl), 'density() reflect, flat data', reflect=repr(refl))
        if valid:
            rec.close(made.density(given)[1], dens[1], 'density with boundaries of the KDE and the call', reflect=repr(refl))
            want = ref.parse_reflect(refl, data)
            good = all((ww is None) or (ww[0] is None or np.mean(dd >= ww[0]) > 0.2) and (ww[1] is None or np.mean(dd <= ww[1]) > 0.2)
                       for ww, dd in zip(want, data))
            if good and rows <= 2:
                np.random.seed(4)
                judge(rec, True, lambda: kde.resample(3, reflect=refl), 'resample() reflect', reflect=repr(refl))
        else:
            judge(rec, False, lambda: kde.resample(3, reflect=refl), 'resample() reflect', reflect=repr(refl))
            judge(rec, False, lambda: kale.density(given, reflect=refl), 'kalepy.density() reflect', reflect=repr(refl))
        rec.equal(frozen(refl), before, 'reflect given is modified')
        rec.trace()
    rec.equal(frozen(show(kde)), base, 'rejected calls change the KDE')


# ---- params, points

def run_params(case, rec):
    import kalepy as kale
    ndim, num = case['ndim'], case['num']
    data = DATA[ndim]
    kdes = [kale.KDE(data, bandwidth=0.5)]
    if ndim == 1:
        kdes.append(kale.KDE(data[0], bandwidth=0.5))
    model = ref.Model(data, 0.5, weights=None, kernel=None)
    base = [frozen(show(kk)) for kk in kdes]
    if num == 0:
        choices = [None] + list(range(ndim + 2))
    else:
        choices = [list(pp) for pp in itertools.product(range(ndim + 2 if num < 3 else ndim + 1), repeat=num)]
    for params in choices:
        sel = list(range(ndim)) if params is None else ([params] if num == 0 else params)
        exist = all(pp < ndim for pp in sel)
        if exist and len(set(sel)) < len(sel):
            continue    # the same parameter twice has no density
        rec.state('params', ndim, params)
        for rows in range(1, 5):
            valid = exist and (rows == len(sel))
            lin = [np.linspace(-1.0, 2.0, 3) + 0.1*ii for ii in range(rows)]
            for kk in kdes:
                for form in [list, tuple, np.array] if num > 0 else [lambda xx: xx]:
                    for grid in [False, True]:
                        pts = lin if grid else np.array(lin)
                        got = judge(rec, valid, lambda: kk.density(pts, params=None if params is None else form(params), grid=grid), 'density() params and points',
                                    excs=Exception, params=repr(params), rows=rows, grid=grid)
                        if valid and ndim < 4:
                            mesh = np.array(np.meshgrid(*lin, indexing='ij')) if grid else pts
                            want = model.density(mesh.reshape(rows, -1), params=None if params is None else sel).reshape(mesh.shape[1:])
                            rec.close(got[1], want, 'density of parameters', params=repr(params))
        if exist and len(sel) > 1:
            judge(rec, False, lambda: kdes[0].density(np.zeros(len(sel)), params=params), 'density() of flat points in multiple dimensions', excs=Exception)
        rec.trace()
    rec.equal([frozen(show(kk)) for kk in kdes], base, 'rejected calls change the KDE')


def run_cdf(case, rec):
    import kalepy as kale
    ndim = case['ndim']
    if ndim > 2:
        return
    kde = kale.KDE(DATA[ndim] if ndim > 1 else DATA[1][0], bandwidth=0.5)
    base = frozen(show(kde))
    for rows in range(1, 5):
        rec.state('cdf', ndim, rows)
        judge(rec, rows == ndim, lambda: kde.cdf(np.zeros((rows, 3))), 'cdf() points', rows=rows)
        judge(rec, False, lambda: kde.cdf(np.zeros((rows, 3)), params=0), 'cdf() params', excs=NotImplementedError)
        judge(rec, False, lambda: kde.cdf(np.zeros((rows, 3)), reflect=[[0.0, 1.0]]*ndim), 'cdf() reflect', excs=NotImplementedError)
    rec.equal(frozen(show(kde)), base, 'rejected calls change the KDE')
    rec.trace()


def run_size(case, rec):
    import kalepy as kale
    ndim = case['ndim']
    kde = kale.KDE(DATA[ndim], bandwidth=0.5)
    base = frozen(show(kde))
    for size, want in [(0, 0), (1, 1), (7, 7), (2.0, 2), (np.int64(3), 3), (None, 6), (-1, None), (-7, None), ('many', None), ([3, 4], None), (NAN, None)]:
        rec.state('size', ndim, repr(size))
        for refl in [None, [[-5.0, 9.0]] + [None]*(ndim-1)]:
            got = judge(rec, want is not None, lambda: kde.resample(size, reflect=refl, squeeze=False), 'resample() size', excs=Exception, size=repr(size))
            if want is not None:
                rec.equal(np.shape(got), (ndim, want), 'number of samples')
        for keep in list(range(ndim + 3)) + [[0, ndim], [ndim], 'a', 0.5]:
            valid = isinstance(keep, int) and keep < ndim
            judge(rec, valid, lambda: kde.resample(5, keep=keep), 'resample() keep', excs=Exception, keep=repr(keep))
    rec.equal(frozen(show(kde)), base, 'rejected calls change the KDE')
    rec.trace()


# ---- bandwidths and names

def run_bandwidth(case, rec):
    import kalepy as kale
    ndim = case['ndim']
    data = DATA[ndim]
    for shape in [()] + [(aa,) for aa in range(0, 6)] + list(itertools.product(range(0, 6), repeat=2)):
        if np.prod(shape) == 1 and len(shape) == 2 and ndim > 1:
            continue    # a single value, however nested
        valid = shape in [(), (1,), (ndim,), (ndim, ndim)]
        bw = np.full(shape, 0.05) if len(shape) == 2 else np.full(shape, 0.5)
        if len(shape) == 2 and shape[0] == shape[1]:
            bw = bw + 0.45*np.eye(shape[0])
        rec.state('bandwidth', ndim, shape)
        for form in ['array', 'list']:
            given = bw if form == 'array' else bw.tolist()
            kde = judge(rec, valid, lambda: kale.KDE(data, bandwidth=given), 'KDE() bandwidth', shape=shape)
            if valid:
                model = ref.Model(data, 0.5 if len(shape) < 2 and np.size(bw) == 1 else bw, weights=None, kernel=None)
                rec.close(kde.density(data)[1], model.density(data), 'density with valid bandwidth', shape=shape)
        rec.trace()
    for bad in ['', 'Scott', 'SILVERMAN', 'scot', 'silverman ', None if ndim > 1 else 'none', 'auto']:
        if ndim > 1:
            for pos in range(ndim):
                bws = [0.5]*ndim
                bws[pos] = bad
                judge(rec, False, lambda: kale.KDE(data, bandwidth=bws), 'KDE() bandwidth of one parameter', bandwidth=repr(bws))
                for jj in range(ndim):
                    mat = [[0.5]*ndim for _ in range(ndim)]
                    mat[pos][jj] = bad
                    judge(rec, False, lambda: kale.KDE(data, bandwidth=mat), 'KDE() bandwidth of one element', bandwidth=repr(mat))
    rec.trace()


def run_names(case, rec):
    import kalepy as kale
    name = case['name']
    data = DATA[1][0]
    rules = ['scott', 'silverman']
    chars = 'abegnostxz_ 0A'
    edits = {name, name + name}
    for ii in range(len(name) + 1):
        for cc in chars:
            edits.add(name[:ii] + cc + name[ii:])
            if ii < len(name):
                edits.add(name[:ii] + cc + name[ii+1:])
        if ii < len(name):
            edits.add(name[:ii] + name[ii+1:])
            edits.add(name[:ii])
            edits.add(name[ii+1:])
            edits.add(name[:ii] + name[ii].upper() + name[ii+1:])
    edits |= {name.upper(), name.title(), ' ' + name + '  ', name + '\n'}
    for text in sorted(edits):
        rec.state('name', text)
        rule = name in rules
        if rule:
            judge(rec, text in rules, lambda: kale.KDE(data, bandwidth=text), 'bandwidth rule', rule=text)
        else:
            valid = text.lower().strip() in NAMES
            kde = judge(rec, valid, lambda: kale.KDE(data, kernel=text), 'kernel name', name=text)
            if valid:
                want = ref.Model(data, 'scott', weights=None, kernel=text.lower().strip())
                rec.close(kde.density(data + 0.01)[1], want.density((data + 0.01)[None, :]), 'density of the named kernel', name=text)
        rec.trace()
    for bad in [3, int, kale.KDE, 1.5, [name], kale.kernels]:
        judge(rec, False, lambda: kale.KDE(data, kernel=bad), 'kernel', kernel=repr(bad))


# ---- grids

def run_grid(case, rec):
    import kalepy as kale
    ndim, arg = case['ndim'], case['arg']
    full = [4, 3, 5][:ndim]
    edges = [np.linspace(0.0, 1.0 + ii, nn) for ii, nn in enumerate(full)]
    bins = tuple(nn - 1 for nn in full)
    right = dict(dens=tuple(full), mass=bins, scalar_dens=tuple(full), scalar_mass=bins)
    shapes = [()] + [ss for dd in [1, 2, 3] for ss in itertools.product([1, 2, 3, 4, 5], repeat=dd)]
    # the ambiguous shapes: the right ones with dimensions added, removed, or repeated
    for base in [tuple(full), bins]:
        shapes += [base + (1,), (1,) + base, base[:-1], base[1:], base[::-1], base + base[:1]]
    base = (5, 5, 5)[:ndim]
    for cubic in [False, True]:
        if cubic:
            edges = [np.linspace(0.0, 1.0 + ii, 4) for ii in range(ndim)]
            right = dict(dens=(4,)*ndim, mass=(3,)*ndim, scalar_dens=(4,)*ndim, scalar_mass=(3,)*ndim)
            full = [4]*ndim
        if arg == 'edges':
            for nums in [ss for ss in shapes if ss]:
                rec.state('edges', ndim, cubic, nums)
                given = [np.linspace(0.0, 1.0, nn) for nn in nums]
                valid = tuple(nums) == tuple(full)
                for func in [lambda: kale.sample_grid(given, np.ones(full), 3), lambda: kale.sample_outliers(given, np.ones(full), 1e-3),
                             lambda: kale.sample.Sample_Grid(given, np.ones(full)),
                             # nor with masses matching either of both
                             lambda: kale.sample.Sample_Grid(given, np.ones(full), mass=np.ones([nn - 1 for nn in nums])),
                             lambda: kale.sample.Sample_Grid(given, np.ones(full), mass=np.ones([nn - 1 for nn in full])),
                             lambda: kale.sample.Sample_Outliers(given, np.ones(full), 10.0, mass=np.ones([nn - 1 for nn in full]))]:
                    np.random.seed(1)
                    judge(rec, valid, func, 'edges', excs=Exception, edges=nums, dens=full)
            continue
        for shape in sorted(set(shapes)):
            rec.state('grid', ndim, arg, shape, cubic)
            kw = dict(dens=np.ones(full))
            kw[arg] = np.ones(shape)
            dens = kw.pop('dens')
            valid = (shape == right[arg])
            for form in ['array', 'list']:
                if form == 'list':
                    if arg == 'dens':
                        continue
                    kw[arg] = kw[arg].tolist()
                np.random.seed(1)
                judge(rec, valid, lambda: kale.sample_grid(edges, dens, 3, **kw), 'sample_grid()', excs=Exception, arg=arg, shape=shape, grid=full)
                if arg in ['dens', 'mass']:
                    judge(rec, valid, lambda: kale.sample_outliers(edges, dens, 1e-3, **kw), 'sample_outliers()', excs=Exception, arg=arg, shape=shape, grid=full)
            rec.trace()
    if arg == 'dens':
        dens = np.ones(full)
        judge(rec, False, lambda: kale.sample_outliers(edges, dens, 0.1, nsamp=5), 'sample_outliers() of a given number')
        judge(rec, False, lambda: kale.sample_outliers(edges, dens, 0.1, return_scalar=True), 'sample_outliers() of scalars')
        for nsamp in [-1, 'a', NAN, [2, 3]]:
            judge(rec, False, lambda: kale.sample_grid(edges, dens, nsamp), 'sample_grid() nsamp', excs=Exception)


# ---- data

def run_data(case, rec):
    import kalepy as kale
    for bad in [[], [[], []], np.zeros((3, 0)), np.zeros((2, 2, 2)), np.zeros((1, 2, 3)), [[1.0, 2.0], [1.0]], None, 'abc', ['a', 'b', 'c']]:
        for kw in [dict(), dict(bandwidth=0.5), dict(bandwidth=0.5, weights=[1.0, 1.0])]:
            rec.state('data', repr(bad), repr(kw))
            judge(rec, False, lambda: kale.KDE(bad, **kw), 'KDE() data', excs=Exception, data=repr(bad))
            judge(rec, False, lambda: kale.density(bad, [0.0, 1.0], **kw), 'density() data', excs=Exception, data=repr(bad))
            judge(rec, False, lambda: kale.resample(bad, **kw), 'resample() data', excs=Exception, data=repr(bad))
    rec.trace()


# ---- plots

def run_plotweights(case, rec):
    import kalepy as kale
    from kalepy import plot, utils
    import matplotlib.pyplot as plt
    num = 6
    data1, data2 = DATA[1][0], DATA[2]
    k1, k2 = kale.KDE(data1), kale.KDE(data2)
    right = np.array([1.0, 2.0, 0.0, 3.0, 1.5, 0.5])
    edges = np.linspace(-3.0, 4.0, 6)
    for shape in [(0,), (1,), (2,), (num-1,), (num,), (num+1,), (2*num,), (num, num), (2, num)]:
        valid = shape == (num,)
        rec.state('plotweights', shape)
        ww = right if valid else np.resize(right, shape)
        fig, ax = plt.subplots()
        for form in [np.array, lambda xx: xx.tolist()]:
            given = form(ww)
            for name, func in dict(
                    dist1d=lambda: kale.dist1d(data1, ax=ax, weights=given), dist1d_edges=lambda: kale.dist1d(data1, ax=ax, weights=given, edges=edges),
                    dist2d=lambda: kale.dist2d(data2, ax=ax, weights=given), hist1d=lambda: plot.hist1d(data1, ax=ax, weights=given),
                    hist2d=lambda: plot.hist2d(data2, ax=ax, weights=given), contour=lambda: plot.contour(data2, ax=ax, weights=given),
                    confidence=lambda: plot.confidence(data1, ax=ax, weights=given),
                    quantiles=lambda: utils.quantiles(data1, [0.2, 0.7], weights=given), histogram=lambda: utils.histogram(data1, edges, weights=given),
                    parse_edges=lambda: utils.parse_edges(data1, weights=given), parse_edges2=lambda: utils.parse_edges(data2, weights=given),
                    corner=lambda: kale.corner(data2, kwcorner=dict(weights=given))).items():
                judge(rec, valid, func, name + '() weights', excs=Exception, shape=shape)
                if name == 'corner':
                    plt.close(plt.gcf())
            # the weights of a KDE cannot be given again
            for name, func in dict(dist1d=lambda: kale.dist1d(k1, ax=ax, weights=given), dist2d=lambda: kale.dist2d(k2, ax=ax, weights=given),
                                   corner=lambda: kale.corner(k2, weights=given), Corner=lambda: kale.Corner(k2, weights=given),
                                   plot_kde=lambda: kale.Corner(2).plot_kde(k2, weights=given), plot_data=lambda: kale.Corner(2).plot_data(k2, weights=given),
                                   hist=lambda: kale.Corner(2).hist(k2, weights=given), clean=lambda: kale.Corner(2).clean(k2, weights=given)).items():
                judge(rec, False, func, name + '() weights of a KDE', shape=shape)
        plt.close('all')
        rec.trace()
    judge(rec, False, lambda: utils.quantiles(data1), 'quantiles() without fractions')
    for pair, valid in [([-9.0, 9.0], True), (None, True), ([None, 9.0], True), ([-9.0], False), ([-9.0, 0.0, 9.0], False)]:
        for ext in [[pair, [-9.0, 9.0]], [None, pair], [pair, pair]]:
            judge(rec, valid, lambda: utils.parse_edges(data2, extrema=ext), 'parse_edges() extrema', excs=Exception, extrema=repr(ext))
    for bad in [-0.1, 1.1, [0.5, 2.0], [-1.0, 0.5]]:
        judge(rec, False, lambda: utils.quantiles(data1, bad), 'quantiles() of fractions beyond [0, 1]', excs=Exception)


def run_origin(case, rec):
    import kalepy as kale
    import matplotlib.pyplot as plt
    letters = 'tbrlTBRLxc '
    fig, axes = plt.subplots(2, 2, squeeze=False)
    for size in [0, 1, 2, 3]:
        for combo in itertools.product(letters if size < 3 else 'tlbr', repeat=size):
            text = ''.join(combo)
            rec.state('origin', text)
            valid = size == 2 and combo[0].lower() in 'tb' and combo[1].lower() in 'lr'
            for form in [text, list(text)]:
                judge(rec, valid, lambda: kale.Corner(2, origin=form, axes=axes), 'Corner() origin', origin=text)
    plt.close('all')
    for bad in [2.0, np.float64(3.0), 'abc', 1.5]:
        judge(rec, False, lambda: kale.Corner(bad), 'Corner() size', excs=Exception)
    plt.close('all')
    rec.trace()


def run_corner(case, rec):
    import kalepy as kale
    import matplotlib.pyplot as plt
    size, form = case['size'], case['form']
    kw = dict(edges=[np.linspace(-4.0, 9.0, 5)]*4)
    if form == 'target':
        corner = kale.Corner(DATA[size] if size > 1 else DATA[1][0], limits=[[-1.0, 2.0]]*size)
        for num in range(0, 5):
            for which in [0, 1, 2]:
                for fill in [None, 0.5]:
                    args = [[0.1]*size, None, None]
                    args[which] = [fill]*num
                    rec.state('target', size, num, which, fill)
                    judge(rec, num == size, lambda: corner.target(args[0], upper_limits=args[1], lower_limits=args[2]), 'target()', num=num, which=which)
        plt.close('all')
        rec.trace()
        return
    if form == 'axes':
        for num in range(1, 5):
            rec.state('limits', size, num)
            if num == 2 or size == 2:
                continue
            judge(rec, num == size, lambda: kale.Corner(size, limits=[[0.0, 1.0]]*num), 'Corner() limits', num=num)
            plt.close('all')
        rec.trace()
        return
    for ndim in [1, 2, 3, 4]:
        if ndim > 1:
            data = DATA[ndim]
        else:
            data = DATA[1]
        for given in ['data', 'kde']:
            if ndim == 1 and given == 'data':
                continue    # one parameter is given as a row
            corner = kale.Corner(size)
            obj = data if given == 'data' else kale.KDE(data)
            rec.state('corner', size, form, ndim, given)
            judge(rec, ndim == size, lambda: getattr(corner, form)(obj), 'Corner.{}()'.format(form), excs=Exception, ndim=ndim)
            plt.close('all')
    # nothing is stored
    corner = kale.Corner(size)
    judge(rec, False, lambda: getattr(corner, form)(), 'Corner.{}() without data'.format(form))
    plt.close('all')
    rec.trace()


def run_panels(case, rec):
    import kalepy as kale
    from kalepy import plot
    import matplotlib.pyplot as plt
    data1, data2, data3 = DATA[1][0], DATA[2], DATA[3]
    k3 = kale.KDE(data3)
    fig, ax = plt.subplots()
    for bad in [data2, data3, np.zeros((2, 3, 4))]:
        judge(rec, False, lambda: kale.dist1d(bad, ax=ax), 'dist1d() of several parameters')
    for num in range(0, 5):
        for params in itertools.product(range(4), repeat=num):
            valid = num == 2 and all(pp < 3 for pp in params)
            if len(set(params)) < len(params) and valid:
                continue
            if num == 4 and params[0] > 1:
                continue
            rec.state('dist2d', params)
            judge(rec, valid, lambda: kale.dist2d(k3, ax=ax, params=list(params)), 'dist2d() params', excs=Exception, params=params)
    for param in range(0, 5):
        rec.state('dist1d', param)
        judge(rec, param < 3, lambda: kale.dist1d(k3, ax=ax, param=param), 'dist1d() param', excs=Exception, param=param)
    for lim, valid in [(None, True), (True, True), (False, True), (3, True), (1, True), (np.int64(2), True), (0, False), (-2, False), ('x', False)]:
        rec.state('limit', repr(lim))
        judge(rec, valid, lambda: plot.draw_scatter(ax, data2[0], data2[1], limit=lim), 'draw_scatter() limit', excs=Exception, limit=repr(lim)) if lim not in [True, False] else None
        judge(rec, valid, lambda: kale.dist2d(data2, ax=ax, scatter=lim), 'dist2d() scatter', scatter=repr(lim))
    for bad in ['uniforms', '', 'Normal ', 'x', 3, None]:
        judge(rec, False, lambda: kale.carpet(data1, ax=ax, random=bad), 'carpet() random', excs=Exception, random=repr(bad))
    for bad in ['yes', 1.5, [1], 'x']:
        judge(rec, False, lambda: plot.contour(data2, ax=ax, outline=bad), 'contour() outline', outline=repr(bad))
    plt.close('all')
    rec.trace()
