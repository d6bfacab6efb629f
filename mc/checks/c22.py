"""C22: what a plotting call draws does not depend on the plots made before it, and changes nothing but the axes."""

import itertools
import os
import pickle

import numpy as np

from mc import common, core, gen, scene

ID = 'C22'
TITLE = 'What a plotting call draws does not depend on earlier calls'
BOUNDS = dict(
    quick='all sequences of two of 19 plotting operations (Corner methods with and without shared option dictionaries, single-panel functions, corner()), and of '
          'three of 5, each from a fresh process, on the same and on new figures; every operation is compared to its first execution in a fresh process',
    thorough='all sequences of three operations, and of four of 5',
)
ASSUMPTIONS = ['limits, colors and ordinates of carpets legitimately depend on the figure, and are not compared on the same figure']

NUM = 9
QUICK3 = ['plot', 'clean', 'hist', 'plot_data', 'plot+']


class World:
    """Everything shared by the operations of one history."""

    def __init__(self):
        import kalepy as kale
        import matplotlib.pyplot as plt
        self.data = gen.dataset('plain', 2, NUM)
        self.ww = gen.weights('ints', NUM).astype(float)
        self.kde = kale.KDE(self.data, weights=self.ww)
        self.edges = [np.linspace(-2.0, 4.0, 6), np.linspace(-3.0, 6.0, 5)]
        self.d1 = dict(hist=True)
        self.d2 = dict(scatter=False, median=False)
        self.d3 = dict(carpet=False, confidence=True)
        self.d4 = dict(quantiles=np.array([0.3, 0.6]), mask_dense=False)
        self.qq = np.array([0.4, 0.8])
        self.kwc = dict(rotate=False, limits=[[-3.0, 5.0], [-4.0, 8.0]])
        self.lims = [[-1.0, 1.0], [-1.0, 2.0]]
        self.steep = 10.0**((np.arange(NUM)*4 % NUM) - 3.0)
        self.corner = None
        self.axes = None

    def frozen(self):
        pts = gen.points_around(self.data, 2, 5)
        return repr([self.data, self.ww, self.steep, self.edges, self.d1, self.d2, self.d3, self.d4, self.qq, self.kwc, self.lims, self.kde.dataset, self.kde.weights,
                     self.kde.density(pts)[1]])

    def fresh(self):
        import kalepy as kale
        import matplotlib.pyplot as plt
        plt.close('all')
        self.corner = kale.Corner(self.kde)
        fig, axs = plt.subplots(1, 1, squeeze=False)
        self.axes = axs[0, 0]

    def panels(self):
        axs = [self.corner.axes[ii, jj] for ii in range(2) for jj in range(ii+1)]
        return axs + [self.axes]


OPS = {
    'plot': lambda w, k: w.corner.plot(),
    'clean': lambda w, k: w.corner.clean(),
    'hist': lambda w, k: w.corner.hist(),
    'plot_kde': lambda w, k: w.corner.plot_kde(),
    'plot_data': lambda w, k: w.corner.plot_data(),
    'plot+': lambda w, k: w.corner.plot(w.kde, edges=w.edges, quantiles=w.qq, dist1d=w.d1, dist2d=w.d2),
    'clean+': lambda w, k: w.corner.clean(w.data, weights=w.ww, dist1d=w.d3, dist2d=w.d2),
    'hist+': lambda w, k: w.corner.hist(dist1d=w.d1, dist2d=w.d2, edges=w.edges),
    'plot_data+': lambda w, k: w.corner.plot_data(w.data, weights=w.ww, dist1d=w.d3, dist2d=w.d2, quantiles=w.qq),
    'plot_kde+': lambda w, k: w.corner.plot_kde(w.kde, dist1d=w.d1, dist2d=w.d4),
    'target': lambda w, k: w.corner.target([0.5, None]),
    'dist1d': lambda w, k: k.plot.dist1d(w.kde, ax=w.axes, param=1, hist=True, confidence=True),
    'dist1d+': lambda w, k: k.plot.dist1d(w.data[0], ax=w.axes, weights=w.ww, edges=w.edges[0], quantiles=w.qq, confidence=True, density=True),
    'dist2d': lambda w, k: k.plot.dist2d(w.kde, ax=w.axes),
    'dist2d+': lambda w, k: k.plot.dist2d(w.data, ax=w.axes, edges=w.edges, quantiles=w.qq, weights=w.ww, params=[1, 0], scatter=4),
    'single': lambda w, k: (k.plot.confidence(w.data[1], ax=w.axes, quantiles=w.qq), k.plot.contour(w.data, edges=w.edges, ax=w.axes), k.plot.hist2d(w.data, ax=w.axes),
                            k.plot.hist1d(w.data[0], ax=w.axes, renormalize=True)),
    'carpet': lambda w, k: k.plot.carpet(w.data[0], weights=w.steep, ax=w.axes),
    'corner': lambda w, k: k.corner(w.kde, kwcorner=w.kwc),
    'limits': lambda w, k: _limited(w, k),
}


def _limited(w, k):
    """A new corner with limits, which are extended by the plot."""
    crn = k.Corner(w.data, weights=w.ww, limits=w.lims)
    crn.hist(limit=True)
    crn.plot_data(limit=True, dist2d=dict(contour=False))
    return crn, None


def cases(tier):
    names = list(OPS)
    out = [[nn] for nn in names]
    if tier == 'quick':
        out += [list(pp) for pp in itertools.product(names, repeat=2)]
        out += [list(pp) for pp in itertools.product(QUICK3, repeat=3)]
    else:
        out += [list(pp) for pp in itertools.product(names, repeat=2)]
        out += [list(pp) for pp in itertools.product(names, repeat=3)]
        out += [list(pp) for pp in itertools.product(QUICK3, repeat=4)]
    return [dict(ops=oo, figure=ff) for oo in out for ff in (['same', 'new'] if len(oo) > 1 else ['new'])]


def show(axs, skips, carpets):
    """Canonical content added to the axes; of carpets, only the coordinate of the data."""
    out = []
    for num, (ax, skip) in enumerate(zip(axs, skips)):
        sc = scene.Scene(ax, skip=skip)
        pts = [np.round(pp, 9) for pp in sc.points]
        if carpets[num] is not None:
            pts = [pp[:, carpets[num]] for pp in pts]
        out.append([sc.curves, sorted(sc.vlines), sorted(sc.hlines), sorted(sc.vspans), sorted(sc.hspans), pts, sc.meshes,
                    [(lev, [len(ss) for ss in segs]) for lev, segs in sc.contours], [lev for lev, segs in sc.fills], len(sc.others)])
    return core.canon(out)


def history(ops, figure):
    """Execute a history; returns per operation (what was drawn, limits, anything that was changed)."""
    import kalepy as kale
    import matplotlib as mpl
    import matplotlib.pyplot as plt
    import logging
    import warnings
    warnings.simplefilter('ignore')
    mpl.rcParams['figure.max_open_warning'] = 0
    world = World()
    world.fresh()
    was = world.frozen()
    rc = repr(dict(mpl.rcParams))
    out = []
    for num, name in enumerate(ops):
        if figure == 'new' and num > 0:
            world.fresh()
        axs = world.panels()
        skips = [list(ax.lines) + list(ax.patches) + list(ax.collections) for ax in axs]
        np.random.seed(7)
        rv = OPS[name](world, kale)
        if name in ('corner', 'limits'):
            crn = rv[0]
            axs = [crn.axes[0, 0], crn.axes[1, 0], crn.axes[1, 1]]
            skips = [[], [], []]
            carpets = [0, None, 0]
        else:
            # the last density is rotated
            carpets = [0, None, 1, 0 if name.startswith(('dist1d', 'carpet')) else None]
        drawn = show(axs, skips, carpets)
        limits = core.canon([np.round(list(ax.get_xlim()) + list(ax.get_ylim()), 9) for ax in axs]) if not name.startswith('dist1d') else b''
        changed = [] if world.frozen() == was else ['inputs or options']
        if repr(dict(mpl.rcParams)) != rc:
            changed.append('matplotlib settings')
        out.append((drawn, limits, changed))
    plt.close('all')
    return out


def forked(ops, figure):
    """The history, in a process in which nothing was plotted before."""
    rd, wr = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            try:
                res = history(ops, figure)
            except Exception as err:
                import traceback
                res = repr(err) + traceback.format_exc()[-1500:]
            with os.fdopen(wr, 'wb') as ff:
                pickle.dump(res, ff)
        finally:
            os._exit(0)
    os.close(wr)
    with os.fdopen(rd, 'rb') as ff:
        raw = ff.read()
    os.waitpid(pid, 0)
    return pickle.loads(raw) if raw else 'the process ended without a result'


FIRST = {}


def setup(tier):
    import kalepy  # noqa  (imported, but nothing is plotted in this process)
    import matplotlib.pyplot  # noqa
    common.warm()
    for name in OPS:
        res = forked([name], 'new')
        FIRST[name] = res if isinstance(res, str) else res[0]


def run(case, rec):
    res = forked(case['ops'], case['figure'])
    rec.require(not isinstance(res, str), 'a plotting call failed', error=res)
    for num, (name, (drawn, limits, changed)) in enumerate(zip(case['ops'], res)):
        rec.step()
        first = FIRST[name]
        rec.require(not isinstance(first, str), 'a plotting call failed', error=first)
        rec.state(name, drawn, limits)
        rec.require(not changed, 'a plotting call changed its inputs, options or settings', op=name, changed=changed)
        rec.require(drawn == first[0], 'a plotting call drew something else than it does first', op=name, step=num)
        if case['figure'] == 'new' or name in ('corner', 'limits'):
            rec.require(limits == first[1], 'a plotting call left other limits than it does first', op=name, step=num)
    rec.trace()
