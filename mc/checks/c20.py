"""C20: automatic and given edges span what they should, for all forms of edges, extrema and weights."""

import numpy as np

from mc import gen

ID = 'C20'
TITLE = 'Edges span the data or the given extrema, in each dimension\'s own terms'
BOUNDS = dict(
    quick='1-3 dims, 7 data sets, 2-150 points, 5 weightings, 9 forms of edges, 9 forms of extrema (shared, per dimension, partial, infinite), '
          'padding, refinement and bounds on the number of bins; units of 2^-40, 4 and 2^60',
    thorough='as quick, with all combinations',
)
ASSUMPTIONS = ['the number of automatic bins is only required to be within its bounds, not to decrease with `refine`, and to depend on neither '
               'the scale of the weights nor the units']


def cases(tier):
    quick = (tier == 'quick')
    out = []
    kinds = ['plain', 'positive', 'ints', 'negative', 'offset', 'wide', 'tiny', 'f32']
    for ndim in [1, 2, 3]:
        out += gen.product(ndim=[ndim], nested=[0, 1] if ndim == 1 else [1], data=kinds if ndim == 1 or not quick else kinds[:5], num=[6, 2, 31, 150],
                           weights=[None, 'ones', 'zeros', 'skew', 'small'] if ndim == 1 or not quick else [None, 'zeros'],
                           edges=[None, 'int', 'one', 'array', 'ints', 'arrays', 'mixed', 'nones', 'float'],
                           extrema=[None, 'shared', 'each', 'partial', 'lo', 'none', 'nones', 'inside', 'array', 'zero', 'zeros', 'inf', 'infs'])
    return out


def run(case, rec):
    from kalepy import utils
    ndim, num = case['ndim'], case['num']
    data = np.atleast_2d(gen.dataset(case['data'], ndim, num))
    full = data.astype(float)
    lo, hi = full.min(axis=1), full.max(axis=1)
    span = hi - lo
    if np.any(span <= 0):
        return
    ww = gen.weights(case['weights'], num)
    flat = not case['nested']
    given = data[0] if flat else data

    # extrema, and what they mean
    want = np.array([lo, hi]).T
    ext = case['extrema']
    if ext is None or ext == 'none':
        arg = None
        if ext == 'none':
            return
    elif ext == 'shared':
        arg = [float(lo.min() - 1.0), float(hi.max() + 2.0)]
        want = np.array([arg]*ndim)
    elif ext == 'each':
        arg = [[float(aa - 0.5*ss), float(bb + 0.25*ss)] for aa, bb, ss in zip(lo, hi, span)]
        want = np.array(arg)
    elif ext == 'array':
        arg = np.array([[aa - 0.5*ss, bb + 0.25*ss] for aa, bb, ss in zip(lo, hi, span)])
        want = np.array(arg)
    elif ext == 'inside':
        arg = [[float(aa + 0.2*ss), float(bb - 0.1*ss)] for aa, bb, ss in zip(lo, hi, span)]
        want = np.array(arg)
    elif ext == 'lo':
        arg = [float(lo.min() - 1.0), None]
        want = want.copy()
        want[:, 0] = arg[0]
    elif ext == 'partial':
        arg = [[None, float(hi[0] + span[0])]] + [[float(lo[ii] - 0.3*span[ii]), None] for ii in range(1, ndim)]
        want = want.copy()
        want[0, 1] = arg[0][1]
        for ii in range(1, ndim):
            want[ii, 0] = arg[ii][0]
    elif ext == 'nones':
        arg = [None]*ndim
        if ndim == 1:
            arg = [None, None]
    elif ext in ('zero', 'zeros'):   # an end at zero is not an open end
        if case['data'] not in ('positive', 'negative'):
            return
        arg = [0.0, None] if case['data'] == 'positive' else [None, 0]
        want = want.copy()
        want[:, 0 if case['data'] == 'positive' else 1] = 0.0
        if ext == 'zeros':
            arg = [list(arg) for _ in range(ndim)]
    elif ext == 'inf':               # replaced by those of the data
        arg = [-np.inf, np.inf]
    elif ext == 'infs':              # (an infinite end with a finite one: only required to contain the data)
        arg = [[float(lo[ii] - 0.5*span[ii]), np.inf] if ii % 2 == 0 else [-np.inf, float(hi[ii] + 0.25*span[ii])] for ii in range(ndim)]
    copy = repr(arg)

    # edges
    kind = case['edges']
    own = [np.linspace(aa - 3*ss, bb, 4 + ii) for ii, (aa, bb, ss) in enumerate(zip(lo, hi, span))]
    nbins = [None]*ndim
    exact = [None]*ndim
    if kind is None:
        edges = None
    elif kind == 'int':
        edges, nbins = 7, [7]*ndim
    elif kind == 'one':
        edges, nbins = 1, [1]*ndim
    elif kind == 'array':            # shared by all dimensions
        edges = own[0] if ndim != 4 else None
        exact = [own[0]]*ndim
    elif kind == 'ints':
        if ndim == 1:
            return
        edges = [5 + ii for ii in range(ndim)]
        nbins = edges
    elif kind == 'arrays':
        edges = own if ndim > 1 else [own[0]]
        exact = own
    elif kind == 'mixed':
        if ndim == 1:
            return
        edges = [own[0], 6, None][:ndim]
        exact[0], nbins[1] = own[0], 6
    elif kind == 'nones':
        if ndim == 1:
            return
        edges = [None]*ndim
    elif kind == 'float':
        edges = own[0].tolist()
        exact = [own[0]]*ndim
    rec.state(case)

    def call(**kw):
        args = dict(edges=edges, extrema=arg, weights=ww)
        args.update(kw)
        out = utils.parse_edges(given, **args)
        if flat:
            rec.require(np.ndim(out) == 1, 'edges of 1D data are not one array', shape=np.shape(out))
            return [np.asarray(out)]
        rec.require(len(out) == ndim, 'edges: wrong number of dimensions', got=len(out))
        return [np.asarray(ee) for ee in out]

    variants = [dict(), dict(pad=0), dict(pad=2), dict(pad=0, refine=3.0), dict(pad=0, nmin=8, nmax=11), dict(pad=None, nmax=30)]
    saved = {}
    for vv in variants:
        out = call(**vv)
        pad = vv.get('pad')
        if pad is None:
            pad = 1 if arg is None else 0
        for ii, ee in enumerate(out):
            rec.step()
            if exact[ii] is not None:
                rec.close(ee, exact[ii], 'given edges are not kept', rtol=0, dim=ii)
                continue
            rec.require(ee.ndim == 1 and np.all(np.isfinite(ee)), 'edges are not finite', dim=ii, variant=vv)
            rec.require(np.all(np.diff(ee) > 0), 'edges do not increase', dim=ii, variant=vv)
            if not (case['data'] == 'offset' and case['num'] < 3):
                rec.close(np.diff(ee), np.full(ee.size-1, (ee[-1] - ee[0])/(ee.size-1)), 'edges are not evenly spaced', rtol=1e-6, dim=ii)
            if nbins[ii] is not None:
                rec.require(ee.size == nbins[ii] + 1, 'not the number of bins asked for', got=ee.size - 1, want=nbins[ii], dim=ii)
            else:
                nmin, nmax = vv.get('nmin', 5), vv.get('nmax', 1000)
                rec.require(nmin <= ee.size - 1 <= nmax, 'number of bins out of bounds', got=ee.size-1, variant=vv)
                saved[(repr(vv), ii)] = ee.size
            ww_, tol = want[ii], 1e-9*max(abs(want[ii]))
            if ext == 'infs':
                rec.require(ee[0] <= ww_[0] + tol and ee[-1] >= ww_[1] - tol, 'edges do not contain the data', got=[ee[0], ee[-1]], want=ww_)
            elif pad == 0:
                rec.close([ee[0], ee[-1]], ww_, 'edges do not span the extrema', rtol=1e-9, atol=1e-9*span[ii], dim=ii, variant=vv)
            else:
                left, right = ww_[0] - ee[0], ee[-1] - ww_[1]
                rec.require(left > 0 and right > 0, 'edges are not padded', left=left, right=right, variant=vv)
                rec.close(left, right, 'padding differs between the sides', rtol=1e-6, atol=10*tol, variant=vv)
    # more bins if refined, never fewer
    for ii in range(ndim):
        if (repr(variants[1]), ii) in saved:
            rec.require(saved[(repr(variants[3]), ii)] >= saved[(repr(variants[1]), ii)], 'refine gives fewer bins', dim=ii)
    # the scale of the weights does not matter
    if ww is not None:
        for aa, bb in zip(call(weights=np.asarray(ww)*4.0), call()):
            rec.close(aa, bb, 'edges depend on the scale of the weights', rtol=1e-9)
    # units: edges scale with data, however large or small the unit
    if kind in (None, 'int', 'one', 'ints', 'nones') and case['data'] not in ('ints', 'f32', 'tiny', 'offset'):
        def scale(ee, unit):
            return None if ee is None else [scale(xx, unit) for xx in ee] if np.ndim(ee) else ee*unit

        base = call(pad=0)
        for unit in [4.0, 2.0**-40, 2.0**60]:
            scaled = utils.parse_edges(given*unit, edges=edges, weights=ww, pad=0, extrema=scale(arg, unit))
            scaled = [scaled] if flat else scaled
            for aa, bb in zip(scaled, base):
                rec.close(np.asarray(aa), unit*bb, 'edges do not scale with the data', rtol=1e-9, atol=1e-9*unit*np.abs(bb).max(), unit=unit)
    rec.require(repr(arg) == copy, '`extrema` were modified', before=copy, after=repr(arg))
    # wrong number of dimensions
    if not flat:
        rec.raises(ValueError, lambda: utils.parse_edges(given, edges=[np.arange(3.0)]*(ndim+1)), 'edges for too many dimensions')
        if ndim > 1:
            rec.raises(ValueError, lambda: utils.parse_edges(given, extrema=[[0.0, 1.0]]*(ndim+1)), 'extrema for too many dimensions')
    rec.trace()
