"""C03: reflection = sum over all mirror images inside the boundaries, nothing outside, mass conserved."""

import numpy as np

from mc import common, gen, ref

ID = 'C03'
TITLE = 'Reflection mirrors the density about every boundary and conserves probability'
BOUNDS = dict(
    quick='dims 1-3; 10 boundary letters per dimension (all pairs in 2D, selected triples in 3D); 4 kernels; 3 weightings; '
          'given to the constructor, to density(), or both (override)',
    thorough='as quick, with 14 boundary letters, all triples of 5 letters in 3D, more data sets and bandwidths',
)
ASSUMPTIONS = ['automatic (True) boundaries are compared to 1e-5, as they are documented as just outside of the data',
               'conservation is checked for kernels narrower than the interval']

# boundaries in units of the data's span per dimension: resolved from the data, rounded to dyadic numbers
LETTERS = {
    'none': None,
    'lo': ['min-', None],
    'hi': [None, 'max+'],
    'both': ['min-', 'max+'],
    'auto': True,
    'auto_lo': [True, None],
    'auto_hi': [None, True],
    'auto_both': [True, True],
    'auto_mix': ['min-', True],
    'inside': ['in-', 'in+'],
    'inside_lo': ['in-', None],
    'far': ['min--', 'max++'],
    'zero_lo': [0.0, None],
    'zero_hi': [None, 0.0],
    'int_zero_lo': [0, None],
    'int_zero_hi': [None, 0],
    'zero_span': [0, 'max++'],
    'zero_span_hi': ['min--', 0.0],
    'one_lo': [1.0, None],
    'one_hi': [None, 1.0],
    'int_one_lo': [1, None],
    'int_one_hi': [None, 1],
    'one_span': [1, 'max++'],
    'one_span_hi': ['min--', 1.0],
    'empty': [None, None],
    'int': ['imin', 'imax'],
}


def resolve(letter, row):
    val = LETTERS[letter]
    if val is None or val is True:
        return val
    lo, hi = float(np.min(row)), float(np.max(row))
    span = (hi - lo) if hi > lo else 1.0
    tab = {'min-': np.floor((lo - 0.03*span)*64/span)/64*span, 'max+': np.ceil((hi + 0.02*span)*64/span)/64*span,
           'in-': lo + 0.3*span, 'in+': hi - 0.25*span, 'min--': lo - 40*span, 'max++': hi + 40*span,
           'imin': int(np.floor(lo)), 'imax': int(np.ceil(hi)) + 1}
    return [tab.get(vv, vv) if isinstance(vv, str) else vv for vv in val]


def cases(tier):
    quick = (tier == 'quick')
    zeros = [ll for ll in LETTERS if 'zero' in ll]
    ones = [ll for ll in LETTERS if 'one_' in ll]
    one = [ll for ll in LETTERS if (ll not in zeros and ll not in ones) or ll == 'zero_lo']
    two = ['both', 'lo', 'hi', 'none', 'auto', 'auto_hi', 'inside', 'int', 'zero_lo', 'far']
    out = []
    how = ['init', 'call', 'override']
    out += gen.product(ndim=[1], letters=[[ll] for ll in one], kernel=ref.KERNELS, weights=[None, 'ints', 'zeros'],
                       how=how + ['tuple', 'array', 'flat', 'flat_array'], num=[6, 2, 25], data=['plain', 'ints', 'negative'],
                       bw=[0.2] if quick else [0.2, None, 0.5])
    out += gen.product(ndim=[2], letters=[[aa, bb] for aa in two for bb in two], kernel=ref.KERNELS,
                       weights=[None, 'zeros'] if quick else [None, 'ints', 'zeros', 'small'], how=how + ['tuple'], num=[7],
                       data=['plain'] if quick else ['plain', 'negative'], bw=[0.2] if quick else [0.2, None, 'vec'])
    # boundaries at zero, and at one (as in True), on the right side of the data
    for data, letters in [('positive', [ll for ll in zeros if 'hi' not in ll]), ('negative', [ll for ll in zeros if 'hi' in ll]),
                          ('above1', [ll for ll in ones if 'hi' not in ll]), ('below1', [ll for ll in ones if 'hi' in ll])]:
        out += gen.product(ndim=[1], letters=[[ll] for ll in letters], kernel=ref.KERNELS, weights=[None, 'zeros'], how=how + ['tuple', 'flat'],
                           num=[6, 25], data=[data], bw=[0.5, 2.0])
        out += gen.product(ndim=[2], letters=[[aa, bb] for aa in letters + ['both', 'none'] for bb in letters + ['both', 'none'] if aa in letters or bb in letters],
                           kernel=ref.KERNELS, weights=[None], how=how, num=[7], data=[data], bw=[1.0])
    three = ['both', 'lo', 'none', 'auto', 'inside']
    trip = [[aa, bb, cc] for aa in three for bb in three for cc in three]
    if quick:
        trip = [tt for ii, tt in enumerate(trip) if len(set(tt)) != 2]
    out += gen.product(ndim=[3], letters=trip, kernel=ref.KERNELS, weights=[None, 'ints'], how=['init', 'call'], num=[7],
                       data=['plain'], bw=[0.2])
    keep = []
    for cc in out:
        flat = cc['how'] in ('flat', 'flat_array', 'array')
        if flat and (cc['ndim'] != 1 or LETTERS[cc['letters'][0]] in (None, True)):
            continue
        if cc['how'] == 'tuple' and any(LETTERS[ll] is True for ll in cc['letters']) and cc['ndim'] == 1:
            continue
        if cc['letters'] == ['zero_lo'] and cc['data'] == 'negative':
            continue
        if common.regular(cc):
            keep.append(cc)
    return keep


def setup(tier):
    common.warm()


def run(case, rec):
    import kalepy as kale
    ndim = case['ndim']
    base = {kk: vv for kk, vv in case.items() if kk not in ('letters', 'how')}
    data = gen.dataset(case['data'], ndim, case['num'])
    letters = [resolve(ll, row) for ll, row in zip(case['letters'], data)]
    auto = any(LETTERS[ll] is True or (LETTERS[ll] and True in LETTERS[ll]) for ll in case['letters'])
    how = case['how']
    arg = letters
    if how == 'tuple':
        arg = tuple(tuple(ll) if isinstance(ll, list) else ll for ll in letters)
    elif how == 'array':
        arg = np.array(letters, dtype=object if None in letters[0] or True in letters[0] else float)
    elif how == 'flat':
        arg = letters[0]
    elif how == 'flat_array':
        arg = np.array(letters[0], dtype=object if None in letters[0] or True in letters[0] else float)
    if case['letters'] == ['auto'] * ndim and how == 'init' and case['num'] != 2:
        arg = True       # the documented short-hand for every dimension

    if how == 'call':
        kde, model, _, ww = common.build(base)
        kw = dict(reflect=arg)
    elif how == 'override':
        other = [[float(np.min(row)) - 1.0, float(np.max(row)) + 2.0] for row in data]
        kde, model, _, ww = common.build(base, reflect=other)
        kw = dict(reflect=arg)
    else:
        kde, model, _, ww = common.build(base, reflect=arg)
        kw = {}
    want_refl = ref.parse_reflect(letters, data)
    rec.state(case)

    pts = gen.points_around(data, ndim, 11)
    # points at, and just on either side of, every boundary
    extra = []
    mid = np.median(data, axis=1).astype(float)
    for ii in range(ndim):
        if LETTERS[case['letters'][ii]] is True:
            continue
        for loc in ([] if want_refl[ii] is None else want_refl[ii]):
            if loc is None or (LETTERS[case['letters'][ii]] and True in LETTERS[case['letters'][ii]]):
                continue
            for off in [0.0, 1e-3, -1e-3, 0.2, -0.2]:
                pp = np.array(mid)
                pp[ii] = loc + off*np.ptp(data[ii])
                extra.append(pp)
    if extra:
        pts = np.concatenate([pts, np.array(extra).T], axis=1)
    skip = model.edgy(pts, reflect=letters)
    tol = 1e-7
    if auto:
        tol = 1e-5
        for ii in range(ndim):
            if want_refl[ii] is not None:
                for loc in want_refl[ii]:
                    if loc is not None:
                        skip |= np.abs(pts[ii] - loc) < 1e-5*(1 + abs(loc))
    want = model.density(pts, reflect=letters)
    if case['letters'] == ['none'] * ndim and how == 'init':
        common.dens_close(rec, want, model.clear(pts), 'model self-check', skip)
    given = pts[0] if ndim == 1 else pts
    got = kde.density(given, **kw)[1]
    common.dens_close(rec, got, want, 'reflected density', skip, rtol=tol, reflect=letters)
    total = model.ww.sum()
    got = kde.pdf(given, **kw)[1]
    common.dens_close(rec, got, want/total, 'reflected pdf', skip, rtol=tol, reflect=letters)
    got = kde.density(given, reflect=False)[1]
    common.dens_close(rec, got, model.clear(pts), 'density(reflect=False) is not the clear density', model.near_edge(pts))
    if how in ('init', 'tuple', 'array', 'flat', 'flat_array'):
        kwd = dict(bandwidth=common.bw_arg(case['bw'], ndim), kernel=case['kernel'], weights=ww)
        dd = data[0] if ndim == 1 else data
        got = kale.density(dd, points=given, reflect=arg, **kwd)[1]
        common.dens_close(rec, got, want, 'kalepy.density(reflect=)', skip, rtol=tol, reflect=letters)
        got = kale.pdf(dd, points=given, reflect=arg, **kwd)[1]
        common.dens_close(rec, got, want/total, 'kalepy.pdf(reflect=)', skip, rtol=tol, reflect=letters)

    # conservation, of the data inside of the boundaries
    if ndim == 1:
        std = np.sqrt(model.matrix[0, 0])
        reach = std * (1.0 if ref.FINITE[model.kernel] else 9.0)
        lo, hi = want_refl[0] if want_refl[0] is not None else (None, None)
        row = np.asarray(data[0], dtype=float)
        outside = np.zeros(row.size, dtype=bool)
        if lo is not None:
            outside |= row < lo
        if hi is not None:
            outside |= row > hi
        wide = (lo is None) or (hi is None) or (hi - lo > reach)
        if wide and not np.any(outside):
            # breakpoints at every jump, of every image
            cuts = np.concatenate([row + kk*std for kk in ([-1, 0, 1] if reach == std else [-9, -6, -4, -3, -2, -1, 0, 1, 2, 3, 4, 6, 9])])
            cuts = np.concatenate([cuts] + [2*loc - cuts for loc in (lo, hi) if loc is not None])
            beg = lo if lo is not None else cuts.min()
            end = hi if hi is not None else cuts.max()
            cuts = np.unique(np.clip(np.round(np.append(cuts, [beg, end]), 12), beg, end))
            xx, gl = np.polynomial.legendre.leggauss(8)
            mids, half = 0.5*(cuts[1:] + cuts[:-1]), 0.5*np.diff(cuts)
            xs = (mids[:, None] + half[:, None]*xx).ravel()
            wt = (half[:, None]*gl).ravel()
            tot = np.sum(wt*kde.density(xs, **kw)[1])
            rec.close(tot, total, 'reflection does not conserve the probability', rtol=1e-5, reflect=letters)
            rec.count('conservation_checked')
    elif ndim == 2 and case['kernel'] in ('gaussian', 'triweight') and all(rr is not None and None not in rr for rr in want_refl):
        inside = all(np.all((row >= rr[0]) & (row <= rr[1])) for row, rr in zip(data, want_refl))
        std = np.sqrt(np.diag(model.matrix))
        wide = all(rr[1] - rr[0] > (1.0 if case['kernel'] == 'triweight' else 6.0)*ss for rr, ss in zip(want_refl, std))
        if inside and wide and case['letters'] != ['far', 'far'] and not any('zero' in ll or 'one_' in ll for ll in case['letters']):
            num = 120
            edges = []
            for rr, ll, row, ss in zip(want_refl, case['letters'], data, std):
                beg, end = (rr[0], rr[1])
                if ll == 'far':
                    beg, end = row.min() - 9*ss, row.max() + 9*ss
                ee = np.linspace(beg, end, num + 1)
                edges.append(0.5*(ee[1:] + ee[:-1]))
            vol = np.prod([ee[1] - ee[0] for ee in edges])
            tot = kde.density(edges, grid=True, **kw)[1].sum()*vol
            rec.close(tot, total, 'reflection does not conserve the probability', rtol=2e-3, reflect=letters)
            rec.count('conservation_checked')
    rec.trace()
