"""C01: density is the weighted mixture of normalized kernels, through every entry point."""

import numpy as np

from mc import common, gen, ref

ID = 'C01'
TITLE = 'Density is the weighted sum of normalized kernels'
BOUNDS = dict(
    quick='dims 1-3; {4,6,33,130} points of 5 data sets; 6 weightings; 6 kernel names; 5 bandwidths; given covariance; '
          'sequences of 5 queries per KDE; 7 sets of unrelated options; up to 5003 data points and 100003 places of evaluation',
    thorough='dims 1-4; {1..8,33,130,257} points of 7 data sets; 7 weightings; 8 kernel names; 9 bandwidths',
)
ASSUMPTIONS = ['reference: closed-form mixture evaluated in plain numpy, agreement to 1e-7 (1e-9 of the peak)',
               'points within 1e-6 of a box kernel\'s jump are not compared']


def cases(tier):
    quick = (tier == 'quick')
    out = gen.product(
        kernel=['gaussian', 'box', 'parabola', 'triweight'] + ([] if quick else [None, 'epanechnikov']),
        weights=[None, 'ints', 'zeros', 'list', 'small', 'skew'] + ([] if quick else ['ones']),
        bw=[0.5, None, 'silverman', 'vec', 'mat'] + ([] if quick else ['scott', 'vecmix', 'arr', 1.7]),
        ndim=[1, 2, 3] + ([] if quick else [4]),
        num=[6, 4, 33, 130] + ([] if quick else [5, 7, 8, 9, 257]),
        data=['plain', 'ints', 'negative', 'offset', 'wide'] + ([] if quick else ['tiny', 'f32']),
    )
    out = [cc for cc in out if common.regular(cc)]
    # a given covariance: any number of points, even one
    out += gen.product(kernel=[None, 'epanechnikov', 'class:box', ' Triweight ', 'GAUSSIAN', 'class:parabola'],
                       cov=['full', 'diag', 'eye'], ndim=[1, 2, 3, 4], num=[1, 2, 3, 8],
                       weights=[None, 'ints'], bw=[0.5, 'vec', 'mat', 'one'], data=['plain'])
    # options of the constructor which do not concern the density, if the bandwidth is given
    out += gen.product(opt=OPTS, kernel=['gaussian', 'box'], weights=[None, 'zeros'], bw=[0.5, 'vec', 'mat'], ndim=[1, 2, 3], num=[6, 33],
                       data=['plain'])
    # many data points, and many places of evaluation (blocks and chunks)
    big = [(1023, 9), (5003, 9), (6, 1025), (6, 5003), (6, 100003), (300, 3001)] + ([] if quick else [(65537, 3), (5, 300007)])
    out += gen.product(size=[list(bb) for bb in big], kernel=ref.KERNELS, weights=[None, 'zeros'], ndim=[1, 2, 3], bw=[0.5], data=['plain'])
    for cc in out:
        if 'size' in cc:
            cc['num'] = cc['size'][0]
    return out


OPTS = [dict(neff=2.0), dict(neff=50), dict(helper=False), dict(chunk=2), dict(points=4), dict(extrema=[-9.0, 9.0]),
        dict(neff=3.0, helper=False, points=5, chunk=10)]


def setup(tier):
    common.warm()


def run(case, rec):
    import kalepy as kale
    kde, model, data, ww = common.build(dict(case, kw=case.get('opt', {})))
    ndim = case['ndim']
    pts = gen.points_around(data, ndim, case['size'][1] if 'size' in case else 9)
    skip = model.edgy(pts)
    dens = model.density(pts)
    prob = model.density(pts, probability=True)
    given = pts[0] if ndim == 1 else pts

    got_pts, got = kde.density(given)
    rec.close(got_pts, given, 'density(): returned points')
    common.dens_close(rec, got, dens, 'density()', skip)
    rec.state(case, 'density', got)
    got = kde.density(given, probability=True)[1]
    common.dens_close(rec, got, prob, 'density(probability=True)', skip)
    rec.state(case, 'prob', got)
    got = kde.pdf(given)[1]
    common.dens_close(rec, got, prob, 'pdf()', skip)
    # one point at a time, as (D, 1), in reverse
    for jj in [len(skip)-1, 0]:
        one = pts[:, jj:jj+1] if ndim > 1 else pts[0, jj:jj+1]
        got = kde.density(one.tolist())[1]
        common.dens_close(rec, got, dens[jj:jj+1], 'density() of a single point', skip[jj:jj+1])
    if ndim == 1:
        got = kde.density(pts)[1]
        common.dens_close(rec, got, dens, 'density() of (1, M) points', skip)
    # the top-level functions are the same
    kw = {}
    if case.get('cov'):
        kw['covariance'] = gen.spd(ndim, case['cov'])
    kw.update(bandwidth=common.bw_arg(case['bw'], ndim), kernel=common.kernel_arg(case['kernel']), weights=ww, **case.get('opt', {}))
    kw.pop('points', None)
    got = kale.density(data, points=given, **kw)[1]
    common.dens_close(rec, got, dens, 'kalepy.density()', skip)
    got = kale.density(data, points=given, probability=True, **kw)[1]
    common.dens_close(rec, got, prob, 'kalepy.density(probability=True)', skip)
    got = kale.pdf(data, points=given, **kw)[1]
    common.dens_close(rec, got, prob, 'kalepy.pdf()', skip)
    rec.trace()
