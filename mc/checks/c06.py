"""C06: bandwidth, effective number of points, covariance and the kernel matrix follow the documented rules."""

import numpy as np

from mc import common, gen, ref

ID = 'C06'
TITLE = 'Bandwidth, effective count and covariance follow the documented rules'
BOUNDS = dict(
    quick='dims 1-4; 6 sizes from 1 to 130; 7 weightings; 11 bandwidth specifications; diagonal on/off; 4 rescalings; given and '
          'computed covariance and neff: full product of the compatible letters',
    thorough='as quick with 5 data sets and more sizes',
)
ASSUMPTIONS = ['reference: neff=(sum w)^2/sum w^2, Scott and Silverman factors, weighted covariance, matrix = cov * bandwidth^2']


def cases(tier):
    quick = (tier == 'quick')
    out = gen.product(bw=[None, 'scott', 'silverman', 0.5, 2, 'vec', 'vecmix', 'arr', 'mat', 'one', 1e-3],
                      diagonal=[False, True], rescale=[None, 0.5, 3, 'mat'],
                      weights=[None, 'ones', 'ints', 'zeros', 'list', 'small', 'skew'],
                      ndim=[1, 2, 3, 4], num=[9, 30, 130] if quick else [8, 9, 10, 30, 99, 130, 300],
                      data=['plain', 'offset'] if quick else ['plain', 'negative', 'offset', 'wide', 'tiny'], neff=[None])
    out += gen.product(bw=[None, 'silverman', 0.5, 'vecmix'], diagonal=[False, True], rescale=[None, 'mat'],
                       weights=[None, 'ints', 'zeros', 'list'], ndim=[1, 2, 3], num=[9, 2, 1], data=['plain', 'ints', 'negative', 'wide', 'tiny'],
                       neff=[None, 7.5, 1000], cov=[None, 'full', 'diag'])
    return [cc for cc in out if (cc.get('cov') or common.regular(cc))]


def run(case, rec):
    import kalepy as kale
    if case['weights'] == 'zeros' and case['num'] == 1:
        ww = None
        case = dict(case, weights=None)
    kde, model, data, ww = common.build(case)
    ndim, num = case['ndim'], case['num']
    rec.state(case)
    rec.close(kde.neff, model.neff, 'neff', rtol=1e-9)
    rec.equal(int(kde.ndim), ndim, 'ndim')
    rec.equal(int(kde.ndata), num, 'ndata')
    rec.close(kde.dataset, np.atleast_2d(data), 'dataset')
    if ww is None:
        rec.require(kde.weights is None, 'weights')
    else:
        rec.close(kde.weights, np.asarray(ww, dtype=float), 'weights')
    scale = np.abs(model.cov).max()
    rec.close(kde.covariance, model.cov, 'covariance', rtol=1e-6, atol=1e-7*scale)
    rec.close(kde.bandwidth, model.bw, 'bandwidth', rtol=1e-9)
    scale = np.abs(model.matrix).max()
    rec.close(kde.kernel.matrix, model.matrix, 'kernel matrix', rtol=1e-6, atol=1e-7*scale)
    # the width of the density is that of the rule: seen from outside through a far, single point
    if np.linalg.eigvalsh(model.matrix).min() > 1e-4*np.diag(model.matrix).max():
        kind = case.get('kernel') or 'gaussian'
        pts = np.asarray(model.data[:, :1]) + 0.3*np.sqrt(np.diag(model.matrix))[:, None]
        got = kde.density(pts if ndim > 1 else pts[0])[1]
        common.dens_close(rec, got, model.density(pts), 'density with this bandwidth', rtol=1e-5)
    rec.trace()
