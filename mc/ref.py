"""The boring reference model of kalepy: written from the documentation, in plain numpy."""

import itertools
import math

import numpy as np

KERNELS = ['gaussian', 'box', 'parabola', 'triweight']
ALIASES = {'epanechnikov': 'parabola', None: 'gaussian'}
FINITE = {'gaussian': False, 'box': True, 'parabola': True, 'triweight': True}


def kname(kernel):
    return ALIASES.get(kernel, kernel)


def sphere(dim):
    """Surface of the unit sphere in `dim` dimensions."""
    return 2.0 * math.pi**(dim/2) / math.gamma(dim/2)


def shape_func(kernel, r2):
    """Un-normalized radial profile as function of squared radius."""
    r2 = np.asarray(r2, dtype=float)
    kernel = kname(kernel)
    if kernel == 'gaussian':
        return np.exp(-0.5*r2)
    inside = (r2 <= 1.0)
    zz = np.where(inside, 1.0 - r2, 0.0)
    if kernel == 'box':
        return inside.astype(float)
    if kernel == 'parabola':
        return zz
    if kernel == 'triweight':
        return zz**3
    raise KeyError(kernel)


def shape_norm(kernel, dim):
    """Integral of the radial profile over all space: S_d * int r^(d-1) k(r^2) dr, in closed form."""
    kernel = kname(kernel)
    surf = sphere(dim)
    if kernel == 'gaussian':
        return (2*math.pi)**(dim/2)
    order = dict(box=0, parabola=1, triweight=3)[kernel]
    # int_0^1 r^(d-1) (1-r^2)^p dr, expanded binomially
    tot = sum(math.comb(order, kk) * (-1)**kk / (dim + 2*kk) for kk in range(order+1))
    return surf * tot


def neff(weights, num):
    if weights is None:
        return float(num)
    ww = np.asarray(weights, dtype=float)
    return ww.sum()**2 / (ww**2).sum()


def covariance(data, weights=None):
    """Weighted covariance matrix (reliability weights, as documented by numpy.cov(aweights=))."""
    data = np.atleast_2d(np.asarray(data, dtype=float))
    ndim, num = data.shape
    ww = np.ones(num) if weights is None else np.asarray(weights, dtype=float)
    tot = ww.sum()
    ave = (data * ww).sum(axis=1) / tot
    dev = data - ave[:, None]
    fact = tot - (ww**2).sum()/tot
    return (dev * ww) @ dev.T / fact


def factor(rule, num_eff, ndim):
    if rule == 'scott':
        return num_eff ** (-1.0/(ndim + 4))
    if rule == 'silverman':
        return (num_eff * (ndim + 2)/4.0) ** (-1.0/(ndim + 4))
    return float(rule)


def bandwidth(spec, num_eff, ndim, diagonal=False, rescale=None):
    """(D, D) matrix of bandwidth factors."""
    if spec is None:
        spec = 'scott'
    out = np.zeros((ndim, ndim))
    if isinstance(spec, str) or np.size(spec) == 1:
        val = factor(spec if isinstance(spec, str) else np.ravel(spec)[0], num_eff, ndim)
        if diagonal:
            out[np.arange(ndim), np.arange(ndim)] = val
        else:
            out[...] = val
    elif len(np.shape(spec)) == 1 and len(spec) == ndim:
        for ii in range(ndim):
            out[ii, ii] = factor(spec[ii], num_eff, ndim)
    elif np.shape(spec) == (ndim, ndim):
        for ii in range(ndim):
            for jj in range(ndim):
                out[ii, jj] = factor(spec[ii][jj], num_eff, ndim)
    else:
        raise ValueError(spec)
    if rescale is not None:
        out = np.asarray(rescale, dtype=float) * out
    return out


class Model:
    """Reference KDE: a weighted mixture of identical radial kernels."""

    def __init__(self, data, bandwidth_spec=None, weights=None, kernel=None, reflect=None,
                 covariance_in=None, neff_in=None, diagonal=False, bw_rescale=None):
        self.data = np.atleast_2d(np.asarray(data, dtype=float))
        self.ndim, self.num = self.data.shape
        self.weights = None if weights is None else np.asarray(weights, dtype=float)
        self.ww = np.ones(self.num) if weights is None else self.weights
        self.kernel = kname(kernel)
        self.neff = neff(weights, self.num) if neff_in is None else neff_in
        self.cov = covariance(self.data, weights) if covariance_in is None \
            else np.atleast_2d(np.asarray(covariance_in, dtype=float))
        self.bw = bandwidth(bandwidth_spec, self.neff, self.ndim, diagonal, bw_rescale)
        self.matrix = self.cov * self.bw**2
        self.reflect = parse_reflect(reflect, self.data)

    def clear(self, points, params=None, only=None):
        """Un-reflected number density at `points` (D, M)."""
        data, matrix = self.data, self.matrix
        if params is not None:
            params = np.atleast_1d(params)
            data = data[params]
            matrix = matrix[np.ix_(params, params)]
        dim = data.shape[0]
        points = np.atleast_2d(np.asarray(points, dtype=float))
        inv = np.linalg.inv(matrix)
        norm = shape_norm(self.kernel, dim) * math.sqrt(np.linalg.det(matrix))
        out = np.zeros(points.shape[1])
        for jj in range(data.shape[1]):
            dev = points - data[:, jj][:, None]
            r2 = np.einsum('im,ij,jm->m', dev, inv, dev)
            out += self.ww[jj] * shape_func(self.kernel, np.maximum(r2, 0.0))
        return out / norm

    def near_edge(self, points, params=None, tol=1e-6):
        """True for points at the discontinuity of some (box) kernel."""
        data, matrix = self.data, self.matrix
        if params is not None:
            params = np.atleast_1d(params)
            data, matrix = data[params], matrix[np.ix_(params, params)]
        points = np.atleast_2d(np.asarray(points, dtype=float))
        out = np.zeros(points.shape[1], dtype=bool)
        if self.kernel != 'box':
            return out
        inv = np.linalg.inv(matrix)
        for jj in range(data.shape[1]):
            dev = points - data[:, jj][:, None]
            r2 = np.einsum('im,ij,jm->m', dev, inv, dev)
            out |= np.abs(r2 - 1.0) < tol
        return out

    def images(self, points, reflect, params=None):
        """Every mirror image of `points` about all combinations of boundaries (identity first)."""
        opts = []
        for ref in reflect:
            opts.append([None] + ([] if ref is None else [loc for loc in ref if loc is not None]))
        for locs in itertools.product(*opts):
            img = np.array(points, dtype=float)
            for ii, loc in enumerate(locs):
                if loc is not None:
                    img[ii] = 2*loc - img[ii]
            yield img

    def density(self, points, reflect='own', params=None, probability=False):
        points = np.atleast_2d(np.asarray(points, dtype=float))
        if isinstance(reflect, str):
            reflect = self.reflect
            if reflect is not None and params is not None:
                reflect = [reflect[pp] for pp in np.atleast_1d(params)]
        else:
            data = self.data if params is None else self.data[np.atleast_1d(params)]
            reflect = parse_reflect(reflect, data)
        if reflect is None:
            out = self.clear(points, params)
        else:
            out = sum(self.clear(img, params) for img in self.images(points, reflect))
            for ii, ref in enumerate(reflect):
                if ref is None:
                    continue
                if ref[0] is not None:
                    out[points[ii] < ref[0]] = 0.0
                if ref[1] is not None:
                    out[points[ii] > ref[1]] = 0.0
        if probability:
            out = out / self.ww.sum()
        return out

    def edgy(self, points, reflect='own', params=None):
        """Points where a discontinuity (of a box kernel, or any image's) makes the value ill-defined."""
        points = np.atleast_2d(np.asarray(points, dtype=float))
        if isinstance(reflect, str):
            reflect = self.reflect
            if reflect is not None and params is not None:
                reflect = [reflect[pp] for pp in np.atleast_1d(params)]
        else:
            data = self.data if params is None else self.data[np.atleast_1d(params)]
            reflect = parse_reflect(reflect, data)
        if reflect is None:
            return self.near_edge(points, params)
        bad = np.zeros(points.shape[1], dtype=bool)
        for img in self.images(points, reflect):
            bad |= self.near_edge(img, params)
        return bad


def parse_reflect(reflect, data):
    """None, or a list with None or [lo|None, hi|None] per dimension; True means (just outside) the data."""
    if reflect is None or reflect is False:
        return None
    data = np.atleast_2d(np.asarray(data, dtype=float))
    ndim = data.shape[0]
    if reflect is True:
        reflect = [True] * ndim
    if ndim == 1 and len(reflect) == 2:
        reflect = [list(reflect)]
    out = []
    for ii, ref in enumerate(reflect):
        if ref is None:
            out.append(None)
            continue
        if ref is True:
            ref = [True, True]
        ref = list(ref)
        if ref[0] is True:
            ref[0] = data[ii].min()
        if ref[1] is True:
            ref[1] = data[ii].max()
        out.append(ref)
    return out


def trapz_nd_weights(edges):
    """Weights of the N-dim trapezoid rule on a grid."""
    out = 1.0
    for ii, ee in enumerate(edges):
        ee = np.asarray(ee, dtype=float)
        ww = np.zeros(ee.size)
        ww[:-1] += 0.5*np.diff(ee)
        ww[1:] += 0.5*np.diff(ee)
        sh = [1]*len(edges)
        sh[ii] = -1
        out = out * ww.reshape(sh)
    return out
