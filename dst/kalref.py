"""Reference of the Kalman track fit, for one track, written from the definition of
the filter: exact extrapolation, derivatives by the complex step, covariance of the
scattering from its closed form. Nothing is taken from the code under test."""
import numpy as np
from scipy.stats import chi2 as chi2_distribution

from . import tel

# the track starts at the line fit, within about 14 um and 3 mrad
START = np.diag([2e2, 2e2, 9e-6, 9e-6])


class Plane:
    def __init__(self, d):
        get = d.get if isinstance(d, dict) else (lambda k, v=None: getattr(d, k, v))
        self.pos, self.rot = tel.frame(d)
        self.budget = get('material_budget', None) or 0.0
        self.resolution = get('intrinsic_resolution', None)


def extrapolate(a, b, s):
    """Track state (u, v, du/dw, dv/dw) at plane b from the one at plane a (complex numbers allowed)."""
    r = b.rot.T.dot(a.rot)
    o = b.rot.T.dot(a.pos - b.pos) + r.dot(np.array([s[0], s[1], 0.0]))
    d = r.dot(np.array([s[2], s[3], 1.0]))
    p = o - d * (o[2] / d[2])
    return np.array([p[0], p[1], d[0] / d[2], d[1] / d[2]])


def jacobian(a, b, s):
    h = 1e-30
    return np.array([extrapolate(a, b, s + 1j * h * e).imag / h for e in np.eye(4)]).T


def scattering(plane, s, momentum, beta):
    q = 1.0 + s[2] ** 2 + s[3] ** 2
    x = plane.budget * np.sqrt(q)
    theta = 13.6 / momentum / beta * np.sqrt(x) * (1 + 0.038 * np.log(x)) if x > 0 else 0.0
    c = np.zeros((4, 4))
    c[2:, 2:] = theta ** 2 * q * np.array([[1 + s[2] ** 2, s[2] * s[3]], [s[2] * s[3], 1 + s[3] ** 2]])
    return c


def fit(planes, hits, errors, fit_planes, energy, mass, scatter=(), alpha=None):
    """Track of one candidate: dict of states and covariances at the planes, chi2, chi2 / ndf, probability.
    hits: (n, 2), NaN when missing; errors: (n, 2); scatter: planes without hits."""
    n = len(planes)
    fit_planes = sorted(set(fit_planes))
    all_planes = [Plane(d) for d in planes] + [Plane(d) for d in scatter]
    alpha = np.ones(n) if alpha is None else alpha
    obs = np.full((len(all_planes), 2), np.nan)
    obs[:n] = hits
    seen = [i < n and i in fit_planes and np.isfinite(obs[i, 0]) for i in range(len(all_planes))]
    noise = [None] * len(all_planes)
    for i in range(n):
        if np.isfinite(obs[i, 0]):
            noise[i] = np.diag(np.square(np.asarray(errors[i] if all_planes[i].resolution is None else all_planes[i].resolution, 'f8')) * alpha[i])
    momentum = np.sqrt(energy ** 2 - mass ** 2)
    beta = momentum / energy
    # order along the beam axis
    where = [p.pos.dot(p.rot[:, 2]) / p.rot[2, 2] for p in all_planes]
    order = [int(i) for i in np.argsort(where)]
    # first estimate: the line through the hits
    pts = np.array([all_planes[i].pos + all_planes[i].rot.dot([obs[i, 0], obs[i, 1], 0.0]) for i in range(n) if seen[i]])
    c = pts.mean(axis=0)
    s = np.linalg.eigh(np.cov((pts - c).T, bias=True))[1][:, -1]
    first = all_planes[order[0]]
    d = first.rot.T.dot(s)
    o = first.rot.T.dot(c - first.pos)
    o = o - d * (o[2] / d[2])
    seed = np.array([o[0], o[1], d[0] / d[2], d[1] / d[2]])

    def references(seed):
        ref = {i: seed if k == 0 else extrapolate(first, all_planes[i], seed) for k, i in enumerate(order)}
        return ref, {i: scattering(all_planes[i], ref[i], momentum, beta) for i in order}

    def update(i, ref, x, p):
        if not seen[i]:
            return x, p
        gain = p[:, :2].dot(np.linalg.inv(p[:2, :2] + noise[i]))
        return x + gain.dot(obs[i] - (ref[i] + x)[:2]), p - gain.dot(p[:2])

    def forward(ref, q):
        out, x, p = {}, np.zeros(4), START
        for k, i in enumerate(order):
            if k:
                l = order[k - 1]
                j = jacobian(all_planes[l], all_planes[i], ref[l])
                x, p = j.dot(x), j.dot(p + q[l]).dot(j.T)
            x, p = update(i, ref, x, p)
            out[i] = x, p
        return out

    def backward(ref, q):
        out, x, p = {}, np.zeros(4), START
        for k, i in enumerate(order[::-1]):
            if k:
                l = order[::-1][k - 1]
                j = jacobian(all_planes[l], all_planes[i], ref[l])
                x, p = j.dot(x), j.dot(p).dot(j.T) + q[i]
            x, p = update(i, ref, x, p)
            out[i] = x, p
        return out
    ref, q = references(seed)
    ref, q = references(seed + backward(ref, q)[order[0]][0])
    f, b = forward(ref, q), backward(ref, q)
    state, cov = np.zeros((n, 4)), np.zeros((n, 4, 4))
    total, used = 0.0, 0
    for k, i in enumerate(order):
        if k == 0 or k == len(order) - 1:
            x, p = (b if k == 0 else f)[i]
        else:
            wf, wb = np.linalg.inv(f[i][1]), np.linalg.inv(b[i][1])
            p = np.linalg.inv(wf + wb)
            x = p.dot(wf.dot(f[i][0]) + wb.dot(b[i][0]))
        if i < n:
            state[i], cov[i] = ref[i] + x, p
            if seen[i]:
                r = obs[i] - state[i, :2]
                total += r.dot(np.linalg.solve(noise[i] - p[:2, :2], r))
                used += 1
    ndf = 2 * used - 4
    return {'state': state, 'cov': cov, 'noise': [np.zeros((2, 2)) if v is None else v for v in noise[:n]], 'chi2': total, 'red': total / ndf if ndf > 0 else np.nan, 'prob': 1.0 - chi2_distribution.cdf(total, ndf)}
