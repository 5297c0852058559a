"""P20: the alignment step finds the true position of the selected planes and
changes nothing else; the configuration is replaced completely or not at all."""
import math
import random

import numpy as np
import yaml

from .. import h5, stepcheck as S, tel

ID = 'P20'
LEVEL = 'exploration'
PLAN = {'quick': {'cases': 400, 'wall': 60}, 'thorough': {'cases': 20000, 'wall': 780}}
WARM = (0, 1)
RULE = ('one case = a telescope whose planes are displaced and rotated with respect to their configuration, straight tracks with exact hits on the true planes and useless rows (no hit, no track, hit outside the limits), '
        'aligned with a drawn chunk size, limits and choice of parameters, where a file operation may fail or the process may die; non-trivial when at least one plane had to move')
REAL = ['dut_alignment.calculate_transformation', 'telescope.Telescope', 'telescope.dut', 'tools.geometry_utils', 'PyTables/HDF5 and PyYAML on scratch storage', 'process death (forked image, _exit at a file operation)']
STUB = ['failing file operations (injected)', 'power loss (bytes that were not synced are cut off before the process dies)', 'track finding and fitting (exact tracks are written directly)']
ASSUMPTIONS = ['the slopes of a track in a track file have length one, as fit_tracks writes them']
TR = ['translation_x', 'translation_y', 'translation_z']
RO = ['rotation_alpha', 'rotation_beta', 'rotation_gamma']
ALL = TR + RO
# what is selected -> what is displaced; rotations about the last axis can be separated from the others, those about the first two cannot
SUBSETS = [(['translation_x', 'translation_y'], TR[:2]), (TR, TR), (['rotation_gamma'], ['rotation_gamma']), (['translation_y', 'translation_x', 'rotation_gamma'], TR[:2] + ['rotation_gamma']),
           (['translation_x'], ['translation_x']), (['translation_z'], ['translation_z']), (['translation_x', 'translation_y'] + RO, TR[:2] + RO), (RO, RO), (TR + ['rotation_gamma'], TR + ['rotation_gamma'])]


def nominal(rng, i):
    flip = rng.random() < 0.25
    return {'translation_x': rng.choice([0.0, rng.uniform(-5000, 5000)]), 'translation_y': rng.choice([0.0, rng.uniform(-5000, 5000)]), 'translation_z': 40000.0 * i + rng.uniform(-5000, 5000),
            'rotation_alpha': (math.pi if flip else 0.0) + rng.choice([0.0, rng.uniform(-0.4, 0.4)]), 'rotation_beta': rng.choice([0.0, rng.uniform(-0.6, 0.6)]),
            'rotation_gamma': rng.choice([0.0, rng.uniform(-3.0, 3.0)])}


def gen(rng, index, tier):
    drift = index % 4 == 3
    n_planes = rng.choice([1, 2, 3, 4])
    planes = []
    for i in range(n_planes):
        selected = n_planes == 1 or rng.random() < 0.75
        r = rng.random()
        sel = 'all' if drift or r < 0.35 else 'none' if r < 0.55 else rng.randrange(len(SUBSETS))
        lim = rng.choice([None, None, 'both', 'x', 'y', 'open'])
        planes.append({'nominal': nominal(rng, i), 'selected': selected, 'select': sel, 'limit': lim, 'size': rng.choice([1.0, 0.1, 0.0, 1.0]), 'other': rng.random() < 0.3, 'name': 'plane %d' % i,
                       'order': rng.random()})
    if not any(p['selected'] for p in planes):
        planes[0]['selected'] = True
    n = rng.choice([0, 1, 12, 30, 60, 150, 400])
    return {'data': rng.randrange(1 << 30), 'planes': planes, 'drift': drift, 'n': n if not drift else rng.choice([12, 25]), 'blocks': rng.choice([2, 3, 4, 5]), 'copies': rng.choice([2, 3, 4]),
            'chunk': rng.choice([0, 1, 2, 3, 5]), 'bad': [rng.choice([0.0, 0.1, 0.5]) for _ in range(3)], 'hole': rng.choice([None, None, 'start', 'start', 'end', 'all']), 'use_limits': rng.random() < 0.8,
            'parameters': rng.choice(['lists', 'lists', 'None']), 'noise': rng.choice([0.0, 0.0, 1.0, 5.0]), 'iterations': rng.choice([None, 100, 60]), 'slope': rng.choice([0.03, 0.1, 0.1]) if drift or rng.random() < 0.85 else 0.0, 'fault': S.gen_config_fault(rng)}


def displaced(rng, p, case):
    """True position of a plane."""
    names = p['move']
    true = dict(p['nominal'])
    scale = 0.02 if case['drift'] else 1.0
    for k in names:
        true[k] += rng.uniform(-1, 1) * p['size'] * scale * (300.0 if k in TR else 0.03)
    return true


def best(tab, i, use, start):
    """The position with the least squared distance between hits and tracks."""
    from scipy.optimize import least_squares
    t = tab[use]
    o0, r0 = geometry(start)
    o = np.column_stack([t['offset_' + a] for a in 'xyz']).dot(r0.T) + o0
    s = np.column_stack([t['slope_' + a] for a in 'xyz']).dot(r0.T)
    y = np.column_stack([t['%s_dut_%d' % (a, i)] for a in 'xyz'])

    def residuals(v):
        t2, r2 = geometry(dict(zip(ALL, v)))
        d = y.dot(r2.T) + t2 - o
        return (d - s * (d * s).sum(axis=1)[:, None]).ravel()
    fit = least_squares(residuals, [start[k] for k in ALL], x_scale=[1, 1, 1, 1e-3, 1e-3, 1e-3], xtol=1e-14, ftol=1e-14, gtol=1e-14)
    # linear steps do not converge if the tracks leave the rotation open
    error = np.sqrt(np.diag(np.linalg.pinv(fit.jac.T.dot(fit.jac))) * 2 * fit.cost / (2 * len(t)))
    return fit.x if np.all(error[3:] < 2e-3) else None


def geometry(p):
    t, r = tel.frame(p)
    return np.array(t), np.array(r)


def local(pos, origin, direction):
    """Where lines meet a plane, in its own system."""
    t, r = pos
    o, s = (origin - t).dot(r), direction.dot(r)
    return o - s * (o[:, 2] / s[:, 2])[:, None], s


def build(case):
    """Planes with their true positions, and per plane the rows of its track table."""
    rng = random.Random(case['data'])
    nrng = np.random.RandomState(case['data'])
    planes, tables = [], []
    n0 = case['n']
    for p in case['planes']:
        p = dict(p)
        if p['select'] == 'all' or p['select'] == 'none' or case['parameters'] == 'None':
            p['parameters'], p['move'] = ALL, ALL
        else:
            p['parameters'], p['move'] = SUBSETS[p['select']]
            if p['other']:
                p['move'] = ALL        # the other parameters are wrong as well and must stay
        planes.append(p)
    for p in planes:
        p['noisy'] = case['noise'] > 0 and not case['drift'] and p['parameters'] == ALL
    base = {'o': np.column_stack([nrng.uniform(-4000, 4000, n0), nrng.uniform(-4000, 4000, n0), np.zeros(n0)]), 's': np.column_stack([nrng.uniform(-1, 1, n0) * case['slope'], nrng.uniform(-1, 1, n0) * case['slope'], np.ones(n0)])}
    if n0 >= 8:      # a spread that determines every parameter
        base['s'][:4, :2] = np.array([[1, 1], [-1, 1], [1, -1], [-1, -1]]) * case['slope']
        base['s'][4:8, :2] = -base['s'][:4, :2] * 0.7
    base['s'] /= np.sqrt((base['s'] ** 2).sum(axis=1))[:, None]
    for i, p in enumerate(planes):
        t, _ = geometry(p['nominal'])
        origin = base['o'] + [t[0], t[1], 0.0]
        # lines through the neighbourhood of the plane
        origin = origin - base['s'] * 0.0 + [0, 0, t[2]]
        blocks = case['blocks'] if case['drift'] else 1
        p['true'] = [displaced(rng, p, case) for _ in range(blocks)]
        good = [rng.randrange(1, case['copies'] + 1) for _ in range(blocks)] if case['drift'] else [1]
        p['good'] = good
        rows = []
        for b in range(blocks):
            ol, sl = local(geometry(p['nominal']), origin, base['s'])
            hit, _ = local(geometry(p['true'][b]), origin, base['s'])
            for c in range(case['copies'] if case['drift'] else 1):
                rows.append((ol, sl, hit, np.full(n0, c >= good[b])))
        o, s, hit = (np.concatenate([r[k] for r in rows]) for k in range(3))
        bad = np.concatenate([r[3] for r in rows])
        n = len(o)
        if not case['drift']:
            # additional rows that must not matter
            kind = nrng.choice(4, size=n, p=[1 - sum(case['bad']) / 2] + [x / 2 for x in case['bad']]) if n else np.zeros(0, int)
            keep = int(n * 0.6)
            kind[:keep] = 0
            order = nrng.permutation(n)
            if case['hole'] == 'start':
                order = np.argsort(kind == 0, kind='stable')
            elif case['hole'] == 'end':
                order = np.argsort(kind > 0, kind='stable')
            elif case['hole'] == 'all':
                kind[:] = np.where(kind > 0, kind, 1 + np.arange(n) % 2)
            o, s, hit, kind = o[order], s[order], hit[order], kind[order]
        else:
            kind = np.where(bad, 1 + (np.arange(n) // 3) % 2, 0)
        lim = {'x_limit': None, 'y_limit': None}
        if p['limit'] and n:
            m = np.abs(hit[:, :2]).max(axis=0) + 10.0
            if p['limit'] in ('both', 'x'):
                lim['x_limit'] = [float(-m[0]), float(m[0])]
            if p['limit'] in ('both', 'y'):
                lim['y_limit'] = [float(-m[1]), float(m[1])]
            if p['limit'] == 'open':
                lim['x_limit'] = [float(-m[0]), float('inf')]
        p['lim'] = lim
        tab = np.zeros(n, dtype=[('event_number', 'i8')] + [(a + '_dut_%d' % i, 'f8') for a in 'xyz'] + [('offset_' + a, 'f8') for a in 'xyz'] + [('slope_' + a, 'f8') for a in 'xyz'] + [('track_chi2', 'f8'), ('hit_flag', 'u4')])
        shift = nrng.uniform(300, 2000, size=(n, 2))
        x, y = hit[:, 0].copy(), hit[:, 1].copy()
        out = kind == 3
        if case['use_limits'] and (lim['x_limit'] or lim['y_limit']):
            for k, (v, l) in enumerate(((x, lim['x_limit']), (y, lim['y_limit']))):
                if l is not None:
                    v[out] = np.where(np.isfinite(l[1]) & (np.arange(n) % 2 == 0), l[1] + shift[:, k], l[0] - shift[:, k])[out]
        else:
            out[:] = False
        if p['noisy']:
            x += nrng.normal(size=n) * case['noise']
            y += nrng.normal(size=n) * case['noise']
        nohit, notrack = kind == 1, kind == 2
        x[nohit] = np.nan
        y[nohit] = np.nan
        o[notrack] += 1e4
        tab['event_number'] = np.arange(n)
        tab['x_dut_%d' % i], tab['y_dut_%d' % i] = x, y
        tab['z_dut_%d' % i][nohit] = np.nan
        for k, a in enumerate('xyz'):
            tab['offset_' + a], tab['slope_' + a] = o[:, k], s[:, k]
        tab['track_chi2'] = np.where(notrack, np.nan, 1.0)
        # without a hit nothing limits the plane: keep the rows that help
        p['used'] = int((~nohit & ~notrack & ~out).sum())
        tables.append(tab)
    return planes, tables


def sampling(case, n):
    if case['drift']:
        per = case['copies'] * case['n']
        return [per, 10 ** 6, per, 10 ** 6, per][case['chunk'] % 5]
    # at least 10 tracks that count in every chunk with any
    return [10 ** 6, max(n, 1), max((n + 1) // 2, 30), max(n // 3, 30), max(n // 5, 30), 30][case['chunk'] % 6]


def enough(p, tab, i, chunk):
    """Every chunk (whatever the way of cutting into equal pieces) holds no or many usable tracks."""
    return p['used'] >= 10


def run(case, env):
    from beam_telescope_analysis import dut_alignment
    planes, tables = build(case)
    conf, tracks = env.path('telescope.yaml'), env.path('tracks.h5')
    with env.iofault.harness():
        tel.telescope(conf, [dict(p['nominal'], name=p['name'], material_budget=0.001 * i, x_limit=p['lim']['x_limit'], y_limit=p['lim']['y_limit'], intrinsic_resolution=(3.5, 4.5)) for i, p in enumerate(planes)])
        doc = yaml.safe_load(open(conf))
        doc['TELESCOPE']['rotation_alpha'], doc['TELESCOPE']['rotation_beta'] = 1e-3, -2e-3
        open(conf, 'w').write(yaml.safe_dump(doc))
        old = yaml.safe_load(open(conf))
    h5.write(tracks, tables=[('Tracks_DUT%d' % i, t) for i, t in enumerate(tables) if planes[i]['selected']])
    order = sorted((i for i, p in enumerate(planes) if p['selected']), key=lambda i: planes[i]['order'])
    n = len(tables[0])
    chunk = sampling(case, n)
    parameters = None if case['parameters'] == 'None' else [None if planes[i]['select'] == 'none' else list(planes[i]['parameters']) for i in order]
    kw = dict(telescope_configuration=conf, input_tracks_file=tracks, select_duts=list(order), use_limits=case['use_limits'], max_iterations=case['iterations'], chunk_size=chunk)

    def call():
        dut_alignment.calculate_transformation(select_alignment_parameters=None if parameters is None else [None if x is None else list(x) for x in parameters], **kw)

    def compare(value):
        with env.iofault.harness():
            new = yaml.safe_load(open(conf))
        a, b = dict(old), dict(new)
        ta, tb = dict(a.pop('TELESCOPE')), dict(b.pop('TELESCOPE'))
        da, db = ta.pop('DUT'), tb.pop('DUT')
        if a != b or ta != tb or sorted(da) != sorted(db):
            return ('other-changed', 'the telescope section changed apart from the planes: %r instead of %r' % (tb, ta))
        for i, p in enumerate(planes):
            fixed = [k for k in da[i] if k not in (ALL if p['selected'] else [])]
            if sorted(da[i]) != sorted(db[i]):
                return ('other-changed', 'plane %d has settings %s' % (i, sorted(db[i])))
            for k in fixed:
                if da[i][k] != db[i][k]:
                    return ('other-changed', 'plane %d%s: %s changed from %r to %r' % (i, '' if p['selected'] else ' (not selected)', k, da[i][k], db[i][k]))
            if not p['selected']:
                continue
            got = np.array([db[i][k] for k in ALL])
            if not np.all(np.isfinite(got)):
                return ('not-finite', 'plane %d: position %s' % (i, got.tolist()))
            sel = p['parameters']
            for k in TR:
                if k not in sel and abs(da[i][k] - db[i][k]) > 1e-9 * max(1.0, abs(da[i][k])):
                    return ('unselected', 'plane %d: %s is not selected, but changed from %r to %r' % (i, k, da[i][k], db[i][k]))
            r_old, r_new = tel.frame(da[i])[1], tel.frame(db[i])[1]
            if not set(RO) & set(sel) and np.abs(np.array(r_old) - np.array(r_new)).max() > 1e-9:
                return ('unselected', 'plane %d: no rotation is selected, but the plane was rotated from %s to %s' % (i, [da[i][k] for k in RO], [db[i][k] for k in RO]))
            if p['used'] == 0:
                if np.abs(got - [da[i][k] for k in ALL])[:3].max() > 1e-9 or np.abs(np.array(r_old) - np.array(r_new)).max() > 1e-9:
                    return ('moved-without-tracks', 'plane %d has no usable track, but moved from %s to %s' % (i, [da[i][k] for k in ALL], got.tolist()))
                continue
            if not p['determined']:
                continue
            if not case['slope'] and (set(p['move']) | set(sel)) - set(TR[:2]):
                continue        # parallel tracks determine the position across the beam only
            if sel != ALL and p['move'] == ALL:
                continue        # the parameters that must stay are wrong: no exact result exists
            if p['best'] is not None:
                want = p['best']
            else:
                want = np.average([[t[k] for k in ALL] for t in p['true']], axis=0, weights=p['good'])
            tol_t, tol_z, tol_r = (0.02, 0.1, 2e-5) if sel == ALL else (0.1, 0.5, 2e-4)     # a part of the parameters converges slower
            r_want = np.array(tel.frame(dict(zip(ALL, want)))[1])
            dt = np.abs(got[:3] - want[:3])
            if dt[:2].max() > tol_t or dt[2] > tol_z or np.abs(np.array(r_new) - r_want).max() > tol_r:
                return ('wrong-position', 'plane %d is at %s, its true position is %s (configured before: %s; %d usable of %d tracks, chunk size %d, parameters %s)' % (
                    i, got.tolist(), want.tolist(), [da[i][k] for k in ALL], p['used'], n, chunk, sel))
            env.probes['recovered'] += 1
            env.probes['moved'] += any(t[k] != p['nominal'][k] for t in p['true'] for k in ALL)
        return None

    for i, p in enumerate(planes):
        t = tables[i]
        use = ~np.isnan(t['x_dut_%d' % i]) & ~np.isnan(t['track_chi2'])
        if case['use_limits']:
            for a in 'xy':
                l = p['lim'][a + '_limit']
                if l is not None:
                    with np.errstate(invalid='ignore'):
                        use &= (t[a + '_dut_%d' % i] >= l[0]) & (t[a + '_dut_%d' % i] <= l[1])
        p['used'] = int(use.sum())
        p['determined'] = p['used'] >= 10 and well_cut(use, chunk)
        p['best'] = None
        if p['selected'] and p['determined'] and case['slope'] and p['parameters'] == ALL and (p['noisy'] or case['drift']):
            if chunk >= n:
                p['best'] = best(t, i, use, p['nominal'])
                p['determined'] = p['best'] is not None
                env.probes['open_rotation'] += not p['determined']
                env.probes['noisy'] += p['determined']
            elif p['noisy']:
                p['determined'] = False
    out = S.check_config_step(env, call, conf, [tracks], compare, case['fault'], what='calculate_transformation')
    if out is not None and env.probes['moved']:
        env.nontrivial = True
    env.sig = (len(order), case['drift'], chunk, tuple(sorted(str(p['select']) for p in planes)))


def well_cut(use, chunk):
    """The file is cut into equal pieces of at most *chunk* rows; each must have
    no usable track or enough of them, whatever the number of pieces."""
    n = len(use)
    if chunk >= n:
        return True
    c = np.concatenate([[0], np.cumsum(use)])
    first = -(-n // chunk)
    for k in (first, first + 1, first + 2):
        e = np.linspace(0, n, k + 1).astype(int)
        m = np.diff(c[e])
        if np.any((m > 0) & (m < 10)):
            return False
    return True


def shrinks(case):
    if case['fault']:
        yield dict(case, fault=None)
    for i in range(len(case['planes'])):
        if len(case['planes']) > 1:
            rest = case['planes'][:i] + case['planes'][i + 1:]
            if any(p['selected'] for p in rest):
                yield dict(case, planes=rest)
    for k, v in (('bad', [0.0, 0.0, 0.0]), ('hole', None), ('use_limits', False), ('iterations', None), ('parameters', 'None')):
        if case[k] != v:
            yield dict(case, **{k: v})
    for n in (12, 30, 60):
        if n < case['n'] and not case['drift']:
            yield dict(case, n=n)
    for i, p in enumerate(case['planes']):
        zero = {k: (0.0 if k != 'translation_z' else p['nominal'][k]) for k in ALL}
        if p['nominal'] != zero:
            yield dict(case, planes=case['planes'][:i] + [dict(p, nominal=zero)] + case['planes'][i + 1:])
        if p['limit']:
            yield dict(case, planes=case['planes'][:i] + [dict(p, limit=None)] + case['planes'][i + 1:])
