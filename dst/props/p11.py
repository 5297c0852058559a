"""P11: track parameters and flags depend on the event alone."""
import math

import numpy as np

from .. import h5, kalref, smcwork as W, stepcheck as S, tel
from .p10 import description, set_hit

ID = 'P11'
LEVEL = 'exploration'
PLAN = {'quick': {'cases': 900, 'wall': 80}, 'thorough': {'cases': 40000, 'wall': 780}}
WARM = (0, 1, 2, 3)
RULE = ('one case = track candidates in a telescope of 3 to 6 planes, selection of fit, hit and output planes (also several planes with identical tracks), distances, limits, '
        'method, core count, completion order of the workers, chunk size, optionally an event limit, one injected fault, failing worker or process death; every stored number is '
        'compared with a separate total-least-squares fit or Kalman filter and flag calculation; non-trivial when the candidates were read in at least two chunks')
REAL = ['track_analysis.fit_tracks, store_track_data, create_results_array, line fit and Kalman filter', 'analysis_utils.data_aligned_at_events', 'telescope geometry', 'PyTables/HDF5 on scratch files',
        'process death (forked image, _exit at an I/O step)']
STUB = ['multiprocessing.Pool (task runs on a pickled copy of its arguments, seeded completion order and core count)', 'failing PyTables calls and workers (injected)', 'plots are switched off']
ASSUMPTIONS = ['an event has fewer candidates than the chunk size', 'at least one candidate', 'select_align_duts is not used (its offsets are estimated per chunk by design)',
               'the Kalman filter is the linearised one with fixed errors (14 um, 3 mrad) of its start, run forward and backward, both results averaged']


def gen(rng, index, tier):
    n = rng.choice([3, 4, 4, 5, 6, 6])
    method = 'kalman' if (index in (2, 3) or index >= 4 and rng.random() < 0.2) else 'fit'
    if method == 'kalman':
        n = rng.choice([4, 5])
    noise = rng.choice([0.0, 0.0, 5.0, 40.0])
    n_ev = rng.choice([1, 3, 10, 25, 25]) if method == 'fit' else rng.choice([1, 3, 8])
    p_miss = rng.choice([0.0, 0.1, 0.3, 0.6])
    ev, events = rng.choice([0, 1, 2 ** 33]), []
    for _ in range(n_ev):
        base = [rng.uniform(-1500, 1500), rng.uniform(-700, 700)]
        cand = []
        for _ in range(rng.choice([1, 1, 2, 3])):
            near = rng.random() < 0.3
            p = [base[0] + rng.uniform(-200, 200), base[1] + rng.uniform(-200, 200)] if near else [rng.uniform(-2400, 2400), rng.uniform(-740, 740)]
            cand.append([p + [rng.uniform(-2e-3, 2e-3), rng.uniform(-2e-3, 2e-3)], [None if rng.random() < p_miss else [rng.gauss(0, noise), rng.gauss(0, noise)] for _ in range(n)]])
        events.append([ev, cand])
        ev += rng.choice([1, 1, 2, 9])
    mx, total = max(len(e[1]) for e in events), sum(len(e[1]) for e in events)
    duts = list(range(n))

    def some(k):
        s = rng.sample(duts, rng.randint(k, n))
        return s
    sel = rng.choice([None, None, some(1), some(1)])
    k = n if sel is None else len(sel)
    fit = rng.choice([None, None, some(2), [rng.choice([None, some(2)]) for _ in range(k)]])
    hit = rng.choice([None, None, some(1), [rng.choice([None, [], some(1)]) for _ in range(k)]])
    excl = rng.choice([True, False, [rng.random() < 0.5 for _ in range(k)]])
    mn = rng.choice([None, None, 2, [rng.choice([None, 2, 3]) for _ in range(k)]])

    def dist():
        return rng.choice([None, [250.0, 250.0], [20.0, 10.0], [60.0, 700.0], [0.0, 0.0], [1000.0, 300.0]])
    rot = rng.random() < 0.5
    return {'beam': rng.choice([[5000.0, 0.511], [1000.0, 0.511], [400.0, 139.57], [120000.0, 139.57]]), 'events': events, 'n': n, 'method': method, 'noise': noise, 'z': [rng.choice([-20000.0, 0.0]) + 15000.0 * i for i in range(n)] if rng.random() < 0.8 else [15000.0 * i for i in rng.sample(duts, n)],
            'xy': [[rng.choice([0.0, 120.0, -300.0]), rng.choice([0.0, 45.0])] for _ in duts],
            'rot': [[rng.choice([0.0, 0.05, 0.4]), rng.choice([0.0, -0.03, math.pi]), rng.choice([0.0, 0.3])] if rot else [0.0, 0.0, 0.0] for _ in duts],
            'limits': [rng.choice([None, None, [-1000.0, 1500.0], [-math.inf, 300.0]]) for _ in duts],
            'select': sel, 'fit': fit, 'hit': hit, 'exclude': excl, 'min': mn, 'quality': rng.choice([0, 1]) and [dist() for _ in duts] or dist(), 'isolation': rng.choice([0, 1]) and [dist() for _ in duts] or dist(),
            'scatter': rng.choice([[], [], [[2500.0, 1e-3, 0.0]], [[-30000.0, 2e-3, 0.1], [41000.0, 5e-4, 0.0]]]) if method == 'kalman' else [], 'resolution': rng.choice([None, None, [70.0, 15.0]]),
            'use_limits': rng.random() < 0.6, 'keep': rng.random() < 0.25, 'full': rng.random() < 0.3, 'max_events': rng.choice([None, None, None, None, 1, 2, max(1, n_ev // 2), 1000]),
            'default_name': rng.random() < 0.2, 'chunk': rng.choice([mx + 1, mx + 1, mx + 3, max(mx + 1, total // 2), total + 1, 100000]),
            'fault': S.gen_fault(rng, workers=True, p_none=0.6, p_crash=0.08) if index >= 4 else None, 'cfg': W.sched_cfg(rng)}


def plane(case, d):
    lim = case['limits'][d]
    return dict(translation_x=case['xy'][d][0], translation_y=case['xy'][d][1], translation_z=case['z'][d], rotation_alpha=case['rot'][d][0], rotation_beta=case['rot'][d][1],
                rotation_gamma=case['rot'][d][2], x_limit=lim and tuple(lim), y_limit=lim and (-700.0, 600.0), material_budget=[1e-3, 5e-4, 8e-3, 7e-4, 2e-2, 1e-3][d], intrinsic_resolution=case['resolution'] and tuple(case['resolution']))


def build(case):
    n = case['n']
    rows = [(e[0], c) for e in case['events'] for c in e[1]]
    a = np.zeros(len(rows), description(n))
    for d in range(n):
        for k in ('x', 'y', 'z', 'charge', 'x_err', 'y_err', 'z_err'):
            a['%s_dut_%d' % (k, d)] = np.nan
    uid = 1
    for r, (ev, (t, hits)) in enumerate(rows):
        a['event_number'][r] = ev
        for d in range(n):
            if hits[d] is not None:
                p, _ = tel.cross(plane(case, d), [t[0], t[1], 0.0], [t[2], t[3], 1.0])
                set_hit(a, r, d, p[0] + hits[d][0], p[1] + hits[d][1], uid)
                uid += 1
    return a


def selection(case):
    """Documented meaning of the selection parameters, per output plane: [dut, fit planes, required planes, minimum]; None when they are invalid."""
    n = case['n']
    sel = list(range(n)) if case['select'] is None else case['select']
    k = len(sel)

    def per(v, default):
        if v is None:
            return [default] * k
        if v and all(isinstance(i, int) for i in v):
            return [v] * k
        return [default if i is None else i for i in v]
    fit, hit = per(case['fit'], list(range(n))), per(case['hit'], [])
    excl = case['exclude'] if isinstance(case['exclude'], list) else [case['exclude']] * k
    mn = case['min'] if isinstance(case['min'], list) else [case['min']] * k
    out = []
    for i, d in enumerate(sel):
        f = sorted(set(fit[i]) - ({d} if excl[i] else set()))
        m = len(f) if mn[i] is None else mn[i]
        if m < 2 or m > len(f):
            return sel, None
        out.append([d, f, sorted(set(hit[i])), m])
    return sel, out


def line(points):
    c = points.mean(axis=0)
    w, v = np.linalg.eigh(np.cov((points - c).T, bias=True))
    return c, v[:, -1]


def reference(case, a, fit, need, minimum, kalman=None):
    """All candidates with at least two hits in the fit planes: track at every plane, chi2, flags."""
    n = case['n']
    bits = np.array([bin(int(h) & sum(1 << d for d in fit)).count('1') for h in a['hit_flag']])
    fitted = bits >= (max(3, minimum) if case['method'] == 'kalman' else 2)
    mask = sum(1 << d for d in need)
    store = fitted & ((a['hit_flag'] & mask) == mask) & (bits >= minimum)
    idx = np.flatnonzero(fitted)
    pos, slope = np.full((len(a), n, 2), np.nan), np.full((len(a), n, 3), np.nan)
    for r in idx:
        pts = np.array([tel.to_global(plane(case, d), a['x_dut_%d' % d][r], a['y_dut_%d' % d][r]) for d in fit if np.isfinite(a['x_dut_%d' % d][r])])
        c, s = line(pts)
        for d in range(n):
            pos[r, d], slope[r, d] = tel.cross(plane(case, d), c, s)
    if kalman is not None:
        pos, slope = kalman
    chi2 = np.zeros(len(a))
    ndf = np.zeros(len(a))
    for d in fit:
        ok = fitted & np.isfinite(a['x_dut_%d' % d])
        for i, k in enumerate('xy'):
            chi2[ok] += ((a['%s_dut_%d' % (k, d)] - pos[:, d, i]) / a['%s_err_dut_%d' % (k, d)].astype('f8'))[ok] ** 2
        ndf[ok] += 2
    ndf -= 4
    red = np.where(ndf > 0, chi2 / np.where(ndf > 0, ndf, 1), 0.0)

    def per(v):
        return v if isinstance(v, list) and any(isinstance(i, list) or i is None for i in v) else [v] * n
    qual, iso = per(case['quality']), per(case['isolation'])
    flag = {k: np.zeros(len(a), 'i8') for k in ('quality', 'track', 'hit')}
    unsure = {k: np.zeros(len(a), 'i8') for k in flag}
    ev = a['event_number']

    def near(v, border):
        return np.abs(v - border) < 1e-6 * (1 + abs(border))
    for d in range(n):
        bit = 1 << d
        x, y = a['x_dut_%d' % d], a['y_dut_%d' % d]
        rx, ry = x - pos[:, d, 0], y - pos[:, d, 1]
        has = fitted & np.isfinite(rx)
        q = has.copy()
        amb = np.zeros(len(a), bool)
        if case['use_limits'] and case['limits'][d]:
            lo, hi = case['limits'][d]
            q &= (x >= lo) & (x <= hi) & (y >= -700.0) & (y <= 600.0)
            amb |= near(x, hi) | near(y, -700.0) | near(y, 600.0) | (near(x, lo) if math.isfinite(lo) else False)
        qx, qy = qual[d] or (math.inf, math.inf)
        ellipse = qx >= 2.5 * 250.0 and qy >= 2.5 * 50.0
        if ellipse:
            if math.isfinite(qx):
                v = (rx / qx) ** 2 + (ry / qy) ** 2
                q &= v <= 1
                amb |= near(v, 1.0)
        else:
            q &= (np.abs(rx) <= qx) & (np.abs(ry) <= qy)
            amb |= near(np.abs(rx), qx) | near(np.abs(ry), qy)
        flag['quality'] += bit * q
        unsure['quality'] += bit * amb
        ix, iy = iso[d] or (0.0, 0.0)
        for kind, px, py, rows, ell in (('track', pos[:, d, 0], pos[:, d, 1], idx, True), ('hit', x, y, range(len(a)), ellipse)):
            close = np.zeros(len(a), bool)
            amb = np.zeros(len(a), bool)
            for i in rows:
                for j in rows:
                    if i < j and ev[i] == ev[j] and np.isfinite(px[i]) and np.isfinite(px[j]):
                        dx, dy = abs(px[i] - px[j]), abs(py[i] - py[j])
                        if ell and ix > 0 and iy > 0:
                            v = (dx / ix) ** 2 + (dy / iy) ** 2
                            c, u = v <= 1, near(v, 1.0)
                        else:
                            c, u = dx <= ix and dy <= iy, near(dx, ix) or near(dy, iy)
                        close[i] |= c
                        close[j] |= c
                        amb[i] |= u
                        amb[j] |= u
            flag[kind] += bit * (fitted & ~close)
            unsure[kind] += bit * amb
    return {'fitted': fitted, 'store': store, 'pos': pos, 'slope': slope, 'chi2': chi2, 'red': red, 'flag': flag, 'unsure': unsure}


def kalman_reference(case, a, fit, minimum):
    """Tracks, chi2, chi2 / ndf and probability of all candidates with enough hits."""
    n = case['n']
    pos, slope = np.full((len(a), n, 2), np.nan), np.full((len(a), n, 3), np.nan)
    chi2, red, prob = (np.full(len(a), np.nan) for _ in range(3))
    scatter = [dict(translation_z=z, rotation_alpha=al, material_budget=m) for z, m, al in case['scatter']]
    planes = [plane(case, d) for d in range(n)]
    for r in range(len(a)):
        if bin(int(a['hit_flag'][r]) & sum(1 << d for d in fit)).count('1') < max(3, minimum):
            continue
        hits, errs = (np.array([[a['%s%s_dut_%d' % (k, e, d)][r] for k in 'xy'] for d in range(n)], dtype='f8') for e in ('', '_err'))
        t = kalref.fit(planes, hits, errs, fit, case['beam'][0], case['beam'][1], scatter)
        pos[r], slope[r, :, :2], slope[r, :, 2] = t['state'][:, :2], t['state'][:, 2:], 1.0
        chi2[r], red[r], prob[r] = t['chi2'], t['red'], t['prob']
    return pos, slope, chi2, red, prob


def differ(got, want, rtol, atol):
    bad = ~((np.isnan(got) & np.isnan(want)) | (np.abs(got - want) <= atol + rtol * np.abs(want)))
    return np.flatnonzero(bad)


def run(case, env):
    from beam_telescope_analysis import track_analysis as ta
    n = case['n']
    conf = env.path('telescope.yaml')
    tel.telescope(conf, [plane(case, d) for d in range(n)])
    a = build(case)
    inp = env.path('Track_Candidates.h5')
    h5.write(inp, [('TrackCandidates', a)])
    outp = env.path('Tracks_%s.h5' % case['method'].title()) if case['default_name'] else env.path('out.h5')
    sel, groups = selection(case)

    def dist(v):
        return v if v is None else tuple(v) if not isinstance(v[0], list) and v[0] is not None and all(isinstance(i, float) for i in v) else [i and tuple(i) for i in v]

    kw = {}
    if case['method'] == 'kalman':
        kw = dict(beam_energy=case['beam'][0], particle_mass=case['beam'][1])
        if case['scatter']:
            from beam_telescope_analysis.telescope.dut import ScatteringPlane
            kw['scattering_planes'] = [ScatteringPlane(name='S%d' % i, translation_x=0.0, translation_y=0.0, translation_z=z, rotation_alpha=al, rotation_beta=0.0, rotation_gamma=0.0, material_budget=m)
                                       for i, (z, m, al) in enumerate(case['scatter'])]

    def cp(v):
        return [list(i) if isinstance(i, list) else i for i in v] if isinstance(v, list) else v

    def fit(out, chunk):
        return ta.fit_tracks(conf, inp, output_tracks_file=out, max_events=case['max_events'], select_duts=cp(case['select']), select_hit_duts=cp(case['hit']), select_fit_duts=cp(case['fit']),
                             min_track_hits=cp(case['min']), exclude_dut_hit=cp(case['exclude']), method=case['method'], quality_distances=dist(case['quality']), isolation_distances=dist(case['isolation']),
                             use_limits=case['use_limits'], keep_data=case['keep'], full_track_info=case['full'], plot=False, chunk_size=chunk, **kw)
    what = 'fit_tracks(%s, %d planes, %d candidates, chunk size %d, max_events %s, %d cores)' % (case['method'], n, len(a), case['chunk'], case['max_events'], (case['cfg'] or {}).get('cpu_count', 1))
    env.sig = [case['events'], case['chunk'], case['select'], case['fit'], case['hit'], case['min'], case['exclude'], case['max_events'], case['fault'], case['cfg']]
    if groups is None:
        out = env.run(lambda: fit(outp, case['chunk']), case['cfg'], tag=what)
        env.probes['invalid_selection'] += 1
        if out.kind == 'ok':
            env.violation('silent-failure', '%s returned normally although fewer than two hits or more hits than fit planes are required (select_fit_duts %s, exclude_dut_hit %s, min_track_hits %s)' % (
                what, case['fit'], case['exclude'], case['min']))
        elif out.kind == 'hang':
            env.violation('hang', '%s with an invalid selection does not return' % what)
        else:
            S._bad_state(env, out, {inp: h5.sha(inp)}, what + ' with an invalid selection', False)
        return
    ref = {}
    for d, f, need, m in groups:
        key = (tuple(f), tuple(need), m)
        if key not in ref:
            ref[key] = None
    for d, f, need, m in groups:
        key = (tuple(f), tuple(need), m)
        if ref[key] is None:
            kal = kalman_reference(case, a, f, m) if case['method'] == 'kalman' else None
            ref[key] = reference(case, a, f, need, m, kal and kal[:2])
            if kal:
                ref[key]['kchi2'], ref[key]['kred'], ref[key]['kprob'] = kal[2:]

    def content(v):
        if v != outp:
            return 'wrong-return', 'returned %r' % (v,)
        got = h5.snapshot(outp)
        if set(got) != {'/Tracks_DUT%d' % d for d in sel}:
            return 'wrong-nodes', 'nodes %s, tracks were selected for DUTs %s' % (sorted(got), sel)
        for d, f, need, m in groups:
            r = check_table(case, a, got['/Tracks_DUT%d' % d][2], d, ref[(tuple(f), tuple(need), m)])
            if r:
                return r[0], 'Tracks_DUT%d (fit planes %s, required hits %s, at least %d): %s' % (d, f, need, m, r[1])
        return None
    out = S.check_step(env, lambda: fit(outp, case['chunk']), [inp], [outp], content, case['cfg'], case['fault'], what)
    if out is not None:
        env.nontrivial = len(a) > case['chunk']
        env.probes['kalman'] += case['method'] == 'kalman'
        env.probes['shared_tracks'] += len(ref) < len(groups)
        env.probes['keep_data'] += case['keep']


def check_table(case, a, g, d, R):
    n = case['n']
    good = np.unique(a['event_number'][R['store']])
    if case['keep']:
        rows = np.ones(len(a), bool)
    else:
        rows = R['store'].copy()
        if case['max_events']:
            ev = np.unique(g['event_number'])
            if len(ev) > case['max_events']:
                return 'too-many-events', '%d events stored, max_events=%d' % (len(ev), case['max_events'])
            if case['chunk'] > len(a) and len(ev) != min(case['max_events'], len(good)):
                return 'too-few-events', '%d events stored of %d with good tracks, max_events=%d, one chunk' % (len(ev), len(good), case['max_events'])
            rows &= np.isin(a['event_number'], ev)
    src = a[rows]
    if len(g) != len(src) or (g['event_number'] != src['event_number']).any():
        return 'wrong-tracks', 'event numbers of the tracks are %s, expected %s' % (g['event_number'].tolist()[:40], src['event_number'].tolist()[:40])
    for c in a.dtype.names:
        if c not in g.dtype.names:
            return 'lost-column', 'column %s is missing' % c
        x, y = g[c], src[c]
        bad = np.flatnonzero(~((x == y) | ((x != x) & (y != y))))
        if len(bad):
            return 'wrong-tracks', 'row %d (event %d): column %s is %s, the candidate has %s' % (bad[0], src['event_number'][bad[0]], c, x[bad[0]], y[bad[0]])
    kal = case['method'] == 'kalman'
    # absolute tolerance: lever arm of two noisy hits
    tol = 1e-5

    def cmp(col, want, rtol, atol):
        bad = differ(g[col].astype('f8'), want[rows], rtol, atol)
        if len(bad):
            return 'wrong-fit', 'row %d (event %d): %s is %r, expected %r' % (bad[0], src['event_number'][bad[0]], col, g[col][bad[0]].item(), want[rows][bad[0]].item())

    def pars(suffix, i):
        for k, dim in enumerate('xy'):
            r = cmp('offset_%s%s' % (dim, suffix), R['pos'][:, i, k], 1e-9, tol)
            if r:
                return r
        s = R['slope'][:, i]
        for k, dim in enumerate('xyz'):
            r = cmp('slope_%s%s' % (dim, suffix), s[:, k], 1e-7, 1e-8)
            if r:
                return r
        r = cmp('offset_z%s' % suffix, np.where(R['fitted'], 0.0, np.nan), 0, 1e-6)
        if r:
            return r
    r = pars('', d)
    if r:
        return r
    if case['full']:
        for i in range(n):
            r = pars('_dut_%d' % i, i)
            if r:
                return r
    chi2, red = (R['kchi2'], R['kred']) if kal else (R['chi2'], R['red'])
    chi2 = np.where(R['fitted'], chi2, np.nan)
    red = np.where(R['fitted'], red, np.nan)
    r = cmp('track_chi2', chi2, 1e-4, 1e-4) or cmp('track_chi_red', red, 1e-4, 1e-4)
    if not r and kal:
        r = cmp('track_chi_prob', np.where(R['fitted'], R['kprob'], np.nan), 1e-4, 1e-6)
    if r:
        return r
    for kind, col in (('quality', 'quality_flag'), ('track', 'isolated_track_flag'), ('hit', 'isolated_hit_flag')):
        w, u = R['flag'][kind][rows], R['unsure'][kind][rows]
        x = g[col].astype('i8')
        bad = np.flatnonzero((x & ~u) != (w & ~u))
        if len(bad):
            return 'wrong-flag', 'row %d (event %d): %s is %s, expected %s' % (bad[0], src['event_number'][bad[0]], col, bin(x[bad[0]]), bin(w[bad[0]]))
    return None


def shrinks(case):
    yield from S.shrink_common(case)
    yield from S.shrink_events(case)
    for k, v in (('default_name', False), ('scatter', []), ('resolution', None), ('max_events', None), ('hit', None), ('fit', None), ('min', None), ('exclude', False), ('quality', None), ('isolation', None), ('use_limits', False), ('keep', False), ('full', False),
                 ('chunk', 100000)):
        if case[k] != v:
            yield dict(case, **{k: v})
    n = case['n']
    if any(any(r) for r in case['rot']):
        yield dict(case, rot=[[0.0, 0.0, 0.0]] * n)
    for i, e in enumerate(case['events']):
        if len(e[1]) > 1:
            for j in range(len(e[1])):
                yield dict(case, events=case['events'][:i] + [[e[0], e[1][:j] + e[1][j + 1:]]] + case['events'][i + 1:])
