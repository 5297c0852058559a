"""P10: track finding only reorders hits within an event, for any chunking."""
import math

import numpy as np

from .. import h5, smcwork as W, stepcheck as S, tel

ID = 'P10'
LEVEL = 'exploration'
PLAN = {'quick': {'cases': 1200, 'wall': 80}, 'thorough': {'cases': 60000, 'wall': 780}}
WARM = (0,)
AFFINE = True        # the code is compiled for every number of planes
RULE = ('one case = a telescope of 2 to 12 planes in any z order, events of separated straight tracks with shuffled hits or of arbitrary hits with missing hits, a chunk '
        'size, optionally max_events and one injected fault or process death; checked against the hit content of every event, the true tracks and the single-chunk result; '
        'non-trivial when the input was read in at least two chunks')
REAL = ['track_analysis.find_tracks and its compiled loop', 'analysis_utils.data_aligned_at_events', 'telescope geometry', 'PyTables/HDF5 on scratch files', 'process death (forked image, _exit at an I/O step)']
STUB = ['failing PyTables calls (injected)']
ASSUMPTIONS = ['an event has fewer rows than the chunk size', 'recovery of true tracks is required only for complete tracks at least 2 mm apart with slopes that move them less than 0.2 mm']


def gen(rng, index, tier):
    n_dut = [3, 2, 4, 6, 12, 6, 3, 4][index % 8]
    mode = rng.choice(['tracks', 'tracks', 'random'])
    if index < 7:
        mode = 'tracks'
    n_ev = rng.choice([1, 3, 10, 25, 25])
    ev, events = rng.choice([0, 1, 2 ** 33]), []
    for _ in range(n_ev):
        n = rng.choice([1, 1, 2, 3, 4])
        if mode == 'tracks':
            cells = rng.sample([(i, j) for i in range(-2, 3) for j in range(-2, 3)], n)
            slope = [rng.uniform(-1e-3, 1e-3), rng.uniform(-1e-3, 1e-3)]
            rows = []
            for d in range(n_dut):
                order = list(range(n))
                rng.shuffle(order)
                rows.append(order)
            events.append([ev, [[c[0] * 2500.0 + rng.uniform(-100, 100), c[1] * 2500.0 + rng.uniform(-100, 100)] + [s + rng.uniform(-1e-4, 1e-4) for s in slope] for c in cells], rows])
        else:
            rows = [[None if rng.random() < 0.3 else [round(rng.uniform(-5000, 5000), 1), round(rng.uniform(-5000, 5000), 1)] for _ in range(n)] for _ in range(n_dut)]
            if not any(h for d in rows for h in d):
                rows[0][0] = [0.0, 0.0]
            events.append([ev, n, rows])
        ev += rng.choice([1, 1, 2, 9])
    mx = max(len(e[2][0]) for e in events)
    total = sum(len(e[2][0]) for e in events)
    z = [10000.0 * i for i in range(n_dut)]
    if rng.random() < 0.4:
        rng.shuffle(z)
    rot = rng.random() < 0.4
    return {'events': events, 'mode': mode, 'n_dut': n_dut, 'z': z, 'xy': [[rng.choice([0.0, 300.0, -1200.0]), rng.choice([0.0, 100.0])] for _ in range(n_dut)],
            'rot': [[rng.choice([0.0, 0.05, math.pi]), rng.choice([0.0, -0.03]), rng.choice([0.0, 0.3])] if rot else [0.0, 0.0, 0.0] for _ in range(n_dut)],
            'beam': [rng.choice([0.0, 0.01]), rng.choice([0.0, -0.02])] if mode == 'random' and rng.random() < 0.3 else None, 'align': rng.choice([True, True, False]),
            'extrapolate': rng.choice([None, None, [], [0], sorted(rng.sample(range(n_dut), 2))]), 'max_events': rng.choice([None, None, None, 1, 2, max(1, n_ev // 2), n_ev, 1000]),
            'default_name': rng.random() < 0.2, 'chunk': rng.choice([mx + 1, mx + 1, mx + 3, max(mx + 1, total // 2), total + 1, 100000]),
            'fault': S.gen_fault(rng, p_none=0.6, p_crash=0.1) if index >= 7 else None, 'cfg': W.sched_cfg(rng)}


def description(n):
    d = [('event_number', '<i8')]
    for dim in 'xyz':
        d += [('%s_dut_%d' % (dim, i), '<f8') for i in range(n)]
    for name, t in (('charge', '<f4'), ('frame', '<u2'), ('n_hits', '<u4'), ('cluster_ID', '<i2'), ('cluster_shape', '<i8'), ('n_cluster', '<u4')):
        d += [('%s_dut_%d' % (name, i), t) for i in range(n)]
    d.append(('hit_flag', '<u4'))
    for dim in 'xyz':
        d += [('%s_err_dut_%d' % (dim, i), '<f4') for i in range(n)]
    return np.dtype(d)


def set_hit(a, r, d, x, y, uid):
    a['x_dut_%d' % d][r], a['y_dut_%d' % d][r], a['z_dut_%d' % d][r] = x, y, 0.0
    a['charge_dut_%d' % d][r] = 1 + uid
    a['frame_dut_%d' % d][r] = uid % 65536
    a['n_hits_dut_%d' % d][r] = 1 + uid % 4
    a['cluster_ID_dut_%d' % d][r] = uid % 32768
    a['cluster_shape_dut_%d' % d][r] = uid + 7
    a['n_cluster_dut_%d' % d][r] = uid % 10
    for k, e in enumerate('xyz'):
        a['%s_err_dut_%d' % (e, d)][r] = 1 + k + uid % 13
    a['hit_flag'][r] |= 1 << d


def build(case, telescope):
    n = case['n_dut']
    total = sum(len(e[2][0]) for e in case['events'])
    a = np.zeros(total, description(n))
    for d in range(n):
        for k in ('x', 'y', 'z', 'charge', 'x_err', 'y_err', 'z_err'):
            a['%s_dut_%d' % (k, d)] = np.nan
    truth = []      # particle of the hit per row and plane
    r0 = 0
    uid = 1
    for e in case['events']:
        m = len(e[2][0])
        a['event_number'][r0:r0 + m] = e[0]
        for d in range(n):
            dut = telescope[d]
            for k in range(m):
                if case['mode'] == 'tracks':
                    t = e[1][e[2][d][k]]
                    x, y = intersect(dut, t)
                else:
                    if e[2][d][k] is None:
                        continue
                    x, y = e[2][d][k]
                set_hit(a, r0 + k, d, x, y, uid)
                uid += 1
        r0 += m
    return a


def intersect(dut, t):
    """Local position of the track x = t0 + t2 z, y = t1 + t3 z on the plane."""
    # plane: points local (u, v, 0); solved with the plane's own transformation
    o = np.array([float(v[0]) for v in dut.local_to_global_position(x=np.array([0.0]), y=np.array([0.0]), z=np.array([0.0]))])
    ex = np.array([float(v[0]) for v in dut.local_to_global_position(x=np.array([1.0]), y=np.array([0.0]), z=np.array([0.0]))]) - o
    ey = np.array([float(v[0]) for v in dut.local_to_global_position(x=np.array([0.0]), y=np.array([1.0]), z=np.array([0.0]))]) - o
    s = np.linalg.solve(np.column_stack([ex, ey, -np.array([t[2], t[3], 1.0])]), np.array([t[0], t[1], 0.0]) - o)
    return float(s[0]), float(s[1])


def run(case, env):
    from beam_telescope_analysis import track_analysis as ta
    from beam_telescope_analysis.telescope.telescope import Telescope
    n = case['n_dut']
    conf = env.path('telescope.yaml')
    t = tel.telescope(conf, [dict(translation_x=case['xy'][d][0], translation_y=case['xy'][d][1], translation_z=case['z'][d], rotation_alpha=case['rot'][d][0], rotation_beta=case['rot'][d][1],
                                  rotation_gamma=case['rot'][d][2]) for d in range(n)])
    if case['beam']:
        t.rotation_alpha, t.rotation_beta = case['beam']
        t.save_configuration(conf)
    a = build(case, t)
    inp = env.path('Merged.h5')
    h5.write(inp, [('MergedClusters', a)])
    outp = env.path('Track_Candidates.h5') if case['default_name'] else env.path('out.h5')
    ref = env.path('ref.h5')

    def find(out, chunk):
        return ta.find_tracks(conf, inp, output_track_candidates_file=out, select_extrapolation_duts=case['extrapolate'], align_to_beam=case['align'], max_events=case['max_events'], chunk_size=chunk)
    # single chunk result without max_events
    r = env.run(lambda: ta.find_tracks(conf, inp, output_track_candidates_file=ref, select_extrapolation_duts=case['extrapolate'], align_to_beam=case['align'], chunk_size=len(a) + 1), None, tag='reference')
    if r.kind != 'ok':
        env.violation('spurious-error', 'find_tracks with one chunk: %s%s' % (r.describe(), S.tb_tail(r)))
        return
    full = h5.node(ref, 'TrackCandidates')
    n_ev = len(case['events'])
    cols = [c for c in a.dtype.names if '_dut_' in c]

    def content(v):
        if v != outp:
            return 'wrong-return', 'returned %r' % (v,)
        got = h5.snapshot(outp)
        if set(got) != {'/TrackCandidates'}:
            return 'wrong-nodes', 'nodes %s' % sorted(got)
        g = got['/TrackCandidates'][2]
        if g.dtype.names != a.dtype.names:
            return 'wrong-rows', 'columns %s' % (g.dtype.names,)
        ev = np.unique(g['event_number'])
        if case['max_events']:
            if len(ev) > case['max_events']:
                return 'too-many-events', '%d events stored, max_events=%d' % (len(ev), case['max_events'])
            if case['chunk'] > len(a) and len(ev) != min(case['max_events'], n_ev):
                return 'too-few-events', '%d of %d events stored, max_events=%d, one chunk' % (len(ev), n_ev, case['max_events'])
        sel = np.isin(a['event_number'], ev)
        if not case['max_events'] and not sel.all():
            return 'lost-event', 'events %s are missing' % np.unique(a['event_number'][~sel]).tolist()[:20]
        src = a[sel]
        if g['event_number'].tolist() != src['event_number'].tolist():
            return 'wrong-rows', 'rows per event %s, input %s' % (g['event_number'].tolist()[:60], src['event_number'].tolist()[:60])
        # hits of every plane and event are conserved, with all their columns
        flag = np.zeros(len(g), 'i8')
        for d in range(n):
            mine = [c for c in cols if c.endswith('_dut_%d' % d)]
            x = np.isfinite(g['x_dut_%d' % d])
            flag += x.astype('i8') << d
            key_g = sorted((int(r['event_number']),) + tuple(repr(r[c].item()) for c in mine) for r in g)
            key_a = sorted((int(r['event_number']),) + tuple(repr(r[c].item()) for c in mine) for r in src)
            if key_g != key_a:
                bad = [k for k in key_g if k not in key_a][:1]
                return 'hits-not-conserved', 'DUT%d: %s is in the output, but no such hit was in that event' % (d, dict(zip(['event'] + mine, bad[0])) if bad else 'a duplicate')
        if (flag != g['hit_flag']).any():
            return 'wrong-hit-flag', 'hit_flag %s, hits %s' % (g['hit_flag'].tolist()[:40], flag.tolist()[:40])
        if case['mode'] == 'tracks':
            d = check_tracks(case, a, g, ev)
            if d:
                return d
        want = full[np.isin(full['event_number'], ev)]
        d = h5.same_array(g, want)
        if d:
            return 'chunk-dependent', 'result differs from the one with a single chunk: %s' % d
        return None
    out = S.check_step(env, lambda: find(outp, case['chunk']), [inp], [outp], content, case['cfg'], case['fault'], 'find_tracks(%d planes, %d rows, chunk size %d, max_events %s)' % (n, len(a), case['chunk'], case['max_events']))
    if out is not None:
        env.nontrivial = len(a) > case['chunk']
        env.probes['multi_dut'] += n > 10
    env.sig = [case['events'], case['chunk'], case['z'], case['rot'], case['max_events'], case['extrapolate'], case['fault']]


def check_tracks(case, a, g, ev):
    n = case['n_dut']
    owner = {}
    r0 = 0
    for e in case['events']:
        m = len(e[2][0])
        for d in range(n):
            for k in range(m):
                owner[(d, int(a['cluster_shape_dut_%d' % d][r0 + k]))] = e[2][d][k]
        r0 += m
    for r in g:
        p = [owner[(d, int(r['cluster_shape_dut_%d' % d]))] for d in range(n)]
        if len(set(p)) != 1:
            return 'track-mixed', 'event %d: separated straight tracks were mixed, one candidate has hits of particles %s (planes 0 to %d)' % (r['event_number'], p, n - 1)
    return None


def shrinks(case):
    yield from S.shrink_common(case)
    yield from S.shrink_events(case)
    for k, v in (('default_name', False), ('max_events', None), ('extrapolate', None), ('beam', None), ('align', True)):
        if case[k] != v:
            yield dict(case, **{k: v})
    n = case['n_dut']
    if any(any(r) for r in case['rot']):
        yield dict(case, rot=[[0.0, 0.0, 0.0]] * n)
    if n > 2 and not case['extrapolate']:
        yield dict(case, n_dut=n - 1, z=case['z'][:-1], xy=case['xy'][:-1], rot=case['rot'][:-1], events=[[e[0], e[1], e[2][:-1]] for e in case['events']])
