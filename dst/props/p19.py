"""P19: simulated data is reproducible, complete and where the tracks are."""
import math
import os

import numpy as np

from .. import h5, smcwork as W, stepcheck as S

ID = 'P19'
LEVEL = 'exploration'
PLAN = {'quick': {'cases': 2600, 'wall': 50}, 'thorough': {'cases': 60000, 'wall': 780}}
WARM = (0, 1, 2, 3)
RULE = ('one case = settings of a simulated telescope of 1 to 4 planes (positions, rotations, pixel sizes, beam, efficiency, threshold, charge sharing, shuffling), a random seed, number of events and chunk size, '
        'what else used random numbers before and meanwhile, optionally one injected fault or process death; modes: tracks at random places seen by a fine reference plane, tracks at one known place with charge sharing, '
        'free settings; non-trivial when at least one hit was compared with its track')
REAL = ['simulate_data.SimulateData', 'numba functions', 'pylandau (third party)', 'PyTables/HDF5 on scratch files', 'process death (forked image, _exit at an I/O step)']
STUB = ['failing PyTables calls (injected)']
ASSUMPTIONS = ['numpy draws the same numbers for the same seed; the shape of the random distributions is only checked by mean and width of the beam']
MODES = ['fine', 'fixed', 'free', 'beam']


def gen(rng, index, tier):
    mode = MODES[index] if index < 4 else rng.choice(['fine', 'fine', 'fixed', 'fixed', 'free', 'free', 'beam'])
    n = rng.choice([1, 2, 2, 3, 4])
    planes = []
    for i in range(n):
        size = [rng.choice([50.0, 250.0, 18.4, 100.0]), rng.choice([50.0, 25.0, 18.4])]
        pix = [rng.choice([4, 10, 40]), rng.choice([4, 10, 60])]
        if mode == 'fine' and i == 0:
            size, pix = [1.0, 1.0], [20000, 20000]
        if mode == 'beam':
            size, pix = [5.0, 5.0], [30000, 30000]
        rot = [0.0, 0.0, 0.0]
        if mode in ('fine', 'free') and not (mode == 'fine' and i == 0) and rng.random() < 0.5:
            rot = [rng.uniform(-0.6, 0.6) if rng.random() < 0.7 else 0.0, rng.uniform(-0.6, 0.6) if rng.random() < 0.7 else 0.0, rng.choice([0.0, rng.uniform(-3, 3)])]
        c = [-0.5 * size[0] * pix[0], -0.5 * size[1] * pix[1]]
        if mode == 'fine' and i == 0 or mode == 'beam':
            off = c
        else:
            off = [c[0] + rng.uniform(-0.6, 0.6) * size[0] * pix[0], c[1] + rng.uniform(-0.6, 0.6) * size[1] * pix[1]]
            if any(rot):
                off = [rng.uniform(-500, 500) - 200, rng.uniform(-500, 500) - 200]
        planes.append({'z': i * rng.choice([1000, 10000, 33333.3]), 'offset': off, 'rot': rot, 'size': size, 'pix': pix, 'eff': rng.choice([1.0, 1.0, 0.9, 0.5]) if mode in ('free',) else 1.0,
                       'threshold': rng.choice([0, 0, 2000, 8000]) if mode == 'free' else 0, 'noise': rng.choice([0, 50]) if mode == 'free' else 0, 'bias': rng.choice([20, 50, 150]),
                       'thickness': rng.choice([50, 100, 250]), 'budget': rng.choice([0, 0.001]) if mode == 'free' else 0})
    n_events = rng.choice([1, 2, 7, 30, 100]) if mode != 'beam' else rng.choice([800, 1500])
    target = None
    if mode == 'fixed':
        # the beam hits a known place of the last plane; columns and rows count from one
        p = planes[-1]
        target = [rng.choice([1, 2, p['pix'][0], p['pix'][0] - 1, rng.randint(1, p['pix'][0])]), rng.choice([1, p['pix'][1], rng.randint(1, p['pix'][1])]),
                  rng.choice([0.5, 0.03, 0.97, rng.uniform(0.05, 0.95)]), rng.choice([0.5, 0.02, 0.98, rng.uniform(0.05, 0.95)])]
    return {'mode': mode, 'planes': planes, 'n_events': n_events, 'chunk': rng.choice([1, 2, 3, 7, 10, 64, 100, 100000]) if mode != 'beam' else rng.choice([500, 100000]), 'seed_value': rng.choice([0, 0, 1, 42, 2 ** 31]),
            'tracks': rng.choice([1, 1, 2, 4]) if mode != 'fixed' else 1, 'tracks_sigma': rng.choice([0, 0, 1]) if mode != 'fixed' else 0, 'sharing': mode == 'fixed' and rng.random() < 0.8 or mode == 'free' and rng.random() < 0.4,
            'sigma_cc': rng.choice([1.0, 1.35, 3.0]), 'shuffle': mode != 'fine' and rng.random() < 0.6, 'beam': [rng.uniform(-300, 300), rng.uniform(-300, 300)],
            'beam_sigma': [rng.choice([0, 100, 400, 2000]), rng.choice([0, 100, 400, 2000])], 'target': target, 'angle_sigma': rng.choice([0, 1, 5]) if mode in ('free', 'beam') else 0,
            'noise_before': rng.choice([0, 0, 3, 1000]), 'other': rng.choice([None, None, 'before', 'between', 'chunks']), 'fault': S.gen_fault(rng, p_none=0.65, p_crash=0.1), 'cfg': W.sched_cfg(rng)}


def rotation(a, b, g):
    rx = np.array([[1, 0, 0], [0, math.cos(a), -math.sin(a)], [0, math.sin(a), math.cos(a)]])
    ry = np.array([[math.cos(b), 0, math.sin(b)], [0, 1, 0], [-math.sin(b), 0, math.cos(b)]])
    rz = np.array([[math.cos(g), -math.sin(g), 0], [math.sin(g), math.cos(g), 0], [0, 0, 1]])
    return rz.dot(ry).dot(rx)


def configure(sim, case):
    P = case['planes']
    sim.n_duts = len(P)
    sim.set_std_settings()
    sim.z_positions = [p['z'] for p in P]
    sim.offsets = [tuple(p['offset']) for p in P]
    sim.rotations = [tuple(p['rot']) for p in P]
    sim.dut_bias = [p['bias'] for p in P]
    sim.dut_thickness = [p['thickness'] for p in P]
    sim.dut_threshold = [p['threshold'] for p in P]
    sim.dut_noise = [p['noise'] for p in P]
    sim.dut_pixel_size = [tuple(p['size']) for p in P]
    sim.dut_n_pixel = [tuple(p['pix']) for p in P]
    sim.dut_efficiencies = [p['eff'] for p in P]
    sim.dut_material_budget = [p['budget'] for p in P]
    sim.digitization_charge_sharing = case['sharing']
    sim.digitization_shuffle_hits = case['shuffle']
    sim.digitization_sigma_cc = case['sigma_cc']
    sim.tracks_per_event, sim.tracks_per_event_sigma = case['tracks'], case['tracks_sigma']
    sim.beam_angle, sim.beam_angle_sigma = 0, case['angle_sigma']
    sim.beam_position, sim.beam_position_sigma = tuple(case['beam']), tuple(case['beam_sigma'])
    if case['mode'] == 'fixed':
        p, t = P[-1], case['target']
        sim.beam_position = (p['offset'][0] + (t[0] - 1 + t[2]) * p['size'][0], p['offset'][1] + (t[1] - 1 + t[3]) * p['size'][1])
        sim.beam_position_sigma = (0, 0)
    return sim


def pixel(p, xy):
    """Column and row (real numbers, pixel i covers [i - 1, i]) of a vertical track at global x, y."""
    r = rotation(*p['rot'])
    n = r[:, 2]
    o = np.array([p['offset'][0], p['offset'][1], p['z']])
    z = o[2] - (n[0] * (xy[:, 0] - o[0]) + n[1] * (xy[:, 1] - o[1])) / n[2]
    loc = (np.column_stack([xy[:, 0], xy[:, 1], z]) - o).dot(r)
    return loc[:, 0] / p['size'][0], loc[:, 1] / p['size'][1]


def cdf(a, mu, s):
    return 0.5 * (1 + math.erf((a - mu) / (math.sqrt(2) * s)))


def run(case, env):
    from beam_telescope_analysis.tools import simulate_data as sd
    P, N = case['planes'], case['n_events']
    base = env.path('sim')
    outs = [base + '_DUT%d.h5' % i for i in range(len(P))]
    chunk = min(case['chunk'], N)
    first = {}

    def call():
        if case['noise_before']:
            np.random.seed(case['noise_before'])
            np.random.normal(size=case['noise_before'])
        if case['other'] == 'before':
            sd.SimulateData(99)
        s = configure(sd.SimulateData(case['seed_value']), case)
        if case['other'] == 'between':
            np.random.uniform(size=5)
            sd.SimulateData(7)
        s.create_data_and_store(base, n_events=N, chunk_size=case['chunk'])

    def plain():
        s = configure(sd.SimulateData(case['seed_value']), case)
        s.create_data_and_store(base, n_events=N, chunk_size=case['chunk'])

    def read():
        return [h5.node(p, 'Hits') for p in outs]

    def compare(_):
        hits = read()
        for k, (p, a) in enumerate(zip(P, hits)):
            ev = a['event_number']
            if len(ev) and (ev.min() < 0 or ev.max() >= N):
                return 'wrong-events', 'plane %d has event number %d, %d events were requested' % (k, ev.max(), N)
            if np.any(np.diff(ev) < 0):
                return 'wrong-order', 'plane %d: event numbers are not ascending' % k
            if len(a) and (a['column'].min() < 1 or a['column'].max() > p['pix'][0] or a['row'].min() < 1 or a['row'].max() > p['pix'][1]):
                return 'outside', 'plane %d: hits outside the sensor' % k
            if p['threshold'] and len(a) and a['charge'].min() * 10 < p['threshold'] * (1 - 1e-4) - 10:
                return 'threshold', 'plane %d: hit with charge %r below the threshold %r' % (k, a['charge'].min() * 10, p['threshold'])
        if first:
            for k, (a, b) in enumerate(zip(first['hits'], hits)):
                d = h5.same_array(b, a)
                if d:
                    return 'not-reproducible', 'plane %d differs from the first simulation with the same seed and settings: %s' % (k, d)
        return S.guarded(lambda _: judge(hits), None)

    def judge(hits):
        counts = [np.bincount(a['event_number'].astype('i8'), minlength=N) for a in hits]
        if case['mode'] == 'fixed':
            return fixed(hits, counts)
        if case['mode'] == 'beam':
            return beam(hits, counts)
        if case['tracks_sigma'] == 0:
            for k, c in enumerate(counts):
                if not case['sharing'] and np.any(c > case['tracks']):
                    return 'wrong-tracks', 'plane %d: %d hits in an event with %d tracks' % (k, c.max(), case['tracks'])
        if case['mode'] == 'free':
            return None
        # tracks run along z; plane 0 sees their place with a precision of half a micrometre
        ref = hits[0]
        if case['tracks_sigma'] == 0 and (len(ref) != N * case['tracks'] or np.any(counts[0] != case['tracks'])) and max(case['beam_sigma']) <= 400:
            return 'wrong-tracks', 'the reference plane has %d hits, expected %d tracks in each of %d events' % (len(ref), case['tracks'], N)
        xy = np.column_stack([P[0]['offset'][0] + ref['column'].astype('f8') - 0.5, P[0]['offset'][1] + ref['row'].astype('f8') - 0.5])
        if max(case['beam_sigma']) > 400 and len(ref) == 0:
            return None
        for k in range(1, len(P)):
            p = P[k]
            c, r = pixel(p, xy)
            tol = 0.55 * 1.5 / min(p['size']) + 1e-6
            inside = (c > tol) & (c < p['pix'][0] - tol) & (r > tol) & (r < p['pix'][1] - tol)
            maybe = (c > -tol) & (c < p['pix'][0] + tol) & (r > -tol) & (r < p['pix'][1] + tol)
            for e in range(N):
                sel = ref['event_number'] == e
                got = hits[k][hits[k]['event_number'] == e]
                if not inside[sel].sum() <= len(got) <= maybe[sel].sum():
                    return 'lost-hits', 'plane %d, event %d: %d hits, but %d to %d tracks cross it (at column %s, row %s)' % (k, e, len(got), inside[sel].sum(), maybe[sel].sum(), np.round(c[sel], 2), np.round(r[sel], 2))
                near = np.zeros((int(sel.sum()), len(got)), bool)
                for j, i in enumerate(np.flatnonzero(sel)):
                    near[j] = (np.abs(got['column'] - 0.5 - c[i]) <= 0.5 + tol) & (np.abs(got['row'] - 0.5 - r[i]) <= 0.5 + tol)
                for j, i in enumerate(np.flatnonzero(sel)):
                    if inside[i] and not near[j].any():
                        return 'wrong-pixel', 'plane %d, event %d: the track at column %.3f, row %.3f has no hit in this pixel (hits %s)' % (k, e, c[i] + 0.5, r[i] + 0.5, [(int(h['column']), int(h['row'])) for h in got])
                    if inside[i]:
                        env.probes['hits_compared'] += 1
                        env.nontrivial = True
                for j in np.flatnonzero(~near.any(axis=0)):
                    return 'wrong-pixel', 'plane %d, event %d: hit (%d, %d) belongs to no track' % (k, e, got['column'][j], got['row'][j])
        return None

    def fixed(hits, counts):
        p, t = P[-1], case['target']
        a = hits[-1]
        if not case['sharing']:
            if len(a) != N or np.any(a['column'] != t[0]) or np.any(a['row'] != t[1]):
                return 'wrong-pixel', 'the beam hits pixel (%d, %d), but the hits of %d of %d events are %s' % (t[0], t[1], len(np.unique(a['event_number'])), N, sorted(set(zip(a['column'].tolist(), a['row'].tolist())))[:5])
            env.nontrivial = True
            return None
        s = p['thickness'] / 2. * math.sqrt(2. * 300 / p['bias'] * 8.6173324e-5) * case['sigma_cc']
        x, y = t[2] * p['size'][0], t[3] * p['size'][1]
        frac = {}
        for dc in range(-9, 10):
            for dr in range(-9, 10):
                if 1 <= t[0] + dc <= p['pix'][0] and 1 <= t[1] + dr <= p['pix'][1]:
                    f = (cdf((dc + 1) * p['size'][0], x, s) - cdf(dc * p['size'][0], x, s)) * (cdf((dr + 1) * p['size'][1], y, s) - cdf(dr * p['size'][1], y, s))
                    frac[(t[0] + dc, t[1] + dr)] = f
        seen = set(a['event_number'].tolist())
        if len(seen) != N:
            return 'lost-hits', 'the beam hits pixel (%d, %d), but %d of %d events have no hit' % (t[0], t[1], N - len(seen), N)
        for e in range(N):
            h = a[a['event_number'] == e]
            cl = {(int(q['column']), int(q['row'])): float(q['charge']) for q in h}
            if len(cl) != len(h):
                return 'wrong-cluster', 'event %d: the same pixel twice' % e
            if (t[0], t[1]) not in cl:
                return 'wrong-cluster', 'event %d: no charge in the pixel (%d, %d) that is hit, but in %s' % (e, t[0], t[1], sorted(cl))
            for q in cl:
                if q not in frac or frac[q] < 0.0098:
                    return 'wrong-cluster', 'event %d: pixel %s gets charge, its share is %.4f' % (e, q, frac.get(q, 0))
            rest = sum(f for q, f in frac.items() if q not in cl)
            for q, f in frac.items():
                if q not in cl and f > 0.0102 and sum(frac[z] for z in cl) < 0.9898:
                    return 'wrong-cluster', 'event %d: pixel %s gets no charge, its share is %.3f (together missing %.3f)' % (e, q, f, rest)
            scale = cl[(t[0], t[1])] / frac[(t[0], t[1])]
            for q, v in cl.items():
                if abs(v - frac[q] * scale) > 0.02 * frac[q] * scale + 1.01:
                    return 'wrong-charge', 'event %d: pixel %s has charge %.1f, expected %.1f of %.1f' % (e, q, v, frac[q] * scale, scale)
            env.probes['clusters_compared'] += 1
            env.nontrivial = True
        return None

    def beam(hits, counts):
        # mean and width of the beam spot on the first plane, six standard deviations
        a, p = hits[0], P[0]
        n = len(a)
        if n < 200:
            return None
        for axis, col in ((0, 'column'), (1, 'row')):
            v = p['offset'][axis] + (a[col].astype('f8') - 0.5) * p['size'][axis]
            s = case['beam_sigma'][axis]
            if abs(v.mean() - case['beam'][axis]) > 7 * s / math.sqrt(n) + 6:
                return 'wrong-beam', 'mean %s of the beam is %.1f um, set to %.1f um' % ('xy'[axis], v.mean(), case['beam'][axis])
            if abs(v.std() - s) > 7 * s / math.sqrt(2 * n) + 6:
                return 'wrong-beam', 'width of the beam in %s is %.1f um, set to %.1f um (%d hits)' % ('xy'[axis], v.std(), s, n)
        last = hits[-1]
        if len(P) > 1 and case['tracks'] == 1 and case['tracks_sigma'] == 0 and not case['sharing'] and len(last) == n == N and np.array_equal(last['event_number'], a['event_number']):
            dz = (P[-1]['z'] - P[0]['z'])
            for axis, col in ((0, 'column'), (1, 'row')):
                d = (last[col].astype('f8') - a[col]) * 5. + P[-1]['offset'][axis] - P[0]['offset'][axis]
                s = case['angle_sigma'] / 1000. * dz / math.sqrt(2)
                if abs(d.std() - s) > 12 * s / math.sqrt(2 * n) + 4:
                    return 'wrong-angle', 'angular spread in %s is %.3f mrad, expected %.3f mrad' % ('xy'[axis], d.std() / dz * 1000, s / dz * 1000)
        env.probes['beams'] += 1
        env.nontrivial = True
        return None
    what = 'create_data_and_store(%d events, %d planes, chunk size %d, mode %s)' % (N, len(P), case['chunk'], case['mode'])
    out = env.run(plain, case['cfg'], tag=what)
    if out.kind != 'ok':
        if 'does not fit charge sharing' in str(out.error):
            env.probes['refused'] += 1
            return
        env.violation('spurious-error', '%s fails although nothing went wrong: %s%s' % (what, out.describe(), S.tb_tail(out)))
        return
    d = S.guarded(compare, None)
    if d:
        env.violation(d[0], '%s: %s' % (what, d[1]))
        return
    first['hits'] = read()
    for p in outs:
        os.remove(p)
    S.check_step(env, call, [], outs, compare, case['cfg'], case['fault'], what + ' again with the same seed')
    env.sig = [case['planes'], case['n_events'], case['chunk'], case['seed_value'], case['fault'], case['mode']]


def shrinks(case):
    yield from S.shrink_common(case)
    for k, v in (('other', None), ('noise_before', 0), ('chunk', 100000), ('n_events', 1), ('n_events', 2), ('tracks', 1), ('tracks_sigma', 0), ('shuffle', False), ('sharing', False), ('seed_value', 0), ('sigma_cc', 1.0)):
        if case[k] != v and not (k == 'n_events' and (case[k] < v or case['mode'] == 'beam')):
            yield dict(case, **{k: v})
    for i in range(1 if case['mode'] == 'fine' else 0, len(case['planes']) - (case['mode'] == 'fixed')):
        if len(case['planes']) > 1:
            yield dict(case, planes=case['planes'][:i] + case['planes'][i + 1:])
