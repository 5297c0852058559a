"""P07: the hit file check is exact and refuses bad files for every chunking."""
import numpy as np

from .. import h5, smcwork as W, stepcheck as S, tel

ID = 'P07'
LEVEL = 'exploration'
PLAN = {'quick': {'cases': 1300, 'wall': 80}, 'thorough': {'cases': 100000, 'wall': 780}}
WARM = (0, 1, 2, 3, 4, 5, 6, 7)
RULE = ('one case = one random hit or cluster table (sorted, or with one decreasing event number or one position outside the sensor), event range, resolution and chunk '
        'size, optionally one injected fault or process death; compared with a brute-force reference; non-trivial when the hits were read in at least two chunks')
REAL = ['hit_analysis.check_file / check', 'analysis_utils.data_aligned_at_events, correlate_hits_on_event_range', 'PyTables/HDF5 on scratch files', 'process death (forked image, _exit at an I/O step)']
STUB = ['failing PyTables calls (injected)']
ASSUMPTIONS = ['an event has fewer hits than the chunk size']
NC, NR = 6, 8


def gen(rng, index, tier):
    n_ev = rng.choice([0, 1, 2, 6, 20, 40, 40])
    if index < 8:
        n_ev = 8
    ev, events = rng.choice([0, 0, 1, 2 ** 33]), []
    for _ in range(n_ev):
        events.append([ev, [[rng.randint(1, NC), rng.randint(1, NR)] for _ in range(rng.choice([1, 1, 2, 4]))]])
        ev += rng.choice([1, 1, 1, 2, 3, 9])
    mx = max([len(e[1]) for e in events] or [1])
    total = sum(len(e[1]) for e in events)
    bad = None
    if len(events) > 1 and rng.random() < 0.3 and index >= 8:
        bad = rng.choice(['order', 'order', 'low', 'high', 'low_row', 'high_row'])
        k = rng.randrange(1, len(events))
        if bad == 'order':
            e0 = max(events[k - 1][0] - rng.choice([1, 5, 10 ** 6]), 0)
            if e0 >= events[k - 1][0]:
                bad = None
            else:
                events[k][0] = e0
        else:
            h = rng.choice(events[k][1])
            h[1 if 'row' in bad else 0] = 0 if 'low' in bad else (NR if 'row' in bad else NC) + 1
    return {'events': events, 'bad': bad, 'clusters': [False, True][index % 2], 'positions': [False, True][index // 2 % 2], 'range': rng.choice([1, 1, 2, 3, 5, 20]),
            'resolution': rng.choice([None, None, [500.0, 100.0], [125.0, 50.0]]), 'chunk': rng.choice([mx + 1, mx + 2, mx + 5, max(mx + 1, total // 3), total + 1, 100000]),
            'frac': rng.random() < 0.5, 'wrapper': rng.random() < 0.2, 'default_name': rng.random() < 0.2, 'fault': S.gen_fault(rng, p_none=0.55, p_crash=0.1) if index >= 8 else None, 'cfg': W.sched_cfg(rng)}


def build(case):
    cl, pos = case['clusters'], case['positions']
    names = (('mean_x', 'mean_y') if cl else ('x', 'y')) if pos else (('mean_column', 'mean_row') if cl else ('column', 'row'))
    rows = [(e[0], h[0], h[1]) for e in case['events'] for h in e[1]]
    a = np.zeros(len(rows), [('event_number', '<i8'), (names[0], '<f8' if cl or pos else '<u2'), (names[1], '<f8' if cl or pos else '<u2'), ('charge', '<f4')])
    for i, r in enumerate(rows):
        c, w = r[1], r[2]
        if cl and case['frac'] and 1 < c < NC and i % 3 == 0:
            c = c + 0.25
        a['event_number'][i] = r[0]
        a[names[0]][i] = (c - 0.5 - NC / 2.0) * 250.0 if pos else c
        a[names[1]][i] = (w - 0.5 - NR / 2.0) * 50.0 if pos else w
    return a, names


def reference(case, a, names):
    res = case['resolution'] or [250.0, 50.0]
    out = {}
    for k, (n, pitch, num) in enumerate(((names[0], 250.0, NC), (names[1], 50.0, NR))):
        v = a[n].astype('f8')
        if not case['positions']:
            v = (v - 0.5 - num / 2.0) * pitch
        bins = int(-(-num * pitch // res[k]))
        idx = np.floor((v + bins * res[k] / 2.0) / res[k]).astype('i8')
        h = np.zeros((bins, bins), 'i8')
        ev = a['event_number']
        for i in range(len(a)):
            j = i - 1
            while j >= 0 and ev[i] - ev[j] <= case['range']:
                if ev[j] < ev[i]:
                    h[idx[j], idx[i]] += 1
                j -= 1
        out[k] = h
    return out[0], out[1]


def run(case, env):
    from beam_telescope_analysis import hit_analysis as ha
    a, names = build(case)
    inp = env.path('in.h5')
    outp = env.path('in_check.h5') if case['default_name'] else env.path('out.h5')
    table = 'Clusters' if case['clusters'] else 'Hits'
    h5.write(inp, [(table, a)])
    inputs, outputs = [inp], [outp]
    kw = dict(event_range=case['range'], resolution=tuple(case['resolution']) if case['resolution'] else None)
    if case['wrapper']:
        conf, other = env.path('telescope.yaml'), env.path('other.h5')
        tel.telescope(conf, [dict(n_columns=NC, n_rows=NR), dict(n_columns=NC, n_rows=NR, translation_z=500.0)])
        h5.write(other, [(table, a[:1])] if case['bad'] is None else [(table, a[:0])])
        inputs.append(other)
        oout = env.path('other_check.h5') if case['default_name'] else env.path('oout.h5')
        outputs.append(oout)
        call = lambda: ha.check(conf, [other, inp], output_check_files=None if case['default_name'] else [oout, outp], event_ranges=[2, kw['event_range']], resolutions=[None, kw['resolution']],
                                plot=False, chunk_size=case['chunk'])
        value = [oout, outp]
    else:
        dut = tel.dut(n_columns=NC, n_rows=NR)
        call = lambda: ha.check_file(dut, inp, output_check_file=None if case['default_name'] else outp, plot=False, chunk_size=case['chunk'], **kw)
        value = outp
    what = 'check_file(%s, %d rows, event range %d, chunk size %d)' % (names[0], len(a), case['range'], case['chunk'])
    env.nontrivial = len(a) > case['chunk']
    env.sig = [case['events'], case['clusters'], case['positions'], case['range'], case['chunk'], case['resolution'], case['fault'], case['cfg'].get('policy')]
    if case['bad']:
        before = h5.sha(inp)
        out = env.run(call, case['cfg'], tag=what)
        if out.kind == 'hang':
            env.violation('hang', '%s does not return' % what)
        elif out.kind == 'ok':
            env.violation('bad-file-accepted', '%s accepts a file with %s' % (what, 'decreasing event numbers %s' % a['event_number'].tolist()[:60] if case['bad'] == 'order' else 'a hit outside the sensor (%s)' % case['bad']))
        elif not isinstance(out.error, (RuntimeError, ValueError)):
            env.violation('wrong-error', '%s rejects a bad file (%s) with %s' % (what, case['bad'], out.describe()))
        else:
            S._bad_state(env, out, {inp: before}, what, False)
        env.probes['bad_' + case['bad']] += 1
        return
    cols, rows = reference(case, a, names)
    ev = np.unique(a['event_number'])

    def compare(v):
        if v != value:
            return 'wrong-return', 'returned %r, expected %r' % (v, value)
        got = h5.snapshot(outp)
        if set(got) != {'/EventDelta', '/EventNumber', '/CorrelationColumns', '/CorrelationRows'}:
            return 'wrong-nodes', 'nodes %s' % sorted(got)
        if got['/EventNumber'][2].tolist() != ev.tolist():
            return 'wrong-event-numbers', 'EventNumber %s, expected %s' % (got['/EventNumber'][2].tolist()[:60], ev.tolist()[:60])
        if got['/EventDelta'][2].tolist() != np.diff(ev).tolist():
            return 'wrong-event-delta', 'EventDelta %s, expected %s' % (got['/EventDelta'][2].tolist()[:60], np.diff(ev).tolist()[:60])
        for n, w in (('/CorrelationColumns', cols), ('/CorrelationRows', rows)):
            g = got[n][2].astype('i8')
            if g.shape != w.shape or (g != w).any():
                return 'wrong-correlation', '%s has %d entries in %s, expected %d in %s' % (n, g.sum(), g.shape, w.sum(), w.shape)
        return None
    S.check_step(env, call, inputs, outputs, compare, case['cfg'], case['fault'], what)


def shrinks(case):
    yield from S.shrink_common(case)
    if not case['bad']:
        yield from S.shrink_events(case)
    else:
        ev = case['events']
        for i in range(len(ev)):
            rest = ev[:i] + ev[i + 1:]
            if case['bad'] == 'order' and not any(x[0] > y[0] for x, y in zip(rest, rest[1:])):
                continue
            if case['bad'] != 'order' and not any(not (1 <= h[0] <= NC and 1 <= h[1] <= NR) for e in rest for h in e[1]):
                continue
            yield dict(case, events=rest)
    for k, v in (('wrapper', False), ('default_name', False), ('resolution', None), ('range', 1)):
        if case[k] != v:
            yield dict(case, **{k: v})
