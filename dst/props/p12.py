"""P12: data selection keeps exactly the matching rows of whole events."""
import numpy as np

from .. import h5, smcwork as W, stepcheck as S, tel

ID = 'P12'
LEVEL = 'exploration'
PLAN = {'quick': {'cases': 2000, 'wall': 80}, 'thorough': {'cases': 100000, 'wall': 780}}
WARM = (0, 1)
RULE = ('one case = random track tables of 1 to 4 planes and selection parameters (hit, no-hit, quality and isolation masks, query strings, event limit), or a file with random '
        'tables reduced to a number of events; chunk size, optionally one injected fault or process death; compared with a row-by-row evaluation; non-trivial when a table was '
        'read in at least two chunks')
REAL = ['data_selection.select_tracks, table_where, reduce_events', 'numexpr', 'analysis_utils.data_aligned_at_events', 'PyTables/HDF5 on scratch files', 'process death (forked image, _exit at an I/O step)']
STUB = ['failing PyTables calls (injected)']
ASSUMPTIONS = ['an event has fewer rows than the chunk size', 'the documentation and the code disagree on isolated track flags of planes without a hit; both readings are accepted for such rows']

T = np.dtype([('event_number', '<i8'), ('uid', '<u4'), ('hit_flag', '<u4'), ('x_dut_0', '<f8'), ('x_dut_12', '<f8'), ('n_hits_dut_0', '<u4'), ('track_chi2', '<f8'), ('track_chi_red', '<f8'),
              ('quality_flag', '<u4'), ('isolated_track_flag', '<u4'), ('isolated_hit_flag', '<u4')])

QUERIES = ['', 'track_chi2 <= 5', '(track_chi2 > 2) & (x_dut_0 < 0)', 'track_chi_red < 1e-1', 'x_dut_12 >= 1.5e2', 'n_hits_dut_0 == 1', '(event_number % 2) == 0', 'abs(x_dut_0) < 50', '(n_hits_dut_0 > 1) | (x_dut_12 != x_dut_12)',
           'track_chi2 > 1000']
EVAL = {'': lambda r: True, 'track_chi2 <= 5': lambda r: r['track_chi2'] <= 5, '(track_chi2 > 2) & (x_dut_0 < 0)': lambda r: r['track_chi2'] > 2 and r['x_dut_0'] < 0,
        'track_chi_red < 1e-1': lambda r: r['track_chi_red'] < 0.1, 'x_dut_12 >= 1.5e2': lambda r: r['x_dut_12'] >= 150, 'n_hits_dut_0 == 1': lambda r: r['n_hits_dut_0'] == 1,
        '(event_number % 2) == 0': lambda r: int(r['event_number']) % 2 == 0, 'abs(x_dut_0) < 50': lambda r: abs(r['x_dut_0']) < 50,
        '(n_hits_dut_0 > 1) | (x_dut_12 != x_dut_12)': lambda r: r['n_hits_dut_0'] > 1 or np.isnan(r['x_dut_12']), 'track_chi2 > 1000': lambda r: False}


def gen(rng, index, tier):
    mode = 'reduce' if index == 1 or index > 1 and rng.random() < 0.3 else 'select'
    n = rng.choice([1, 2, 3, 4])
    tables = []
    for d in range(n):
        ev, events = rng.choice([0, 1, 2 ** 33]), []
        for _ in range(rng.choice([0, 1, 3, 10, 30, 30])):
            events.append([ev, [rng.getrandbits(40) for _ in range(rng.choice([1, 1, 2, 3]))]])
            ev += rng.choice([1, 1, 2, 9])
        tables.append(events)
    sel = rng.sample(range(n), rng.randint(1, n))
    k = len(sel)

    def masks():
        m = rng.choice([0, 0, 1, 2])
        if m == 0:
            return None
        one = lambda: rng.sample([0, 1, 2, 3, 12], rng.choice([1, 1, 2]))
        return one() if m == 1 else [rng.choice([None, [], one()]) for _ in range(k)]
    mx = max([len(e[1]) for t in tables for e in t] + [1])
    total = max(sum(len(e[1]) for e in t) for t in tables)
    n_ev = max(len(t) for t in tables)
    return {'mode': mode, 'n': n, 'tables': tables, 'select': sel, 'hit': masks(), 'no_hit': masks() if rng.random() < 0.5 else None, 'quality': masks(), 'iso_track': masks(), 'iso_hit': masks(),
            'query': rng.choice([None, rng.choice(QUERIES), [rng.choice(QUERIES) for _ in range(k)]]), 'max_events': rng.choice([None, None, 1, 2, max(1, n_ev // 2), max(1, n_ev), 1000]),
            'default_name': rng.random() < 0.2, 'chunk': rng.choice([mx + 1, mx + 1, mx + 2, max(mx + 1, total // 3), total + 1, 100000]),
            'fault': S.gen_fault(rng, p_none=0.6, p_crash=0.1), 'cfg': W.sched_cfg(rng)}


def build(events):
    rows = []
    for ev, bits in events:
        for b in bits:
            flags = [sum(((b >> (4 * i + j)) & 1) << p for j, p in enumerate((0, 1, 2, 12))) for i in range(4)]
            rows.append((ev, len(rows), flags[0], ((b >> 16) % 401) - 200 + 0.5, np.nan if (b >> 24) % 5 == 0 else float((b >> 24) % 400), 1 + (b >> 30) % 3, ((b >> 32) % 16) * 0.7, ((b >> 36) % 8) * 0.07,
                         flags[1], flags[2], flags[3]))
    return np.array(rows, T)


def per(v, k):
    if v is None:
        return [[]] * k
    if all(isinstance(i, int) for i in v):
        return [v] * k
    return [i or [] for i in v]


def expected(case, a, i):
    """(rows to keep, rows that may be kept or not)"""
    k = len(case['select'])
    m = [sum(1 << d for d in set(per(case[x], k)[i])) for x in ('hit', 'no_hit', 'quality', 'iso_track', 'iso_hit')]
    q = case['query'][i] if isinstance(case['query'], list) else case['query'] or ''
    keep, maybe = [], []
    for r in a:
        h = int(r['hit_flag'])
        base = (h & m[0]) == m[0] and not (h & m[1]) and (int(r['quality_flag']) & m[2] & h) == (m[2] & h) and (int(r['isolated_hit_flag']) & m[4] & h) == (m[4] & h) and EVAL[q](r)
        strict = (int(r['isolated_track_flag']) & m[3]) == m[3]
        loose = (int(r['isolated_track_flag']) & m[3] & h) == (m[3] & h)
        keep.append(base and strict)
        maybe.append(base and strict != loose)
    return np.array(keep, bool), np.array(maybe, bool)


def invalid(case):
    k = len(case['select'])
    if case['mode'] == 'select' and case['hit'] is not None and case['no_hit'] is not None:
        return any(set(a) & set(b) for a, b in zip(per(case['hit'], k), per(case['no_hit'], k)))
    return False


def limited(g, a, want, maybe, limit, one_chunk):
    """At most limit whole events of the wanted rows."""
    ev = np.unique(g['event_number'])
    if len(ev) > limit:
        return 'too-many-events', '%d events stored, max_events=%d' % (len(ev), limit)
    n = len(np.unique(a['event_number'][want]))
    if one_chunk and not maybe.any() and len(ev) != min(limit, n):
        return 'too-few-events', '%d of %d events stored, max_events=%d, one chunk' % (len(ev), n, limit)
    return rows(g, a, want & np.isin(a['event_number'], ev), maybe & np.isin(a['event_number'], ev))


def rows(g, a, want, maybe):
    uid = g['uid'].tolist()
    if uid != sorted(uid) or len(set(uid)) != len(uid):
        return 'wrong-rows', 'rows are repeated or out of order: %s' % uid[:60]
    w, may = set(a['uid'][want].tolist()), set(a['uid'][maybe].tolist())
    if not (w <= set(uid) and set(uid) <= (w | may)):
        return 'wrong-rows', 'rows %s are kept, expected %s' % (uid[:60], sorted(w)[:60])
    return (lambda d: d and ('wrong-rows', d))(h5.same_array(g, a[np.isin(a['uid'], uid)]))


def run(case, env):
    from beam_telescope_analysis.tools import data_selection as ds
    conf = env.path('telescope.yaml')
    tel.telescope(conf, [{}] * 4)
    data = [build(t) for t in case['tables']]
    inp = env.path('in.h5')
    names = ['Tracks_DUT%d' % i if case['mode'] == 'select' else ['Hits', 'Clusters', 'Other', 'Tracks_DUT3'][i] for i in range(case['n'])]
    h5.write(inp, list(zip(names, data)))
    default = {'select': 'in_selected.h5', 'reduce': 'in_reduced.h5'}[case['mode']]
    outp = env.path(default) if case['default_name'] else env.path('out.h5')
    limit = case['max_events'] if case['mode'] == 'select' else case['max_events'] or 3
    cp = lambda v: [list(i) if isinstance(i, list) else i for i in v] if isinstance(v, list) else v

    def call():
        o = None if case['default_name'] else outp
        if case['mode'] == 'reduce':
            return ds.reduce_events(inp, max_events=limit, output_file=o, chunk_size=case['chunk'])
        return ds.select_tracks(conf, inp, select_duts=list(case['select']), output_tracks_file=o, query=cp(case['query']), max_events=limit, select_hit_duts=cp(case['hit']), select_no_hit_duts=cp(case['no_hit']),
                                select_quality_duts=cp(case['quality']), select_isolated_track_duts=cp(case['iso_track']), select_isolated_hit_duts=cp(case['iso_hit']), chunk_size=case['chunk'])

    def content(v):
        if v != outp:
            return 'wrong-return', 'returned %r' % (v,)
        got = h5.snapshot(outp)
        which = list(enumerate(case['select'])) if case['mode'] == 'select' else [(i, i) for i in range(case['n'])]
        if set(got) != {'/' + names[d] for _, d in which}:
            return 'wrong-nodes', 'nodes %s' % sorted(got)
        for i, d in which:
            a, g = data[d], got['/' + names[d]][2]
            if g.dtype != a.dtype:
                return 'wrong-rows', 'columns of %s are %s' % (names[d], g.dtype)
            want, maybe = expected(case, a, i) if case['mode'] == 'select' else (np.ones(len(a), bool), np.zeros(len(a), bool))
            r = limited(g, a, want, maybe, limit, case['chunk'] > len(a)) if limit else rows(g, a, want, maybe)
            if r:
                return r[0], '%s: %s' % (names[d], r[1])
        return None
    what = '%s(%s rows, chunk size %d, max_events %s, query %r)' % ('select_tracks' if case['mode'] == 'select' else 'reduce_events', [len(a) for a in data], case['chunk'], limit, case['query'])
    env.sig = [case['mode'], case['tables'], case['chunk'], case['max_events'], case['query'], case['hit'], case['quality'], case['fault']]
    if invalid(case):
        out = env.run(call, case['cfg'], tag=what)
        env.probes['invalid_selection'] += 1
        if out.kind == 'ok':
            env.violation('silent-failure', '%s returned normally although the same plane must have a hit and no hit' % what)
        else:
            S._bad_state(env, out, {inp: h5.sha(inp)}, what + ' with an invalid selection', False)
        return
    out = S.check_step(env, call, [inp], [outp], content, case['cfg'], case['fault'], what)
    if out is not None:
        env.nontrivial = max(len(a) for a in data) > case['chunk']
        env.probes['event_limit'] += bool(limit)


def shrinks(case):
    yield from S.shrink_common(case)
    for i, t in enumerate(case['tables']):
        for c in S.shrink_events(case={'e': t}, key='e', minimum=0):
            yield dict(case, tables=case['tables'][:i] + [c['e']] + case['tables'][i + 1:])
    for k, v in (('default_name', False), ('max_events', None), ('hit', None), ('no_hit', None), ('quality', None), ('iso_track', None), ('iso_hit', None), ('query', None), ('chunk', 100000)):
        if case[k] != v:
            yield dict(case, **{k: v})
