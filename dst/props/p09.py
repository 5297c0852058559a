"""P09: merging keeps every cluster of every plane exactly once, per event."""
import numpy as np

from .. import h5, smcwork as W, stepcheck as S, tel

ID = 'P09'
LEVEL = 'exploration'
PLAN = {'quick': {'cases': 1300, 'wall': 80}, 'thorough': {'cases': 60000, 'wall': 780}}
WARM = (0, 1, 2, 3)
RULE = ('one case = 1 to 4 planes with random cluster tables (gaps, missing and late events, different multiplicities), index or local coordinates, chunk size and optionally '
        'one injected fault or process death; compared with a per-event reference merge; non-trivial when the first plane was read in at least two chunks')
REAL = ['hit_analysis.merge_cluster_data', 'analysis_utils.data_aligned_at_events, get_max_events_in_both_arrays (C++), map_cluster', 'PyTables/HDF5 on scratch files', 'process death (forked image, _exit at an I/O step)']
STUB = ['failing PyTables calls (injected)']
ASSUMPTIONS = ['an event has fewer clusters than the chunk size', 'the first plane has at least one cluster (it drives the chunked read)']
NC, NR = 20, 30


def gen(rng, index, tier):
    n_dut = rng.choice([1, 2, 2, 3, 4])
    if index < 4:
        n_dut = 2
    n_ev = rng.choice([1, 2, 5, 12, 30, 30])
    ev, events = rng.choice([0, 0, 1, 2 ** 33]), []
    for _ in range(n_ev):
        m = rng.random()
        if m < 0.3:
            cnt = [0] * n_dut
            cnt[rng.randrange(n_dut)] = rng.choice([1, 2, 5])
        else:
            cnt = [rng.choice([0, 0, 1, 1, 2, 3]) for _ in range(n_dut)]
        events.append([ev, cnt])
        ev += rng.choice([1, 1, 1, 2, 9])
    if not any(e[1][0] for e in events):
        rng.choice(events)[1][0] = 1
    if rng.random() < 0.15:     # a plane without any cluster
        d = rng.randrange(n_dut)
        if d:
            for e in events:
                e[1][d] = 0
    mx = max(max(e[1]) for e in events)
    total = sum(e[1][0] for e in events)
    return {'events': events, 'n_dut': n_dut, 'pos': [rng.random() < 0.4 if index >= 4 else bool((index >> d) & 1) for d in range(n_dut)], 'salt': rng.randint(0, 1000),
            'default_name': rng.random() < 0.2, 'chunk': rng.choice([mx + 1, mx + 1, mx + 2, mx + 4, max(mx + 1, total // 2), total + mx + 1, 100000]),
            'fault': S.gen_fault(rng, p_none=0.5, p_crash=0.1) if index >= 4 else None, 'cfg': W.sched_cfg(rng)}


def clusters(case, d):
    pos = case['pos'][d]
    sx, sy = ('x', 'y') if pos else ('column', 'row')
    n = sum(e[1][d] for e in case['events'])
    a = np.zeros(n, [('event_number', '<i8'), ('cluster_ID', '<i4'), ('n_hits', '<u4'), ('charge', '<f4'), ('frame', '<u2'), ('seed_' + sx, '<f8'), ('seed_' + sy, '<f8'), ('mean_' + sx, '<f8'),
                     ('mean_' + sy, '<f8'), ('err_' + sx, '<f4'), ('err_' + sy, '<f4'), ('n_cluster', '<u4'), ('cluster_shape', '<i8')])
    i = 0
    for ev, cnt in case['events']:
        for k in range(cnt[d]):
            u = i * 7919 + d * 104729 + case['salt'] * 31
            a[i] = (ev, k, 1 + u % 5, 0.5 * (u % 40), u % 16, 0, 0, (u % (4 * (NC - 1))) / 4.0 + 1 if not pos else (u % 4001) / 10.0 - 200, (u // 7 % (4 * (NR - 1))) / 4.0 + 1 if not pos else (u % 1301) / 10.0 - 60,
                    0.25 + (u % 3), 0.5 + (u % 2), cnt[d], (u % 17) - 1)
            i += 1
    return a


def run(case, env):
    from beam_telescope_analysis import hit_analysis as ha
    conf = env.path('telescope.yaml')
    n = case['n_dut']
    tel.telescope(conf, [dict(n_columns=NC, n_rows=NR, column_size=250.0 if d % 2 == 0 else 100.0, row_size=50.0) for d in range(n)])
    outp = env.path('Merged.h5') if case['default_name'] else env.path('out.h5')
    data, files = [], []
    for d in range(n):
        data.append(clusters(case, d))
        files.append(env.path('c%d.h5' % d))
        h5.write(files[-1], [('Clusters', data[-1])])
    call = lambda: ha.merge_cluster_data(conf, files, output_merged_file=None if case['default_name'] else outp, chunk_size=case['chunk'])

    def compare(v):
        if v != outp:
            return 'wrong-return', 'returned %r' % (v,)
        got = h5.snapshot(outp)
        if set(got) != {'/MergedClusters'}:
            return 'wrong-nodes', 'nodes %s' % sorted(got)
        t = got['/MergedClusters'][2]
        evs = [ev for ev, cnt in case['events'] for _ in range(max(cnt))]
        if t['event_number'].tolist() != evs:
            missing = sorted(set(evs) - set(t['event_number'].tolist()))
            return 'lost-cluster' if missing else 'wrong-rows', '%d rows instead of %d; events without a row %s; rows per event %s' % (len(t), len(evs), missing[:20], t['event_number'].tolist()[:60])
        flags = np.zeros(len(t), 'i8')
        for d in range(n):
            s = '_dut_%d' % d
            sx, sy = ('x', 'y') if case['pos'][d] else ('column', 'row')
            row, i = 0, 0
            c = data[d]
            pc = 250.0 if d % 2 == 0 else 100.0
            for ev, cnt in case['events']:
                m = max(cnt)
                mine = list(range(row, row + m))
                has = [r for r in mine if np.isfinite(t['x' + s][r])]
                if len(has) != cnt[d]:
                    return 'lost-cluster', 'event %d: %d clusters of DUT%d in the merged table, the plane has %d' % (ev, len(has), d, cnt[d])
                for r, j in zip(has, range(i, i + cnt[d])):
                    if case['pos'][d]:
                        x, y, ex, ey = c['mean_x'][j], c['mean_y'][j], c['err_x'][j], c['err_y'][j]
                    else:
                        x, y, ex, ey = pc * (c['mean_column'][j] - 0.5 - NC / 2), 50.0 * (c['mean_row'][j] - 0.5 - NR / 2), c['err_column'][j] * pc, c['err_row'][j] * 50.0
                    exp = {'x': x, 'y': y, 'z': 0.0, 'x_err': ex, 'y_err': ey, 'z_err': 0.0}
                    exp.update({k: c[k][j] for k in ('charge', 'frame', 'n_hits', 'cluster_ID', 'cluster_shape', 'n_cluster')})
                    for k, w in exp.items():
                        if not abs(float(t[k + s][r]) - float(w)) <= 1e-4:
                            return 'wrong-cluster', 'event %d cluster %d of DUT%d: %s is %r, expected %r' % (ev, j - i, d, k, t[k + s][r].item(), float(w))
                    flags[r] |= 1 << d
                for r in set(mine) - set(has):
                    for k in ('x', 'y', 'z', 'x_err', 'y_err', 'z_err', 'charge'):
                        if t[k + s][r] == t[k + s][r]:
                            return 'wrong-cluster', 'event %d row %d: no cluster of DUT%d, but %s is %r' % (ev, r, d, k, t[k + s][r].item())
                    for k in ('frame', 'n_hits', 'cluster_ID', 'cluster_shape', 'n_cluster'):
                        if t[k + s][r] != 0:
                            return 'wrong-cluster', 'event %d row %d: no cluster of DUT%d, but %s is %r' % (ev, r, d, k, t[k + s][r].item())
                row += m
                i += cnt[d]
        if (t['hit_flag'] != flags).any():
            return 'wrong-hit-flag', 'hit_flag %s, the rows have clusters in %s' % (t['hit_flag'].tolist()[:40], flags.tolist()[:40])
        return None
    out = S.check_step(env, call, files, [outp], compare, case['cfg'], case['fault'], 'merge_cluster_data(%d planes, clusters %s, chunk size %d)' % (n, [len(x) for x in data], case['chunk']))
    if out is not None:
        env.nontrivial = len(data[0]) > case['chunk']
    env.sig = [case['events'], case['chunk'], case['pos'], case['fault']]


def shrinks(case):
    yield from S.shrink_common(case)
    for c in S.shrink_events(case):
        if any(e[1][0] for e in c['events']):
            yield c
    for i, e in enumerate(case['events']):
        for d in range(case['n_dut']):
            if e[1][d]:
                c = dict(case, events=case['events'][:i] + [[e[0], e[1][:d] + [e[1][d] - 1] + e[1][d + 1:]]] + case['events'][i + 1:])
                if any(x[1][0] for x in c['events']):
                    yield c
    if case['n_dut'] > 1:
        yield dict(case, n_dut=case['n_dut'] - 1, pos=case['pos'][:-1], events=[[e[0], e[1][:-1]] for e in case['events'] if sum(e[1][:-1])])
