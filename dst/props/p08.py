"""P08: correlation histograms count every pair of hits of the same event once."""
import collections
import math

import numpy as np

from .. import h5, smcwork as W, stepcheck as S, tel
from ..iofault import harness

ID = 'P08'
LEVEL = 'exploration'
PLAN = {'quick': {'cases': 1500, 'wall': 80}, 'thorough': {'cases': 40000, 'wall': 780}}
WARM = (0, 1, 2, 3, 4, 5, 6, 7)
RULE = ('one case = 2 to 4 planes with random hits or clusters (indices or local positions, shifted and rotated planes), reference selection, resolution, chunk size and '
        'worker completion order, optionally one injected fault, failing worker or process death; compared with a brute-force pair count; non-trivial when the reference '
        'file was read in at least two chunks')
REAL = ['hit_analysis.correlate and its worker function', 'analysis_utils.data_aligned_at_events, correlate_position_on_event_number', 'telescope.dut', 'PyTables/HDF5 on scratch files',
        'process death (forked image, _exit at an I/O step)']
STUB = ['multiprocessing.Pool (task runs on a pickled copy of its arguments, seeded completion order)', 'failing PyTables calls and workers (injected)']
ASSUMPTIONS = ['an event has fewer hits than the chunk size', 'entries whose bin is decided by rounding (position on a bin border) are not generated']
NC, NR = 6, 8


def gen(rng, index, tier):
    n_dut = rng.choice([2, 2, 3, 4])
    n_ev = rng.choice([1, 3, 10, 25, 25])
    ev, events = rng.choice([0, 1, 2 ** 33]), []
    for _ in range(n_ev):
        events.append([ev, [[[rng.randint(1, NC), rng.randint(1, NR)] for _ in range(rng.choice([0, 1, 1, 1, 2, 4]))] for _ in range(n_dut)]])
        ev += rng.choice([1, 1, 1, 2, 7])
    mx = max([len(h) for e in events for h in e[1]] + [1])
    total = max(sum(len(e[1][d]) for e in events) for d in range(n_dut))
    sel = list(range(n_dut))
    if n_dut > 2 and rng.random() < 0.4:
        sel = sorted(rng.sample(sel, n_dut - 1))
    if rng.random() < 0.3:
        rng.shuffle(sel)
    ref = rng.choice([None, sel[0], sel[-1], [rng.choice(sel)], list(sel)])
    rot = rng.random() < 0.4
    return {'events': events, 'n_dut': n_dut, 'duts': [{'kind': rng.choice(['Hits', 'Clusters', 'ClustersPos', 'HitsPos']) if index >= 8 else ['Hits', 'Clusters', 'ClustersPos', 'HitsPos'][(index + d) % 4],
                                                       'x': rng.choice([0.0, 1000.0, -250.0]), 'y': rng.choice([0.0, -100.0, 3000.0]),
                                                       'rot': [rng.choice([0.0, 0.013, math.pi]), rng.choice([0.0, 0.017]), rng.choice([0.0, 0.011, -0.3])] if rot else [0.0, 0.0, 0.0]} for d in range(n_dut)],
            'sel': sel, 'none_sel': sel == list(range(n_dut)) and rng.random() < 0.5, 'ref': ref, 'resolution': rng.choice([[250.0, 50.0], [500.0, 100.0], [50.0, 10.0], [400.0, 70.0]]),
            'chunk': rng.choice([mx + 1, mx + 1, mx + 2, max(mx + 1, total // 3), 100000]), 'fault': S.gen_fault(rng, workers=True, p_none=0.5, p_crash=0.1) if index >= 8 else None, 'cfg': W.sched_cfg(rng)}


def build(case, d):
    kind = case['duts'][d]['kind']
    cl, pos = kind.startswith('Clusters'), kind.endswith('Pos')
    names = (('mean_x', 'mean_y') if cl else ('x', 'y')) if pos else (('mean_column', 'mean_row') if cl else ('column', 'row'))
    rows = [(e[0], h[0], h[1]) for e in case['events'] for h in e[1][d]]
    a = np.zeros(len(rows), [('event_number', '<i8'), (names[0], '<f8' if cl or pos else '<u2'), (names[1], '<f8' if cl or pos else '<u2'), ('charge', '<f4')])
    for i, (ev, c, r) in enumerate(rows):
        if cl:
            c, r = c + (0.31, 0.0, 0.17)[i % 3] * (1 if c < NC else -1), r + (0.0, 0.23)[i % 2] * (1 if r < NR else -1)
        a['event_number'][i] = ev
        a[names[0]][i] = (c - 0.5 - NC / 2.0) * 250.0 if pos else c
        a[names[1]][i] = (r - 0.5 - NR / 2.0) * 50.0 if pos else r
    return a, names


def indices(case, d, telescope):
    """Per event: list of (ix, iy) with the bin sizes; None when a bin is doubtful."""
    a, names = build(case, d)
    dut = telescope[d]
    n = case['resolution']
    x, y = a[names[0]].astype('f8'), a[names[1]].astype('f8')
    if not case['duts'][d]['kind'].endswith('Pos'):
        x, y = (x - 0.5 - NC / 2.0) * 250.0, (y - 0.5 - NR / 2.0) * 50.0
    out = collections.OrderedDict()
    doubtful = False
    bins, idx = [], []
    gx, gy, _ = dut.local_to_global_position(x=x, y=y, z=np.zeros_like(x)) if len(x) else (x, y, None)
    for k, (g, ext, center) in enumerate(((gx, dut.x_extent(global_position=True), dut.translation_x), (gy, dut.y_extent(global_position=True), dut.translation_y))):
        size = math.ceil((ext[1] - ext[0]) / n[k]) * n[k]
        bins.append(int(size / n[k]))
        v = (g - (center - size / 2.0)) / n[k]
        doubtful |= bool(np.any(np.abs(v - np.round(v)) < 1e-7)) or bool(abs((ext[1] - ext[0]) / n[k] - round((ext[1] - ext[0]) / n[k])) < 1e-9 and any(case['duts'][d]['rot']))
        idx.append(np.floor(v).astype(int))
    for i in range(len(a)):
        out.setdefault(int(a['event_number'][i]), []).append((int(idx[0][i]), int(idx[1][i])))
    return bins, out, doubtful


def run(case, env):
    from beam_telescope_analysis import hit_analysis as ha
    from beam_telescope_analysis.telescope.telescope import Telescope
    conf, outp = env.path('telescope.yaml'), env.path('corr.h5')
    tel.telescope(conf, [dict(n_columns=NC, n_rows=NR, translation_x=d['x'], translation_y=d['y'], rotation_alpha=d['rot'][0], rotation_beta=d['rot'][1], rotation_gamma=d['rot'][2]) for d in case['duts']])
    telescope = Telescope(conf)
    files = []
    for d in case['sel']:
        p = env.path('in%d.h5' % d)
        h5.write(p, [('Clusters' if case['duts'][d]['kind'].startswith('Cl') else 'Hits', build(case, d)[0])])
        files.append(p)
    kw = {}
    if case['ref'] is None or case['ref'] != 0 or isinstance(case['ref'], list):
        kw['select_reference_duts'] = case['ref']
    call = lambda: ha.correlate(conf, files, output_correlation_file=outp, resolution=tuple(case['resolution']), select_duts=None if case['none_sel'] else list(case['sel']), plot=False,
                                chunk_size=case['chunk'], **kw)
    refs = case['sel'] if case['ref'] is None else case['ref'] if isinstance(case['ref'], list) else [case['ref']]
    info = {d: indices(case, d, telescope) for d in case['sel']}
    if any(i[2] for i in info.values()):
        env.probes['doubtful'] += 1
        env.sig = [case['events']]
        return
    want = {}
    for r in refs:
        for d in case['sel']:
            if d == r:
                continue
            hx = np.zeros((info[d][0][0], info[r][0][0]), 'i8')
            hy = np.zeros((info[d][0][1], info[r][0][1]), 'i8')
            for ev, hr in info[r][1].items():
                for (ax, ay) in hr:
                    for (bx, by) in info[d][1].get(ev, ()):
                        hx[bx, ax] += 1
                        hy[by, ay] += 1
            want['/Correlation_x_%d_%d' % (r, d)] = hx
            want['/Correlation_y_%d_%d' % (r, d)] = hy
    n_ref = max(sum(len(v) for v in info[r][1].values()) for r in refs)

    def compare(v):
        if v != outp:
            return 'wrong-return', 'returned %r' % (v,)
        got = h5.snapshot(outp)
        need = set(want) | {n + '_reduced_background' for n in want}
        if set(got) != need:
            return 'wrong-nodes', 'nodes %s, expected %s' % (sorted(got), sorted(need))
        for n, w in want.items():
            g = got[n][2].astype('i8')
            if g.shape != w.shape:
                return 'wrong-correlation', '%s has shape %s, expected %s' % (n, g.shape, w.shape)
            if (g != w).any():
                i = tuple(int(k) for k in np.argwhere(g != w)[0])
                return 'wrong-correlation', '%s counts %d pairs, expected %d; bin %s has %d instead of %d' % (n, g.sum(), w.sum(), i, g[i], w[i])
            u, s, vv = np.linalg.svd(w.astype('f8'))
            red = w - (s[0] * np.outer(u[:, 0], vv[0])).astype('i8')
            red -= red.min()
            g = got[n + '_reduced_background'][2].astype('i8')
            if g.shape != w.shape or g.min() != 0 or np.abs(g - red).max() > 2:
                return 'wrong-reduced', '%s_reduced_background is not the histogram minus its first singular component' % n
        with harness():
            import tables as tb
            with tb.open_file(outp) as f:
                for n in want:
                    a = f.get_node(n).attrs
                    k = 0 if '_x_' in n else 1
                    if a.resolution != case['resolution'][k]:
                        return 'wrong-attribute', '%s: resolution %r' % (n, a.resolution)
                    for ext, d in ((a.ref_hist_extent, int(n.split('_')[2])), (a.dut_hist_extent, int(n.split('_')[3]))):
                        if abs((ext[1] - ext[0]) / case['resolution'][k] - info[d][0][k]) > 1e-6 or abs((ext[0] + ext[1]) / 2 - (case['duts'][d]['xy'[k]])) > 1e-6:
                            return 'wrong-attribute', '%s: histogram extent %r of DUT%d' % (n, ext, d)
        return None
    out = S.check_step(env, call, files, [outp], compare, case['cfg'], case['fault'], 'correlate(%d planes %s, chunk size %d, cores %d)' % (case['n_dut'], [d['kind'] for d in case['duts']], case['chunk'], case['cfg']['cpu_count']))
    if out is not None:
        env.nontrivial = n_ref > case['chunk']
    env.sig = [case['events'], case['chunk'], case['sel'], case['ref'], case['resolution'], case['duts'], env.inter]


def shrinks(case):
    yield from S.shrink_common(case)
    yield from S.shrink_events(case)
    for i, e in enumerate(case['events']):
        for d in range(case['n_dut']):
            if e[1][d]:
                yield dict(case, events=case['events'][:i] + [[e[0], e[1][:d] + [e[1][d][1:]] + e[1][d + 1:]]] + case['events'][i + 1:])
    for i, d in enumerate(case['duts']):
        for k, v in (('kind', 'Hits'), ('x', 0.0), ('y', 0.0), ('rot', [0.0, 0.0, 0.0])):
            if d[k] != v:
                yield dict(case, duts=case['duts'][:i] + [dict(d, **{k: v})] + case['duts'][i + 1:])
