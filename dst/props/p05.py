"""P05: clustering conserves hits and is independent of chunks and schedule."""
import numpy as np

from .. import h5, smcwork as W, stepcheck as S, tel

ID = 'P05'
LEVEL = 'exploration'
PLAN = {'quick': {'cases': 600, 'wall': 90}, 'thorough': {'cases': 40000, 'wall': 780}}
WARM = (0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11)
RULE = ('one case = one random hit table, clustering parameters (distances, charge cuts, charge weighting, pixel masks, index or local coordinates), chunk size, core '
        'count and schedule, optionally one injected fault, failing worker or process death; compared with a brute-force clustering; non-trivial when the hits were '
        'read in at least two chunks')
REAL = ['hit_analysis.cluster_hits / cluster', 'tools.smc.SMC', 'pixel_clusterizer (third party, compiled)', 'PyTables/HDF5 on scratch files', 'process death (forked image, _exit at an I/O step)']
STUB = ['multiprocessing.Pool', 'threading primitives and timed waits', 'failing PyTables calls and workers (injected)']
ASSUMPTIONS = ['no pixel is hit twice in an event (the treatment of duplicate hits is not specified)', 'an event has fewer hits than the chunk size']
NC, NR = 20, 30


def gen(rng, index, tier):
    n_ev = rng.choice([0, 1, 2, 5, 12, 25, 25]) if index >= 12 else 6
    ev, events = rng.choice([0, 1, 2 ** 33]), []
    for _ in range(n_ev):
        hits = {}
        n = rng.choice([1, 1, 2, 3, 5, 8])
        c0, r0 = rng.randint(1, NC), rng.randint(1, NR)
        if rng.random() < 0.12:       # a long cluster
            span, slope = rng.choice([6, 7, 8, 9, 12]), rng.choice([0, 0, 1])
            c0, r0, along = rng.randint(1, NC - 13), rng.randint(1, NR - 13), rng.choice([0, 1])
            for k in range(span + 1):
                c, r = (c0 + k, r0 + k * slope) if along else (c0 + k * slope, r0 + k)
                hits[(c, r)] = [c, r, rng.choice([1.0, 2.0, 3.5, 5.0]), 0]
            n = rng.choice([0, 0, 2])
        for _ in range(n):
            if rng.random() < 0.7:
                c, r = c0 + rng.randint(-3, 3), r0 + rng.randint(-3, 3)
            else:
                c, r = rng.randint(1, NC), rng.randint(1, NR)
            c, r = min(max(c, 1), NC), min(max(r, 1), NR)
            hits[(c, r)] = [c, r, rng.choice([0.0, 1.0, 2.0, 3.5, 5.0, 7.25, 9.0, 12.0]), rng.choice([0, 0, 0, 1, 2])]
        h = list(hits.values())
        rng.shuffle(h)
        events.append([ev, h])
        ev += rng.choice([1, 1, 2, 10])
    mx = max([len(e[1]) for e in events] or [1])
    total = sum(len(e[1]) for e in events)
    mode = rng.choice(['index', 'index', 'index', 'position', 'convert'])
    cut = rng.random() < 0.35
    if index < 12:
        mode, cut = [('index', False), ('index', True), ('position', False), ('convert', False)][index % 4]
    weighted, corr = rng.random() < 0.5, rng.choice([None, 1, 2])
    if weighted and not corr:
        for e in events:        # documented: a correction is needed for charge 0
            for h in e[1]:
                h[2] = h[2] or 1.0
    masks = mode == 'index' and rng.random() < 0.4
    return {'events': events, 'mode': mode, 'chunk': rng.choice([mx + 1, mx + 1, mx + 2, mx + 4, max(mx + 1, total // 2), total + 1, 100000]),
            'cut': [rng.choice([0.0, 1.0, 2.0, 3.0, 100.0]), rng.choice([5.0, 9.0, 20.0])] if cut else None, 'corr': corr, 'weighted': weighted,
            'dist': [rng.choice([0, 1, 1, 2, 3]), rng.choice([0, 1, 1, 2, 3]), rng.choice([0, 0, 1])] if mode != 'position' else [rng.choice([1, 2]) * 250, rng.choice([1, 2, 3]) * 50, 0],
            'noisy': [[rng.randint(1, NC), rng.randint(1, NR)] for _ in range(40)] if masks and rng.random() < 0.7 else None,
            'disabled': [[rng.randint(1, NC), rng.randint(1, NR)] for _ in range(40)] if masks and rng.random() < 0.7 else None,
            'wrapper': mode != 'position' and rng.random() < 0.12, 'extra_column': rng.random() < 0.3,
            'fault': S.gen_fault(rng, workers=True, p_none=0.7, p_crash=0.08) if index >= 12 else None, 'cfg': W.sched_cfg(rng)}


def hits_of(case):
    rows = [(e[0], h[0], h[1], h[2], h[3]) for e in case['events'] for h in e[1]]
    a = np.zeros(len(rows), [('event_number', '<i8'), ('column', '<u2'), ('row', '<u2'), ('charge', '<f4'), ('frame', '<u1')])
    for i, r in enumerate(rows):
        a[i] = r
    return a


def morton(c, r):
    return sum(((c >> k) & 1) << (2 * k) | ((r >> k) & 1) << (2 * k + 1) for k in range(3))


def reference(case):
    """Brute force: {event: [cluster dicts]}, and per hit (valid?)."""
    out, state = [], []
    dist = list(case['dist'])
    if case['mode'] == 'position':
        dist = [dist[0] // 250, dist[1] // 50, dist[2]]
    elif case['mode'] == 'convert':
        dist = [case['dist'][0], case['dist'][1], case['dist'][2]]
    lo, hi = case['cut'] if case['cut'] else (None, None)
    noisy = set(map(tuple, case['noisy'] or ()))
    disabled = set(map(tuple, case['disabled'] or ()))
    for ev, hits in case['events']:
        ok = [not ((lo is not None and h[2] < lo) or (hi is not None and h[2] > hi) or (h[0], h[1]) in disabled) for h in hits]
        left = [i for i in range(len(hits)) if ok[i]]
        comps = []
        while left:
            comp, todo = [], [left.pop(0)]
            while todo:
                i = todo.pop(0)
                comp.append(i)
                for j in list(left):
                    if abs(hits[i][0] - hits[j][0]) <= dist[0] and abs(hits[i][1] - hits[j][1]) <= dist[1] and abs(hits[i][3] - hits[j][3]) <= dist[2]:
                        left.remove(j)
                        todo.append(j)
            if len(comp) == 1 and (hits[comp[0]][0], hits[comp[0]][1]) in noisy:
                ok[comp[0]] = False
                continue
            comps.append(sorted(comp))
        out.append(comps)
        state.append(ok)
    return out, state


def run(case, env):
    from beam_telescope_analysis import hit_analysis as ha
    hits = hits_of(case)
    index_hits = hits
    dut = tel.dut(n_columns=NC, n_rows=NR)
    if case['mode'] == 'position':
        new = np.zeros(len(hits), [('event_number', '<i8'), ('x', '<f8'), ('y', '<f8'), ('charge', '<f4'), ('frame', '<u1')] + ([('column', '<u2'), ('row', '<u2')] if case['extra_column'] else []))
        for n in new.dtype.names:
            if n in hits.dtype.names:
                new[n] = hits[n]
        new['x'] = (hits['column'] - 0.5 - NC / 2.0) * 250.0
        new['y'] = (hits['row'] - 0.5 - NR / 2.0) * 50.0
        hits = new
    elif case['extra_column']:
        new = np.zeros(len(hits), hits.dtype.descr + [('tdc', '<u2')])
        for n in hits.dtype.names:
            new[n] = hits[n]
        hits = new
    inp, outp, mask = env.path('hits.h5'), env.path('clusters.h5'), env.path('mask.h5')
    h5.write(inp, [('Hits', hits)])
    inputs = [inp]
    mask_nodes = []
    if case['noisy'] is not None or case['disabled'] is not None:
        arrays = []
        for name, px in (('NoisyPixelMask', case['noisy']), ('DisabledPixelMask', case['disabled'])):
            if px is not None:
                a = np.zeros((NC, NR), bool)
                for c, r in px:
                    a[c - 1, r - 1] = True
                arrays.append((name, a))
        h5.write(mask, arrays=arrays)
        mask_nodes = arrays
        inputs.append(mask)
    use_mask = bool(mask_nodes)
    lo, hi = case['cut'] if case['cut'] else (None, None)
    corr = case['corr']
    kw = dict(min_hit_charge=lo, max_hit_charge=hi, charge_correction=corr, charge_weighted_clustering=case['weighted'], column_cluster_distance=case['dist'][0],
              row_cluster_distance=case['dist'][1], frame_cluster_distance=case['dist'][2])
    if case['mode'] == 'convert':
        kw.update(use_positions=True, column_cluster_distance=case['dist'][0] * 250, row_cluster_distance=case['dist'][1] * 50)
    outputs = [outp]
    if case['wrapper']:
        # three planes with different parameters; planes 0 and 2 see other settings
        conf = env.path('telescope.yaml')
        tel.telescope(conf, [dict(n_columns=NC, n_rows=NR)] * 3)
        other = env.path('other.h5')
        h5.write(other, [('Hits', hits[:0] if not len(hits) else hits[hits['event_number'] == hits['event_number'][0]])])
        outputs = [outp, env.path('o0.h5'), env.path('o2.h5')]
        inputs.append(other)
        first, last = outputs[1], outputs[2]

        def lst(v, w=None):
            return [w, v, w]
        call = lambda: ha.cluster(conf, [other, inp, other], input_mask_files=[None, mask, None] if use_mask else None, output_cluster_files=[first, outp, last],
                                  use_positions=lst(kw.get('use_positions'), kw.get('use_positions')), min_hit_charges=lst(lo, lo), max_hit_charges=lst(hi, hi), charge_corrections=lst(corr, 3),
                                  charge_weighted_clustering=lst(case['weighted'], not case['weighted']), column_cluster_distances=lst(kw['column_cluster_distance'], 0),
                                  row_cluster_distances=lst(kw['row_cluster_distance'], 0), frame_cluster_distances=lst(kw['frame_cluster_distance'], 2), plot=False, chunk_size=case['chunk'])
    else:
        call = lambda: ha.cluster_hits(dut, inp, outp, input_mask_file=mask if use_mask else None, plot=False, chunk_size=case['chunk'], **kw)
    ref, state = reference(case)
    out = S.check_step(env, call, inputs, outputs, lambda v: compare(case, hits, index_hits, ref, state, outp, mask_nodes), case['cfg'], case['fault'],
                       'cluster_hits(%s, chunk size %d, %d hits, cores %d)' % (case['mode'], case['chunk'], len(hits), case['cfg']['cpu_count']),
                       refusal=None)
    if out is not None:
        env.nontrivial = len(hits) > case['chunk']
        env.probes['single_core_multi_chunk'] += env.nontrivial and case['cfg']['cpu_count'] == 1
        env.probes['no_cluster'] += not any(ref)
    env.sig = [case['events'], case['mode'], case['chunk'], kw, env.inter]


def compare(case, hits, index_hits, ref, state, outp, mask_nodes):
    got = h5.snapshot(outp)
    need = ['/ClusterHits', '/Clusters', '/HistClusterShape', '/HistClusterSize'] + ['/' + n for n, _ in mask_nodes]
    missing = [n for n in need if n not in got]
    if missing:
        return 'missing-node', 'nodes %s are missing, found %s' % (missing, sorted(got))
    extra = [n for n in got if n not in need]
    if extra:
        return 'wrong-nodes', 'unexpected nodes %s' % extra
    ch, cl = got['/ClusterHits'][2], got['/Clusters'][2]
    pos = case['mode'] != 'index'
    if len(ch) != len(hits):
        return 'hits-not-conserved', '%d hits in, %d clustered hits out' % (len(hits), len(ch))
    cols = [n for n in ('event_number', 'charge', 'frame') if True] + (['x', 'y'] if pos else ['column', 'row'])
    if case['mode'] == 'position' and case['extra_column']:
        cols += ['column', 'row']
    want = {n: index_hits[n] for n in ('event_number', 'charge', 'frame', 'column', 'row')}
    want['x'] = (index_hits['column'] - 0.5 - NC / 2.0) * 250.0
    want['y'] = (index_hits['row'] - 0.5 - NR / 2.0) * 50.0
    for n in cols:
        if not np.array_equal(ch[n].astype('f8'), want[n].astype('f8')):
            i = int(np.nonzero(ch[n].astype('f8') != want[n].astype('f8'))[0][0])
            return 'hits-not-conserved', 'column %s of clustered hit %d is %r, the hit had %r' % (n, i, ch[n][i].item(), want[n][i].item())
    n_cl = sum(len(r) for r in ref)
    if len(cl) != n_cl:
        return 'wrong-clusters', '%d clusters, expected %d' % (len(cl), n_cl)
    row0, k = 0, 0
    for (ev, hs), comps, ok in zip(case['events'], ref, state):
        rows = ch[row0:row0 + len(hs)]
        mine = cl[k:k + len(comps)]
        if len(comps) and not (mine['event_number'] == ev).all():
            return 'wrong-clusters', 'event %d: its %d clusters carry event numbers %s' % (ev, len(comps), mine['event_number'].tolist())
        if not (rows['n_cluster'] == len(comps)).all():
            return 'wrong-hit-info', 'event %d has %d clusters, its hits say %s' % (ev, len(comps), rows['n_cluster'].tolist())
        groups = {}
        for i, r in enumerate(rows):
            if (r['cluster_ID'] >= 0) != ok[i]:
                return 'wrong-hit-info', 'event %d hit %d %s: cluster_ID %d' % (ev, i, hs[i], r['cluster_ID'])
            if ok[i]:
                groups.setdefault(int(r['cluster_ID']), []).append(i)
            elif r['cluster_size'] != 0 or r['is_seed'] != 0:
                return 'wrong-hit-info', 'event %d: hit %d belongs to no cluster but has size %d, seed %d' % (ev, i, r['cluster_size'], r['is_seed'])
        if sorted(groups.values()) != sorted(comps):
            return 'wrong-clusters', 'event %d, hits %s: clustered as %s, expected %s' % (ev, hs, sorted(groups.values()), sorted(comps))
        if sorted(mine['cluster_ID'].tolist()) != sorted(groups):
            return 'wrong-clusters', 'event %d: cluster IDs of clusters %s, of hits %s' % (ev, mine['cluster_ID'].tolist(), sorted(groups))
        for c in mine:
            members = groups[int(c['cluster_ID'])]
            h = [hs[i] for i in members]
            seeds = [i for i in members if rows['is_seed'][i]]
            if len(seeds) != 1 or hs[seeds[0]][2] != max(x[2] for x in h):
                return 'wrong-hit-info', 'event %d cluster %s: seeds %s' % (ev, h, [hs[i] for i in seeds])
            sx, sy = hs[seeds[0]][0], hs[seeds[0]][1]
            w = [(x[2] + (case['corr'] or 0)) if case['weighted'] else 1.0 for x in h]
            sw = sum(w)
            mx = sum(x[0] * a for x, a in zip(h, w)) / sw if sw else float('nan')
            my = sum(x[1] * a for x, a in zip(h, w)) / sw if sw else float('nan')
            exp = {'n_hits': len(h), 'charge': sum(x[2] for x in h), 'frame': min(x[3] for x in h), 'n_cluster': len(comps)}
            if pos:
                exp.update(mean_x=(mx - 0.5 - NC / 2.0) * 250.0, mean_y=(my - 0.5 - NR / 2.0) * 50.0, seed_x=(sx - 0.5 - NC / 2.0) * 250.0, seed_y=(sy - 0.5 - NR / 2.0) * 50.0,
                           err_x=250.0 / 12 ** 0.5, err_y=50.0 / 12 ** 0.5, cluster_shape=-1)
            else:
                cmin, rmin = min(x[0] for x in h), min(x[1] for x in h)
                if max(x[0] for x in h) - cmin < 8 and max(x[1] for x in h) - rmin < 8:
                    shape = sum(1 << morton(x[0] - cmin, x[1] - rmin) for x in h)
                    if any(x[0] - cmin == 7 and x[1] - rmin == 7 for x in h):
                        shape = -1
                else:
                    shape = -1
                exp.update(mean_column=mx, mean_row=my, seed_column=sx, seed_row=sy, err_column=1 / 12 ** 0.5, err_row=1 / 12 ** 0.5, cluster_shape=shape)
            for n, v in exp.items():
                g = c[n]
                if n == 'cluster_shape':
                    bad = int(g) != v
                elif v != v:
                    bad = False      # zero total weight: not specified
                else:
                    bad = not abs(float(g) - v) <= 1e-3 + 1e-6 * abs(v)
                if bad:
                    return 'wrong-cluster-info', 'event %d cluster of hits %s: %s is %r, expected %r' % (ev, h, n, g.item(), v)
            if not all(rows['cluster_size'][i] == len(h) for i in members):
                return 'wrong-hit-info', 'event %d cluster %s: cluster_size %s' % (ev, h, [int(rows['cluster_size'][i]) for i in members])
        row0 += len(hs)
        k += len(comps)
    size = got['/HistClusterSize'][2]
    want_size = np.bincount(cl['n_hits'].astype(int), minlength=len(size))
    if len(cl) and (len(want_size) != len(size) or (size != want_size).any()):
        return 'wrong-histogram', 'HistClusterSize is %s, the cluster table gives %s' % (size.tolist(), want_size.tolist())
    if int(size.sum()) != len(cl):
        return 'wrong-histogram', 'HistClusterSize has %d entries for %d clusters' % (size.sum(), len(cl))
    shape = got['/HistClusterShape'][2]
    s = cl['cluster_shape']
    s = s[(s >= 0) & (s < len(shape))].astype(int)
    w = np.bincount(s, minlength=len(shape))
    if not np.array_equal(np.asarray(shape, 'i8')[:65535], w[:65535]):
        return 'wrong-histogram', 'HistClusterShape differs from the cluster table'
    for n, a in mask_nodes:
        if not np.array_equal(got['/' + n][2], a):
            return 'wrong-mask', '%s was not copied' % n
    return None


def shrinks(case):
    yield from S.shrink_common(case)
    yield from S.shrink_events(case)
    for i, e in enumerate(case['events']):
        for j in range(len(e[1])):
            if len(e[1]) > 1:
                yield dict(case, events=case['events'][:i] + [[e[0], e[1][:j] + e[1][j + 1:]]] + case['events'][i + 1:])
    for k, v in (('cut', None), ('weighted', False), ('noisy', None), ('disabled', None), ('wrapper', False), ('extra_column', False), ('mode', 'index')):
        if case[k] != v:
            yield dict(case, **{k: v})
