"""P23: efficiencies are the share of the tracks with a hit, whatever the chunk size."""
import numpy as np

from .. import h5, smcwork as W, stepcheck as S, tel
from .p15 import angles_of, count1, count2, bin_index, good_edges, tolerant

ID = 'P23'
LEVEL = 'exploration'
PLAN = {'quick': {'cases': 900, 'wall': 75}, 'thorough': {'cases': 30000, 'wall': 780}}
WARM = (0, 1, 2)
RULE = ('one case = track tables of 1 or 2 planes with hits, misses, far hits and tracks beside the sensor, cuts, histogram binning, disabled pixels, efficiency regions and cluster hits; chunk size, optionally one injected fault or process death; '
        'efficiencies and all histograms are compared with counts over the whole table in the stored binning; non-trivial when a table was read in at least two chunks')
REAL = ['result_analysis.calculate_efficiency, get_angles', 'analysis_utils.data_aligned_at_events, in1d_index, voronoi_finite_polygons_2d', 'telescope classes', 'scipy', 'PyTables/HDF5 on scratch files',
        'process death (forked image, _exit at an I/O step)']
STUB = ['failing PyTables calls (injected)', 'analysis_utils.get_mean_efficiency, which takes seconds per chunk and whose value is only logged: replaced by the division, and called for empty histograms']
ASSUMPTIONS = ['an event has fewer rows than the chunk size', 'every row of the table is a fitted track; a cluster belongs to one track', 'the binning of the angles is chosen from the first tracks that are read; the counts are decided for the binning stored with them',
               'plots are not drawn', 'track positions and distances that are equal to a bin edge or a cut up to rounding are not generated']
SHAPES = [1, 3, 5, 13, 14, 7, 11, 15]
INSIDE = [0.0373, 0.1303, 0.2713, 0.4183, 0.5323, 0.6833, 0.7773, 0.9133]  # never on an edge, also together with a distance


def gen(rng, index, tier):
    n = rng.choice([1, 1, 2])
    duts = []
    for i in range(n):
        d = {'column_size': rng.choice([250.0, 100.0, 50.0, 12.7]), 'row_size': rng.choice([100.0, 50.0, 18.4]), 'n_columns': rng.choice([4, 6, 12]), 'n_rows': rng.choice([5, 12, 29])}
        d['translation_z'] = 1e4 * i
        if rng.random() < 0.3:
            d.update(rotation_alpha=rng.choice([0.0, 0.1, 3.1]), rotation_beta=rng.choice([0.0, 0.3]), rotation_gamma=rng.choice([0.0, 1.57]))
        if rng.random() < 0.3:
            d['dut_type'] = 'RectangularPixelDutWithDoubleColumns'
        elif rng.random() < 0.04:
            d.update(dut_type='TJMonopix1_2x2', column_size=40.0, row_size=36.0, n_columns=112, n_rows=224)
        duts.append(d)
    select = rng.sample(range(n), rng.randint(1, n))
    tables = []
    for d in duts:
        kind = rng.choice(['normal', 'normal', 'late', 'early', 'few', 'inefficient'])
        slope = rng.choice([0.0, 1e-4, 1e-2])
        outside = rng.choice([0.0, 0.05, 0.3])
        ev, events = rng.choice([0, 1, 2 ** 33]), []
        n_ev = rng.choice([1, 2, 4]) if kind == 'few' else rng.choice([5, 20, 60])
        for j in range(n_ev):
            rows = []
            for _ in range(rng.choice([1, 1, 1, 2, 3])):
                p = {'late': 0.9 if j >= n_ev // 2 else 0.0, 'early': 0.9 if j < n_ev // 2 else 0.0, 'inefficient': 0.3}.get(kind, 0.85)
                pos = [rng.choice(INSIDE) + (rng.choice([-2, -1, k, k + 1]) if rng.random() < outside else rng.randrange(k)) for k in (d['n_columns'], d['n_rows'])]
                hit = 0 if rng.random() > p else rng.choice([1, 1, 1, 1, 2, 3])  # near, one axis off, far
                dist = [round(rng.uniform(-1.1, 1.1), 3) * (rng.choice([1, 3]) if hit == 2 else 12 if hit == 3 else 1) for _ in 'xy']
                ids = [rng.choice([1, 1, 1, 2, 2, 3]), rng.choice(SHAPES + [6, 9, 23, -1, 65535, 4096])]
                rows.append([pos, hit, dist, [rng.gauss(0, 1) * slope, rng.gauss(0, 1) * slope, rng.choice([1.0, 1.0, -1.0])], rng.choice([0, 1, 5, 13, 60, 2.5]), rng.choice([0, 0, 1, 2, 14]), ids])
            events.append([ev, rows])
            ev += rng.choice([1, 1, 2, 9])
        tables.append(events)
    mx = max(len(e[1]) for t in tables for e in t)
    total = max(sum(len(e[1]) for e in t) for t in tables)

    def pair(f):
        return [[f(k), f(k)] for k in select]
    p = {'resolutions': rng.choice([None, None, 'list', 'tuple', 'partial']), 'resolution': pair(lambda k: rng.choice([0.5, 1.0, 1.0, 2.0, 1.7])),
         'cut_distances': rng.choice(['tuple', 'list', 'list', None, 'partial']), 'cut_distance': pair(lambda k: rng.choice([0.61, 1.03, 2.51, 3.07])),
         'extend': rng.choice([None, None, 'tuple', 'list', 'partial']), 'extend_area': pair(lambda k: rng.choice([0.7, 1.3, 2.2])),
         'n_bins_track_angle': rng.choice([2, 3, 5]), 'minimum_track_density': rng.choice([1, 1, 2, 10]),
         'offset': [rng.choice([None, None, None, 0.31, -1.17]) for _ in 'xy'],
         'disabled': [rng.choice([None, None, rng.random() * 0.6]) for _ in select], 'regions': [], 'in_pixel': rng.choice([None, None, 'tuple', 'partial']), 'extend_in_pixel': rng.choice([None, None, 'tuple', 'partial']),
         'clusters': rng.random() < 0.2, 'cluster_hits': rng.randrange(1000), 'names': rng.random() < 0.3}
    if p['clusters']:  # no bin centre at the edge of a pixel; events of the cluster hits fit in a chunk
        p['resolutions'] = rng.choice([None, 'list', 'partial'])
        p['resolution'] = pair(lambda k: rng.choice([0.5, 1.0]))
        mx *= 4
    for _ in select:
        r = []
        for _ in range(rng.choice([0, 0, 1, 2])):
            r.append(rng.choice([[[-0.5, 0.5], [-0.5, 0.5]], [[-0.3, 0.2], [-0.4, 0.45]], [[0.1, 0.4], [-0.4, 0.0]], [[0.45, 0.05], [-0.2, 0.2]], [[0.44, 0.49], [0.44, 0.49]], [[-0.7, 0.7], [-0.7, 0.7]]]))
        p['regions'].append(r)
    return {'duts': duts, 'select': select, 'tables': tables, 'params': p, 'default_name': rng.random() < 0.2,
            'chunk': rng.choice([mx + 1, mx + 1, mx + 2, max(mx + 1, total // 5), max(mx + 1, total // 3), total + 1, 100000]),
            'fault': S.gen_fault(rng, p_none=0.8, p_crash=0.06) if index >= 3 else None, 'cfg': W.sched_cfg(rng)}


def build(events, d, i):
    rows = []
    for ev, rr in events:
        for k, (pos, hit, dist, s, charge, frame, (size, shape)) in enumerate(rr):
            ox, oy = (pos[0] - d['n_columns'] / 2) * d['column_size'], (pos[1] - d['n_rows'] / 2) * d['row_size']
            nan = float('nan')
            hx, hy = (ox + dist[0] * d['column_size'], oy + dist[1] * d['row_size']) if hit else (nan, nan)
            q = ((charge, frame, size, shape, k) if hit else (nan, 0, 0, 0, -1))
            rows.append((ev, hx, hy) + q + (ox, oy) + tuple(s))
    return np.array(rows, [('event_number', '<i8'), ('x_dut_%d' % i, '<f8'), ('y_dut_%d' % i, '<f8'), ('charge_dut_%d' % i, '<f4'), ('frame_dut_%d' % i, '<u1'), ('n_hits_dut_%d' % i, '<u4'),
                           ('cluster_shape_dut_%d' % i, '<i8'), ('cluster_ID_dut_%d' % i, '<i2'), ('offset_x', '<f8'), ('offset_y', '<f8'), ('slope_x', '<f8'), ('slope_y', '<f8'), ('slope_z', '<f8')])


def cluster_hits(case, a, d, i):
    """Hits of the clusters of the tracks, and of clusters without track, by event and cluster."""
    import random
    r = random.Random(case['params']['cluster_hits'])
    rows = []
    for ev in np.unique(a['event_number']):
        if r.random() < 0.2:
            rows.append((ev - 1, 7, 1, 1)) if not rows or rows[-1][0] < ev - 1 else None
        for t in a[a['event_number'] == ev]:
            for _ in range(t['n_hits_dut_%d' % i] if np.isfinite(t['x_dut_%d' % i]) else 0):
                c = int(np.clip(t['x_dut_%d' % i] / d['column_size'] + d['n_columns'] / 2, 0, d['n_columns'] - 1)) + r.choice([0, 0, 1, -1])
                w = int(np.clip(t['y_dut_%d' % i] / d['row_size'] + d['n_rows'] / 2, 0, d['n_rows'] - 1)) + r.choice([0, 0, 1, -1])
                rows.append((ev, t['cluster_ID_dut_%d' % i], min(max(c, 0), d['n_columns'] - 1) + 1, min(max(w, 0), d['n_rows'] - 1) + 1))
        if r.random() < 0.3:
            rows.append((ev, 99, 2, 3))
    return np.array(rows, [('event_number', '<i8'), ('cluster_ID', '<i2'), ('column', '<u2'), ('row', '<u2')])


def settings(case):
    p, duts, sel = case['params'], case['duts'], case['select']
    kw = {'n_bins_track_angle': p['n_bins_track_angle'], 'minimum_track_density': p['minimum_track_density']}
    size = [(duts[i]['column_size'], duts[i]['row_size']) for i in sel]
    scaled = lambda k: [(v[0] * s[0], v[1] * s[1]) for v, s in zip(p[k], size)]
    s = {}

    def form(kind, values, key, none, arg):
        if kind is None:
            s[key] = [none(k) for k in range(len(sel))]
            kw[arg] = None
        elif kind == 'tuple':
            s[key] = [values[0]] * len(sel)
            kw[arg] = values[0]
        elif kind == 'partial':
            s[key] = [(none(k)[0], v[1]) for k, v in enumerate(values)]
            kw[arg] = [(None, v[1]) for v in values]
        else:
            s[key] = values
            kw[arg] = list(values)
    form(p['resolutions'], scaled('resolution'), 'resolution', lambda k: size[k], 'resolutions')
    form(p['cut_distances'], scaled('cut_distance'), 'cut', lambda k: (np.inf, np.inf), 'cut_distances')
    form(p['extend'], scaled('extend_area'), 'extend', lambda k: (0.0, 0.0), 'extend_areas')
    s['regions'] = [[[[v * duts[i][n] * duts[i][c] + 0.01 * duts[i][c] for v in ax] for ax, n, c in zip(r, ('n_columns', 'n_rows'), ('column_size', 'row_size'))] for r in rr] or None for rr, i in zip(p['regions'], sel)]
    if any(s['regions']):
        kw['efficiency_regions'] = [None if r is None else [tuple(tuple(ax) for ax in q) for q in r] for r in s['regions']]
        if p['names']:
            kw['efficiency_region_names'] = [None if r is None else ['region %d' % k for k in range(len(r))] for r in s['regions']]
        default = lambda k: tuple(min(s['resolution'][k][a], size[k][a] / 10.0) for a in (0, 1))
        form(p['in_pixel'], [(z[0] / 3.7 if n % 2 else z[0] / 4.0, z[1] / 3.0) for n, z in enumerate(size)], 'in_pixel', default, 'in_pixel_resolutions')
        form(p['extend_in_pixel'], [(z[0] / 3.7, z[1] / 2.2) for z in size], 'extend_in_pixel', lambda k: (0.0, 0.0), 'extend_in_pixel_areas')
    s['mask'] = []
    for x, i in zip(p['disabled'], sel):
        if x is None:
            s['mask'].append(None)
        else:
            g = np.random.RandomState(int(x * 1e6))
            s['mask'].append(g.rand(duts[i]['n_columns'], duts[i]['n_rows']) < x)
    if any(m is not None for m in s['mask']):
        s['mask'] = [np.zeros((duts[i]['n_columns'], duts[i]['n_rows']), bool) if m is None else m for m, i in zip(s['mask'], sel)]
        kw['disabled_pixel_masks'] = list(s['mask'])
    for k, v in zip(('local_offset_x', 'local_offset_y'), p['offset']):
        if v is not None:
            kw[k] = v
    return kw, s


def n_bins(size, res):
    return int(np.ceil(np.round(size / res, 6)))


def tracks_of(case, a, k, s):
    """The tracks of a plane that count, with everything the histograms are made of."""
    i = case['select'][k]
    d, p = case['duts'][i], case['params']
    ox = a['offset_x'] + (p['offset'][0] or 0.0)
    oy = a['offset_y'] + (p['offset'][1] or 0.0)
    col, row = np.floor(ox / d['column_size'] + d['n_columns'] / 2).astype(int), np.floor(oy / d['row_size'] + d['n_rows'] / 2).astype(int)
    inside = (col >= 0) & (col < d['n_columns']) & (row >= 0) & (row < d['n_rows'])
    pixel = np.where(inside, col * d['n_rows'] + row, -1)
    t = {'ox': ox, 'oy': oy, 'hx': a['x_dut_%d' % i], 'hy': a['y_dut_%d' % i], 'pixel': pixel, 'charge': a['charge_dut_%d' % i], 'frame': a['frame_dut_%d' % i], 'size': a['n_hits_dut_%d' % i],
         'shape': a['cluster_shape_dut_%d' % i], 'id': a['cluster_ID_dut_%d' % i], 'event': a['event_number']}
    t.update(angles_of(np.column_stack([a['slope_' + c] for c in 'xyz'])))
    if s['mask'][k] is not None:
        enabled = (pixel >= 0) & ~s['mask'][k].reshape(-1)[pixel]
        t = {n: v[enabled] for n, v in t.items()}
    t['dx'], t['dy'] = t['hx'] - t['ox'], t['hy'] - t['oy']
    t['dist'] = np.hypot(t['dx'], t['dy'])
    cut = s['cut'][k]
    with np.errstate(invalid='ignore'):
        if cut[0] >= 2.5 * d['column_size'] and cut[1] >= 2.5 * d['row_size']:
            t['valid'] = np.isfinite(t['hx']) & ((t['dx'] / cut[0]) ** 2 + (t['dy'] / cut[1]) ** 2 <= 1)
        else:
            t['valid'] = np.isfinite(t['hx']) & (np.abs(t['dx']) <= cut[0]) & (np.abs(t['dy']) <= cut[1])
    return t


def mean2(x, y, values, xe, ye):
    n = count2(x, y, xe, ye)
    i, j = bin_index(x, xe), bin_index(y, ye)
    ok = (i >= 0) & (j >= 0)
    h = np.zeros(n.shape)
    np.add.at(h, (i[ok], j[ok]), values[ok])
    return np.where(n > 0, h / np.maximum(n, 1), 0.0)


def percent(a, b):
    return np.where(b > 0, a / np.maximum(b, 1) * 100.0, np.nan)


class Diff(Exception):
    pass


def same(name, got, want):
    want = np.asarray(want)
    if got.shape != want.shape:
        raise Diff('wrong-shape', '%s has shape %s, expected %s' % (name, got.shape, want.shape))
    ok = np.isclose(got.astype(float), want.astype(float), rtol=1e-5, atol=1e-7, equal_nan=True)
    if not ok.all():
        at = tuple(x[0] for x in np.where(~ok))
        raise Diff('wrong-value', '%s: %d of %d bins differ, first at %s: %r instead of %r; sum %r instead of %r' % (name, (~ok).sum(), ok.size, [int(x) for x in at], got[at], want[at], np.nansum(got), np.nansum(want)))


def counts_1d(name, got, values, minimum=0):
    w = np.bincount(np.asarray(values).astype(np.int64))
    n = max(len(w), len(got))
    same(name, np.pad(got, (0, n - len(got))), np.pad(w, (0, n - len(w))))


def angle(name, got, edges, values, bins, single):
    if not good_edges(edges) or len(edges) != bins + 1 or len(got) != bins:
        raise Diff('wrong-binning', '%s: %d bins, edges %s' % (name, len(got), edges))
    ok, w, free = tolerant(got, values, edges)
    if not ok:
        raise Diff('wrong-value', '%s: %d tracks are counted, %d (and %d on bin edges) of %d are inside of the bins from %r to %r' % (name, got.sum(), w.sum(), free, len(values), edges[0], edges[-1]))
    if single and len(values) <= 20 and got.sum() != len(values):
        raise Diff('wrong-binning', '%s: only %d of %d tracks are inside of the bins' % (name, got.sum(), len(values)))


def content(case, data, hits, s, got, attrs):
    p, want_nodes = case['params'], set()
    for k, i in enumerate(case['select']):
        d, t = case['duts'][i], tracks_of(case, data[i], k, s)
        base = '/DUT%d/' % i
        single = case['chunk'] > len(data[i])

        def get(name):
            want_nodes.add(base + name)
            if base + name not in got:
                raise Diff('missing-result', 'no %s, nodes %s' % (base + name, sorted(got)))
            return got[base + name]
        edges = []
        for ax, size, n, r, e in zip('xy', (d['column_size'], d['row_size']), (d['n_columns'], d['n_rows']), s['resolution'][k], s['extend'][k]):
            ed = get('hist_2d_%s_edges' % ax)
            n_want = n_bins(size * n, r) + 2 * n_bins(e, r)
            if not np.allclose(ed, (np.arange(n_want + 1) - n_want / 2.0) * r if len(ed) == n_want + 1 else np.nan, rtol=1e-7, atol=1e-7):
                raise Diff('wrong-binning', '%s: %d bins from %r to %r, expected %d bins of %r around 0' % (base + 'hist_2d_%s_edges' % ax, len(ed) - 1, ed[0], ed[-1], n_want, r))
            edges.append(ed)
        v = {n: x[t['valid']] for n, x in t.items()}
        tracks, passed = count2(t['ox'], t['oy'], *edges), count2(v['ox'], v['oy'], *edges)
        same(base + 'count_tracks_2d_hist', get('count_tracks_2d_hist'), tracks)
        same(base + 'count_tracks_with_hit_2d_hist', get('count_tracks_with_hit_2d_hist'), passed)
        same(base + 'count_hits_2d_hist', get('count_hits_2d_hist'), count2(v['hx'], v['hy'], *edges))
        same(base + 'stat_2d_efficiency_hist', get('stat_2d_efficiency_hist'), percent(passed, tracks))
        same(base + 'stat_2d_efficiency_hist_mask', get('stat_2d_efficiency_hist_mask'), tracks < p['minimum_track_density'])
        n_pix = d['n_columns'] * d['n_rows']
        per_pixel = lambda x: np.bincount(x[x >= 0], minlength=n_pix).astype(float)
        same(base + 'stat_pixel_efficiency_hist', get('stat_pixel_efficiency_hist'), percent(per_pixel(v['pixel']), per_pixel(t['pixel'])))
        for name, col in (('x_residuals', 'dx'), ('y_residuals', 'dy'), ('residuals', 'dist'), ('charge', 'charge'), ('frame', 'frame'), ('cluster_size', 'size'), ('total_angle', 'total'), ('alpha_angle', 'alpha'), ('beta_angle', 'beta')):
            same(base + 'stat_2d_%s_hist' % name, get('stat_2d_%s_hist' % name), mean2(v['ox'], v['oy'], v[col], *edges))
        counts_1d(base + 'count_1d_charge_hist', get('count_1d_charge_hist'), v['charge'])
        counts_1d(base + 'count_1d_frame_hist', get('count_1d_frame_hist'), v['frame'])
        for name in ('total', 'alpha', 'beta'):
            angle(base + 'count_1d_%s_angle_hist' % name, get('count_1d_%s_angle_hist' % name), get('count_1d_%s_angle_hist_edges' % name), v[name], p['n_bins_track_angle'], single)
        if hits is not None:
            same(base + 'count_pixel_hits_2d_hist', get('count_pixel_hits_2d_hist'), relative_hits(d, v, hits[i], edges))
        for q, region in enumerate(s['regions'][k] or ()):
            rb = 'Region_%d/' % q
            sel = (t['ox'] > min(region[0])) & (t['ox'] < max(region[0])) & (t['oy'] > min(region[1])) & (t['oy'] < max(region[1]))
            r, rv = {n: x[sel] for n, x in t.items()}, {n: x[sel & t['valid']] for n, x in t.items()}
            eff = attrs[base + rb[:-1]]['efficiency_regions_efficiencies']
            want = len(rv['ox']) / float(len(r['ox'])) if len(r['ox']) else None
            if not (np.isclose(eff, want) if want is not None else (not np.isfinite(eff) or eff == 0)):
                raise Diff('wrong-value', 'efficiency of region %d of DUT%d is %r, but %d of %d tracks have a hit' % (q, i, eff, len(rv['ox']), len(r['ox'])))
            pre = rb + 'efficiency_regions_'
            for name, col in (('charge', 'charge'), ('frame', 'frame'), ('cluster_size', 'size')):
                counts_1d(base + pre + name, get(pre + 'count_1d_%s_hist' % name), rv[col])
            for name in ('total', 'alpha', 'beta'):
                angle(base + pre + name, get(pre + 'count_1d_%s_angle_hist' % name), get(pre + 'count_1d_%s_angle_hist_edges' % name), rv[name], p['n_bins_track_angle'], single)
            same(base + pre + 'count_1d_cluster_shape_hist', get(pre + 'count_1d_cluster_shape_hist'), count1(rv['shape'], np.arange(2 ** 16)))
            same(base + pre + 'stat_pixel_efficiency_hist', get(pre + 'stat_pixel_efficiency_hist'), percent(per_pixel(rv['pixel']), per_pixel(r['pixel'])))
            in_pixel(case, s, k, d, r, rv, lambda n: get(rb + n), base + rb)
    if set(got) != want_nodes:
        raise Diff('wrong-nodes', 'nodes %s' % sorted(set(got) ^ want_nodes))


def in_pixel(case, s, k, d, r, rv, get, base):
    edges, pads = [], []
    # the cell into which positions are folded; the second pixel of a cell is stored if there is something in it
    cells = (d['column_size'] * (2 if d.get('dut_type') else 1), d['row_size'] * (2 if d.get('dut_type') == 'TJMonopix1_2x2' else 1))
    cell = lambda x, half, size: np.mod(x - half, size)
    hx, hy = d['column_size'] * d['n_columns'] / 2.0, d['row_size'] * d['n_rows'] / 2.0
    rx, ry = cell(r['ox'], hx, cells[0]), cell(r['oy'], hy, cells[1])
    vx, vy = cell(rv['ox'], hx, cells[0]), cell(rv['oy'], hy, cells[1])
    ux, uy = cell(rv['hx'], hx, cells[0]), cell(rv['hy'], hy, cells[1])
    stored = get('count_in_pixel_tracks_2d_hists').shape
    for axis, (size, full, res, ext) in enumerate(zip((d['column_size'], d['row_size']), cells, s['in_pixel'][k], s['extend_in_pixel'][k])):
        n = n_bins(size, res)
        pads.append(n_bins(ext, res))
        if full > size and (stored[axis] != n + 2 * pads[axis] or any((x[axis] > n * res).any() for x in ((rx, ry), (vx, vy), (ux, uy)))):
            n = n_bins(full, res)
        edges.append(np.arange(n + 1) * res)

    def wrap(h):
        return np.pad(np.pad(h, ((pads[0], pads[0]),) + ((0, 0),) * (h.ndim - 1), 'wrap'), ((0, 0), (pads[1], pads[1])) + ((0, 0),) * (h.ndim - 2), 'wrap')
    tracks, passed = count2(rx, ry, *edges), count2(vx, vy, *edges)
    pre = 'count_in_pixel_'
    same(base + 'tracks', get(pre + 'tracks_2d_hists'), wrap(tracks))
    same(base + 'tracks_with_hit', get(pre + 'tracks_with_hit_2d_hists'), wrap(passed))
    same(base + 'hits', get(pre + 'hits_2d_hists'), wrap(count2(ux, uy, *edges)))
    pre = 'stat_in_pixel_'
    same(base + 'efficiency', get('efficiency_regions_stat_in_pixel_efficiency_2d_hist'), wrap(percent(passed, tracks)))
    for name, col in (('x_residuals', 'dx'), ('y_residuals', 'dy'), ('residuals', 'dist'), ('charge', 'charge'), ('frame', 'frame'), ('cluster_size', 'size')):
        same(base + name, get(pre + name + '_2d_hists'), wrap(mean2(vx, vy, rv[col], *edges)))
    shapes = np.stack([count2(vx[rv['shape'] == x], vy[rv['shape'] == x], *edges) for x in SHAPES], axis=2)
    same(base + 'cluster shapes', get('count_in_pixel_cluster_shape_2d_hists'), wrap(shapes))
    same(base + 'most probable cluster shape', get(pre + 'cluster_shape_2d_hists'), wrap(np.argmax(shapes, axis=2)))


def relative_hits(d, v, hits, edges):
    shape = []
    for size in (d['column_size'], d['row_size']):
        n = int(np.ceil(1000.0 / size))
        shape.append(n + 1 if n % 2 == 0 else n + 2)
    h = np.zeros((len(edges[0]) - 1, len(edges[1]) - 1) + tuple(shape))
    centre = [(e[1:] + e[:-1]) / 2 for e in edges]
    ids = {}
    for x in hits:
        ids.setdefault((int(x['event_number']), int(x['cluster_ID'])), []).append((int(x['column']), int(x['row'])))
    bi, bj = bin_index(v['ox'], edges[0]), bin_index(v['oy'], edges[1])
    for i, j, ev, c in zip(bi, bj, v['event'], v['id']):
        if i < 0 or j < 0:
            continue
        for col, row in ids.get((int(ev), int(c)), ()):
            pc = [int(np.clip(np.floor(x / size + n / 2.0), 0, n - 1)) for x, size, n in ((centre[0][i], d['column_size'], d['n_columns']), (centre[1][j], d['row_size'], d['n_rows']))]
            a, b = col - 1 - pc[0] + shape[0] // 2, row - 1 - pc[1] + shape[1] // 2
            if 0 <= a < shape[0] and 0 <= b < shape[1]:
                h[i, j, a, b] += 1
    return h


def quick_mean_efficiency():
    from beam_telescope_analysis.tools import analysis_utils as au
    real = au.get_mean_efficiency
    if getattr(real, 'dst_stub', False):
        return

    def get_mean_efficiency(array_pass, array_total, interval=0.68):
        if not array_total.sum():
            return real(array_pass=array_pass, array_total=array_total, interval=interval)
        return array_pass.sum() / array_total.sum(), np.float64(0), np.float64(0)
    get_mean_efficiency.dst_stub = True
    au.get_mean_efficiency = get_mean_efficiency


def run(case, env):
    from beam_telescope_analysis import result_analysis as ra
    import tables as tb
    quick_mean_efficiency()
    conf = env.path('telescope.yaml')
    tel.telescope(conf, case['duts'])
    data = [build(t, d, i) for i, (t, d) in enumerate(zip(case['tables'], case['duts']))]
    inp = env.path('in.h5')
    h5.write(inp, [('Tracks_DUT%d' % i, a) for i, a in enumerate(data)])
    kw, s = settings(case)
    hits, inputs = None, [inp, conf]
    if case['params']['clusters']:
        hits = [cluster_hits(case, a, d, i) for i, (a, d) in enumerate(zip(data, case['duts']))]
        files = []
        for i in case['select']:
            files.append(env.path('clusters_%d.h5' % i))
            h5.write(files[-1], [('ClusterHits', hits[i])])
        kw['input_cluster_files'] = files
        inputs += files
    outp = env.path('in_efficiency.h5') if case['default_name'] else env.path('out.h5')
    o = None if case['default_name'] else outp
    sel, chunk = case['select'], case['chunk']

    def call():
        return ra.calculate_efficiency(conf, inp, select_duts=list(sel), output_efficiency_file=o, plot=False, chunk_size=chunk, **kw)

    def compare(v):
        if v not in (None, outp):
            return 'wrong-return', 'returned %r' % (v,)
        got, attrs = {}, {}
        with tb.open_file(outp) as f:
            for n in f.walk_nodes('/'):
                if n._v_pathname.startswith('/arguments'):
                    continue
                if isinstance(n, tb.Group):
                    attrs[n._v_pathname] = {x: n._v_attrs[x] for x in n._v_attrs._v_attrnamesuser}
                else:
                    got[n._v_pathname] = n[:]
        try:
            content(case, data, hits, s, got, attrs)
        except Diff as e:
            return e.args
    what = 'calculate_efficiency(planes %s, %s rows, %s, chunk size %d)' % (sel, [len(a) for a in data], {k: v for k, v in kw.items() if k not in ('disabled_pixel_masks', 'input_cluster_files')}, chunk)
    env.sig = [case['select'], case['duts'], case['tables'], case['params'], chunk, case['fault']]
    S.check_step(env, call, inputs, [outp], compare, case['cfg'], case['fault'], what, refusal=lambda e: refusal(case, data, s, e))
    env.nontrivial = max(len(data[i]) for i in sel) > chunk
    for k in ('disabled', 'regions', 'clusters'):
        if k == 'clusters' and case['params'][k] or k != 'clusters' and any(case['params'][k]):
            env.probes[k] += 1


def refusal(case, data, s, e):
    """No bin of a plane has enough tracks and an efficiency above zero: the step says so."""
    if not isinstance(e, RuntimeError):
        return False
    for k, i in enumerate(case['select']):
        d, t = case['duts'][i], tracks_of(case, data[i], k, s)
        ed = []
        for size, n, r, x in zip((d['column_size'], d['row_size']), (d['n_columns'], d['n_rows']), s['resolution'][k], s['extend'][k]):
            m = n_bins(size * n, r) + 2 * n_bins(x, r)
            ed.append((np.arange(m + 1) - m / 2.0) * r)
        tracks, passed = count2(t['ox'], t['oy'], *ed), count2(t['ox'][t['valid']], t['oy'][t['valid']], *ed)
        if not ((tracks >= case['params']['minimum_track_density']) & (passed > 0)).any():
            return True
    return False


def shrinks(case):
    yield from S.shrink_common(case)
    for i, t in enumerate(case['tables']):
        for c in S.shrink_events(case={'e': t}, key='e', minimum=1):
            yield dict(case, tables=case['tables'][:i] + [c['e']] + case['tables'][i + 1:])
    p = case['params']
    if len(case['select']) > 1:
        for i in range(len(case['select'])):
            q = {k: (v[:i] + v[i + 1:] if k in ('resolution', 'cut_distance', 'extend_area', 'disabled', 'regions') else v) for k, v in p.items()}
            yield dict(case, select=case['select'][:i] + case['select'][i + 1:], params=q)
    for k, v in (('default_name', False), ('chunk', 100000)):
        if case[k] != v:
            yield dict(case, **{k: v})
    for k, v in (('resolutions', None), ('extend', None), ('cut_distances', 'tuple'), ('disabled', [None] * len(case['select'])), ('regions', [[]] * len(case['select'])), ('clusters', False), ('in_pixel', None),
                 ('extend_in_pixel', None), ('offset', [None, None]), ('names', False), ('minimum_track_density', 1)):
        if p[k] != v:
            yield dict(case, params=dict(p, **{k: v}))
    for i, r in enumerate(p['regions']):
        for j in range(len(r)):
            yield dict(case, params=dict(p, regions=p['regions'][:i] + [r[:j] + r[j + 1:]] + p['regions'][i + 1:]))
