"""P15: residual, purity and track angle histograms count every selected track once."""
import numpy as np

from .. import h5, smcwork as W, stepcheck as S, tel

ID = 'P15'
LEVEL = 'exploration'
PLAN = {'quick': {'cases': 2500, 'wall': 70}, 'thorough': {'cases': 60000, 'wall': 780}}
WARM = (0, 1, 2)
RULE = ('one case = track tables of 1 to 3 planes with hits, misses and tracks without fit, limits, binning parameters, and one of the steps calculate_residuals, calculate_purity, histogram_track_angle; '
        'chunk size, optionally one injected fault or process death; the histograms are compared with counts over the whole table in the stored binning; non-trivial when a table was read in at least two chunks')
REAL = ['result_analysis.calculate_residuals, calculate_purity, histogram_track_angle, get_angles', 'analysis_utils fits and peak detection', 'analysis_utils.data_aligned_at_events', 'scipy', 'PyTables/HDF5 on scratch files',
        'process death (forked image, _exit at an I/O step)']
STUB = ['failing PyTables calls (injected)']
ASSUMPTIONS = ['an event has fewer rows than the chunk size', 'the binning is chosen from the first tracks that are read; the counts are decided for the binning stored with them', 'plots are not drawn']
MODES = ['residuals', 'purity', 'angles']


def gen(rng, index, tier):
    mode = MODES[index] if index < 3 else rng.choice(['residuals', 'residuals', 'purity', 'angles'])
    n = rng.choice([1, 2, 2, 3])
    duts = []
    for i in range(n):
        d = {'column_size': rng.choice([250.0, 100.0, 50.0, 18.4]), 'row_size': rng.choice([100.0, 50.0, 18.4]), 'n_columns': rng.choice([4, 10, 30]), 'n_rows': rng.choice([5, 12, 40])}
        for k in ('x_limit', 'y_limit'):
            s = d['column_size'] * d['n_columns'] / 2 if k[0] == 'x' else d['row_size'] * d['n_rows'] / 2
            r = rng.random()
            if r < 0.5:
                d[k] = [round(-s * rng.choice([0.5, 0.9, 1.0]), 2), round(s * rng.choice([0.3, 0.9, 1.0]), 2)]
        d['translation_z'] = rng.choice([0.0, 1e4, 2e4, 3e4]) + 10.0 * i
        if rng.random() < 0.5:
            d.update(rotation_alpha=rng.choice([0.0, 0.1, 3.1]), rotation_beta=rng.choice([0.0, 0.3, -0.2]), rotation_gamma=rng.choice([0.0, 0.02, 1.57]), translation_x=rng.choice([0.0, 800.0]))
        duts.append(d)
    select = rng.sample(range(n), rng.randint(1, n))
    tables = []
    for d in range(n):
        kind = rng.choice(['gauss', 'gauss', 'zero', 'wide', 'few', 'late'])
        sigma = {'gauss': rng.choice([0.05, 0.3, 1.0]), 'zero': 0.0, 'wide': 5.0, 'few': 0.3, 'late': 0.3}[kind]
        slope = rng.choice([0.0, 1e-4, 1e-2])
        ev, events = rng.choice([0, 1, 2 ** 33]), []
        n_ev = rng.choice([1, 2, 3]) if kind == 'few' else rng.choice([5, 20, 60, 150])
        for j in range(n_ev):
            rows = []
            for _ in range(rng.choice([1, 1, 1, 2, 3])):
                has = [rng.random() < 0.85, rng.random() < 0.85]
                if kind == 'late' and j < n_ev // 2:
                    has = rng.choice([[0, 1], [1, 0], [0, 0]])
                rows.append([round(rng.uniform(-0.55, 0.55), 3), round(rng.uniform(-0.55, 0.55), 3), round(rng.gauss(0.1, 1) * sigma, 3), round(rng.gauss(0, 1) * sigma, 3), int(has[0]), int(has[1]),
                             rng.gauss(0, 1) * slope, rng.gauss(0, 1) * slope, rng.choice([1.0, 1.0, 1.0, -1.0])])
            events.append([ev, rows])
            ev += rng.choice([1, 1, 2, 9])
        tables.append(events)
    mx = max(len(e[1]) for t in tables for e in t)
    total = max(sum(len(e[1]) for e in t) for t in tables)
    p = {'residuals': lambda: {'nbins_per_pixel': rng.choice([None, None, 1, 10, 20]), 'npixels_per_bin': rng.choice([None, None, 1, 5]), 'use_limits': rng.random() < 0.6},
         'purity': lambda: {'bins': [[rng.choice([1.0, 0.5, 2.0]), rng.choice([1.0, 2.0])] for _ in select], 'bin_form': rng.choice(['list', 'list', 'tuple']), 'minimum_hit_density': rng.choice([1, 2, 10]),
                            'cut_distance': rng.choice([20.01, 60.01, 300.01]), 'ranges': rng.choice([None, None, 'list', 'tuple'])},
         'angles': lambda: {'n_bins': rng.choice([100, 100, 20, 'auto'])}}[mode]()
    return {'mode': mode, 'duts': duts, 'select': select, 'tables': tables, 'params': p, 'default_name': rng.random() < 0.2,
            'chunk': rng.choice([mx + 1, mx + 1, mx + 2, max(mx + 1, total // 5), max(mx + 1, total // 3), total + 1, 100000]),
            'fault': S.gen_fault(rng, p_none=0.75, p_crash=0.08) if index >= 3 else None, 'cfg': W.sched_cfg(rng)}


def build(events, d, i):
    rows = []
    for ev, rr in events:
        for x, y, dx, dy, hit, track, sx, sy, sz in rr:
            ox, oy = x * d['column_size'] * d['n_columns'], y * d['row_size'] * d['n_rows']
            nan = float('nan')
            h = (ox + dx * d['column_size'], oy + dy * d['row_size']) if hit else (nan, nan)
            t = (ox, oy, sx, sy, sz, 1.5) if track else (nan,) * 6
            rows.append((ev, hit << i) + h + t)
    return np.array(rows, [('event_number', '<i8'), ('hit_flag', '<u4'), ('x_dut_%d' % i, '<f8'), ('y_dut_%d' % i, '<f8'), ('offset_x', '<f8'), ('offset_y', '<f8'), ('slope_x', '<f8'), ('slope_y', '<f8'),
                           ('slope_z', '<f8'), ('track_chi2', '<f8')])


def bin_index(values, edges):
    """Bin of every value, -1 outside; the last bin includes its upper edge."""
    values, edges = np.asarray(values), np.asarray(edges)
    i = np.searchsorted(edges, values, side='right') - 1
    i[values == edges[-1]] = len(edges) - 2
    i[(values < edges[0]) | ~(values <= edges[-1])] = -1
    return i


def count1(values, edges):
    i = bin_index(values, edges)
    return np.bincount(i[i >= 0], minlength=len(edges) - 1)


def count2(x, y, xe, ye):
    i, j = bin_index(x, xe), bin_index(y, ye)
    ok = (i >= 0) & (j >= 0)
    h = np.zeros((len(xe) - 1, len(ye) - 1))
    np.add.at(h, (i[ok], j[ok]), 1)
    return h


def tolerant(got, values, edges):
    """Like count1, but values next to an edge may be on either side."""
    values = values[np.isfinite(values)]
    eps = 1e-9 * max(1.0, float(np.abs(edges).max()))
    near = np.abs(values[:, None] - edges[None, :]).min(axis=1) < eps if len(values) else np.zeros(0, bool)
    sure = count1(values[~near], edges)
    rest = got - sure
    free = int(near.sum())
    return bool((rest >= 0).all() and rest.sum() <= free), sure, free


def good_edges(e):
    return e is not None and len(e) > 1 and np.isfinite(e).all() and (np.diff(e) > 0).all()


def good_fit(hist, edges, coeff, size):
    """A fit is at least as close to the histogram as the estimate it starts from."""
    import math
    x = (edges[1:] + edges[:-1]) / 2.0
    if not hist.sum():
        return True
    mean = np.dot(hist, x) / hist.sum()
    std = np.sqrt(np.dot(hist, (x - mean) ** 2) / hist.sum())
    if std < 1e-9 * np.abs(edges).max() or len(coeff) != (3 if size < 80 else 4):
        return len(coeff) == (3 if size < 80 else 4)
    erf = np.vectorize(math.erf)

    def f(a, m, s, w=None):
        if w is None:
            return a * np.exp(-(x - m) ** 2 / 2.0 / s ** 2)
        return 0.5 * a * (erf((x - m + w * 0.5) / (np.sqrt(2) * s)) + erf((m + w * 0.5 - x) / (np.sqrt(2) * s)))
    with np.errstate(all='ignore'):
        first = ((f(hist.max(), mean, std, *(() if len(coeff) == 3 else (size,))) - hist) ** 2).sum()
        fitted = ((f(*coeff) - hist) ** 2).sum()
    return fitted <= first * 1.0001 + 1e-6


def residual_content(case, data, got):
    want_nodes = set()
    for i in case['select']:
        a, d = data[i], case['duts'][i]
        a = a[~np.isnan(a['x_dut_%d' % i]) & ~np.isnan(a['track_chi2'])]
        hx, hy, ox, oy = a['x_dut_%d' % i], a['y_dut_%d' % i], a['offset_x'], a['offset_y']
        lim = {k: d.get(k + '_limit') if case['params']['use_limits'] else None for k in 'xy'}
        inx = np.ones(len(a), bool) if lim['x'] is None else (hx >= lim['x'][0]) & (hx <= lim['x'][1])
        iny = np.ones(len(a), bool) if lim['y'] is None else (hy >= lim['y'][0]) & (hy <= lim['y'][1])
        res, pos, inl = {'x': hx - ox, 'y': hy - oy}, {'x': ox, 'y': oy}, {'x': iny, 'y': inx}
        for r in 'xy':
            name = '/local_%s_residuals_DUT%d' % (r, i)
            want_nodes.add(name)
            if name not in got:
                return 'missing-result', 'no %s, nodes %s' % (name, sorted(got))
            h, at = got[name]
            e = at.get(r + 'edges')
            if not good_edges(e):
                return 'wrong-binning', '%s: edges %s' % (name, e)
            w = count1(res[r][inx & iny], e)
            if h.shape != w.shape or not np.array_equal(h, w):
                return 'wrong-count', '%s: %d residuals are counted, %d of %d are inside of %s .. %s; bins %s' % (name, h.sum(), w.sum(), (inx & iny).sum(), e[0], e[-1], np.flatnonzero(h != w)[:10] if h.shape == w.shape else h.shape)
            size = d['column_size' if r == 'x' else 'row_size']
            if not good_fit(w, e, np.asarray(at['fit_coeff'], float), size):
                return 'wrong-fit', '%s: the fit %s is no better than an estimate from mean and width of the histogram' % (name, at['fit_coeff'])
            for q in 'xy':
                name = '/local_%s_residuals_%s_pos_DUT%d' % (r, q, i)
                want_nodes.add(name)
                if name not in got:
                    return 'missing-result', 'no %s, nodes %s' % (name, sorted(got))
                h, at2 = got[name]
                xe, ye = at2.get('xedges'), at2.get('yedges')
                if not good_edges(xe) or not np.array_equal(ye, e):
                    return 'wrong-binning', '%s: edges %s, %s' % (name, xe, ye)
                w = count2(pos[q][inl[q]], res[r][inl[q]], xe, ye)
                if h.shape != w.shape or not np.array_equal(h, w):
                    return 'wrong-count', '%s: %d tracks are counted, %d of %d are inside of the bins' % (name, h.sum(), w.sum(), inl[q].sum())
                if case['chunk'] > len(data[i]):
                    if inl[q].any() and (xe[0] > pos[q][inl[q]].min() + 1e-6 or xe[-1] < pos[q][inl[q]].max() - 1e-6):
                        return 'wrong-binning', '%s: positions reach from %s to %s, the bins only from %s to %s' % (name, pos[q][inl[q]].min(), pos[q][inl[q]].max(), xe[0], xe[-1])
    if set(got) != want_nodes:
        return 'wrong-nodes', 'nodes %s' % sorted(set(got) ^ want_nodes)


def angles_of(v):
    sx, sy, sz = v[:, 0], v[:, 1], np.abs(v[:, 2])
    return {'total': np.arctan2(np.hypot(sx, sy), sz), 'alpha': np.arctan2(sy, sz), 'beta': np.arctan2(-sx, sz)}


def angle_content(case, data, got):
    order = sorted(case['select'], key=lambda i: tel.frame(case['duts'][i])[0][2] if not case['duts'][i].get('translation_x') else plane_z(case['duts'][i]))
    want_nodes = set()
    for i, suffix in [(order[0], '')] + [(i, '_DUT%d' % i) for i in order]:
        v = np.column_stack([data[i]['slope_' + k] for k in 'xyz'])
        for frame in ('Global', 'Local') if suffix else ('Global',):
            ang = angles_of(v.dot(tel.frame(case['duts'][i])[1].T) if frame == 'Global' else v)
            for k, val in ang.items():
                n1, n2 = ['/%s_%s_track_angle_%s%s' % (frame, k, x, suffix) for x in ('hist', 'edges')]
                want_nodes |= {n1, n2}
                if n1 not in got or n2 not in got:
                    return 'missing-result', 'no %s, nodes %s' % (n1, sorted(got))
                h, e = got[n1][0], got[n2][0]
                if not good_edges(e) or len(h) != len(e) - 1 or (case['params']['n_bins'] != 'auto' and len(h) != case['params']['n_bins']):
                    return 'wrong-binning', '%s: %d bins, edges %s' % (n1, len(h), e[:5])
                ok, w, free = tolerant(h, val, e)
                if not ok:
                    return 'wrong-count', '%s: %d tracks are counted, %d (and %d on bin edges) of %d are inside of the bins from %r to %r' % (n1, h.sum(), w.sum(), free, np.isfinite(val).sum(), e[0], e[-1])
                if case['chunk'] > len(data[i]) and np.isfinite(val).any() and np.count_nonzero(np.isfinite(val)) <= 20 and h.sum() != np.isfinite(val).sum():
                    return 'wrong-binning', '%s: %d of %d tracks are inside of the bins' % (n1, h.sum(), np.isfinite(val).sum())
    if set(got) != want_nodes:
        return 'wrong-nodes', 'nodes %s' % sorted(set(got) ^ want_nodes)


def plane_z(d):
    t, r = tel.frame(d)
    n = r[:, 2]
    return n.dot(t) / n[2]


def purity_args(case):
    p, duts = case['params'], case['duts']
    form = 'tuple' if p['bin_form'] == 'tuple' and len(case['select']) == 1 else 'list'
    bins = [(b[0] * duts[i]['column_size'], b[1] * duts[i]['row_size']) for b, i in zip(p['bins'], case['select'])]
    if p['bin_form'] == 'tuple':
        bins = [tuple(min(b[k] for b in bins) for k in (0, 1))] * len(bins)
    kw = {'bin_size': bins[0] if p['bin_form'] == 'tuple' else list(bins), 'minimum_hit_density': p['minimum_hit_density'], 'cut_distance': p['cut_distance']}
    ranges = None
    if p['ranges']:
        ranges = [((-0.4 * duts[i]['column_size'] * duts[i]['n_columns'], 0.25 * duts[i]['column_size'] * duts[i]['n_columns']),
                   (-0.3 * duts[i]['row_size'] * duts[i]['n_rows'], 0.35 * duts[i]['row_size'] * duts[i]['n_rows'])) for i in case['select']]
        if p['ranges'] == 'tuple':
            ranges = [ranges[0]] * len(ranges)
        kw['local_x_range'], kw['local_y_range'] = (ranges[0] if p['ranges'] == 'tuple' else ([r[0] for r in ranges], [r[1] for r in ranges]))
    return kw, bins, ranges, form


def purity_expect(case, data):
    kw, bins, ranges, _ = purity_args(case)
    res = []
    for k, i in enumerate(case['select']):
        d, a = case['duts'][i], data[i]
        sx, sy = d['column_size'] * d['n_columns'], d['row_size'] * d['n_rows']
        nx, ny = int(round(sx / bins[k][0], 6)), int(round(sy / bins[k][1], 6))
        ex, ey = np.linspace(-sx / 2, sx / 2, nx + 1), np.linspace(-sy / 2, sy / 2, ny + 1)
        hit = ~np.isnan(a['x_dut_%d' % i])
        hx, hy = a['x_dut_%d' % i], a['y_dut_%d' % i]
        with np.errstate(invalid='ignore'):
            pure = hit & ~np.isnan(a['track_chi2']) & (np.hypot(hx - a['offset_x'], hy - a['offset_y']) < kw['cut_distance'])
            if ranges:
                pure &= (a['offset_x'] >= ranges[k][0][0]) & (a['offset_x'] <= ranges[k][0][1]) & (a['offset_y'] >= ranges[k][1][0]) & (a['offset_y'] <= ranges[k][1][1])
        res.append((i, count2(hx[hit], hy[hit], ex, ey), count2(hx[pure], hy[pure], ex, ey)))
    return res


def purity_content(case, data, got, value):
    want_nodes = set()
    lists = [[], [], [], []]
    m = case['params']['minimum_hit_density']
    for i, total, pure in purity_expect(case, data):
        g = {}
        for n in ('Purity', 'Purity_mask', 'Pure_hits', 'Total_hits'):
            name = '/DUT%d/%s' % (i, n)
            want_nodes.add(name)
            if name not in got:
                return 'missing-result', 'no %s, nodes %s' % (name, sorted(got))
            g[n] = got[name][0]
            if g[n].shape != total.T.shape:
                return 'wrong-binning', '%s has shape %s, expected %s' % (name, g[n].shape, total.T.shape)
        for n, w in (('Total_hits', total), ('Pure_hits', pure)):
            if not np.array_equal(g[n].T, w):
                return 'wrong-count', '%s of DUT%d: %d counted, %d expected' % (n, i, g[n].sum(), w.sum())
        mask = total < m
        if not np.array_equal(g['Purity_mask'].T.astype(bool), mask):
            return 'wrong-mask', 'DUT%d: purity mask differs from bins with less than %d hits' % (i, m)
        pur = pure[~mask] / total[~mask] * 100.0
        if not np.allclose(g['Purity'].T[~mask], pur, rtol=1e-6, atol=1e-9):
            return 'wrong-purity', 'DUT%d: purity of the bins is %s, expected %s' % (i, np.unique(g['Purity'].T[~mask])[:10], np.unique(pur)[:10])
        av = pure.sum() / total.sum() * 100
        if not np.isclose(got['/DUT%d/Purity' % i][1]['purity_average'], av):
            return 'wrong-purity', 'DUT%d: average purity %s, expected %s' % (i, got['/DUT%d/Purity' % i][1]['purity_average'], av)
        for l, v in zip(lists, (pur.mean(), pure.sum(), total.sum(), np.repeat(pur, total[~mask].astype(int)).mean())):
            l.append(v)
    if set(got) != want_nodes:
        return 'wrong-nodes', 'nodes %s' % sorted(set(got) ^ want_nodes)
    for v, w, n in zip(value, lists, ('purities', 'pure hits', 'total hits', 'mean purities of the hits')):
        if not np.allclose(np.asarray(v, float), w, rtol=1e-6):
            return 'wrong-return', '%s returned %s, expected %s' % (n, v, w)


def run(case, env):
    from beam_telescope_analysis import result_analysis as ra
    import tables as tb
    mode, p = case['mode'], case['params']
    conf = env.path('telescope.yaml')
    tel.telescope(conf, case['duts'])
    data = [build(t, d, i) for i, (t, d) in enumerate(zip(case['tables'], case['duts']))]
    inp = env.path('in.h5')
    h5.write(inp, [('Tracks_DUT%d' % i, a) for i, a in enumerate(data)])
    outp = env.path({'residuals': 'in_residuals.h5', 'purity': 'in_purity.h5', 'angles': 'in_track_angles.h5'}[mode]) if case['default_name'] else env.path('out.h5')
    o = None if case['default_name'] else outp
    sel, chunk = case['select'], case['chunk']

    def call():
        if mode == 'residuals':
            return ra.calculate_residuals(conf, inp, select_duts=list(sel), output_residuals_file=o, plot=False, chunk_size=chunk, **p)
        if mode == 'angles':
            return ra.histogram_track_angle(conf, inp, select_duts=list(sel), output_track_angle_file=o, plot=False, chunk_size=chunk, **p)
        return ra.calculate_purity(conf, inp, select_duts=list(sel), output_purity_file=o, plot=False, chunk_size=chunk, **purity_args(case)[0])

    def content(v):
        if mode != 'purity' and v != outp:
            return 'wrong-return', 'returned %r' % (v,)
        got = {}
        with tb.open_file(outp) as f:
            for n in f.walk_nodes('/', 'Array'):
                if not n._v_pathname.startswith('/arguments'):
                    got[n._v_pathname] = (n[:], {k: n.attrs[k] for k in n.attrs._v_attrnamesuser})
        if mode == 'residuals':
            return residual_content(case, data, got)
        if mode == 'angles':
            return angle_content(case, data, got)
        return purity_content(case, data, got, v)
    what = '%s(planes %s, %s rows, %s, chunk size %d)' % ({'residuals': 'calculate_residuals', 'purity': 'calculate_purity', 'angles': 'histogram_track_angle'}[mode], sel, [len(a) for a in data], p, chunk)
    env.sig = [mode, case['select'], case['duts'], case['tables'], p, chunk, case['fault']]
    S.check_step(env, call, [inp, conf], [outp], content, case['cfg'], case['fault'], what, refusal=lambda e: refusal(case, data, e))
    env.nontrivial = max(len(data[i]) for i in sel) > chunk
    env.probes['mode_' + mode] += 1


def refusal(case, data, e):
    """Nothing to show for a selected plane: the step says so."""
    if not isinstance(e, RuntimeError):
        return False
    if case['mode'] == 'purity':
        m = case['params']['minimum_hit_density']
        return any(not (pure[total >= m]).any() for _, total, pure in purity_expect(case, data))
    for i in case['select']:
        a, d = data[i], case['duts'][i]
        ok = ~np.isnan(a['track_chi2'])
        if case['mode'] == 'residuals':
            ok &= ~np.isnan(a['x_dut_%d' % i])
            for k in 'xy':
                if case['params']['use_limits'] and d.get(k + '_limit'):
                    v = a['%s_dut_%d' % (k, i)]
                    with np.errstate(invalid='ignore'):
                        ok &= (v >= d[k + '_limit'][0]) & (v <= d[k + '_limit'][1])
        if not ok.any():
            return True
    return False


def shrinks(case):
    yield from S.shrink_common(case)
    for i, t in enumerate(case['tables']):
        for c in S.shrink_events(case={'e': t}, key='e', minimum=1):
            yield dict(case, tables=case['tables'][:i] + [c['e']] + case['tables'][i + 1:])
    if len(case['select']) > 1:
        for i in range(len(case['select'])):
            c = dict(case, select=case['select'][:i] + case['select'][i + 1:])
            if 'bins' in case['params']:
                c['params'] = dict(case['params'], bins=case['params']['bins'][:i] + case['params']['bins'][i + 1:])
            yield c
    for k, v in (('default_name', False), ('chunk', 100000)):
        if case[k] != v:
            yield dict(case, **{k: v})
    for k, v in (('nbins_per_pixel', None), ('npixels_per_bin', None), ('use_limits', False), ('ranges', None)):
        if case['params'].get(k, v) != v:
            yield dict(case, params=dict(case['params'], **{k: v}))
