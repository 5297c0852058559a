"""P14: coordinate conversions use each plane's own alignment and invert exactly."""
import numpy as np

from .. import h5, smcwork as W, stepcheck as S, tel

ID = 'P14'
LEVEL = 'exploration'
PLAN = {'quick': {'cases': 1200, 'wall': 70}, 'thorough': {'cases': 60000, 'wall': 780}}
WARM = (0, 1)
RULE = ('one case = random merged and track tables of 1 to 12 rotated and shifted planes (optionally a rotated beam frame) converted to global positions and back, or a hit file converted from pixel '
        'indices to local positions or back; chunk size, optionally one injected fault or process death; every value is compared with geometry computed by the harness; non-trivial when a table '
        'was read in at least two chunks')
REAL = ['dut_alignment.apply_alignment', 'hit_analysis.convert_coordinates', 'telescope.dut (positions)', 'tools.geometry_utils', 'analysis_utils.data_aligned_at_events', 'PyTables/HDF5 on scratch files',
        'process death (forked image, _exit at an I/O step)']
STUB = ['failing PyTables calls (injected)']
ASSUMPTIONS = ['an event has fewer rows than the chunk size', 'positions are inside of pixels, not on their edges', 'values agree within 1e-6 um (1e-9 for directions, 1e-5 relative for errors)']

DIMS = 'xyz'
# pixel size in um and number of pixels of the chips
KINDS = {'FEI4': (250.0, 50.0, 80, 336), 'RD53A': (50.0, 50.0, 400, 192), 'RD53A_8x8': (50.0, 50.0, 400, 192), 'ITkPix': (50.0, 50.0, 400, 384), 'ITkPix_8x8': (50.0, 50.0, 400, 384),
         'TJMonopix1': (40.0, 36.0, 112, 224), 'TJMonopix1_2x2': (40.0, 36.0, 112, 224), 'PSI46': (150.0, 100.0, 52, 80), 'Mimosa26': (18.4, 18.4, 1152, 576), 'DepfetH5z85': (50.0, 85.0, 64, 64),
         'DepfetH5z55': (50.0, 55.0, 64, 64), 'Timepix3': (55.0, 55.0, 256, 256)}


def gen(rng, index, tier):
    mode = 'convert' if index == 1 or index > 1 and rng.random() < 0.35 else 'apply'
    n = (12 if rng.random() < 0.06 else rng.choice([1, 2, 3, 3, 4])) if mode == 'apply' else 1
    angle = lambda: rng.choice([0.0, 0.0, rng.uniform(-0.05, 0.05), rng.uniform(-1.0, 1.0)])
    shift = lambda s: rng.choice([0.0, rng.uniform(-s, s)])
    frame = lambda z: {'translation_x': shift(5000), 'translation_y': shift(5000), 'translation_z': z, 'rotation_alpha': angle(), 'rotation_beta': angle(), 'rotation_gamma': angle() * rng.choice([1, 3])}
    duts = [dict(frame(20000.0 * i + shift(500)), column_size=rng.choice([250.0, 18.4, 50.0, 33.3, 20.7]), row_size=rng.choice([50.0, 18.4, 10.1]), n_columns=rng.choice([1, 20, 1152]), n_rows=rng.choice([1, 30, 576]))
            for i in range(n)]
    for d in duts:
        if rng.random() < (0.3 if mode == 'convert' else 0.15):
            d['dut_type'] = rng.choice(sorted(KINDS))
            d.update(zip(('column_size', 'row_size', 'n_columns', 'n_rows'), KINDS[d['dut_type']]))
    tables = [] if mode == 'convert' else ['MergedClusters'] * (rng.random() < 0.5) + ['Tracks_DUT%d' % i for i in rng.sample(range(n), rng.randint(1, n))]
    rng.shuffle(tables)
    ev, events = rng.choice([0, 1, 2 ** 33]), []
    for _ in range(rng.choice([0, 1, 3, 10, 30])):
        events.append([ev, [rng.getrandbits(30) for _ in range(rng.choice([1, 1, 2, 4]))]])
        ev += rng.choice([1, 1, 2, 9])
    mx = max([len(e[1]) for e in events] + [1])
    total = sum(len(e[1]) for e in events)
    return {'mode': mode, 'duts': duts, 'beam': frame(shift(100)) if rng.random() < 0.5 else {}, 'align_to_beam': rng.random() < 0.5, 'tables': tables or ['MergedClusters'], 'events': events,
            'forward': rng.random() < 0.5, 'roundtrip': rng.random() < 0.5, 'arguments': rng.random() < 0.4, 'default_name': rng.random() < 0.2,
            'chunk': rng.choice([mx + 1, mx + 1, mx + 2, max(mx + 1, total // 3), total + 1, 100000]), 'fault': S.gen_fault(rng, p_none=0.65, p_crash=0.1), 'cfg': W.sched_cfg(rng)}


def dtype(name, n):
    d = [('event_number', '<i8')] + [('%s_dut_%d' % (k, i), '<f8') for k in DIMS for i in range(n)] + [('charge_dut_%d' % i, '<f4') for i in range(n)] + [('hit_flag', '<u4')]
    d += [('%s_err_dut_%d' % (k, i), '<f4') for k in DIMS for i in range(n)]
    if name.startswith('Tracks'):
        d += [('%s_%s' % (q, k), '<f8') for q in ('offset', 'slope') for k in DIMS]
        d += [('%s_%s_dut_%d' % (q, k, i), '<f8') for q in ('offset', 'slope') for k in DIMS for i in range(n)]
        d += [('track_chi2', '<f8')]
    return np.dtype(d + [('uid', '<u4')])


def columns(names, pattern):
    """The three columns of a vector, if the table has them."""
    c = [pattern.format(k) for k in DIMS]
    return c if c[0] in names else None


def vectors(name, names, n):
    """(columns, plane, kind) of every vector in a table"""
    out = []
    for i in range(n):
        out.append((columns(names, '{}_dut_%d' % i), i, 'position'))
        if name.startswith('Tracks'):
            out.append((columns(names, 'offset_{}_dut_%d' % i), i, 'position'))
            out.append((columns(names, 'slope_{}_dut_%d' % i), i, 'direction'))
            out.append((columns(names, '{}_err_dut_%d' % i), i, 'error'))
            if name == 'Tracks_DUT%d' % i:
                out += [(columns(names, 'offset_{}'), i, 'position'), (columns(names, 'slope_{}'), i, 'direction')]
    return [o for o in out if o[0]]


def build(name, case):
    """Table of local values."""
    n, rows = len(case['duts']), [(ev, b) for ev, bits in case['events'] for b in bits]
    a = np.zeros(len(rows), dtype(name, n))
    a['event_number'], a['uid'] = [r[0] for r in rows], np.arange(len(rows))
    bits = np.array([r[1] for r in rows], 'u8')
    rs = np.random.RandomState(len(rows) + 7 * n)
    for c, i, kind in vectors(name, a.dtype.names, n):
        v = rs.uniform(-3000, 3000, (len(rows), 3))
        if kind == 'position':
            v[:, 2] = 0
        elif kind == 'direction':
            v[:, 2] = rs.uniform(3000, 300000, len(rows))
            v /= np.sqrt((v ** 2).sum(1))[:, None]
        else:
            v = rs.uniform(0, 50, (len(rows), 3))
            v[:, 2] = 0
        v[(bits >> np.uint64(i % 24)) % 4 == 0] = np.nan
        for k in range(3):
            a[c[k]] = v[:, k]
    for k in a.dtype.names:
        if k.startswith('charge') or k in ('track_chi2', 'hit_flag'):
            a[k] = rs.randint(0, 1000, len(rows))
        elif '_err_' in k and not name.startswith('Tracks'):
            a[k] = rs.uniform(0, 50, len(rows))
    return a


def transform(a, name, case, forward):
    n, out = len(case['duts']), a.copy()
    for c, i, kind in vectors(name, a.dtype.names, n):
        v = np.array([a[k].astype('f8') for k in c]).T
        frames = [tel.frame(case['duts'][i])] + ([tel.frame(case['beam'])] if case['align_to_beam'] else [])
        for t, r in frames if forward else frames[::-1]:
            t = t if kind == 'position' else 0
            v = v.dot(r.T) + t if forward else (v - t).dot(r)
            if kind == 'error':
                v = np.abs(v)
        for k in range(3):
            out[c[k]] = v[:, k]
    return out


def differs(g, w):
    if g.dtype != w.dtype:
        return 'columns are %s' % g.dtype
    if g.shape != w.shape:
        return '%d rows, expected %d' % (len(g), len(w))
    for k in w.dtype.names:
        if w[k].dtype.kind != 'f':
            d = h5.same_array(g[k], w[k])
        elif '_err_' in k:
            d = h5.close_array(g[k], w[k], 1e-5, 1e-4)
        else:
            d = h5.close_array(g[k], w[k], 1e-9, 1e-9 if 'slope' in k else 1e-6)
        if d:
            return '%s: %s' % (k, d)
    return None


def run(case, env):
    env.sig = [case['mode'], case['duts'], case['tables'], case['events'], case['chunk'], case['forward'], case['align_to_beam'], case['fault']]
    (run_apply if case['mode'] == 'apply' else run_convert)(case, env)
    env.nontrivial = sum(len(e[1]) for e in case['events']) > case['chunk']


def run_apply(case, env):
    from beam_telescope_analysis import dut_alignment
    conf = env.path('telescope.yaml')
    t = tel.telescope(conf, case['duts'])
    for k, v in case['beam'].items():
        setattr(t, k, v)
    t.save_configuration(conf)
    inp, back = env.path('in.h5'), env.path('back.h5')
    local = {'/' + k: build(k, case) for k in case['tables']}
    glob = {k: transform(a, k[1:], case, True) for k, a in local.items()}
    fwd = case['forward'] or case['roundtrip']
    src, want = (local, glob) if fwd else (glob, local)
    if not fwd:      # the errors of local -> global -> local are not the original ones
        want = {k: transform(a, k[1:], case, False) for k, a in src.items()}
    h5.write(inp, [(k[1:], a) for k, a in src.items()], groups=[('arguments', 'step', np.array([(b'chunk_size', b'1')], [('parameter', 'S64'), ('value', 'S64')]))] if case['arguments'] else ())
    outp = env.path('in_%s_coordinates.h5' % ('global' if fwd else 'local')) if case['default_name'] else env.path('out.h5')

    def step(i, o, forward, want):
        def call():
            return dut_alignment.apply_alignment(conf, i, output_file=o if o != outp or not case['default_name'] else None, local_to_global=forward, align_to_beam=case['align_to_beam'], chunk_size=case['chunk'])

        def content(v):
            if v != o:
                return 'wrong-return', 'returned %r' % (v,)
            got = h5.snapshot(o)
            if set(got) != set(want):
                return 'wrong-nodes', 'nodes %s, expected %s' % (sorted(got), sorted(want))
            for k in sorted(want):
                d = differs(got[k][2], want[k])
                if d:
                    return 'wrong-coordinates', '%s: %s' % (k, d)
            return None
        what = 'apply_alignment(%s to %s, tables %s, %d rows, %d planes, align_to_beam=%s, chunk size %d)' % (
            ('local', 'global') [not forward], ('local', 'global')[forward], case['tables'], sum(len(e[1]) for e in case['events']), len(case['duts']), case['align_to_beam'], case['chunk'])
        return S.check_step(env, call, [i, conf], [o], content, case['cfg'], case['fault'], what)
    if step(inp, outp, fwd, want) is None or not case['roundtrip']:
        return
    env.probes['roundtrips'] += 1
    again = {k: a.copy() for k, a in local.items()}
    for k, a in again.items():
        e = transform(glob[k], k[1:], case, False)
        for c in a.dtype.names:
            if '_err_' in c:
                a[c] = e[c]
    step(outp, back, False, again)


def run_convert(case, env):
    from beam_telescope_analysis import hit_analysis
    kw = case['duts'][0]
    dut = tel.telescope(env.path('telescope.yaml'), [{k: v for k, v in kw.items() if k in ('column_size', 'row_size', 'n_columns', 'n_rows', 'dut_type')}])[0]
    nc, nr, sx, sy = kw['n_columns'], kw['n_rows'], kw['column_size'], kw['row_size']
    rows = [(ev, b) for ev, bits in case['events'] for b in bits]
    m = len(rows)
    bits = np.array([r[1] for r in rows], 'u8')
    col, row = (1 + bits % np.uint64(nc)).astype('u2'), (1 + (bits >> np.uint64(12)) % np.uint64(nr)).astype('u2')
    rs = np.random.RandomState(m)
    head, tail = [('event_number', '<i8'), ('frame', '<u2')], [('charge', '<f4'), ('uid', '<u4')]
    idx, loc, loc3 = (np.zeros(m, np.dtype(head + d + tail)) for d in ([('column', '<u2'), ('row', '<u2')], [('x', '<f8'), ('y', '<f8')], [('x', '<f8'), ('y', '<f8'), ('z', '<f8')]))
    for a in (idx, loc, loc3):
        a['event_number'], a['uid'], a['charge'] = [r[0] for r in rows], np.arange(m), (bits % np.uint64(91)).astype('f4')
        a['frame'] = np.arange(m) % 65536
    idx['column'], idx['row'] = col, row
    x, y = sx * (col - 0.5 - nc / 2.0), sy * (row - 0.5 - nr / 2.0)
    fwd = case['forward']
    inside = not fwd and not case['roundtrip']
    for a in (loc, loc3):
        a['x'], a['y'] = x + (rs.uniform(-0.49, 0.49, m) * sx if inside else 0), y + (rs.uniform(-0.49, 0.49, m) * sy if inside else 0)
    src, want = (idx, loc) if fwd or case['roundtrip'] else (loc3 if case['arguments'] else loc, idx)
    inp, back = env.path('in.h5'), env.path('back.h5')
    fwd = fwd or case['roundtrip']
    h5.write(inp, [('Hits', src)])
    outp = env.path('in_local_coordinates.h5' if fwd else 'in_index.h5') if case['default_name'] else env.path('out.h5')

    def step(i, o, forward, want):
        def call():
            return hit_analysis.convert_coordinates(dut, i, output_hit_file=o if o != outp or not case['default_name'] else None, index_to_local=forward, chunk_size=case['chunk'])

        def content(v):
            if v != o:
                return 'wrong-return', 'returned %r' % (v,)
            got = h5.snapshot(o)
            if set(got) != {'/Hits'}:
                return 'wrong-nodes', 'nodes %s' % sorted(got)
            d = differs(got['/Hits'][2], want)
            return d and ('wrong-coordinates', 'Hits: %s' % d)
        what = 'convert_coordinates(%s, %d hits, %d x %d pixels of %s x %s um, chunk size %d)' % ('index to local' if forward else 'local to index', m, nc, nr, sx, sy, case['chunk'])
        return S.check_step(env, call, [i], [o], content, case['cfg'], case['fault'], what)
    if step(inp, outp, fwd, want) is None or not case['roundtrip']:
        return
    env.probes['roundtrips'] += 1
    step(outp, back, False, idx)


def shrinks(case):
    yield from S.shrink_common(case)
    yield from S.shrink_events(case, minimum=0)
    for k, v in (('roundtrip', False), ('default_name', False), ('arguments', False), ('align_to_beam', False), ('beam', {}), ('chunk', 100000)):
        if case[k] != v:
            yield dict(case, **{k: v})
    if case['mode'] == 'apply' and len(case['tables']) > 1:
        for t in case['tables']:
            yield dict(case, tables=[t])
    for i, d in enumerate(case['duts']):
        for k in d:
            if ('rotation' in k or 'translation' in k) and d[k]:
                yield dict(case, duts=case['duts'][:i] + [dict(d, **{k: 0.0})] + case['duts'][i + 1:])
