"""P24: correlation and pre-alignment find shifts and inverted axes of the
selected planes; the new configuration is complete or absent."""
import math
import random

import numpy as np
import yaml

from .. import h5, smcwork as W, stepcheck as S, tel

ID = 'P24'
LEVEL = 'exploration'
PLAN = {'quick': {'cases': 450, 'wall': 60}, 'thorough': {'cases': 20000, 'wall': 780}}
WARM = (0, 1)
RULE = ('one case = a telescope whose planes are shifted and may be mounted with inverted axes with respect to their configuration, events of parallel tracks with noise hits and missing hits, '
        'correlated with a drawn resolution and pre-aligned for a drawn selection of planes, where a file operation may fail or the process may die; non-trivial when a selected plane was shifted by more than two bins')
REAL = ['hit_analysis.correlate', 'dut_alignment.prealign', 'tools.analysis_utils.hough_transform', 'telescope.Telescope', 'telescope.dut', 'PyTables/HDF5 and PyYAML on scratch storage',
        'process death (forked image, _exit at a file operation)']
STUB = ['multiprocessing.Pool', 'failing file operations (injected)', 'power loss (bytes that were not synced are cut off before the process dies)']
ASSUMPTIONS = ['the bins of the correlation are not wider than two pixels', 'the planes overlap by more than half and most hits belong to tracks']
KEYS = ['translation_x', 'translation_y', 'translation_z', 'rotation_alpha', 'rotation_beta', 'rotation_gamma']
MIRROR = {'': (1, 1, 1), 'x': (-1, 1, -1), 'y': (1, -1, -1), 'xy': (-1, -1, 1)}


def gen(rng, index, tier):
    n = rng.choice([2, 2, 3, 4])
    ref = rng.randrange(n)
    off = rng.choice([(0.0, 0.0), (0.0, 0.0), (rng.uniform(-300, 300), rng.uniform(-300, 300)), (rng.uniform(-30000, 30000), rng.uniform(-30000, 30000))])
    planes = []
    for i in range(n):
        pix = rng.choice([(50.0, 50.0), (50.0, 50.0), (100.0, 50.0), (40.0, 36.0)])
        size = rng.choice([4000.0, 6000.0]), rng.choice([4000.0, 6000.0])
        planes.append({'pitch': list(pix), 'n': [int(size[0] / pix[0]), int(size[1] / pix[1])], 'x': off[0] + (rng.uniform(-400, 400) if i != ref or rng.random() < 0.5 else 0.0), 'y': off[1] + rng.uniform(-400, 400),
                       'alpha': math.pi * (rng.random() < 0.3) + rng.choice([0.0, 0.0, rng.uniform(-0.02, 0.02)]), 'beta': rng.choice([0.0, 0.0, rng.uniform(-0.3, 0.3)]), 'gamma': rng.choice([0.0, 0.0, 0.0, math.pi / 2, math.pi]) + rng.choice([0.0, rng.uniform(-0.01, 0.01)]),
                       'shift': [rng.uniform(-1200, 1200), rng.uniform(-1200, 1200)] if rng.random() < 0.9 else [0.0, 0.0], 'flip': rng.choice(['', '', 'x', 'y', 'xy']), 'limit': rng.choice([None, None, 'x', 'y', 'both', 'narrow']),
                       'miss': rng.choice([0.0, 0.05, 0.15]), 'noise': rng.choice([0.0, 0.05, 0.1])})
    select = None
    if rng.random() < 0.5:
        select = rng.sample(range(n), rng.randint(1, n))
        if not set(select) - {ref}:
            select = None
    bins = rng.choice([b for b in [(100.0, 100.0), (70.0, 70.0), (80.0, 60.0)] if all(b[k] <= 2 * p['pitch'][k] for p in planes for k in range(2))] or [(70.0, 70.0)])
    return {'data': rng.randrange(1 << 30), 'planes': planes, 'ref': ref, 'select': select, 'bins': list(bins), 'events': rng.choice([1500, 2500]), 'chunk': rng.choice([10 ** 6, 611]), 'reduce': rng.random() < 0.5,
            'clusters': rng.random() < 0.3, 'positions': rng.random() < 0.3, 'name': rng.choice(['given', 'given', 'default', 'existing', 'same']) if rng.random() < 0.9 else 'same', 'empty': rng.random() < 0.04,
            'fault': S.gen_config_fault(rng), 'cfg': dict(W.sched_cfg(rng), line_permille=0)}


def nominal(p, i):
    return {'translation_x': p['x'], 'translation_y': p['y'], 'translation_z': 20000.0 * i, 'rotation_alpha': p['alpha'], 'rotation_beta': p['beta'], 'rotation_gamma': p['gamma']}


def true_frame(p, i, ref):
    t, r = tel.frame(nominal(p, i))
    t, r = np.array(t, 'f8'), np.array(r)
    if i != ref:
        t = t + [p['shift'][0], p['shift'][1], 0.0]
        r = np.diag(MIRROR[p['flip']]).dot(r)
    return t, r


def build(case):
    nrng = np.random.RandomState(case['data'])
    n, ref = case['events'], case['planes'][case['ref']]
    o = np.column_stack([nrng.uniform(-4500, 4500, n) + ref['x'], nrng.uniform(-4500, 4500, n) + ref['y'], np.zeros(n)])
    hits = []
    for i, p in enumerate(case['planes']):
        t, r = true_frame(p, i, case['ref'])
        u, s = (o - t).dot(r), np.array([0, 0, 1.0]).dot(r)
        loc = (u - s * (u[:, 2] / s[2])[:, None])[:, :2]
        pitch, num = np.array(p['pitch']), np.array(p['n'])
        half = pitch * num / 2
        noise = nrng.rand(n) < p['noise']
        loc[noise] = nrng.uniform(-1, 1, (int(noise.sum()), 2)) * half
        inside = np.all(np.abs(loc) < half - 1e-6, axis=1) & (nrng.rand(n) >= p['miss'])
        idx = np.floor(loc / pitch + num / 2.0).astype(int) + 1
        hits.append((np.flatnonzero(inside), loc[inside], idx[inside]))
    return o, hits


def tables(case, hits):
    out = []
    for i, (ev, loc, idx) in enumerate(hits):
        p = case['planes'][i]
        if case['empty']:
            ev, loc, idx = ev[:0], loc[:0], idx[:0]
        centre = (idx - 0.5 - np.array(p['n']) / 2.0) * p['pitch']
        pre = 'mean_' if case['clusters'] else ''
        fields = [('event_number', 'i8')]
        if case['clusters']:
            fields += [('ID', 'u4'), ('n_hits', 'u4'), ('charge', 'f4')]
        else:
            fields += [('frame', 'u1'), ('charge', 'f4')]
        names = ('x', 'y') if case['positions'] else ('column', 'row')
        fields += [(pre + a, 'f8' if case['clusters'] or case['positions'] else 'u2') for a in names]
        a = np.zeros(len(ev), dtype=fields)
        a['event_number'], a['charge'] = ev, 1.0
        for k, name in enumerate(names):
            a[pre + name] = centre[:, k] if case['positions'] else idx[:, k]
        out.append(('Clusters' if case['clusters'] else 'Hits', a))
    return out


def limits(p):
    half = [p['pitch'][k] * p['n'][k] / 2 for k in range(2)]
    lim = [None, None]
    for k, a in enumerate('xy'):
        if p['limit'] in (a, 'both'):
            lim[k] = [-half[k] * 0.95, half[k] * 0.9]
        elif p['limit'] == 'narrow':
            lim[k] = [-half[k] * 0.3, half[k] * 0.25]
    return lim


def seen(case, o, i):
    """Range of the hits of tracks that also cross the reference plane, in the system of plane i."""
    keep = None
    for j in {i, case['ref']}:
        p = case['planes'][j]
        t, r = true_frame(p, j, case['ref'])
        u, s = (o - t).dot(r), np.array([0, 0, 1.0]).dot(r)
        loc = (u - s * (u[:, 2] / s[2])[:, None])[:, :2]
        ok = np.all(np.abs(loc) < np.array(p['pitch']) * p['n'] / 2, axis=1)
        keep = ok if keep is None else keep & ok
        if j == i:
            mine = loc
    return mine[keep]


def run(case, env):
    from beam_telescope_analysis import dut_alignment, hit_analysis
    planes, ref, n = case['planes'], case['ref'], len(case['planes'])
    o, hits = build(case)
    conf, corr = env.path('telescope.yaml'), env.path('Correlated.h5')
    out_name = {'default': env.path('telescope_prealigned.yaml'), 'same': conf}.get(case['name'], env.path('result.yaml'))
    files = []
    for i, (name, a) in enumerate(tables(case, hits)):
        files.append(env.path('hits%d.h5' % i))
        h5.write(files[i], tables=[(name, a)])
    with env.iofault.harness():
        tel.telescope(conf, [dict(nominal(p, i), name='plane %d' % i, column_size=p['pitch'][0], row_size=p['pitch'][1], n_columns=p['n'][0], n_rows=p['n'][1], x_limit=limits(p)[0], y_limit=limits(p)[1], material_budget=0.001 * i)
                              for i, p in enumerate(planes)])
        old = yaml.safe_load(open(conf))
        if case['name'] == 'existing':
            open(out_name, 'w').write(yaml.safe_dump({'TELESCOPE': {'DUT': {}}, 'previous': [1, 2]}))
    selected = sorted(set(range(n) if case['select'] is None else case['select']) - {ref})
    c = env.run(lambda: hit_analysis.correlate(conf, files, output_correlation_file=corr, resolution=tuple(case['bins']), select_duts=list(range(n)), select_reference_duts=ref, plot=False, chunk_size=case['chunk']), case['cfg'], tag='correlate')
    if c.kind != 'ok':
        if case['empty']:
            return
        env.violation('spurious-error', 'correlate fails although nothing went wrong: %s%s' % (c.describe(), S.tb_tail(c)))
        return

    def call():
        return dut_alignment.prealign(conf, corr, output_telescope_configuration=None if case['name'] == 'default' else out_name, select_duts=case['select'] and list(case['select']), select_reference_dut=ref,
                                      reduce_background=case['reduce'], plot=False)

    def compare(value):
        with env.iofault.harness():
            new = yaml.safe_load(open(out_name))
            now = yaml.safe_load(open(conf))
        if value is not None and value != out_name:
            return ('return-value', 'returned %r instead of %r' % (value, out_name))
        if now != old:
            return ('input-changed', 'the input configuration changed')
        a, b = dict(old), dict(new)
        ta, tb = dict(a.pop('TELESCOPE')), dict(b.pop('TELESCOPE'))
        da, db = ta.pop('DUT'), tb.pop('DUT')
        if a != b or ta != tb or sorted(da) != sorted(db):
            return ('other-changed', 'the configuration changed apart from the planes: %r instead of %r' % (dict(b, T=tb), dict(a, T=ta)))
        for i, p in enumerate(planes):
            sel = i in selected
            if sorted(da[i]) != sorted(db[i]):
                return ('other-changed', 'plane %d has settings %s' % (i, sorted(db[i])))
            for k in da[i]:
                if (not sel or k not in KEYS + ['x_limit', 'y_limit'] or k == 'translation_z') and da[i][k] != db[i][k]:
                    return ('other-changed', 'plane %d%s: %s changed from %r to %r' % (i, '' if sel else ' (%s)' % ('reference' if i == ref else 'not selected'), k, da[i][k], db[i][k]))
            if not sel:
                continue
            t, r = true_frame(p, i, ref)
            got, gr = tel.frame(db[i])
            desc = 'plane %d (configured at %s, true position %s, inverted axes %r, reference plane %d, bins %s)' % (i, [da[i][k] for k in KEYS], t.tolist(), p['flip'], ref, case['bins'])
            if np.abs(np.array(gr) - r).max() > 1e-6:
                return ('wrong-orientation', '%s: the new rotation is %s' % (desc, [db[i][k] for k in KEYS[3:]]))
            for k in range(2):
                if not abs(got[k] - t[k]) <= 2.0 * case['bins'][k] + 20:
                    return ('wrong-position', '%s: the new position is %s' % (desc, got.tolist()))
            pos = seen(case, o, i)
            for k, a in enumerate('xy'):
                lim, before = db[i][a + '_limit'], limits(p)[k]
                half = p['pitch'][k] * p['n'][k] / 2
                if lim is None:
                    return ('limits', '%s: no %s limit' % (desc, a))
                lo, hi = (-half, half) if before is None else before
                if lim[0] < lo - 1e-6 or lim[1] > hi + 1e-6:
                    return ('limits', '%s: the %s limit %s is wider than before (%s)' % (desc, a, lim, [lo, hi]))
                want = [max(lo, np.quantile(pos[:, k], 0.02)), min(hi, np.quantile(pos[:, k], 0.98))]
                slack = 0.1 * 2 * half + 2 * max(case['bins'])
                if lim[0] > want[0] + slack or lim[1] < want[1] - slack:
                    return ('limits', '%s: the %s limit %s cuts off a part of the tracks seen by both planes (%s)' % (desc, a, lim, want))
            env.probes['recovered'] += 1
            env.probes['inverted'] += bool(p['flip'])
            env.probes['shifted'] += any(abs(p['shift'][k]) > 2 * case['bins'][k] for k in range(2))
        return None

    def refusal(e):
        return case['name'] == 'same' and isinstance(e, ValueError) or case['empty']
    out = S.check_config_step(env, call, out_name, files + [corr] + ([conf] if case['name'] != 'same' else []), compare, case['fault'], what='prealign', refusal=refusal, cfg=case['cfg'])
    if out is not None and case['name'] == 'same':
        env.violation('overwrites', 'the input configuration was given as output and was overwritten')
    if out is not None and env.probes['shifted']:
        env.nontrivial = True
    env.sig = (n, len(selected), tuple(case['bins']), case['reduce'], tuple(sorted(planes[i]['flip'] for i in selected)))


def shrinks(case):
    if case['fault']:
        yield dict(case, fault=None)
    for i in range(len(case['planes'])):
        if len(case['planes']) > 2 and i != case['ref']:
            sel = None if case['select'] is None else [k - (k > i) for k in case['select'] if k != i]
            if sel is None or set(sel) - {case['ref'] - (case['ref'] > i)}:
                yield dict(case, planes=case['planes'][:i] + case['planes'][i + 1:], ref=case['ref'] - (case['ref'] > i), select=sel)
    for k, v in (('select', None), ('chunk', 10 ** 6), ('clusters', False), ('positions', False), ('name', 'given'), ('reduce', False), ('bins', [100.0, 100.0])):
        if case[k] != v:
            yield dict(case, **{k: v})
    for i, p in enumerate(case['planes']):
        for k, v in (('limit', None), ('flip', ''), ('miss', 0.0), ('noise', 0.0), ('alpha', 0.0), ('beta', 0.0), ('gamma', 0.0), ('shift', [0.0, 0.0]), ('x', 0.0), ('y', 0.0), ('pitch', [50.0, 50.0])):
            if p[k] != v:
                q = dict(p, **{k: v})
                if k == 'pitch':
                    q['n'] = [int(p['pitch'][j] * p['n'][j] / 50.0) for j in range(2)]
                yield dict(case, planes=case['planes'][:i] + [q] + case['planes'][i + 1:])
