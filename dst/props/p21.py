"""P21: steps over several planes treat each file exactly as the single-plane step."""
import numpy as np

from .. import h5, smcwork as W, stepcheck as S, tel

ID = 'P21'
LEVEL = 'exploration'
PLAN = {'quick': {'cases': 600, 'wall': 70}, 'thorough': {'cases': 40000, 'wall': 780}}
WARM = (0, 1, 2, 3)
RULE = ('one case = a telescope of 2 to 4 different planes, a selection of planes in any order with one hit file each, common or per-plane parameters, one of the steps convert, check, mask, cluster; '
        'chunk size, core count and schedule, optionally one injected fault, failing worker or process death, or an invalid selection; each output file is compared with that of the single-plane step '
        'called with the parameters of that plane; non-trivial when more than one plane was selected')
REAL = ['hit_analysis.convert, check, mask, cluster and the single-plane functions they call', 'tools.smc.SMC', 'pixel_clusterizer (third party)', 'PyTables/HDF5 on scratch files', 'process death (forked image, _exit at an I/O step)']
STUB = ['multiprocessing.Pool', 'threading primitives and timed waits', 'failing PyTables calls and workers (injected)']
ASSUMPTIONS = ['what the single-plane functions do is decided by P05, P06, P07 and P14']
STEPS = ['convert', 'check', 'mask', 'cluster']

WRONG = [(s, i, more) for more in (1, 0) for s, n in (('check', 2), ('mask', 5), ('cluster', 8)) for i in range(n)]  # argument lists of the wrong length, per parameter


def gen(rng, index, tier):
    step = STEPS[index] if index < 4 else rng.choice(STEPS)
    wrong = WRONG[index - 4] if 4 <= index < 4 + len(WRONG) else None
    if wrong:
        step = wrong[0]
    n = rng.choice([2, 3, 3, 4])
    duts = [{'column_size': rng.choice([250.0, 50.0, 18.4]), 'row_size': rng.choice([50.0, 18.4]), 'n_columns': rng.choice([4, 8, 12]), 'n_rows': rng.choice([6, 9, 15])} for _ in range(n)]
    sel = rng.choice([None, rng.sample(range(n), rng.randint(1, n)), rng.sample(range(n), n)])
    order = list(range(n)) if sel is None else sel
    files = []
    for d in order:
        ev, events = rng.choice([0, 1, 2 ** 33]), []
        for _ in range(rng.choice([1, 3, 10, 20])):
            pix = {(rng.randint(1, duts[d]['n_columns']), rng.randint(1, duts[d]['n_rows'])) for _ in range(rng.choice([1, 1, 2, 4]))}
            events.append([ev, [[c, r, rng.choice([1.0, 2.0, 3.5, 9.0]), rng.choice([0, 0, 1])] for c, r in sorted(pix)]])
            ev += rng.choice([1, 1, 2, 7])
        files.append(events)
    mx = max(len(e[1]) for f in files for e in f)
    k = len(order)

    def par(choices, lists=True):
        return rng.choice(choices) if not lists or rng.random() < 0.4 else {'per': [rng.choice(choices) for _ in range(k)]}
    p = {'convert': lambda: {'index_to_local': rng.random() < 0.6},
         'check': lambda: {'event_ranges': par([1, 2, 5]), 'resolutions': par([None, [100.0, 50.0], [250.0, 36.8]], lists=rng.random() < 0.5) if rng.random() < 0.7 else None},
         'mask': lambda: {'pixel_mask_names': par(['NoisyPixelMask', 'DisabledPixelMask']), 'iterations': par([None, 1, 3]), 'thresholds': par([0.5, 1.0, 3.0]), 'filter_sizes': par([2, 3, 5])},
         'cluster': lambda: {'use_positions': par([None, False]), 'min_hit_charges': par([None, 0.0, 1.0]), 'max_hit_charges': par([None, 5.0, 13.0]), 'charge_corrections': par([None, 1, 2]),
                             'charge_weighted_clustering': par([True, False]), 'column_cluster_distances': par([1, 2]), 'row_cluster_distances': par([1, 2, 3]), 'frame_cluster_distances': par([0, 1])}}[step]()
    if step == 'check' and isinstance(p['resolutions'], list):
        p['resolutions'] = {'per': [p['resolutions']] * k}
    disable = [rng.sample(range(duts[d]['n_columns'] * duts[d]['n_rows']), rng.choice([0, 1, 5])) for d in order] if step == 'mask' and rng.random() < 0.4 else None
    if disable:  # a given mask is stored as DisabledPixelMask, it cannot be combined with a calculated one
        p['pixel_mask_names'] = 'NoisyPixelMask'
    return {'step': step, 'duts': duts, 'select': sel, 'files': files, 'params': p, 'names': rng.random() < 0.6, 'masks': step == 'cluster' and rng.random() < 0.4,
            'invalid': 'param' if wrong else rng.choice(['beyond', 'negative', 'few', 'many', 'outputs', 'param', 'param', 'param', 'masks']) if index >= 4 and rng.random() < 0.2 else None,
            'which': wrong[1:] if wrong else [rng.randint(0, 20), rng.randint(0, 2)], 'disable': disable,
            'chunk': rng.choice([mx + 1, mx + 2, 20, 100000]) if mx < 19 else 100000, 'fault': S.gen_fault(rng, workers=step in ('mask', 'cluster'), p_none=0.65, p_crash=0.1) if index >= 4 else None,
            'cfg': W.sched_cfg(rng)}


SINGLE = {'event_ranges': 'event_range', 'resolutions': 'resolution', 'pixel_mask_names': 'pixel_mask_name', 'thresholds': 'threshold', 'filter_sizes': 'filter_size', 'min_hit_charges': 'min_hit_charge',
          'max_hit_charges': 'max_hit_charge', 'charge_corrections': 'charge_correction', 'column_cluster_distances': 'column_cluster_distance', 'row_cluster_distances': 'row_cluster_distance',
          'frame_cluster_distances': 'frame_cluster_distance'}
FUNC = {'convert': ('convert_coordinates', 'output_hit_file'), 'check': ('check_file', 'output_check_file'), 'mask': ('mask_pixels', 'output_mask_file'), 'cluster': ('cluster_hits', 'output_cluster_file')}
SUFFIX = {'check': '_check.h5', 'mask': '_mask.h5', 'cluster': '_clustered.h5'}


def value(v, i):
    return v['per'][i] if isinstance(v, dict) else v


def table(case, events, d):
    rows = [(e[0], h[3], h[0], h[1], h[2]) for e in events for h in e[1]]
    local = case['step'] == 'convert' and not case['params']['index_to_local']
    a = np.zeros(len(rows), [('event_number', '<i8'), ('frame', '<u1')] + ([('x', '<f8'), ('y', '<f8')] if local else [('column', '<u2'), ('row', '<u2')]) + [('charge', '<f4')])
    for i, r in enumerate(rows):
        a['event_number'][i], a['frame'][i], a['charge'][i] = r[0], r[1], r[4]
        if local:
            a['x'][i], a['y'][i] = d['column_size'] * (r[2] - 0.5 - d['n_columns'] / 2.0), d['row_size'] * (r[3] - 0.5 - d['n_rows'] / 2.0)
        else:
            a['column'][i], a['row'][i] = r[2], r[3]
    return a


def run(case, env):
    from beam_telescope_analysis import hit_analysis as ha
    step, duts = case['step'], case['duts']
    conf = env.path('telescope.yaml')
    tel.telescope(conf, duts)
    order = list(range(len(duts))) if case['select'] is None else case['select']
    k = len(order)
    name, out_arg = FUNC[step]
    inp = [env.path('plane_%d.h5' % i) for i in range(k)]
    for i, d in enumerate(order):
        h5.write(inp[i], [('Hits', table(case, case['files'][i], duts[d]))])
    masks = None
    if case['masks']:
        masks = [env.path('pixels_%d.h5' % i) for i in range(k)]
        for i, d in enumerate(order):
            m = np.zeros((duts[d]['n_columns'], duts[d]['n_rows']), bool)
            m[i % m.shape[0], :] = True
            h5.write(masks[i], (), [('DisabledPixelMask', m)])
    disable = None
    if case['disable']:
        disable = []
        for i, d in enumerate(order):
            m = np.zeros((duts[d]['n_columns'], duts[d]['n_rows']), bool)
            m.flat[case['disable'][i]] = True
            disable.append(m)
    suffix = SUFFIX.get(step) or ('_local_coordinates.h5' if case['params']['index_to_local'] else '_index.h5')
    outp = [env.path('result_%d.h5' % i) if case['names'] else inp[i][:-3] + suffix for i in range(k)]
    extra = {} if step == 'convert' else {'plot': False}
    want = []
    if not case['invalid']:
        for i, d in enumerate(order):
            kw = {SINGLE.get(p, p): value(v, i) for p, v in case['params'].items()}
            if masks:
                kw['input_mask_file'] = masks[i]
            if disable:
                kw['disable_mask'] = disable[i]
            ref = env.path('reference_%d.h5' % i)
            kw[out_arg] = ref
            r = env.run(lambda: getattr(ha, name)(dut=tel.dut(name='DUT%d' % d, **duts[d]), input_hit_file=inp[i], chunk_size=case['chunk'], **kw, **extra), None, tag='reference')
            if r.kind != 'ok':
                env.violation('spurious-error', '%s of plane %d with %s: %s%s' % (name, d, kw, r.describe(), S.tb_tail(r)))
                return
            want.append(h5.snapshot(ref))
    kwargs = {p: list(v['per']) if isinstance(v, dict) else v for p, v in case['params'].items()}
    select, files, outs = case['select'] and list(case['select']), list(inp), list(outp) if case['names'] else None
    bad = case['invalid']
    if bad == 'beyond':
        select = order[:-1] + [len(duts)]
    elif bad == 'negative':
        select = [-1] + order[1:]
    elif bad == 'few':
        files = files[:-1]
    elif bad == 'many':
        files = files + [inp[0]]
    elif bad == 'outputs':
        outs = (outs or list(outp)) + [env.path('more.h5')]
    elif bad == 'param':
        names = sorted(kwargs) + ([] if step != 'mask' else ['disable_masks'])
        p = names[case['which'][0] % len(names)]
        if step == 'convert':
            files = []
        else:
            one = np.zeros((duts[order[0]]['n_columns'], duts[order[0]]['n_rows']), bool) if p == 'disable_masks' else value(case['params'][p], 0)
            kwargs[p] = [one] * (k + 1 if k == 1 or case['which'][1] else k - 1)
    if disable and bad != 'param':
        kwargs['disable_masks'] = list(disable)
    if masks:
        kwargs['input_mask_files'] = list(masks)
    if bad == 'masks':
        if step == 'cluster':
            kwargs['input_mask_files'] = (masks or [None] * k) + [None]
        else:
            files = files + [inp[-1]]

    def call():
        return getattr(ha, step)(conf, files, select_duts=select, chunk_size=case['chunk'], **{out_arg + 's': outs}, **kwargs, **extra)

    def content(v):
        if list(v) != outp:
            return 'wrong-return', 'returned %r, expected %r' % (v, outp)
        for i, d in enumerate(order):
            e = h5.compare_snapshots(h5.snapshot(outp[i]), want[i], what=('the output for file %d (plane %d)' % (i, d), name))
            if e:
                return 'wrong-plane', e
        return None
    what = '%s(select_duts=%s of %d planes, %s, chunk size %d)' % (step, select, len(duts), kwargs, case['chunk'])
    env.sig = [step, case['select'], case['duts'], case['files'], case['params'], case['chunk'], case['invalid'], case['disable'], case['fault']]
    inputs = inp + [conf] + (masks or [])
    if bad:
        before = {p: h5.sha(p) for p in inputs}
        out = env.run(call, case['cfg'], tag=what)
        env.probes['invalid_selection'] += 1
        if out.kind == 'ok':
            env.violation('silent-failure', '%s with %d input and %s output files returned normally although the arguments do not fit (%s)' % (what, len(files), outs and len(outs), bad))
        else:
            S._bad_state(env, out, before, what, False)
        return
    env.nontrivial = k > 1
    S.check_step(env, call, inputs, outp, content, case['cfg'], case['fault'], what)


def shrinks(case):
    yield from S.shrink_common(case)
    for i, t in enumerate(case['files']):
        for c in S.shrink_events(case={'e': t}, key='e', minimum=1):
            yield dict(case, files=case['files'][:i] + [c['e']] + case['files'][i + 1:])
    for k, v in (('masks', False), ('disable', None), ('names', True), ('chunk', 100000)):
        if case[k] != v:
            yield dict(case, **{k: v})
