"""P25: alignment makes straight tracks straight, for the selected planes only, also after an interrupted run."""
import random
import re

import numpy as np
import yaml

from .. import h5, smcwork as W, stepcheck as S, tel
from .p10 import description, set_hit

ID = 'P25'
LEVEL = 'exploration'
PLAN = {'quick': {'cases': 120, 'wall': 90}, 'thorough': {'cases': 6000, 'wall': 780}}
WARM = (0,)
AFFINE = True
RULE = ('one case = a telescope of 4 to 7 planes displaced by up to 60 um and 6 mrad, events of one or two straight tracks with missing hits, aligned in one or several groups with a drawn choice of parameters and chunk size, '
        'where a file operation may fail or the process may die at any point; the tracks are drawn through the final configuration and must be straight; non-trivial when the planes were displaced and the alignment ran')
REAL = ['dut_alignment.align, align_telescope and calculate_transformation', 'track_analysis.find_tracks and fit_tracks', 'tools.data_selection.select_tracks', 'result_analysis.histogram_track_angle', 'tools.smc',
        'PyTables/HDF5 and PyYAML on scratch storage', 'process death (forked image, _exit at a file operation)']
STUB = ['worker processes run as simulated tasks', 'failing file operations (injected)']
ASSUMPTIONS = ['hits are where a straight track crosses the true planes; tracks of one event are more than 2 mm apart']
KEYS = ['translation_x', 'translation_y', 'translation_z', 'rotation_alpha', 'rotation_beta', 'rotation_gamma']


def gen(rng, index, tier):
    n = [4, 5, 6, 7, 5, 4, 6, 4][index % 8]        # the code is compiled for every number of planes
    duts = list(range(n))
    shape = rng.choice(['flat', 'groups', 'groups', 'groups']) if n > 4 else rng.choice(['flat', 'flat', 'groups'])
    if shape == 'flat':
        tel_duts, rest, out = duts, [], []
        groups = [duts]
    else:
        k = max(3, n - rng.choice([1, 1, 2]))
        tel_duts = sorted(rng.sample(duts, k))
        others = [d for d in duts if d not in tel_duts]
        rng.shuffle(others)
        out = [others.pop()] if others and rng.random() < 0.3 else []
        groups = [tel_duts] + [[d] for d in others]
        if len(groups) > 2 and rng.random() < 0.4:
            groups = [tel_duts, others]
    ends = [min(tel_duts), max(tel_duts)]
    only = None
    if len(groups) > 1 and rng.random() < 0.4:
        # the last group is aligned with a part of the parameters
        only = rng.choice([['translation_x', 'translation_y'], ['translation_x', 'translation_y', 'rotation_gamma']])
    return {'data': rng.randrange(1 << 30), 'n': n, 'groups': groups, 'flat': shape == 'flat', 'fit': tel_duts, 'ends': ends, 'only': only, 'as_list': rng.random() < 0.5, 'scale': rng.choice([1.0, 0.5, 1.0]),
            'events': rng.choice([150, 250, 400]), 'two': rng.choice([0.0, 0.2]), 'miss': rng.choice([0.0, 0.05]), 'shapes': rng.choice([0.0, 0.2]), 'chunk': rng.choice([10 ** 6, 10 ** 6, 170, 250]),
            'flip': rng.choice([None, None, 'x']), 'tilt': rng.choice([0.0, 0.0, 0.2]), 'iterations': rng.choice([3, 4]), 'name': rng.choice(['out', 'default', 'out']), 'existing': rng.random() < 0.3, 'beam': rng.choice([0.0, 2e-3]), 'quality': rng.choice(['default', 'default', 'none', 'list']),
            'fault': gen_fault(rng), 'cfg': dict(W.sched_cfg(rng), line_permille=0)}


def gen_fault(rng):
    r = rng.random()
    if r < 0.45:
        return None
    return {'type': rng.choice(['io', 'io', 'crash', 'crash', 'leftover']), 'pos': rng.random(), 'kind': rng.choice(['EIO', 'ENOSPC', 'ENOMEM']), 'when': rng.choice(['before', 'after', 'torn']), 'sticky': rng.random() < 0.3, 'spread': rng.random() < 0.7}


def build(case):
    rng = random.Random(case['data'])
    n = case['n']
    nominal, true = [], []
    for i in range(n):
        p = {'translation_x': 0.0, 'translation_y': 0.0, 'translation_z': 20000.0 * i + rng.uniform(-3000, 3000), 'rotation_alpha': 0.0, 'rotation_beta': 0.0, 'rotation_gamma': 0.0}
        if case['tilt'] and i in (1, n - 2):
            p['rotation_beta'] = case['tilt'] * rng.choice([-1, 1])
        if case['flip'] and i % 2:
            p['rotation_alpha'] = 3.141592653589793
        t = dict(p)
        s = case['scale']
        # positions along the beam of the planes are only wrong for planes that may move along it
        for k in KEYS:
            if k == 'translation_z':
                continue
            if case['only'] and i in case['groups'][-1] and k not in case['only']:
                continue
            t[k] += rng.uniform(-1, 1) * s * (60.0 if k[0] == 't' else 6e-3)
        nominal.append(p)
        true.append(t)
    rows = []
    for e in range(case['events']):
        two = rng.random() < case['two']
        tracks = []
        for c in ([rng.choice([-1, 1])] if not two else [-1, 1]):
            tracks.append(([c * rng.uniform(1200, 3000), rng.uniform(-2500, 2500), 0.0], [rng.gauss(0, 1e-3) + case['beam'], rng.gauss(0, 1e-3), 1.0]))
        pos = []
        for d in range(n):
            hits = [None if rng.random() < case['miss'] else tuple(tel.cross(true[d], o, s)[0]) for o, s in tracks]
            if two and rng.random() < 0.5:
                hits.reverse()
            pos.append([(h, 63 if d not in case['fit'] and rng.random() < case['shapes'] else 1) for h in hits])
        if all(h[0] is None for d in pos for h in d):
            continue
        for k in range(len(tracks)):
            rows.append((e, [d[k] for d in pos]))
    a = np.zeros(len(rows), description(n))
    for d in range(n):
        for k in ('x', 'y', 'z', 'charge', 'x_err', 'y_err', 'z_err'):
            a['%s_dut_%d' % (k, d)] = np.nan
    for r, (e, hits) in enumerate(rows):
        a['event_number'][r] = e
        for d, (h, shape) in enumerate(hits):
            if h is None:
                continue
            x, y = h
            if shape == 63:
                x += 20.0       # large clusters have a poor position and are not used
            set_hit(a, r, d, x, y, 1)
            a['cluster_shape_dut_%d' % d][r] = shape
            a['x_err_dut_%d' % d][r] = a['y_err_dut_%d' % d][r] = 5.0
    return nominal, true, a


def straightness(case, planes, true, seed):
    """RMS distance (um) of the selected planes' points from the line through the
    points of the fit planes, for straight test tracks."""
    rng = random.Random(seed)
    n = case['n']
    pts = []
    for _ in range(40):
        o = [rng.uniform(-2500, 2500), rng.uniform(-2500, 2500), 0.0]
        s = [rng.gauss(0, 1e-3) + case['beam'], rng.gauss(0, 1e-3), 1.0]
        row = []
        for d in range(n):
            p, _ = tel.cross(true[d], o, s)
            row.append(tel.to_global(planes[d], p[0], p[1]))
        pts.append(row)
    pts = np.array(pts)
    f = case['fit']
    res = np.zeros((n, 2))
    z = pts[:, :, 2]
    zm = z[:, f].mean(axis=1)
    for k in (0, 1):
        v = pts[:, :, k]
        vm = v[:, f].mean(axis=1)
        b = ((z[:, f] - zm[:, None]) * (v[:, f] - vm[:, None])).sum(axis=1) / ((z[:, f] - zm[:, None]) ** 2).sum(axis=1)
        r = v - vm[:, None] - b[:, None] * (z - zm[:, None])
        res[:, k] = np.sqrt((r ** 2).mean(axis=0))
    return res


def run(case, env):
    from beam_telescope_analysis import dut_alignment
    nominal, true, a = build(case)
    n = case['n']
    conf = env.path('telescope_prealigned.yaml')
    outp = env.path('telescope_aligned.yaml' if case['name'] == 'default' else 'out.yaml')
    merged = env.path('merged.h5')
    with env.iofault.harness():
        tel.telescope(conf, [dict(p, name='plane %d' % i) for i, p in enumerate(nominal)])
        old = yaml.safe_load(open(conf))
        if case['existing']:
            # an earlier alignment of the same telescope: the planes to be aligned start from the input again
            tel.telescope(outp, [dict(p, name='plane %d' % i, translation_x=p['translation_x'] + 5000.0 * (i in sum(case['groups'], []))) for i, p in enumerate(nominal)])
    h5.write(merged, [('MergedClusters', a)])
    groups = case['groups']
    params = None
    if case['only']:
        params = [None] * (len(groups) - 1) + [[list(case['only']) for _ in groups[-1]]]
        if case['as_list']:
            params[0] = [None] * len(groups[0])

    def call():
        sel = list(groups[0]) if case['flat'] else [list(g) for g in groups]
        return dut_alignment.align(conf, merged, output_telescope_configuration=None if case['name'] == 'default' else outp, select_duts=sel, alignment_parameters=None if params is None else [None if x is None else [y if y is None else list(y) for y in x] for x in params],
                                   select_telescope_duts=list(case['ends']), select_fit_duts=list(case['fit']) if case['as_list'] or case['flat'] else [list(case['fit']) for _ in groups],
                                   select_hit_duts=[sorted(set(case['fit']) | set(g)) for g in groups], max_iterations=case['iterations'], plot=False, chunk_size=case['chunk'],
                                   **{'default': {}, 'none': {'quality_distances': None, 'isolation_distances': (400.0, 400.0)}, 'list': {'quality_distances': [None] + [(300.0, 200.0)] * (case['n'] - 1), 'isolation_distances': None}}[case['quality']])

    def compare(value):
        with env.iofault.harness():
            new = yaml.safe_load(open(outp))
        if value is not None and value != outp:
            return ('wrong-name', 'returned %r' % (value,))
        tn, to = new['TELESCOPE'], old['TELESCOPE']
        dn, do = tn['DUT'], to['DUT']
        if sorted(dn) != sorted(do):
            return ('other-changed', 'planes %s' % sorted(dn))
        moved = sum(groups, [])
        for i in range(n):
            for k in do[i]:
                # the origin of the coordinate system may move and shift every plane across the beam
                if (k not in KEYS or i not in moved and k not in KEYS[:2]) and dn[i][k] != do[i][k]:
                    return ('other-changed', 'plane %d%s: %s changed from %r to %r' % (i, '' if i in moved else ' (not selected)', k, do[i][k], dn[i][k]))
            if i in case['ends'] and abs(dn[i]['translation_z'] - do[i]['translation_z']) > 1e-6:
                return ('telescope-moved', 'plane %d defines the position along the beam, but moved from %r to %r' % (i, do[i]['translation_z'], dn[i]['translation_z']))
            if case['only'] and i in groups[-1]:
                for k in KEYS[:3]:
                    if k not in case['only'] and abs(dn[i][k] - do[i][k]) > 1e-6:
                        return ('unselected', 'plane %d: %s is not selected, but changed from %r to %r' % (i, k, do[i][k], dn[i][k]))
        res = straightness(case, dn, true, case['data'])
        start = straightness(case, do, true, case['data'])
        # the orientation of a plane that keeps its rotation is only as good as the direction of the axes
        limit = {i: 25.0 if case['only'] and i in groups[-1] else 3.0 for i in moved}
        bad = [i for i in moved if not np.all(res[i] < limit[i])]
        if bad:
            return ('not-straight', 'straight tracks miss the aligned planes %s by %s um (%s before the alignment), displacements %s' % (bad, res[bad].round(3).tolist(), start[bad].round(1).tolist(), [{k: round(true[i][k] - nominal[i][k], 5) for k in KEYS} for i in bad]))
        env.probes['aligned_planes'] += len(moved)
        env.probes['worst_nm'] = max(env.probes['worst_nm'], int(res[moved].max() * 1000))
        return None
    check(env, call, conf, outp, merged, compare, case)
    if env.probes['aligned_planes']:
        env.nontrivial = True
    env.sig = (n, len(groups), case['chunk'], case['existing'], str(case['only']))


def check(env, call, conf, outp, merged, compare, case):
    import os
    fault, cfg = case['fault'], case['cfg']
    ins = {p: h5.sha(p) for p in (conf, merged)}
    with env.iofault.harness():
        initial = open(outp, 'rb').read() if os.path.exists(outp) else None
    keep = {os.path.basename(p) for p in (conf, outp, merged)}

    def good(out, desc):
        if out.kind == 'hang':
            env.violation('hang', '%s does not return: %s' % (desc, out.error))
        elif out.kind == 'error':
            env.violation('spurious-error' if desc == 'align' else 'not-repeatable', '%s fails: %s%s' % (desc, out.describe(), S.tb_tail(out)))
        elif S._bad_state(env, out, ins, desc, False):
            pass
        else:
            d = S.guarded(compare, out.value)
            if d:
                env.violation(d[0], '%s: %s' % (desc, d[1]))
                return False
            extra = sorted(set(os.listdir(env.dir)) - keep)
            if extra:
                env.violation('stray-file', '%s leaves additional files %s' % (desc, extra))
                return False
            return True
        return False
    out = env.run(call, cfg, tag='align', text=True)
    env.probes['steps_io'] += out.io.n
    if not good(out, 'align') or not fault:
        return
    with env.iofault.harness():
        if initial is None:
            os.remove(outp)
        else:
            open(outp, 'wb').write(initial)
    n = out.io.n
    at = min(int(fault['pos'] * n), n - 1)
    if fault.get('spread'):
        # every kind of file has the same weight, whatever the number of its operations
        files = {}
        for i, op, target, node in out.io.ops:
            files.setdefault(re.sub(r'\d+', '', str(target)), []).append(i)
        x = fault['pos'] * len(files)
        where = files[sorted(files)[int(x)]]
        at = where[int((x - int(x)) * len(where))]
    if fault['type'] == 'leftover':
        # the process died while it wrote one of its temporary files; nothing of the content had reached the storage
        temp = sorted({str(t) for _, _, t, _ in out.io.ops if str(t).endswith('.h5')} - keep)
        name = temp[int(fault['pos'] * len(temp))]
        with env.iofault.harness():
            open(env.path(name), 'wb').write(b'\0' * int(fault['pos'] * 1e5) if fault['sticky'] else b'')
            if initial is None:
                open(outp, 'wb').write(open(conf, 'rb').read())
        env.stats['fault.torn_file_left'] += 1
        desc = 'align repeated after the process died while it wrote %s' % name
    elif fault['type'] == 'crash':
        r = env.crash_run(call, at, cfg, text=True)
        env.probes['crash_' + str(r)] += 1
        desc = 'align repeated after the process died at file operation %d of %d' % (at, n)
    else:
        fo = env.run(call, cfg, faults=[{'at': at, 'kind': fault['kind'], 'when': fault['when'], 'sticky': fault['sticky']}], tag='align with fault', text=True)
        desc = 'align with injected fault %s (operation %d of %d)' % (fo.io.fired and fo.io.fired[0], at, n)
        if fo.kind == 'hang' or fo.kind == 'error' and not fo.fired:
            env.violation('hang' if fo.kind == 'hang' else 'spurious-error', '%s: %s' % (desc, fo.describe()))
            return
        if fo.kind == 'ok':
            d = S.guarded(compare, fo.value)
            if d:
                env.violation('silent-failure' if fo.fired else d[0], '%s returned normally, but %s' % (desc, d[1]))
            return
        env.probes['failed_loudly'] += 1
        if S._bad_state(env, fo, ins, desc, False):
            return
        desc = 'align repeated after a failure (%s)' % (fo.io.fired and fo.io.fired[0],)
    for p, s in ins.items():
        if not os.path.exists(p) or h5.sha(p) != s:
            env.violation('input-changed', '%s: the input file %s differs' % (desc, os.path.basename(p)))
            return
    # whatever the interrupted run left behind must not matter
    if os.path.exists(outp):
        try:
            with env.iofault.harness():
                yaml.safe_load(open(outp))['TELESCOPE']['DUT']
        except Exception as e:
            env.violation('broken-file', '%s: the configuration left behind cannot be read: %s' % (desc, str(e)[:200]))
            return
    good(env.run(call, cfg, tag='align again', text=True), desc)


def shrinks(case):
    if case['fault']:
        yield dict(case, fault=None)
    for k, v in (('two', 0.0), ('miss', 0.0), ('shapes', 0.0), ('tilt', 0.0), ('flip', None), ('existing', False), ('beam', 0.0), ('chunk', 10 ** 6), ('only', None), ('events', 150)):
        if case[k] != v:
            yield dict(case, **{k: v})
    for c in S.shrink_common(dict(case, fault=None)):
        yield dict(c, fault=case['fault'])
