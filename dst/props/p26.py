"""P26: the Kalman alignment is a sequential filter over the tracks, for the
selected planes and parameters only; an interrupted alignment can be repeated."""
import os
import random
import re

import numpy as np
import yaml

from .. import h5, kalref, smcwork as W, stepcheck as S, tel
from .p10 import description, set_hit

ID = 'P26'
LEVEL = 'exploration'
PLAN = {'quick': {'cases': 160, 'wall': 70}, 'thorough': {'cases': 8000, 'wall': 780}}
WARM = (0,)
AFFINE = True
RULE = ('one case = a telescope of 3 to 6 planes displaced by up to 60 um and 4 mrad, straight tracks with missing hits and wrong hits, aligned by the Kalman filter in one or two groups with a drawn choice of parameters, errors, annealing, '
        'cut on chi2 and maximum number of tracks, where a file operation may fail or the process may die; every step of the filter is compared with an independent model; non-trivial when the filter changed a plane')
REAL = ['dut_alignment.align_kalman', 'track_analysis.find_tracks and the Kalman track fit', 'tools.kalman', 'telescope.Telescope', 'PyTables/HDF5 and PyYAML on scratch storage', 'process death (forked image, _exit at a file operation)']
STUB = ['failing file operations (injected)']
ASSUMPTIONS = ['events have one track', 'the alignment parameters are given per plane of the telescope']
TR = ['translation_x', 'translation_y', 'translation_z']
RO = ['rotation_alpha', 'rotation_beta', 'rotation_gamma']
KEYS = TR + RO
XYG = ['translation_x', 'translation_y', 'rotation_gamma']


def gen(rng, index, tier):
    n = [4, 5, 3, 6, 4, 5, 3, 4][index % 8]        # the code is compiled for every number of planes
    duts = list(range(n))
    two = n > 3 and rng.random() < 0.5
    rest = [rng.randrange(1, n - 1)] if two else []
    first = [d for d in duts if d not in rest]
    groups = [first] + ([rest] if rest and rng.random() < 0.7 else [])
    params = [rng.choice([XYG, XYG, TR[:2], KEYS, KEYS, TR[:2] + RO, ['rotation_gamma'], [KEYS[rng.randrange(6)]]]) for _ in duts] if rng.random() < 0.6 else rng.choice([None, [XYG] * n, [XYG] * n, [KEYS] * n])
    return {'data': rng.randrange(1 << 30), 'n': n, 'groups': groups, 'fit': first, 'params': params, 'errors': rng.choice([[200.0, 200.0, 2000.0, 50e-3, 50e-3, 50e-3], [100.0, 150.0, 500.0, 5e-3, 5e-3, 20e-3]]),
            'tracks': rng.choice([20, 40, 60, 150]), 'err': rng.choice([3.0, 5.0]), 'miss': rng.choice([0.0, 0.1]), 'miss_fit': rng.choice([0.0, 0.05]), 'wrong': rng.choice([0.0, 0.1]), 'chi2': rng.choice(['5', '5', 'list', 'none', 'zero', 'groups']),
            'annealing': [rng.choice([100, 10000]), rng.choice([10, 30, 60])], 'max': rng.choice([10000, 10000, 15]), 'exact_hit': rng.random() < 0.3, 'scale': rng.choice([1.0, 1.0, 0.3]),
            'existing': rng.random() < 0.25, 'name': rng.choice(['out', 'default']), 'old_file': rng.random() < 0.3, 'energy': rng.choice([2500.0, 5000.0]), 'budget': rng.choice([0.0007, 0.003]), 'fault': gen_fault(rng), 'cfg': dict(W.sched_cfg(rng), line_permille=0)}


def gen_fault(rng):
    if rng.random() < 0.4:
        return None
    return {'type': rng.choice(['io', 'io', 'crash', 'crash', 'leftover']), 'pos': rng.random(), 'kind': rng.choice(['EIO', 'ENOSPC', 'ENOMEM']), 'when': rng.choice(['before', 'after', 'torn']), 'sticky': rng.random() < 0.3}


def build(case):
    rng = random.Random(case['data'])
    n = case['n']
    nominal, true = [], []
    ends = (case['fit'][0], case['fit'][-1])
    for i in range(n):
        p = {'translation_x': 0.0, 'translation_y': 0.0, 'translation_z': 20000.0 * i + rng.uniform(-2000, 2000), 'rotation_alpha': 0.0, 'rotation_beta': 0.0, 'rotation_gamma': 0.0}
        t = dict(p)
        if i not in ends:
            for k in TR[:2] + ['rotation_gamma']:
                t[k] += rng.uniform(-1, 1) * case['scale'] * (60.0 if k in TR else 4e-3)
        nominal.append(p)
        true.append(t)
    a = np.zeros(case['tracks'], description(n))
    for d in range(n):
        for k in ('x', 'y', 'z', 'charge', 'x_err', 'y_err', 'z_err'):
            a['%s_dut_%d' % (k, d)] = np.nan
    keep = []
    for e in range(case['tracks']):
        o = [rng.uniform(-6000, 6000), rng.uniform(-6000, 6000), 0.0]
        s = [rng.gauss(0, 1e-3), rng.gauss(0, 1e-3), 1.0]
        wrong = rng.randrange(n) if rng.random() < case['wrong'] else None
        some = False
        for d in range(n):
            if rng.random() < (case['miss_fit'] if d in case['fit'] else case['miss']):
                continue
            p = tel.cross(true[d], o, s)[0]
            w = 300.0 if d == wrong else 0.0
            set_hit(a, e, d, p[0] + rng.gauss(0, case['err']) + w, p[1] + rng.gauss(0, case['err']) - w, 1)
            a['x_err_dut_%d' % d][e] = a['y_err_dut_%d' % d][e] = case['err']
            a['cluster_shape_dut_%d' % d][e] = 1
            some = True
        a['event_number'][e] = e
        keep.append(some)
    return nominal, true, a[keep]


def cut_of(case, index):
    return {'5': 5.0, 'list': 5.0, 'none': None, 'zero': 0.0, 'groups': [5.0, 20.0][index]}[case['chi2']]


def rot(a, b, c):
    from ..tel import frame
    return np.array(frame(dict(zip(KEYS, [0.0, 0.0, 0.0, a, b, c])))[1])


def angles(r):
    return np.array([np.arctan2(r[2, 1], r[2, 2]), -np.arcsin(r[2, 0]), np.arctan2(r[1, 0], r[0, 0])])


def model(case, start, a, index, settings):
    """Rows of every plane (position, errors, annealing factor), chi2 of every track,
    number of accepted tracks and the maximal rows: the filter, step by step."""
    n = case['n']
    group = case['groups'][index]
    need = sum(1 << d for d in set(case['fit']) | set(group))
    rows = a[(a['hit_flag'] & need) == need]
    x = np.zeros((n, 6))
    cov = np.zeros((n, 6, 6))
    for d in group:
        names = KEYS if case['params'] is None else case['params'][d]
        for k, name in enumerate(KEYS):
            if name in names and not (d in (case['fit'][0], case['fit'][-1]) and name != 'rotation_gamma'):
                cov[d, k, k] = case['errors'][k] ** 2
    pos0 = np.array([[p[k] for k in KEYS[:3]] for p in start])
    rot0 = [rot(*[p[k] for k in RO]) for p in start]
    used = np.zeros(n, int)
    out = {'pos': [], 'rot': [], 'err': [], 'ann': [], 'chi2': [], 'prob': [], 'stop': False}
    factor, over = case['annealing']
    cut = cut_of(case, index)
    for row in rows:
        mats, alpha, planes = [], np.zeros(n), []
        for d in range(n):
            mats.append(rot(*x[d, 3:]).T.dot(rot0[d]))
            planes.append(dict(settings[d], **dict(zip(KEYS, list(pos0[d] + x[d, :3]) + list(angles(mats[d]))))))
            alpha[d] = factor ** ((over - used[d]) / float(over)) if used[d] < over else 1.0
        hits, errs = (np.array([[row['%s%s_dut_%d' % (k, e, d)] for k in 'xy'] for d in range(n)], dtype='f8') for e in ('', '_err'))
        out['pos'].append([pos0[d] + x[d, :3] for d in range(n)])
        out['rot'].append(mats)
        out['err'].append(np.sqrt([np.diag(c) for c in cov]))
        out['ann'].append(alpha.copy())
        t = kalref.fit(planes, hits, errs, case['fit'], case['energy'], 0.511, alpha=alpha)
        out['chi2'].append(t['red'])
        out['prob'].append(t['prob'])
        if cut and t['red'] > cut:
            continue
        for d in range(n):
            if np.isnan(hits[d, 0]):
                continue
            u, w, tu, tw = t['state'][d]
            # residual of the hit when the plane moves along and turns about its axes; movements are given in the system of the telescope
            jac = np.array([[-1.0, 0.0, tu, -w * tu, u * tu, -w], [0.0, -1.0, tw, -w * tw, u * tw, u]])
            jac[:, :3] = jac[:, :3].dot(mats[d].T)
            gain = cov[d].dot(jac.T).dot(np.linalg.inv(t['noise'][d] + t['cov'][d, :2, :2] + jac.dot(cov[d]).dot(jac.T)))
            step = gain.dot(hits[d] - t['state'][d, :2])
            if np.any(np.abs(step) > 0.05 * np.sqrt(np.diag(cov[d]))):
                continue        # too large a step
            x[d] += step
            cov[d] = cov[d] - gain.dot(jac).dot(cov[d].T)
            used[d] += 1
        if used.min() > case['max']:
            out['stop'] = True
            break
    out['used'] = used
    return out


def run(case, env):
    from beam_telescope_analysis import dut_alignment
    nominal, true, a = build(case)
    n, groups = case['n'], case['groups']
    conf = env.path('telescope_prealigned.yaml')
    default = case['name'] == 'default'
    outp = env.path('telescope_aligned_kalman.yaml' if default else 'out.yaml')
    merged, result = env.path('merged.h5'), env.path('merged_KFA_alignment.h5' if default else 'kfa.h5')
    moved = sum(groups, [])
    settings = [dict(p, name='plane %d' % i, material_budget=case['budget'], column_size=50.0, row_size=50.0, n_columns=400, n_rows=400) for i, p in enumerate(nominal)]
    base = [dict(p) for p in nominal]
    with env.iofault.harness():
        tel.telescope(conf, settings)
        old = yaml.safe_load(open(conf))
        if case['existing']:
            # an earlier alignment of the same telescope: the planes to be aligned start from the input again, the other planes stay
            other = [dict(s, translation_x=nominal[i]['translation_x'] + (500.0 if i in moved else 3.0)) for i, s in enumerate(settings)]
            tel.telescope(outp, other)
            for i in range(n):
                if i not in moved:
                    base[i]['translation_x'] += 3.0
        if case['old_file']:
            open(result, 'wb').write(b'not an HDF5 file')
    h5.write(merged, [('MergedClusters', a)])
    chi2 = {'5': 5.0, 'list': [5.0] * len(groups), 'none': None, 'zero': 0.0, 'groups': [5.0, 20.0][:len(groups)]}[case['chi2']]

    def call():
        return dut_alignment.align_kalman(conf, merged, output_telescope_configuration=None if default else outp, output_alignment_file=None if default else result, select_duts=[list(g) for g in groups] if len(groups) > 1 or len(groups[0]) < n else list(groups[0]),
                                          alignment_parameters=None if case['params'] is None else [[list(p) for p in case['params']] for _ in groups], alignment_parameters_errors=list(case['errors']), select_telescope_duts=[case['fit'][0], case['fit'][-1]],
                                          select_fit_duts=[list(case['fit']) for _ in groups], select_hit_duts=[sorted(set(case['fit']) | set(g)) for g in groups], beam_energy=case['energy'], particle_mass=0.511, track_chi2=chi2,
                                          annealing_factor=case['annealing'][0], annealing_tracks=case['annealing'][1], max_tracks=case['max'], plot=False)

    expected = []

    def steps():
        """The model of every group, from where the one before ended."""
        if expected:
            return expected
        start = base
        for g in range(len(groups)):
            m = model(case, start, a, g, settings)
            expected.append(m)
            if m['pos']:
                start = [dict(zip(KEYS, list(m['pos'][-1][d]) + list(angles(m['rot'][-1][d])))) for d in range(n)]
        return expected

    def compare(value):
        with env.iofault.harness():
            new = yaml.safe_load(open(outp))
        if value is not None and value != outp:
            return ('wrong-name', 'returned %r' % (value,))
        dn, do = new['TELESCOPE']['DUT'], old['TELESCOPE']['DUT']
        if sorted(dn) != sorted(do):
            return ('other-changed', 'planes %s' % sorted(dn))
        for i in range(n):
            for k in do[i]:
                want = base[i][k] if k in KEYS else do[i][k]
                if (k not in KEYS or i not in moved) and dn[i][k] != want and (k not in KEYS or abs(dn[i][k] - want) > 1e-9):
                    return ('other-changed', 'plane %d%s: %s changed from %r to %r' % (i, '' if i in moved else ' (not selected)', k, want, dn[i][k]))
            fixed = [k for k in KEYS if case['params'] is not None and k not in case['params'][i]]
            if i in (case['fit'][0], case['fit'][-1]):
                fixed = sorted(set(fixed) | set(KEYS[:5]))
            # with other rotations the angles are not independent
            for k in fixed:
                if i in moved and (k in TR or set(fixed) >= set(RO) or set(RO) - set(fixed) == {'rotation_gamma'}) and abs(dn[i][k] - base[i][k]) > 1e-9 * max(1, abs(base[i][k])):
                    return ('unselected', 'plane %d: %s is fixed, but changed from %r to %r' % (i, k, base[i][k], dn[i][k]))
        tabs = []
        for i in range(n):
            t = h5.node(result, 'Alignment_DUT%d' % i)
            tabs.append(t)
        c = h5.node(result, 'TrackChi2')
        prob = h5.node(result, 'TrackpValue')
        if len({len(t) for t in tabs}) > 1 or len(tabs[0]) != len(c) or len(prob) != len(c):
            return ('rows', 'planes have %s rows, chi2 has %d' % ([len(t) for t in tabs], len(c)))
        last = -1
        if len(c):
            for i in range(n):
                r = np.array(tel.frame(dn[i])[1]), np.array(tel.frame({k: tabs[i][k][last] for k in KEYS})[1])
                if any(abs(dn[i][k] - tabs[i][k][last]) > 1e-6 for k in TR) or np.abs(r[0] - r[1]).max() > 1e-9:
                    return ('configuration', 'plane %d of the configuration is not where the last step of the alignment has it: %s, %s' % (i, [dn[i][k] for k in KEYS], [tabs[i][k][last] for k in KEYS]))
        exp = steps()
        total = sum(len(m['pos']) for m in exp)
        if total != len(c):
            return ('rows', '%d rows for %d tracks with all required hits' % (len(c), total))
        k = 0
        for g, m in enumerate(exp):
            for j in range(len(m['pos'])):
                if not close(c[k], m['chi2'][j]):
                    return ('chi2', 'group %d, track %d: chi2 is %r, expected %r' % (g, j, c[k], m['chi2'][j]))
                if abs(prob[k] - m['prob'][j]) > 1e-5:
                    return ('chi2', 'group %d, track %d: p-value is %r, expected %r' % (g, j, prob[k], m['prob'][j]))
                for i in range(n):
                    row = tabs[i][k]
                    got = np.array([row[q] for q in KEYS])
                    if not (np.all(np.isfinite(got)) and np.abs(got[:3] - m['pos'][j][i]).max() < 1e-3 and np.abs(rot(*got[3:]) - m['rot'][j][i]).max() < 1e-6):
                        return ('step', 'group %d, track %d: plane %d is at %s, expected %s' % (g, j, i, got.tolist(), list(m['pos'][j][i]) + angles(m['rot'][j][i]).tolist()))
                    err = np.array([row[q + '_err'] for q in KEYS])
                    if not all(close(x, y, 1e-4) for x, y in zip(err, m['err'][j][i])):
                        return ('error', 'group %d, track %d: errors of plane %d are %s, expected %s' % (g, j, i, err.tolist(), m['err'][j][i].tolist()))
                    if not close(row['annealing_factor'], m['ann'][j][i]):
                        return ('annealing', 'group %d, track %d: annealing factor of plane %d is %r, expected %r' % (g, j, i, row['annealing_factor'], m['ann'][j][i]))
                k += 1
            env.probes['steps'] += len(m['pos'])
            env.probes['stopped'] += m['stop']
        env.probes['changed'] += any(np.abs(np.array([row[q] for q in KEYS]) - [base[i][q] for q in KEYS]).max() > 0 for i in moved for row in tabs[i][-1:])
        return None
    check(env, call, conf, outp, merged, result, compare, case)
    if env.probes['changed']:
        env.nontrivial = True
    env.sig = (n, len(groups), case['chi2'], case['existing'], case['max'], str(case['params'])[:40])


def close(a, b, tol=1e-5):
    return abs(a - b) <= tol * max(abs(a), abs(b)) + 1e-9


def check(env, call, conf, outp, merged, result, compare, case):
    fault, cfg = case['fault'], case['cfg']
    ins = {p: h5.sha(p) for p in (conf, merged)}

    def read(p):
        with env.iofault.harness():
            return open(p, 'rb').read() if os.path.exists(p) else None
    initial = {p: read(p) for p in (outp, result)}
    keep = {os.path.basename(p) for p in (conf, outp, merged, result)}

    def good(out, desc):
        if out.kind == 'hang':
            env.violation('hang', '%s does not return: %s' % (desc, out.error))
        elif out.kind == 'error':
            env.violation('spurious-error' if desc == 'align_kalman' else 'not-repeatable', '%s fails: %s%s' % (desc, out.describe(), S.tb_tail(out)))
        elif S._bad_state(env, out, ins, desc, False):
            pass
        else:
            d = S.guarded(compare, out.value)
            if d:
                env.violation(d[0], '%s: %s' % (desc, d[1]))
                return False
            extra = sorted(set(os.listdir(env.dir)) - keep)
            if extra:
                env.violation('stray-file', '%s leaves additional files %s' % (desc, extra))
                return False
            return True
        return False
    out = env.run(call, cfg, tag='align_kalman', text=True)
    if not good(out, 'align_kalman') or not fault:
        return
    with env.iofault.harness():
        for p, b in initial.items():
            if b is None:
                os.remove(p)
            else:
                open(p, 'wb').write(b)
    # every kind of file has the same weight, whatever the number of its operations
    files = {}
    for i, op, target, node in out.io.ops:
        files.setdefault(re.sub(r'\d+', '', str(target)), []).append(i)
    x = fault['pos'] * len(files)
    where = files[sorted(files)[int(x)]]
    at, n = where[int((x - int(x)) * len(where))], out.io.n
    if fault['type'] == 'leftover':
        temp = sorted({str(t) for _, _, t, _ in out.io.ops if str(t).endswith('.h5')} - {os.path.basename(merged)})
        name = temp[int(fault['pos'] * len(temp))]
        with env.iofault.harness():
            open(env.path(name), 'wb').write(b'\0' * int(fault['pos'] * 1e5) if fault['sticky'] else b'')
            if initial[outp] is None:
                open(outp, 'wb').write(open(conf, 'rb').read())
        env.stats['fault.torn_file_left'] += 1
        desc = 'align_kalman repeated after the process died while it wrote %s' % name
    elif fault['type'] == 'crash':
        r = env.crash_run(call, at, cfg, text=True)
        env.probes['crash_' + str(r)] += 1
        desc = 'align_kalman repeated after the process died at file operation %d of %d' % (at, n)
    else:
        fo = env.run(call, cfg, faults=[{'at': at, 'kind': fault['kind'], 'when': fault['when'], 'sticky': fault['sticky']}], tag='align_kalman with fault', text=True)
        desc = 'align_kalman with injected fault %s (operation %d of %d)' % (fo.io.fired and fo.io.fired[0], at, n)
        if fo.kind == 'hang' or fo.kind == 'error' and not fo.fired:
            env.violation('hang' if fo.kind == 'hang' else 'spurious-error', '%s: %s' % (desc, fo.describe()))
            return
        if fo.kind == 'ok':
            d = S.guarded(compare, fo.value)
            if d:
                env.violation('silent-failure' if fo.fired else d[0], '%s returned normally, but %s' % (desc, d[1]))
            return
        env.probes['failed_loudly'] += 1
        if S._bad_state(env, fo, ins, desc, False):
            return
        desc = 'align_kalman repeated after a failure (%s)' % (fo.io.fired and fo.io.fired[0],)
    for p, s in ins.items():
        if not os.path.exists(p) or h5.sha(p) != s:
            env.violation('input-changed', '%s: the input file %s differs' % (desc, os.path.basename(p)))
            return
    if os.path.exists(outp):
        try:
            with env.iofault.harness():
                yaml.safe_load(open(outp))['TELESCOPE']['DUT']
        except Exception as e:
            env.violation('broken-file', '%s: the configuration left behind cannot be read: %s' % (desc, str(e)[:200]))
            return
    good(env.run(call, cfg, tag='align_kalman again', text=True), desc)


def shrinks(case):
    if case['fault']:
        yield dict(case, fault=None)
    for k, v in (('wrong', 0.0), ('miss', 0.0), ('miss_fit', 0.0), ('existing', False), ('old_file', False), ('chi2', '5'), ('max', 10000), ('params', None), ('name', 'out')):
        if case[k] != v:
            yield dict(case, **{k: v})
    for t in (5, 20, 40):
        if t < case['tracks']:
            yield dict(case, tracks=t)
    for c in S.shrink_common(dict(case, fault=None)):
        yield dict(c, fault=case['fault'])
