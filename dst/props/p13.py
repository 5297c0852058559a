"""P13: combining files keeps all rows in order and never merges events."""
import numpy as np

from .. import h5, smcwork as W, stepcheck as S

ID = 'P13'
LEVEL = 'exploration'
PLAN = {'quick': {'cases': 3000, 'wall': 80}, 'thorough': {'cases': 150000, 'wall': 780}}
WARM = (0,)
RULE = ('one case = 1 to 4 files with up to three tables (with or without event numbers, also empty or missing in some files), optional table selection and event number offsets, '
        'chunk size, optionally one injected fault or process death; compared with the concatenation computed from the inputs; non-trivial when at least two files were combined and '
        'one table was read in at least two chunks')
REAL = ['data_selection.combine_files', 'PyTables/HDF5 on scratch files', 'process death (forked image, _exit at an I/O step)']
STUB = ['failing PyTables calls (injected)']
ASSUMPTIONS = ['tables of the same name have the same columns; event numbers are not negative and ascending']
A = np.dtype([('event_number', '<i8'), ('uid', '<u4'), ('charge', '<f4')])
B = np.dtype([('uid', '<u4'), ('value', '<f8')])


def gen(rng, index, tier):
    files = []
    for _ in range(rng.choice([1, 2, 2, 3, 4])):
        tables = {}
        for name in ('Hits', 'Clusters', 'Meta'):
            if rng.random() < 0.25 and not (name == 'Hits' and not files):
                continue
            n = rng.choice([0, 1, 2, 5, 20])
            ev, rows = rng.choice([0, 0, 1, 7, 2 ** 33]), []
            for _ in range(n):
                rows.append(ev)
                ev += rng.choice([0, 0, 1, 1, 5])
            tables[name] = rows
        files.append(tables)
    return {'files': files, 'names': rng.choice([None, None, 'Hits', ['Hits'], ['Hits', 'Meta'], ['Clusters', 'Missing']]),
            'offsets': rng.choice([None, None, [rng.choice([None, 0, 100, 2 ** 34 + i * 2 ** 34]) for i in range(len(files))]]), 'default_name': rng.random() < 0.2,
            'arrays': rng.random() < 0.3, 'chunk': rng.choice([1, 2, 3, 5, 7, 19, 20, 21, 100000]), 'fault': S.gen_fault(rng, p_none=0.6, p_crash=0.1), 'cfg': W.sched_cfg(rng)}


def build(case):
    uid, out = 1, []
    for f in case['files']:
        d = {}
        for name in sorted(f):
            a = np.zeros(len(f[name]), B if name == 'Meta' else A)
            a['uid'] = np.arange(uid, uid + len(a))
            uid += len(a)
            if name == 'Meta':
                a['value'] = a['uid'] * 0.5
            else:
                a['event_number'] = f[name]
                a['charge'] = a['uid'] % 13
            d[name] = a
        out.append(d)
    return out


def run(case, env):
    from beam_telescope_analysis.tools import data_selection as ds
    data = build(case)
    inputs = []
    for i, d in enumerate(data):
        p = env.path('run_%d.h5' % i)
        h5.write(p, sorted(d.items()), arrays=[('HistOccupancy', np.arange(6).reshape(2, 3))] if case['arrays'] else [])
        inputs.append(p)
    import os
    outp = os.path.splitext(os.path.commonprefix(inputs))[0] + '_combined.h5' if case['default_name'] else env.path('out.h5')
    names = case['names']
    wanted = None if names is None else [names] if isinstance(names, str) else names
    want, applied = {}, {}
    for i, d in enumerate(data):
        for name in sorted(d):
            if wanted is not None and name not in wanted:
                continue
            a = d[name].copy()
            if name != 'Meta':
                off = case['offsets'][i] if case['offsets'] is not None else None
                if off is None:
                    prev = [x['event_number'][-1] for x in want.get(name, []) if len(x)]
                    off = int(prev[-1]) + 1 if prev else 0
                a['event_number'] += off
                applied.setdefault(name, []).append(off)
            else:
                applied[name] = None
            want.setdefault(name, []).append(a)

    def content(v):
        if not isinstance(v, tuple) or v[0] != outp:
            return 'wrong-return', 'returned %r' % (v,)
        if {k: x if x is None else [int(j) for j in x] for k, x in v[1].items()} != applied:
            return 'wrong-offset', 'reported event number offsets %s, expected %s' % (v[1], applied)
        got = h5.snapshot(outp)
        if set(got) != {'/' + k for k in want}:
            return 'wrong-nodes', 'nodes %s, expected %s' % (sorted(got), sorted(want))
        for name, parts in want.items():
            r = h5.same_array(got['/' + name][2], np.concatenate(parts))
            if r:
                return 'wrong-rows', '%s: %s' % (name, r)
            if name != 'Meta' and case['offsets'] is None:
                seen = [set(x['event_number'].tolist()) for x in parts]
                if sum(len(s) for s in seen) != len(set().union(*seen)):
                    return 'merged-events', '%s: events of different files got the same event number' % name
        return None
    what = 'combine_files(%s rows, chunk size %d)' % ([{k: len(x) for k, x in d.items()} for d in data], case['chunk'])
    cp = list(names) if isinstance(names, list) else names
    out = S.check_step(env, lambda: ds.combine_files(list(inputs), output_file=None if case['default_name'] else outp, names=cp, event_number_offsets=case['offsets'] and list(case['offsets']), chunk_size=case['chunk']),
                       inputs, [outp], content, case['cfg'], case['fault'], what)
    if out is not None:
        env.nontrivial = len(inputs) > 1 and any(len(a) > case['chunk'] for d in data for a in d.values())
        env.probes['empty_table'] += any(not len(a) for d in data for a in d.values())
    env.sig = [case['files'], case['chunk'], case['names'], case['offsets'], case['fault']]


def shrinks(case):
    yield from S.shrink_common(case)
    for k, v in (('default_name', False), ('arrays', False), ('names', None), ('offsets', None), ('chunk', 100000)):
        if case[k] != v:
            yield dict(case, **{k: v})
    f = case['files']
    for i in range(len(f)):
        if len(f) > 1:
            yield dict(case, files=f[:i] + f[i + 1:], offsets=case['offsets'] and case['offsets'][:i] + case['offsets'][i + 1:])
        for k in f[i]:
            yield dict(case, files=f[:i] + [{x: y for x, y in f[i].items() if x != k}] + f[i + 1:])
            if f[i][k]:
                yield dict(case, files=f[:i] + [dict(f[i], **{k: f[i][k][:-1]})] + f[i + 1:])
                yield dict(case, files=f[:i] + [dict(f[i], **{k: f[i][k][:len(f[i][k]) // 2]})] + f[i + 1:])
