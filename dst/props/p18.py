"""P18: every output file records the arguments it was made with."""
import importlib
import os
import time

import numpy as np
import tables as tb

from .. import h5, smcwork as W, stepcheck as S

ID = 'P18'
LEVEL = 'exploration'
PLAN = {'quick': {'cases': 2200, 'wall': 50}, 'thorough': {'cases': 120000, 'wall': 780}}
REAL_PIDS = ['P05', 'P06', 'P07', 'P08', 'P09', 'P10', 'P11', 'P12', 'P13', 'P14', 'P15', 'P21', 'P23']
WARM = tuple(range(len(REAL_PIDS) + 2))
RULE = ('one case = either a history of 1 to 8 calls of recorded functions with different signatures, return values and arguments (text of any length and alphabet, containers, numbers, arrays) and of direct writes of '
        'configuration tables, on up to 3 files, with a clock that moves and jumps, optionally one failing file operation per call; or one real analysis step run on a generated input, with every recorded step it calls observed; '
        'non-trivial when at least one arguments table was compared')
REAL = ['storage_utils.save_arguments, save_configuration_dict', 'all decorated steps of hit_analysis, track_analysis, result_analysis, dut_alignment, data_selection (in the second kind of case)', 'PyTables/HDF5 on scratch files']
STUB = ['wall clock (time, asctime, localtime)', 'the recorded functions of the first kind of case write small files', 'multiprocessing.Pool, threading primitives in the second kind', 'failing PyTables calls (injected)']
ASSUMPTIONS = ['argument names are plain identifiers; what is recorded of a value is its text']
STEPS = {'hit_analysis': ['convert', 'convert_coordinates', 'check', 'check_file', 'mask', 'mask_pixels', 'cluster', 'cluster_hits', 'correlate', 'merge_cluster_data'],
         'track_analysis': ['find_tracks', 'fit_tracks'], 'result_analysis': ['calculate_residuals', 'calculate_efficiency', 'histogram_track_angle'],
         'dut_alignment': ['apply_alignment'], 'tools.data_selection': ['combine_files', 'reduce_events', 'select_tracks']}
FUNCS = {'step_one': ['input_file', 'output_file', 'chunk_size'], 'step_two': ['telescope', 'output_file', 'limits', 'names'], 'convert': ['input_files', 'output_file']}
RETURNS = ['file', 'file', 'list', 'tuple', 'file+', 'list+', 'none', 'number', 'missing', 'mixed', 'empty']


def text(rng):
    r = rng.random()
    if r < 0.15:
        return rng.choice(['µm_Messung', 'Träger/α.h5', '数据.h5', 'naïve "x"'])
    if r < 0.22:
        return rng.choice(['a', 'xy z', 'ä']) * rng.choice([300, 32767, 32768, 33000, 70000])
    return rng.choice(['', 'file.h5', '/data/run 12/hits_{}.h5', "it's", 'line\nbreak', 'None', '\t'])


def value(rng, depth=0):
    r = rng.random()
    if r < 0.3:
        return text(rng)
    if r < 0.5:
        return rng.choice([None, True, 0, -1, 1000000, 2 ** 70, 0.1, 1e-300, float('inf')])
    if r < 0.6:
        return {'array': rng.randrange(0, 30)}
    if r < 0.66:
        return {'range': rng.choice([10, 6000, 20000])}
    if depth < 2:
        return [value(rng, depth + 1) for _ in range(rng.choice([0, 1, 2, 3]))]
    return 1.5


def real_value(v):
    if isinstance(v, dict):
        return np.arange(v['array']) * 0.5 if 'array' in v else list(range(v['range']))
    if isinstance(v, list):
        return [real_value(x) for x in v]
    return v


def gen(rng, index, tier):
    if 2 <= index < 2 + len(REAL_PIDS) or index >= 2 and rng.random() < 0.3:
        pid = REAL_PIDS[index - 2] if index < 2 + len(REAL_PIDS) else rng.choice(REAL_PIDS)
        P = importlib.import_module('dst.props.%s' % pid.lower())
        return {'mode': 'real', 'pid': pid, 'sub': dict(P.gen(rng, 1000 if index >= 2 + len(REAL_PIDS) else rng.choice([0, 1000]), tier), fault=None, property=pid)}
    ops = []
    for _ in range(rng.choice([1, 2, 3, 5, 8])):
        fault = None
        if rng.random() < 0.3:
            fault = {'pos': rng.random(), 'kind': rng.choice(S.FAULT_KINDS), 'when': rng.choice(['before', 'after', 'torn']), 'sticky': rng.random() < 0.3}
        jump = rng.choice([0, 0, 0, 3600, -7200, 86400 * 400, 0.75])
        f = rng.choice(['a.h5', 'a.h5', 'b.h5', 'c.h5'])
        if rng.random() < 0.7:
            name = rng.choice(sorted(FUNCS))
            n_pos = rng.randint(0, len(FUNCS[name]))
            args = [value(rng) for _ in range(n_pos)]
            kw = {a: value(rng) for a in FUNCS[name][n_pos:] if rng.random() < 0.7}
            if rng.random() < 0.3:
                kw['extra'] = value(rng)
            ops.append(['call', name, args, kw, rng.choice(RETURNS), [f, rng.choice(['b.h5', 'c.h5'])], rng.choice(['w', 'a', 'a']), rng.random() < 0.25, jump, rng.choice([0, 0.5, 100]), fault])
        else:
            ops.append(['save', rng.choice(['conf', 'run_config', 'step_one']), {'key%d' % i: value(rng) for i in range(rng.choice([0, 1, 3, 6]))}, rng.choice([None, None, 'arguments', 'other']),
                        rng.choice([None, None, 'float', 'float', 'struct', 'zero', 'early']), rng.choice([f, f + ':open']), jump, fault])
    return {'mode': 'history', 'ops': ops, 'cfg': W.sched_cfg(rng)}


def read_table(path, group, name):
    """(list of (name, value), attributes) of a configuration table."""
    with h5.harness():
        with tb.open_file(path, 'r') as f:
            t = f.get_node('/' + group, name)
            rows = [(r[0].decode('utf-8'), r[1].decode('utf-8')) for r in t[:].tolist()]
            return rows, {k: t.attrs[k] for k in ('date_created', 'bta_version') if k in t.attrs}


def stored(s):
    return s.rstrip('\0')


def when(stamp):
    return time.asctime._real(time.localtime._real(stamp)) if hasattr(time.asctime, '_real') else time.asctime(time.localtime(stamp))


def compare_record(path, group, name, want, stamp, version):
    try:
        rows, attrs = read_table(path, group, name)
    except Exception as e:
        return 'no-record', 'no readable table /%s/%s in %s: %s: %s' % (group, name, os.path.basename(path), type(e).__name__, str(e)[:100].replace(os.path.dirname(path), ''))
    a, b = dict(rows), {k: stored(v) for k, v in want.items()}
    if len(a) != len(rows) or set(a) != set(b):
        return 'wrong-record', '/%s/%s of %s has entries %s, expected %s' % (group, name, os.path.basename(path), sorted(k for k, _ in rows), sorted(b))
    for k in sorted(a):
        if a[k] != b[k]:
            return 'wrong-record', '/%s/%s of %s: %s is recorded as %r (%d characters), was %r (%d characters)' % (group, name, os.path.basename(path), k, a[k][:80], len(a[k]), b[k][:80], len(b[k]))
    stamps = [stamp] if not isinstance(stamp, tuple) else [stamp[0] + i for i in range(int(stamp[1] - stamp[0]) + 1)] + [stamp[1]]
    stamp = stamps[0]
    if attrs.get('date_created') not in [when(x) for x in stamps]:
        return 'wrong-date', '/%s/%s of %s: recorded date %r, expected %r' % (group, name, os.path.basename(path), attrs.get('date_created'), when(stamp))
    if attrs.get('bta_version') != version:
        return 'wrong-version', '/%s/%s: recorded version %r' % (group, name, attrs.get('bta_version'))
    return None


def run(case, env):
    if case['mode'] == 'real':
        return run_real(case, env)
    return run_history(case, env)


class Spy(object):
    def __init__(self, env, name, func):
        self.env, self.name, self.func = env, name, func
        self.code = func
        while hasattr(self.code, '__wrapped__'):
            self.code = self.code.__wrapped__
        self.code = self.code.__code__
        self.records = []

    def __call__(self, *args, **kw):
        from .. import core
        sim = core.active()
        given = dict(zip(self.code.co_varnames[:self.code.co_argcount], args))
        given.update(kw)
        given = {k: str(v) for k, v in given.items()}
        stamp = sim.wall() if sim is not None else None
        r = self.func(*args, **kw)
        if stamp is None or core._current[0] is None:
            return r
        from beam_telescope_analysis import __version__
        first = r if not isinstance(r, (list, tuple)) else r[0] if len(r) and isinstance(r[0], (list, tuple)) else r
        first = [first] if isinstance(first, str) else [x for x in first if isinstance(x, str)] if isinstance(first, (list, tuple)) else []
        for path in first:
            if os.path.isfile(path):
                d = compare_record(path, 'arguments', self.name, given, stamp, __version__)
                self.env.probes['records'] += 1
                self.env.probes['step_' + self.name] += 1
                self.env.nontrivial = True
                if d:
                    self.env.violation(d[0], 'after %s: %s' % (self.name, d[1]))
        return r


def run_real(case, env):
    P = importlib.import_module('dst.props.%s' % case['pid'].lower())
    saved = []
    try:
        for mod, names in STEPS.items():
            m = importlib.import_module('beam_telescope_analysis.' + mod)
            for n in names:
                f = getattr(m, n)
                saved.append((m, n, f))
                setattr(m, n, Spy(env, n, f))
        keep = []
        real_violation = env.violation

        def violation(cls, msg, key=None):
            if cls in ('no-record', 'wrong-record', 'wrong-date', 'wrong-version'):
                keep.append((cls, msg, key))
        env.violation = violation
        try:
            P.run(case['sub'], env)
        finally:
            env.violation = real_violation
            env.nontrivial = env.probes['records'] > 0
        for v in keep[:1]:
            env.violation(*v)
    finally:
        for m, n, f in saved:
            setattr(m, n, f)
    env.sig = [case['pid'], env.sig]


def run_history(case, env):
    from beam_telescope_analysis.tools import storage_utils as su
    from beam_telescope_analysis import __version__
    from .. import core
    files = {}      # file -> {'data': {node: array}, 'conf': {(group, name): (entries, stamp)}}

    def check(what, skip=None):
        for f, m in sorted(files.items()):
            snap = h5.snapshot(env.path(f), ignore=())
            want = set(m['data']) | {'/%s/%s' % k for k in m['conf']}
            got = set(snap)
            if skip and skip[0] == f:
                got.discard(skip[1])
                want.discard(skip[1])
            if got != want:
                return 'wrong-nodes', '%s: %s has %s, expected %s' % (what, f, sorted(got), sorted(want))
            for n, a in m['data'].items():
                if h5.same_array(snap[n][2], a):
                    return 'data-changed', '%s: data of %s%s changed' % (what, f, n)
            for (g, n), (want, stamp) in m['conf'].items():
                if skip and skip == (f, '/%s/%s' % (g, n)):
                    continue
                d = compare_record(env.path(f), g, n, want, stamp, __version__)
                if d:
                    return d[0], '%s: %s' % (what, d[1])
                env.probes['records'] += 1
                env.nontrivial = True
        return None

    clock = 0.0
    for k, op in enumerate(case['ops']):
        clock += op[8] if op[0] == 'call' else op[6]
        stamps = []

        def start():
            sim = core.active()
            sim.wall_offset = clock
            stamps.append(sim.wall())
        if op[0] == 'call':
            _, name, args, kw, ret, targets, mode, mutate, jump, busy, fault = op
            params = FUNCS[name]
            args_v, kw_v = [real_value(v) for v in args], {a: real_value(v) for a, v in kw.items()}
            given = {a: str(v) for a, v in list(zip(params, args_v)) + list(kw_v.items())}
            two = ret in ('list', 'tuple', 'list+') and targets[0] != targets[1]
            written = targets if two else targets[:1]
            node = 'data%d' % (k % 3)
            arr = np.arange(k + 3, dtype='f8')
            paths = [env.path(f) for f in written]
            result = {'file': paths[0], 'list': list(paths), 'tuple': tuple(paths), 'file+': (paths[0], 1.5), 'list+': (list(paths), {'a': 1}), 'none': None, 'number': 4.5,
                      'missing': env.path('nothing.h5'), 'mixed': [3, paths[0]], 'empty': []}[ret]

            def body(*a, **kws):
                core.active().sleep(busy)
                for p in paths:
                    with h5.harness():
                        with tb.open_file(p, mode) as f:
                            if '/' + node in f:
                                f.remove_node('/' + node)
                            f.create_array('/', node, arr)
                if mutate:
                    for v in list(a) + list(kws.values()):
                        if isinstance(v, list):
                            v.append('changed by the function')
                return result
            src = 'def %s(%s):\n    return body(%s)\n' % (name, ', '.join(['%s=None' % p for p in params] + ['**kws']), ', '.join(params + ['**kws']))
            ns = {'body': body}
            exec(src, ns)
            func = su.save_arguments(ns[name])
            what = 'call %d of %s(%s) returning %s' % (k, name, ', '.join(sorted(given)), ret)

            def call():
                start()
                return func(*[list(v) if isinstance(v, list) else v for v in args_v], **{a: list(v) if isinstance(v, list) else v for a, v in kw_v.items()})
            recorded = ret in ('file', 'list', 'tuple', 'file+', 'list+')
            group, table = 'arguments', name
        else:
            _, table, entries, group, date, target, jump, fault = op
            target, as_handle = target.split(':')[0], target.endswith(':open')
            written = [target]
            entries = {a: real_value(v) for a, v in entries.items()}
            given = {a: str(v) for a, v in entries.items()}
            made = {'zero': 0.0, 'early': 0.5}.get(date, 1400000000.25 + k * 3600)
            kwd = {} if group is None else {'group_name': group}
            if date:
                kwd['date_created'] = time.localtime(made) if date == 'struct' else made
            group = group or 'configuration'
            what = 'configuration table %d /%s/%s in %s' % (k, group, table, target)
            recorded, result = True, None
            paths = [env.path(target)]

            def call():
                start()
                if as_handle:
                    with h5.harness():
                        f = tb.open_file(paths[0], 'a')
                    try:
                        su.save_configuration_dict(f, table, entries, **kwd)
                    finally:
                        with h5.harness():
                            f.close()
                else:
                    su.save_configuration_dict(paths[0], table, entries, **kwd)
                stamps.append(core.active().wall())
            node = None

        def apply():
            for f in written:
                if node is not None:
                    m = files.setdefault(f, {'data': {}, 'conf': {}})
                    if mode == 'w':
                        m['data'], m['conf'] = {}, {}
                    m['data']['/' + node] = arr
                m = files.setdefault(f, {'data': {}, 'conf': {}})
                if recorded:
                    m['conf'][(group, table)] = (given, stamps[-1] if op[0] == 'call' else made if date else (stamps[-2], stamps[-1]))
        if fault is not None and recorded:
            with env.iofault.harness():
                pass
            io_n = 12 * len(written)
            fo = env.run(call, case['cfg'], faults=[{'at': int(fault['pos'] * io_n), 'kind': fault['kind'], 'when': fault['when'], 'sticky': fault['sticky']}], tag=what + ' with fault')
            what2 = '%s with injected fault %s' % (what, fo.io.fired and fo.io.fired[0])
            if fo.kind == 'hang':
                env.violation('hang', what2)
                return
            if fo.kind == 'error' and not fo.fired:
                env.violation('spurious-error', '%s fails although nothing went wrong: %s%s' % (what, fo.describe(), S.tb_tail(fo)))
                return
            if fo.handles:
                env.violation('leaked-file', '%s: files still open: %s' % (what2, fo.handles))
                return
            if fo.kind == 'ok':
                apply()
                d = S.guarded(lambda _: check(what2), None)
                if d:
                    env.violation('silent-failure' if fo.fired else d[0], d[1] + ' although the call returned normally')
                    return
                continue
            env.probes['failed_loudly'] += 1
            # nothing but the record of this very call may be touched
            before = {f: {'data': dict(m['data']), 'conf': dict(m['conf'])} for f, m in files.items()}
            for f in written:
                if node is None and not os.path.exists(env.path(f)):
                    continue
                m = files.setdefault(f, {'data': {}, 'conf': {}})
                if node is not None:
                    if mode == 'w':
                        m['data'], m['conf'] = {}, {}
                    m['data']['/' + node] = arr
            keep, files_all = None, dict(files)
            for f in list(files):
                if f in written:
                    files[f] = {'data': files[f]['data'], 'conf': {x: y for x, y in files[f]['conf'].items() if x != (group, table)}}
            d = S.guarded(lambda _: check_subset(files, written, (group, table), env, what2, __version__), None)
            files.clear()
            files.update(before)
            if d:
                env.violation(*d)
                return
        out = env.run(call, case['cfg'], tag=what)
        if out.kind != 'ok':
            env.violation('not-repeatable' if fault else 'spurious-error', '%s fails: %s%s' % (what, out.describe(), S.tb_tail(out)))
            return
        if out.handles:
            env.violation('leaked-file', '%s: files still open: %s' % (what, out.handles))
            return
        if op[0] == 'call' and (type(out.value) is not type(result) or out.value != result):
            env.violation('wrong-return', '%s: returned %r' % (what, out.value))
            return
        apply()
        d = S.guarded(lambda _: check(what), None)
        if d:
            env.violation(*d)
            return
    env.sig = case['ops']


def check_subset(files, written, conf, env, what, version):
    for f, m in sorted(files.items()):
        snap = h5.snapshot(env.path(f), ignore=())
        own = '/%s/%s' % conf
        got = set(snap) - ({own} if f in written else set())
        want = set(m['data']) | {'/%s/%s' % k for k in m['conf']}
        if got != want:
            return 'wrong-nodes', '%s: %s has %s, expected %s' % (what, f, sorted(got), sorted(want))
        for n, a in m['data'].items():
            if h5.same_array(snap[n][2], a):
                return 'data-changed', '%s: data of %s%s changed' % (what, f, n)
        for (g, n), (want, stamp) in m['conf'].items():
            d = compare_record(env.path(f), g, n, want, stamp, version)
            if d:
                return d[0], '%s: %s' % (what, d[1])
    return None


def shrinks(case):
    if case['mode'] == 'real':
        P = importlib.import_module('dst.props.%s' % case['pid'].lower())
        if hasattr(P, 'shrinks'):
            for c in P.shrinks(case['sub']):
                yield dict(case, sub=c)
        return
    ops = case['ops']
    for i in range(len(ops)):
        if len(ops) > 1:
            yield dict(case, ops=ops[:i] + ops[i + 1:])
    for i, op in enumerate(ops):
        def put(j, v):
            return dict(case, ops=ops[:i] + [op[:j] + [v] + op[j + 1:]] + ops[i + 1:])
        if op[-1] is not None:
            yield put(len(op) - 1, None)
        if op[0] == 'call':
            for a in op[3]:
                yield put(3, {k: v for k, v in op[3].items() if k != a})
            if op[2]:
                yield put(2, op[2][:-1])
            for j in range(len(op[2])):
                yield put(2, op[2][:j] + [None] + op[2][j + 1:]) if op[2][j] is not None else put(7, False)
            for j, v in ((7, False), (8, 0), (9, 0)):
                if op[j] != v:
                    yield put(j, v)
        else:
            for a in op[2]:
                yield put(2, {k: v for k, v in op[2].items() if k != a})
    yield from S.shrink_common(case)
