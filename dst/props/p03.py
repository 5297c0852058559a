"""P03: in-place split/map/combine replaces a node completely or not at all."""
import numpy as np

from .. import h5, smcwork as W

ID = 'P03'
LEVEL = 'fault_enumeration'
PLAN = {'quick': {'cases': 2000, 'wall': 120}, 'thorough': {'cases': 60000, 'wall': 780}}
WARM = (0, 1)
RULE = ('one case = a history of two to five in-place calls (input file = output file) on one HDF5 file, each replacing or adding a node, under one '
        'random schedule each and with an injected fault or failing worker function in about a third of the calls; after every call the whole file is '
        'compared with a dictionary model; non-trivial when at least one call replaced a node from at least two chunks; distinct by history')
REAL = ['tools.smc.SMC in same-file mode', 'analysis_utils.data_aligned_at_events', 'PyTables/HDF5 on scratch files']
STUB = ['multiprocessing.Pool', 'threading primitives and timed waits', 'failing PyTables calls and worker functions (injected)']
ASSUMPTIONS = ['a failure of the final remove/rename pair itself is excluded: PyTables offers no atomic replacement of a node',
               'the process does not die: HDF5 gives no crash consistency for a file opened for update']


def f_inc():
    def work(data, by):
        data['charge'] = data['charge'] + by
        return data
    return work


def f_drop():
    def work(data, mod):
        return data[data['uid'] % mod != 0]
    return work


def f_widen():
    def work(data):
        if 'extra' in data.dtype.names:
            out = data.copy()
            out['extra'] = out['extra'] + 1
            return out
        out = np.zeros(len(data), data.dtype.descr + [('extra', '<i4')])
        for n in data.dtype.names:
            out[n] = data[n]
        ev, cnt = np.unique(data['event_number'], return_counts=True)
        out['extra'] = np.repeat(cnt, cnt)
        return out
    return work


def f_dup():
    def work(data):
        return np.repeat(data, 2)
    return work


def f_hist():
    def work(data):
        return np.bincount(data['row'], minlength=20)
    return work


def f_both():
    def work(data):
        out = data.copy()
        out['charge'] *= 2
        return out, np.bincount(data['column'], minlength=12)
    return work


OPS = {'inc': (f_inc, ['@'], {'by': 0.5}), 'drop': (f_drop, ['@'], {'mod': 4}), 'widen': (f_widen, ['@'], {}), 'dup': (f_dup, ['@'], {}),
       'hist': (f_hist, ['Hist'], {}), 'both': (f_both, ['@', 'Hist'], {}), 'new': (f_drop, ['New'], {'mod': 2}), 'swap': (f_inc, ['Other'], {'by': 1.0})}


def bad(inner, at):
    def work(data, **kw):
        if len(data) and data['uid'][0] <= at <= data['uid'][-1]:
            raise ValueError('user function failed')
        return inner(data, **kw)
    return work


def gen(rng, index, tier):
    events = W.gen_events(rng, 14, 4) or [[0, 1]]
    ops = []
    for _ in range(rng.choice([2, 3, 3, 4, 5])):
        ops.append({'op': rng.choice(sorted(OPS)), 'chunk': rng.choice([9, 9, 10, 12, 20, 1000]) * (1 if len(ops) < 3 else 4), 'n_cores': rng.choice([1, 2, 3, None]),
                    'fault': rng.choice([None, None, None, 'io', 'io', 'user']), 'pos': rng.random(), 'kind': rng.choice(['EIO', 'ENOSPC', 'ENOMEM']),
                    'when': rng.choice(['before', 'after', 'torn']), 'implicit': rng.random() < 0.5})
    return {'events': events, 'ops': ops, 'cfg': W.sched_cfg(rng)}


def run(case, env):
    from beam_telescope_analysis.tools.smc import SMC
    path = env.path('data.h5')
    data = W.table_from(case['events'])
    model = {'Hits': data, 'Other': data[::2].copy(), 'Keep': np.arange(7)}
    h5.write(path, [('Hits', model['Hits']), ('Other', model['Other'])], [('Keep', model['Keep'])])
    stale = set()        # temporary nodes that failed calls left behind
    env.sig = [case['events'], [sorted(o.items(), key=str) for o in case['ops']]]
    for k, o in enumerate(case['ops']):
        factory, targets, kw = OPS[o['op']]
        names = ['Hits' if t == '@' else t for t in targets]
        src = model['Hits']
        mx = int(np.bincount(np.unique(src['event_number'], return_inverse=True)[1]).max()) if len(src) else 1
        chunk = max(o['chunk'], mx + 1)
        want = factory()(src.copy(), **kw)
        want = list(want) if isinstance(want, tuple) else [want]
        desc = None if o['implicit'] and names == ['Hits'] else [{'name': n} for n in names]
        func = factory()
        faults = []
        if o['fault'] == 'user' and len(src):
            func = bad(func, int(src['uid'][int(o['pos'] * len(src))]))
        elif o['fault'] == 'io':
            # a step inside the streaming phase: opens, reads, worker tasks, appends
            op = ['open', 'read', 'worker', 'append', 'flush', 'create', 'pool_create', 'thread_start'][int(o['pos'] * 7.99)]
            faults = [{'op': op, 'nth': int(o['pos'] * 1000) % 3, 'kind': o['kind'] if op != 'worker' or o['kind'] != 'ENOSPC' else 'KILL', 'when': o['when']}]
            if op in ('create', 'open', 'flush') and o['op'] in ('hist', 'both') and faults[0]['nth']:
                faults[0]['nth'] = 0
        out = env.run(lambda: SMC(input_filename=path, output_filename=path, func=func, func_kwargs=kw or None, node_desc=desc, table='Hits', mode='r+',
                                  n_cores=o['n_cores'], chunk_size=chunk), case['cfg'], faults=faults, tag='op%d %s' % (k, o['op']))
        what = 'call %d (%s -> %s, chunk size %d, n_cores %s%s)' % (k, o['op'], names, chunk, o['n_cores'], ', fault %s' % (faults or o['fault']) if o['fault'] else '')
        if out.kind == 'hang':
            env.violation('hang', '%s never returns: %s' % (what, out.error))
            return
        may_fail = bool(o['fault']) and (out.fired or o['fault'] == 'user')
        if out.kind == 'error' and not may_fail and len(src):
            env.violation('spurious-error', '%s fails although no fault was injected: %s' % (what, out.describe()))
            return
        if out.kind == 'ok':
            if o['fault'] == 'user' and len(src):
                env.violation('silent-failure', '%s: the worker function failed but the call returned normally' % what)
                return
            for n, w in zip(names, want):
                model[n] = w
            env.nontrivial |= out.io.kinds.get('read', 0) >= 2
            env.probes['replaced'] += 1
        else:
            env.probes['failed'] += 1
            hist_finalise = any(not w.dtype.names for w in want) and out.io.kinds.get('create', 0) + out.io.kinds.get('remove', 0) > 0
            if hist_finalise and o['fault'] == 'io' and faults[0]['op'] == 'create':
                return      # failed while the final array was created
        try:
            got = h5.snapshot(path)
        except Exception as e:
            env.violation('file-damaged', 'after %s (%s) the file is unreadable: %r' % (what, out.describe(), e))
            return
        if out.kind == 'ok':
            stale -= set('/%s_tmp' % n for n in names)
        else:
            stale |= set('/%s_tmp' % n for n in names)
        extra = [p for p in got if p[1:] not in model and p not in stale]
        lost = [n for n in model if '/' + n not in got]
        if extra or lost:
            env.violation('wrong-nodes', 'after %s (%s): missing nodes %s, unexpected nodes %s' % (what, out.describe(), lost, extra))
            return
        for n, w in model.items():
            d = h5.same_array(got['/' + n][2], w)
            if d:
                touched = n in names
                env.violation('partial-replace' if touched else 'other-node-changed', 'after %s (%s) node %s is not the %s: %s' % (
                    what, out.describe(), n, 'result' if out.kind == 'ok' and touched else 'previous content', d))
                return
        if out.handles:
            env.violation('leaked-file', 'after %s (%s) the file is still open' % (what, out.describe()))
            return


def shrinks(case):
    for i in range(len(case['ops'])):
        if len(case['ops']) > 1:
            yield dict(case, ops=case['ops'][:i] + case['ops'][i + 1:])
    for i, o in enumerate(case['ops']):
        if o['fault']:
            yield dict(case, ops=case['ops'][:i] + [dict(o, fault=None)] + case['ops'][i + 1:])
    ev = case['events']
    for k in (len(ev) // 2, 1):
        if k and len(ev) > k:
            for i in range(0, len(ev), k):
                yield dict(case, events=ev[:i] + ev[i + k:])
    for k, v in (('line_permille', 0), ('stall_permille', 0), ('late_pickle_permille', 0), ('policy', 'random')):
        if case['cfg'].get(k) != v:
            yield dict(case, cfg=dict(case['cfg'], **{k: v}))
