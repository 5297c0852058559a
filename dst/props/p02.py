"""P02: a failure anywhere in split/map/combine reaches the caller."""
import multiprocessing

from .. import h5, smcwork as W

ID = 'P02'
LEVEL = 'fault_enumeration'
PLAN = {'quick': {'cases': 3000, 'wall': 150}, 'thorough': {'cases': 60000, 'wall': 780}}
WARM = (0, 1)
RULE = ('one case = one workload and schedule as in P01 plus one fault: first a fault-free simulation counts the I/O, pool, thread and worker '
        'steps, then a second simulation with the same schedule seed injects one fault at one of those steps, then a third simulation repeats the '
        'call without fault in the same process; non-trivial when the fault fired after the reader had started; distinct by workload, fault position and kind')
REAL = ['tools.smc.SMC (all three threads)', 'analysis_utils.data_aligned_at_events', 'PyTables/HDF5 on scratch files', 'dill/pickle of every task and result']
STUB = ['multiprocessing.Pool (simulated workers)', 'threading primitives and timed waits (virtual clock)', 'failing PyTables calls, pool creation, thread start and worker functions (injected)']
ASSUMPTIONS = ['a worker process dies while it runs a task, not while it waits for one (with the lock of the task queue held, multiprocessing.Pool itself cannot be terminated any more)',
               'an injected failure of close() happens after the file is really closed']


class UserError(Exception):
    pass


def f_bad(kind, at_uid, how):
    inner = W.FUNCS[kind][0]()

    def work(data, **kw):
        r = inner(data, **kw)
        if len(data) and data['uid'][0] <= at_uid <= data['uid'][-1]:
            if how == 'raise':
                raise ValueError('user function failed')
            if how == 'exit':
                raise KeyError('user function failed')
            if how == 'sysexit':
                raise SystemExit(3)
            if how == 'timeout':
                raise multiprocessing.TimeoutError('user function failed')
            if how == 'type':
                return None if not isinstance(r, (tuple, list)) else [None] * len(r)
            if how == 'count':
                return list(r) + [r[0]] if isinstance(r, (tuple, list)) else [r, r]
            if how == 'list':
                return [[1, 2, 3]] * (len(r) if isinstance(r, (tuple, list)) else 1)
        return r
    return work


def gen(rng, index, tier):
    events = W.gen_events(rng, 16)
    if not events:
        events = [[0, 1], [1, 2]]
    mx = max(e[1] for e in events)
    total = sum(e[1] for e in events)
    case = {
        'events': events, 'chunk': rng.choice([mx + 1, mx + 1, mx + 2, mx + 4, max(mx + 1, total // 2), total + 1]), 'func': rng.choice(sorted(W.FUNCS)),
        'n_cores': rng.choice([1, 1, 2, 3, 4, None]), 'cfg': W.sched_cfg(rng), 'fault': None, 'user': None, 'small_chunk': False, 'ghost': None,
        'same': rng.random() < 0.2, 'kill': rng.random() < 0.4}
    case['cfg']['line_permille'] = rng.choice([0, 0, 0, 50])
    r = rng.random()
    if r < 0.72:
        case['fault'] = {'pos': rng.random(), 'kind': rng.choice(['EIO', 'ENOSPC', 'ENOMEM']), 'when': rng.choice(['before', 'before', 'after', 'torn']), 'sticky': rng.random() < 0.3,
                         'op': rng.choice([None, None, 'open', 'read', 'append', 'flush', 'create', 'worker', 'worker', 'close', 'rename', 'remove', 'setitem', 'pool_create', 'thread_start'])}
    elif r < 0.94:
        case['user'] = {'how': rng.choice(['raise', 'raise', 'exit', 'type', 'count', 'list', 'timeout', 'sysexit' if case['n_cores'] != 1 else 'raise']), 'pos': rng.random()}
    elif r < 0.97:
        case['small_chunk'] = True
        case['chunk'] = rng.choice([1, max(1, mx - 1), mx])
    else:
        case['ghost'] = rng.choice(['file', 'table', 'outdir', 'list', 'multiple'])
    return case


def run(case, env):
    from beam_telescope_analysis.tools.smc import SMC
    data = W.table_from(case['events'])
    kind = case['func']
    names = W.node_names(kind)
    want = W.expected(kind, data)
    state = {'n': 0}

    def fresh():
        state['n'] += 1
        inp = env.path('in.h5')
        outp = inp if case['same'] else env.path('out.h5')
        return inp, outp

    def call(inp, outp, func, **over):
        kw = dict(input_filename=inp, output_filename=outp, func=func, func_kwargs=W.FUNC_KW.get(kind), node_desc=[{'name': n} for n in names],
                  table='Hits', n_cores=case['n_cores'], chunk_size=case['chunk'], mode='r+' if case['same'] else 'w')
        kw.update(over)
        return SMC(**kw)

    def setup(inp):
        h5.write(inp, [('Hits', data), ('Other', data[:2])])

    inp, outp = fresh()
    good = W.FUNCS[kind][0]
    setup(inp)
    sha = h5.sha(inp)

    def complete():
        """None when the output file holds exactly the declared result."""
        try:
            got = h5.snapshot(outp)
        except Exception as e:
            return 'output file unreadable: %r' % e
        exp = set('/' + n for n in names) | (set(['/Hits', '/Other']) if case['same'] else set())
        if set(got) != exp:
            return 'nodes %s instead of %s' % (sorted(got), sorted(exp))
        for n, w in zip(names, want):
            d = h5.same_array(got['/' + n][2], w)
            if d:
                return 'node %s: %s' % (n, d)
        if case['same']:
            for n, w in (('/Hits', data), ('/Other', data[:2])):
                d = h5.same_array(got[n][2], w)
                if d:
                    return 'node %s: %s' % (n, d)
        return None

    def judge(out, must_fail, what):
        if out.kind == 'hang':
            env.violation('hang', 'after %s SMC never returns: %s' % (what, out.error))
            return False
        if out.kind == 'ok':
            if must_fail:
                env.violation('silent-failure', 'after %s SMC returned normally' % what)
                return False
            d = complete()
            if d:
                env.violation('silent-loss', 'after %s SMC returned normally but the result is wrong: %s' % (what, d))
                return False
        return True

    def aftermath(out, what):
        """What a caller sees after a failed call: resources released, input intact, retry works."""
        if out.live_threads:
            env.violation('leaked-thread', 'after %s SMC raised but %d of its threads still run' % (what, out.live_threads))
            return
        if out.handles:
            env.violation('leaked-file', 'after %s SMC raised but left %s open' % (what, out.handles))
            return
        if not case['same']:
            if h5.sha(inp) != sha:
                env.violation('input-changed', 'after %s the input file was modified' % what)
                return
        else:
            try:
                got = h5.snapshot(inp)
                d = h5.same_array(got['/Hits'][2], data) or h5.same_array(got['/Other'][2], data[:2])
            except Exception as e:
                d = repr(e)
            if d:
                env.violation('input-changed', 'after %s the nodes of the input file are damaged: %s' % (what, d))
                return
        again = env.run(lambda: call(inp, outp, good()), case['cfg'], tag='retry')
        if again.kind != 'ok':
            env.violation('retry-fails', 'after %s the same call without fault fails in the same process: %s' % (what, again.describe()))
            return
        d = complete()
        if d:
            env.violation('retry-wrong', 'after %s the same call without fault gives a wrong result: %s' % (what, d))

    if case['ghost']:
        g = case['ghost']
        over = {'file': dict(input_filename=env.path('nope.h5')), 'table': dict(table='Nope'), 'outdir': dict(output_filename=env.path('nodir/x.h5'), mode='w'),
                'list': dict(table=['A', 'B']), 'multiple': dict(table=None)}[g]
        out = env.run(lambda: call(inp, outp, good(), **over), case['cfg'], tag='ghost')
        what = 'a call with invalid %s' % g
        env.nontrivial = True
        env.sig = [case['events'], g, case['n_cores']]
        if judge(out, True, what):
            aftermath(out, what)
        return
    if case['small_chunk']:
        # legitimate refusal: an event does not fit in a chunk
        out = env.run(lambda: call(inp, outp, good()), case['cfg'], tag='small')
        what = 'a chunk size that does not fit an event'
        env.nontrivial = out.kind == 'error'
        env.probes['small_chunk_refused'] += out.kind == 'error'
        env.sig = [case['events'], case['chunk'], case['n_cores']]
        if judge(out, False, what) and out.kind == 'error':
            if out.live_threads or out.handles:
                env.violation('leaked-file', 'after %s SMC raised but left %s open (%d threads)' % (what, out.handles, out.live_threads))
        return
    if case['user']:
        at = int(case['user']['pos'] * len(data))
        how = case['user']['how']
        out = env.run(lambda: call(inp, outp, f_bad(kind, at, how)), case['cfg'], tag='user')
        what = 'worker function failing (%s) at row %d of %d, chunk size %d, n_cores %s' % (how, at, len(data), case['chunk'], case['n_cores'])
        env.nontrivial = True
        env.probes['user.' + how] += 1
        env.sig = [case['events'], kind, how, at, case['chunk'], case['n_cores']]
        if judge(out, True, what):
            if how in ('raise', 'exit', 'timeout') and type(out.error).__name__ != {'raise': 'ValueError', 'exit': 'KeyError', 'timeout': 'TimeoutError'}[how]:
                env.violation('wrong-exception', 'after %s the caller sees %r' % (what, out.error))
                return
            aftermath(out, what)
        return
    # injected fault: count the steps first
    dry = env.run(lambda: call(inp, outp, good()), case['cfg'], tag='dry')
    if dry.kind != 'ok':
        env.violation('spurious-error' if dry.kind == 'error' else 'hang', 'SMC fails although no fault was injected: %s' % dry.describe())
        return
    d = complete()
    if d:
        env.violation('wrong-result', 'fault-free run: %s' % d)
        return
    f = dict(case['fault'])
    op = f.pop('op')
    pos = f.pop('pos')
    steps = [o for o in dry.io.ops if o[1] == op] or dry.io.ops
    step = steps[int(pos * len(steps))]
    nth = sum(1 for o in dry.io.ops[:step[0]] if o[1] == step[1])
    f['op'], f['nth'] = step[1], nth
    if step[1] == 'worker' and case['kill']:
        f['kind'] = 'KILL'
    setup(inp)
    sha = h5.sha(inp)
    if not case['same']:
        import os
        if os.path.exists(outp):
            os.unlink(outp)
    out = env.run(lambda: call(inp, outp, good()), case['cfg'], faults=[f], tag='faulty')
    what = 'injected %s at step %d (%s of %s %s), n_cores %s, chunk size %d' % (f['kind'], step[0], step[1], step[2], step[3], case['n_cores'], case['chunk'])
    env.nontrivial = out.fired and step[0] > 6
    env.probes['fault_fired'] += out.fired
    env.sig = [case['events'], kind, case['chunk'], case['n_cores'], f, case['same']]
    if not judge(out, False, what):
        return
    if out.kind == 'error':
        finalising = case['same'] and step[1] in ('remove', 'rename', 'setitem', 'close', 'create', 'fflush')
        if not finalising:
            aftermath(out, what)
        elif out.live_threads or out.handles:
            env.violation('leaked-file', 'after %s SMC raised but left %s open (%d threads)' % (what, out.handles, out.live_threads))


def shrinks(case):
    ev = case['events']
    for k in (len(ev) // 2, 1):
        if k and len(ev) > k:
            for i in range(0, len(ev), k):
                yield dict(case, events=ev[:i] + ev[i + k:])
    for k, v in (('line_permille', 0), ('stall_permille', 0), ('late_pickle_permille', 0), ('policy', 'random')):
        if case['cfg'].get(k) != v:
            yield dict(case, cfg=dict(case['cfg'], **{k: v}))
    if case['func'] != 'copy':
        yield dict(case, func='copy')
    if case['same']:
        yield dict(case, same=False)
    if case['fault']:
        for k, v in (('sticky', False), ('when', 'before'), ('kind', 'EIO')):
            if case['fault'][k] != v:
                yield dict(case, fault=dict(case['fault'], **{k: v}))
