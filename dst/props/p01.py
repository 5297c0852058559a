"""P01: split/map/combine gives the sequential result on every schedule."""
from .. import h5, smcwork as W

ID = 'P01'
LEVEL = 'exploration'
PLAN = {'quick': {'cases': 2400, 'wall': 120}, 'thorough': {'cases': 60000, 'wall': 780}}
WARM = (0, 1)
RULE = ('one case = one random input table, worker function, chunk size, core count and schedule configuration, run through the real SMC '
        'threads under the simulator; non-trivial when the table is split in at least two chunks and the baton changed thread at least ten times; '
        'two cases are distinct when workload and schedule trace hash differ')
REAL = ['tools.smc.SMC (reader, async-worker and writer threads, one baton)', 'analysis_utils.data_aligned_at_events', 'PyTables/HDF5 on scratch files', 'dill/pickle of every task and result']
STUB = ['multiprocessing.Pool (simulated workers, simulated task durations)', 'threading primitives and timed waits (virtual clock)', 'cpu_count']
ASSUMPTIONS = ['worker processes are modelled by running the pickled task in-process on a private copy', 'preemption happens at primitives, I/O steps and (in some runs) source lines of smc.py; not inside one PyTables call']


def gen(rng, index, tier):
    big = tier == 'thorough' and rng.random() < 0.2
    events = W.gen_events(rng, 120 if big else 24)
    mx = max([e[1] for e in events] or [1])
    total = sum(e[1] for e in events)
    chunk = rng.choice([mx + 1, mx + 1, mx + 2, mx + 3, mx + 5, max(mx + 1, total // 2), max(mx + 1, total - 1), total + 1, 1000000])
    func = rng.choice(sorted(W.FUNCS))
    return {
        'events': events, 'chunk': max(1, chunk), 'func': func,
        'n_cores': rng.choice([1, 2, 2, 3, 4, None]),
        'table': rng.choice(['auto', 'name', 'list']),
        'align': rng.random() < 0.3,
        'describe': rng.random() < 0.2,
        'single_desc': rng.random() < 0.5,
        'noname': rng.random() < 0.2,
        'keep_other': rng.random() < 0.2,
        'cfg': W.sched_cfg(rng)}


def run(case, env):
    from beam_telescope_analysis.tools.smc import SMC
    data = W.table_from(case['events'])
    inp, outp = env.path('in.h5'), env.path('out.h5')
    tables = [('Hits', data)]
    if case['table'] != 'auto':
        tables.append(('Zzz', data[:1]))
    h5.write(inp, tables)
    before = h5.sha(inp)
    if case['keep_other']:
        h5.write(outp, [('Stale', data[:2])])
    kind = case['func']
    names = W.node_names(kind)
    desc = [{'name': n} for n in names]
    want = W.expected(kind, data)
    if case['describe']:
        for d, w in zip(desc, want):
            if w.dtype.names:
                d['description'] = w.dtype
    if len(desc) == 1 and case['single_desc']:
        desc = desc[0]
        if case['noname']:
            desc = None
            names = ['Hits']
    kw = dict(input_filename=inp, output_filename=outp, func=W.FUNCS[kind][0](), func_kwargs=W.FUNC_KW.get(kind), node_desc=desc,
              table={'auto': None, 'name': 'Hits', 'list': ['Nope', 'Hits', 'Zzz']}[case['table']],
              align_at='event_number' if case['align'] else None, n_cores=case['n_cores'], chunk_size=case['chunk'])
    out = env.run(lambda: SMC(**kw), case['cfg'], tag='smc')
    n_chunks = out.io.kinds.get('read', 0)
    env.nontrivial = n_chunks >= 2 and out.sim.n_switch >= 10
    env.sig = [case['events'], kind, case['chunk'], case['n_cores'], env.inter]
    env.probes['chunks>=3'] += n_chunks >= 3
    env.probes['pool.out_of_order'] += out.sim.stats['pool.out_of_order'] > 0
    env.probes['empty_input'] += len(data) == 0
    if out.kind == 'hang':
        env.violation('hang', 'SMC does not return: %s' % out.describe())
        return
    if out.kind == 'error':
        if len(data) == 0:
            return       # a loud refusal of an empty table is acceptable
        env.violation('spurious-error', 'SMC fails although no fault was injected: %s' % out.describe())
        return
    if h5.sha(inp) != before:
        env.violation('input-changed', 'the input file was modified')
    try:
        got = h5.snapshot(outp)
    except Exception as e:
        env.violation('output-unreadable', 'SMC returned normally but the output file is unreadable: %r' % e)
        return
    if sorted(got) != sorted('/' + n for n in names):
        env.violation('wrong-nodes', 'SMC returned normally; nodes in the output file: %s, expected %s' % (sorted(got), names))
        return
    for n, w in zip(names, want):
        g = got['/' + n]
        d = h5.same_array(g[2], w)
        if d:
            env.violation('wrong-result', 'node %s (%s, chunk size %d, n_cores %s): %s' % (n, kind, case['chunk'], case['n_cores'], d))
            return
        if len(data) and g[1] != w.dtype:
            env.violation('wrong-dtype', 'node %s: dtype %s, expected %s' % (n, g[1], w.dtype))


def shrinks(case):
    ev = case['events']
    for k in (len(ev) // 2, 1):
        if k and len(ev) > k:
            for i in range(0, len(ev), k):
                yield dict(case, events=ev[:i] + ev[i + k:])
    for i, e in enumerate(ev):
        if e[1] > 1:
            yield dict(case, events=ev[:i] + [[e[0], 1]] + ev[i + 1:])
    for k, v in (('line_permille', 0), ('stall_permille', 0), ('late_pickle_permille', 0), ('policy', 'random')):
        if case['cfg'].get(k) != v:
            yield dict(case, cfg=dict(case['cfg'], **{k: v}))
    for k, v in (('table', 'auto'), ('align', False), ('describe', False), ('keep_other', False), ('noname', False)):
        if case[k] != v:
            yield dict(case, **{k: v})
    if case['n_cores'] not in (1, 2):
        yield dict(case, n_cores=2)
