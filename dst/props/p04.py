"""P04: event-aligned streaming delivers every event exactly once, whole."""
import numpy as np
import tables as tb

from .. import h5, smcwork as W

ID = 'P04'
LEVEL = 'exploration'
PLAN = {'quick': {'cases': 9000, 'wall': 100}, 'thorough': {'cases': 400000, 'wall': 780}}
WARM = (0, 1)
RULE = ('one case = one random event-ordered table and a history of reads of it: either one read with random start/stop event numbers, start/stop indices, '
        'chunk size and alignment flags, or a resumed read (consumer stops or a read fails after a random chunk, continues from the last returned index '
        'with another chunk size, several adjacent event ranges); non-trivial when at least three chunks were delivered or a read was interrupted')
REAL = ['analysis_utils.data_aligned_at_events', 'PyTables/HDF5 tables (also with an index on event_number)']
STUB = ['failing table reads (injected)', 'consumer that stops at a random chunk and resumes']
ASSUMPTIONS = ['a ValueError is acceptable when an event has at least chunk_size rows, or when fail_on_missing_events is set and the start event is missing; '
               'with a stop index inside the table the last event before it counts as incomplete and is not part of the data']


def gen(rng, index, tier):
    events = W.gen_events(rng, 60 if tier == 'thorough' and rng.random() < 0.2 else 20) or [[0, 1]]
    mx = max(e[1] for e in events)
    total = sum(e[1] for e in events)

    def chunk():
        return max(1, rng.choice([mx + 1, mx + 1, mx + 2, mx + 3, mx + 5, total // 2, total - 1, total, total + 1, 100000, mx, mx - 1]))

    def ev():
        e = rng.choice(events)[0]
        return max(0, e + rng.choice([0, 0, 0, 0, 1, -1, 3]))
    if rng.random() < 0.45:
        a, b = ev(), ev()
        if b < a:
            a, b = b, a
        i, j = sorted([rng.randint(0, total), rng.randint(0, total)])
        speed = rng.random() < 0.3      # documented: the two flags are not used then
        return {'mode': 'single', 'events': events, 'chunk': chunk(), 'start_ev': a if rng.random() < 0.5 else None, 'stop_ev': b if rng.random() < 0.5 else None,
                'start_index': i if rng.random() < 0.4 else None, 'stop_index': j if rng.random() < 0.3 else None, 'aligned': speed or rng.random() < 0.7,
                'fail': not speed and rng.random() < 0.4, 'speedup': speed, 'index': rng.random() < 0.7, 'cfg': W.sched_cfg(rng)}
    cuts = sorted(set(ev() for _ in range(rng.choice([0, 1, 2, 4]))))
    segs = [{'chunk': chunk() if rng.random() < 0.7 else mx + 1, 'leave': rng.choice([None, None, 0, 1, 2, 3]), 'fault': rng.choice([None, None, 0, 1, 2, 5])} for _ in range(6)]
    return {'mode': 'resume', 'events': events, 'cuts': cuts, 'segs': segs, 'aligned': True, 'cfg': W.sched_cfg(rng)}


def _expected(case, data):
    ev = data['event_number']
    n = len(data)
    i0 = case['start_index'] or 0
    i1 = n if case['stop_index'] is None else case['stop_index']
    rows = np.arange(i0, i1)
    if not len(rows):
        return rows
    a, b = case['start_ev'], case['stop_ev']
    drop = set()
    if i1 < n and not (b is not None and ev[i1 - 1] >= b):
        drop.add(int(ev[i1 - 1]))           # last event before a stop index counts as incomplete
    if not case['aligned'] and i0 != 0:
        if a is None or ev[i0] == a:
            drop.add(int(ev[i0]))
    sel = np.ones(len(rows), bool)
    if a is not None:
        sel &= ev[rows] >= a
    if b is not None:
        sel &= ev[rows] < b
    for d in drop:
        sel &= ev[rows] != d
    return rows[sel]


def _check_chunks(env, data, got, chunk_size, what, speedup=False):
    """got: [(uids, index)] - chunk size, whole events, resume index."""
    ev = data['event_number']
    prev = None
    for k, (uids, idx) in enumerate(got):
        if not len(uids) and speedup:
            continue        # both limits known from the index and equal
        if not len(uids):
            env.violation('empty-chunk', '%s: chunk %d is empty' % (what, k))
            return False
        if len(uids) > chunk_size:
            env.violation('chunk-too-large', '%s: chunk %d has %d rows, chunk size is %d' % (what, k, len(uids), chunk_size))
            return False
        if int(idx) != int(uids[-1]) + 1:
            env.violation('wrong-resume-index', '%s: chunk %d ends with row %d but the index to continue is %d' % (what, k, uids[-1], idx))
            return False
        if prev is not None and ev[uids[0]] == ev[prev]:
            env.violation('split-event', '%s: event %d is split between chunks %d and %d' % (what, ev[uids[0]], k - 1, k))
            return False
        prev = uids[-1]
    return True


def run(case, env):
    from beam_telescope_analysis.tools import analysis_utils as au
    data = W.table_from(case['events'])
    path = env.path('t.h5')
    h5.write(path, [('Hits', data)])
    if case.get('index'):
        from ..iofault import harness
        with harness():
            with tb.open_file(path, 'r+') as f:
                f.root.Hits.cols.event_number.create_index()
    biggest = max(e[1] for e in case['events'])
    env.sig = [case['events'], {k: v for k, v in case.items() if k not in ('cfg', 'choices')}]
    if case['mode'] == 'single':
        got, kw = [], dict(start_event_number=case['start_ev'], stop_event_number=case['stop_ev'], start_index=case['start_index'], stop_index=case['stop_index'],
                           chunk_size=case['chunk'], try_speedup=case['speedup'], first_event_aligned=case['aligned'], fail_on_missing_events=case['fail'])

        def call():
            with tb.open_file(path, 'r') as f:
                for chunk, idx in au.data_aligned_at_events(f.root.Hits, **kw):
                    got.append((chunk['uid'].copy(), idx))
                    if len(got) > len(data) + 2:
                        raise RuntimeError('more chunks than rows')
        out = env.run(call, case['cfg'], tag='read')
        env.nontrivial = len(got) >= 3
        want = _expected(case, data)
        flat = np.concatenate([g[0] for g in got]) if got else np.array([], int)
        what = 'read(%s) of a table with events %s' % (', '.join('%s=%s' % i for i in sorted(kw.items()) if i[1] is not None), case['events'])
        too_big = biggest >= case['chunk']
        i0 = case['start_index'] or 0
        missing = case['fail'] and case['start_ev'] is not None and (case['start_ev'] not in data['event_number'][i0:case['stop_index']] or not case['aligned'])
        if out.kind == 'hang':
            env.violation('hang', '%s: %s' % (what, out.error))
            return
        if not _check_chunks(env, data, got, case['chunk'], what, case['speedup']):
            return
        if out.kind == 'error':
            env.probes['refused'] += 1
            if not (isinstance(out.error, ValueError) and (too_big or missing)):
                env.violation('spurious-error', '%s fails: %s' % (what, out.describe()))
            elif len(flat) and not (len(flat) <= len(want) and (flat == want[:len(flat)]).all()):
                env.violation('wrong-rows', '%s: rows %s delivered before the error are not the first rows of %s' % (what, flat[:40].tolist(), want[:40].tolist()))
            return
        if len(flat) != len(want) or (flat != want).any():
            lost, extra = sorted(set(want.tolist()) - set(flat.tolist())), sorted(set(flat.tolist()) - set(want.tolist()))
            env.violation('wrong-rows', '%s: lost rows %s, unrequested rows %s%s' % (what, lost[:20], extra[:20], '' if lost or extra else ' (rows repeated or out of order)'))
        return
    # resumed reading of adjacent ranges
    ranges = list(zip([None] + case['cuts'], case['cuts'] + [None]))
    flat, index, seg_i, steps = [], 0, 0, 0
    interrupted = 0
    for a, b in ranges:
        done = False
        while not done:
            steps += 1
            if steps > 60:
                env.violation('no-progress', 'reading range [%s, %s) of %s makes no progress' % (a, b, case['events']))
                return
            # faults and early leaves stop after the listed segments
            seg = case['segs'][seg_i] if seg_i < len(case['segs']) else {'chunk': case['segs'][0]['chunk'], 'leave': None, 'fault': None}
            seg_i += 1
            chunk = max(seg['chunk'], biggest + 1)
            got = []

            def call():
                with tb.open_file(path, 'r') as f:
                    gen_ = au.data_aligned_at_events(f.root.Hits, start_event_number=a, stop_event_number=b, start_index=index, chunk_size=chunk, fail_on_missing_events=False)
                    for c, idx in gen_:
                        if seg['leave'] is not None and len(got) >= seg['leave']:
                            gen_.close()
                            return 'left'
                        got.append((c['uid'].copy(), idx))
                        if len(got) > len(data) + 2:
                            raise RuntimeError('more chunks than rows')
                return 'end'
            faults = [] if seg['fault'] is None else [{'op': 'read', 'nth': seg['fault'], 'kind': 'EIO'}]
            out = env.run(call, case['cfg'], faults=faults, tag='segment')
            what = 'resumed read of [%s, %s) from row %d with chunk size %d, table events %s' % (a, b, index, chunk, case['events'])
            if out.kind == 'hang':
                env.violation('hang', '%s: %s' % (what, out.error))
                return
            if out.kind == 'error' and not out.fired:
                env.violation('spurious-error', '%s fails: %s' % (what, out.describe()))
                return
            if out.kind == 'ok' and out.fired:
                env.violation('swallowed-error', '%s: the read error was swallowed' % what)
                return
            if not _check_chunks(env, data, got, chunk, what):
                return
            for u, i in got:
                flat.extend(u.tolist())
                index = int(i)
            done = out.kind == 'ok' and out.value == 'end'
            interrupted += not done
    env.nontrivial = interrupted > 0
    env.probes['interrupted'] += interrupted > 0
    if flat != list(range(len(data))):
        seen = np.bincount(flat, minlength=len(data)) if flat else np.zeros(len(data), int)
        env.violation('wrong-rows', 'resumed read of ranges %s, table events %s: rows lost %s, rows delivered twice %s' % (
            ranges, case['events'], np.nonzero(seen == 0)[0][:20].tolist(), np.nonzero(seen > 1)[0][:20].tolist()))


def shrinks(case):
    ev = case['events']
    for k in (len(ev) // 2, 1):
        if k and len(ev) > k:
            for i in range(0, len(ev), k):
                yield dict(case, events=ev[:i] + ev[i + k:])
    for i, e in enumerate(ev):
        if e[1] > 1:
            yield dict(case, events=ev[:i] + [[e[0], 1]] + ev[i + 1:])
    for k, v in (('start_ev', None), ('stop_ev', None), ('start_index', None), ('stop_index', None), ('fail', False), ('speedup', False), ('aligned', True)):
        if k in case and case[k] != v:
            yield dict(case, **{k: v})
    for i in range(len(case.get('cuts', ()))):
        yield dict(case, cuts=case['cuts'][:i] + case['cuts'][i + 1:])
    for i, s in enumerate(case.get('segs', ())):
        if len(case['segs']) > 1:
            yield dict(case, segs=case['segs'][:i] + case['segs'][i + 1:])
