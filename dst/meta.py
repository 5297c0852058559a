"""Statements of the properties; 'python -m dst.meta' writes properties.jsonl
and MANIFEST.json from them."""
import json
import os

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
NA = []


def prop(id, title, statement, over, text, why, files, mechanism, observe, state=None, level='exploration', level_note='', technique=None, na=None):
    d = {'id': id, 'title': title, 'statement': statement, 'quantifier': {'over': over, 'text': text}, 'why_tests_cant': why,
         'anchors': {'files': files, 'mechanism': [{'name': n, 'where': w} for n, w in mechanism], 'observe_at': observe, 'hook_needed': None}}
    if state:
        d['anchors']['state'] = [{'name': a, 'meaning': b, 'where': c} for a, b, c in state]
    assert len(title) <= 80, title
    P.append((d, level, level_note, technique or 'deterministic simulation with fault injection (seeded schedules of the real threads, simulated pool and I/O faults)', na))


SMC = 'beam_telescope_analysis/tools/smc.py'
AU = 'beam_telescope_analysis/tools/analysis_utils.py'
HA = 'beam_telescope_analysis/hit_analysis.py'
TA = 'beam_telescope_analysis/track_analysis.py'
DA = 'beam_telescope_analysis/dut_alignment.py'
RA = 'beam_telescope_analysis/result_analysis.py'
DS = 'beam_telescope_analysis/tools/data_selection.py'
TEL = 'beam_telescope_analysis/telescope/telescope.py'
DUT = 'beam_telescope_analysis/telescope/dut.py'
SU = 'beam_telescope_analysis/tools/storage_utils.py'
SIMD = 'beam_telescope_analysis/tools/simulate_data.py'
GU = 'beam_telescope_analysis/tools/geometry_utils.py'
CONV4 = 'beam_telescope_analysis/converter/pybar_fei4_converter.py'
CONV26 = 'beam_telescope_analysis/converter/pymosa_converter.py'

SAMPLED = 'Seeded sampling, not exhaustion; a clean run is evidence. '

prop('P01', 'Split/map/combine gives the sequential result on every schedule',
     'Applying a function to an event-ordered table with the split/map/combine engine yields, for every table output, exactly the rows that one sequential call on the whole table yields, in the same order, and for every histogram output the sum over all chunks. '
     'The result does not depend on the chunk size, the number of cores, or the order and time in which threads are scheduled and worker processes finish. The input file is not changed.',
     ['schedules', 'inputs', 'configurations'],
     'all interleavings of reader, dispatcher and writer threads, all completion orders and durations of worker tasks, all chunk sizes larger than the largest event, all core counts, event-local functions with table and histogram outputs',
     'The tests run one chunk size on one machine; whether a reordering of task completions or a late thread loses, duplicates or reorders a chunk depends on the schedule, which no test controls.',
     [SMC, AU], [('reader/async-worker/writer threads', SMC + ':SMC'), ('in-order collection of async results', SMC + ':SMC._writer'), ('event aligned chunks', AU + ':data_aligned_at_events')],
     ['content of the output file'], [('data_deque / res_deque', 'bounded hand-over queues between the threads, None marks the end', SMC)],
     level_note=SAMPLED + 'The real engine threads run under a seeded scheduler; worker processes are simulated by running the pickled task on a private copy.')

prop('P02', 'A failure inside split/map/combine always reaches the caller',
     'If the worker function, a worker process, a thread, or any file operation of a split/map/combine run fails, the call terminates and raises; it never hangs and never returns normally with missing or wrong data. '
     'After the failure no file handle, thread or worker pool of the run is left behind, the input file is unchanged, and repeating the call without the fault succeeds with the complete result.',
     ['schedules', 'fault_sequences', 'inputs'],
     'every single fault (I/O error, full disk, memory error, failing worker, failing thread or pool start) at any step of any schedule, and pairs of faults',
     'No test injects a failure; the failing step and the states of the other threads at that moment span a space tests do not reach (before the repairs a failing worker made the engine hang or return a partial file).',
     [SMC], [('exception hand-over and release', SMC + ':SMC._run_thread, SMC._release'), ('force_stop event', SMC + ':SMC')],
     ['return/raise of the constructor', 'open file handles', 'live threads and pools', 'output of a repeated call'], level='fault_enumeration',
     level_note=SAMPLED + 'Faults are placed at numbered I/O steps and worker tasks of simulated runs; liveness is progress within a bounded number of simulated waits after the fault.')

prop('P03', 'In-place split/map/combine replaces a node completely or not at all',
     'When split/map/combine writes back into its input file, a successful call replaces the target nodes with the complete result, and a failing call leaves every existing node exactly as it was. '
     'Nodes that are not a target never change, over any sequence of successful and failing calls on the same file.',
     ['histories', 'schedules', 'fault_sequences'],
     'all sequences of in-place calls with any mix of functions, chunk sizes, core counts, schedules and injected failures before the final replacement step',
     'The tests never write in place, never fail a call and never continue with the file after a failure.',
     [SMC], [('temporary node renamed at the end', SMC + ':SMC._writer')], ['whole content of the file after every call'], level='fault_enumeration',
     level_note=SAMPLED + 'A failure of the final remove/rename pair itself and a process death are excluded (HDF5 offers no atomic replacement).')

exec(open(os.path.join(VERIF, 'dst', 'meta_more.py')).read()) if os.path.exists(os.path.join(VERIF, 'dst', 'meta_more.py')) else None


def main():
    with open(os.path.join(VERIF, 'properties.jsonl'), 'w') as f:
        for d, *_ in sorted(P, key=lambda x: x[0]['id']):
            f.write(json.dumps(d) + '\n')
    checks, na = [], []
    for d, level, note, tech, why in sorted(P, key=lambda x: x[0]['id']):
        if why:
            na.append({'property': d['id'], 'reason': why})
            continue
        if not os.path.exists(os.path.join(VERIF, 'dst', 'props', d['id'].lower() + '.py')):
            na.append({'property': d['id'], 'reason': 'no check built yet'})
            continue
        checks.append({'property': d['id'], 'quick_cmd': './check %s --tier quick' % d['id'], 'thorough_cmd': './check %s --tier thorough' % d['id'],
                       'evidence_file': 'evidence/%s.json' % d['id'], 'technique': tech, 'level': level, 'level_note': note})
    m = {'version': 1, 'setup_cmd': './check P01 --cases 16 --no-evidence', 'checks': checks, 'not_applicable': na,
         'notes': 'No hooks in /repo: the simulator replaces the primitives (threads, events, locks, queues, pools, time, cpu_count, PyTables calls) from outside. See DESIGN.md.'}
    with open(os.path.join(VERIF, 'MANIFEST.json'), 'w') as f:
        json.dump(m, f, indent=1)
        f.write('\n')


if __name__ == '__main__':
    main()
