"""P22: converters carry every hit over to the file of its plane."""
import contextlib
import sys
import types

import numpy as np

from .. import h5, smcwork as W, stepcheck as S

ID = 'P22'
LEVEL = 'fault_enumeration'
PLAN = {'quick': {'cases': 1500, 'wall': 45}, 'thorough': {'cases': 100000, 'wall': 600}}
WARM = (0, 1)
RULE = ('one case = an interpreted hit table of FE-I4 or Mimosa26 planes (ordered, or with one event number that is too small), a selection of planes, given or generated file names, a chunk size, '
        'called directly or after the (stand-in) interpreter, and optionally one injected I/O fault or process death; non-trivial when hits of at least two chunks are in the file')
REAL = ['converter.pybar_fei4_converter and converter.pymosa_converter (process_dut, format_hit_table)', 'PyTables/HDF5 on scratch files', 'process death (forked image, _exit at an I/O step)']
STUB = ['pybar and pymosa_mimosa26_interpreter (not installed: stand-ins that write the interpreted table)', 'contextlib2 (not installed: contextlib)', 'failing PyTables calls (injected)']
ASSUMPTIONS = ['the interpreter of the raw data, which is third party, gives a hit table with the columns that the converters read']
FEI4 = [('event_number', '<i8'), ('trigger_number', '<u4'), ('relative_BCID', '|u1'), ('LVL1ID', '<u2'), ('column', '|u1'), ('row', '<u2'), ('tot', '|u1'), ('BCID', '<u2'), ('trigger_status', '|u1'), ('event_status', '<u2')]
M26 = [('plane', '|u1'), ('event_status', '<u4'), ('event_number', '<i8'), ('trigger_number', '<i8'), ('trigger_time_stamp', '<i8'), ('frame_id', '<i8'), ('column', '<u2'), ('row', '<u2'), ('row_time_stamp', '<i8')]
DEFAULT_IDS = [1, 2, 3, 4, 5, 6]
SUFFIX = '_interpreted.h5'


class FEI4Interpreter(object):
    """Stand-in for pybar's AnalyzeRawData: the interpreted file is named after
    the first (lowest) raw data file."""

    def __init__(self, raw_data_file, analyzed_data_file=None, create_pdf=False):
        files = sorted(raw_data_file) if isinstance(raw_data_file, (list, tuple)) else [raw_data_file]
        self.__dict__.update(_out=analyzed_data_file or files[0].rsplit('.', 1)[0] + SUFFIX, interpreter=types.SimpleNamespace(set_warning_output=lambda x: None, print_summary=lambda: None), settings={})

    def __setattr__(self, key, value):
        self.settings[key] = value

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False

    def interpret_word_table(self):
        write(self._out)

    def plot_histograms(self):
        pass


class M26Interpreter(object):
    def __init__(self, raw_data_file, analyzed_data_file=None, analyze_m26_header_ids=None, trigger_data_format=2, timing_offset=None, create_pdf=False):
        self.analyzed_data_file = analyzed_data_file or raw_data_file.rsplit('.', 1)[0] + SUFFIX
        self.analyze_m26_header_ids = list(DEFAULT_IDS) if analyze_m26_header_ids is None else analyze_m26_header_ids

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False

    def interpret_word_table(self):
        write(self.analyzed_data_file)


CURRENT = {}


def write(path):
    h5.write(path, [('Hits', CURRENT['table'])])


def modules():
    """The converters, with stand-ins for what is not installed."""
    def module(name, **kw):
        if name not in sys.modules:
            m = types.ModuleType(name)
            m.__dict__.update(kw)
            sys.modules[name] = m
        return sys.modules[name]
    module('contextlib2', ExitStack=contextlib.ExitStack)
    module('pybar').analysis = module('pybar.analysis')
    sys.modules['pybar.analysis'].analyze_raw_data = module('pybar.analysis.analyze_raw_data', AnalyzeRawData=FEI4Interpreter)
    d = module('pymosa_mimosa26_interpreter.data_interpreter', DataInterpreter=M26Interpreter)
    r = module('pymosa_mimosa26_interpreter.raw_data_interpreter', DEFAULT_PYMOSA_M26_HEADER_IDS=list(DEFAULT_IDS))
    module('pymosa_mimosa26_interpreter', data_interpreter=d, raw_data_interpreter=r, __path__=[])
    from beam_telescope_analysis.converter import pybar_fei4_converter, pymosa_converter
    return {'fei4': pybar_fei4_converter, 'm26': pymosa_converter}


def gen(rng, index, tier):
    kind = ('fei4', 'm26')[index] if index < 2 else rng.choice(['fei4', 'm26', 'm26'])
    n = rng.choice([0, 1, 2, 5, 12, 30, 60])
    ev, rows = rng.choice([0, 0, 1, 7, 2 ** 31, 2 ** 40]), []
    ids = rng.choice([DEFAULT_IDS, rng.sample(range(1, 11), rng.randint(1, 6)), rng.sample(range(0, 256), 3)])
    for _ in range(n):
        rows.append([ev, rng.choice(ids + [rng.choice(DEFAULT_IDS)]), rng.choice([0, 1, 79, 254 if kind == 'fei4' else 1151, rng.randint(0, 200)]), rng.choice([0, 1, 335, 575, rng.randint(0, 570)]), rng.randint(0, 14), rng.randint(0, 15)])
        ev += rng.choice([0, 0, 0, 1, 1, 3, 100])
    bad = None
    if n > 1 and rng.random() < 0.2:
        bad = rng.randrange(1, n)
        if rows[bad - 1][0] == 0:
            bad = None
    return {'kind': kind, 'rows': rows, 'bad': bad, 'ids': rng.choice([None, ids, ids]), 'names': rng.random() < 0.5, 'process': rng.random() < 0.3, 'several': rng.random() < 0.5, 'wrong': rng.choice([-1, 1]) if rng.random() < 0.08 else 0,
            'chunk': rng.choice([1, 2, 3, 7, max(1, n // 2), max(1, n - 1), max(1, n), 100000]), 'fault': S.gen_fault(rng), 'cfg': dict(W.sched_cfg(rng), line_permille=0)}


def table(case):
    rows = [list(r) for r in case['rows']]
    if case['bad'] is not None:
        rows[case['bad']][0] = rows[case['bad'] - 1][0] - 1
    a = np.zeros(len(rows), FEI4 if case['kind'] == 'fei4' else M26)
    for i, r in enumerate(rows):
        a['event_number'][i], a['column'][i], a['row'][i], a['trigger_number'][i] = r[0], r[2], r[3], i
        if case['kind'] == 'fei4':
            a['tot'][i], a['relative_BCID'][i], a['BCID'][i] = r[4], r[5], 77
        else:
            a['plane'][i], a['frame_id'][i], a['row_time_stamp'][i] = r[1], i, 5 * i
    return a


HIT = [('event_number', 'i8'), ('frame', 'u1'), ('column', 'u2'), ('row', 'u2'), ('charge', 'f4')]


def run(case, env):
    mod = modules()[case['kind']]
    data = CURRENT['table'] = table(case)
    ids = DEFAULT_IDS if case['ids'] is None else case['ids']
    fei4 = case['kind'] == 'fei4'
    raw = [env.path('raw%s.h5' % k) for k in ('', '_1', '_2')] if case['several'] and fei4 else env.path('raw.h5')
    inter = env.path('raw' + SUFFIX)
    k = 1 if fei4 else len(ids)
    outs = [env.path('out_%d.h5' % i) for i in range(k)] if case['names'] else [env.path('raw_interpreted_formatted_fei4.h5')] if fei4 else [env.path('raw_interpreted_header_id_%d.h5' % i) for i in ids]
    write(inter)
    given = list(outs) if case['names'] else None
    wrong = case['wrong'] if given and not fei4 and len(ids) + case['wrong'] > 0 else 0
    if wrong:
        given = given[:-1] if wrong < 0 else given + [env.path('more.h5')]

    def call():
        kw = {'output_filename' if fei4 else 'output_filenames': given and (given[0] if fei4 else list(given))}
        if not fei4:
            kw['analyze_m26_header_ids'] = case['ids'] and list(case['ids'])
        if case['process']:
            return mod.process_dut(raw[::-1] if isinstance(raw, list) else raw, **kw)
        return mod.format_hit_table(inter, chunk_size=case['chunk'], **kw)

    def content(v):
        if (v != outs[0]) if fei4 else (list(v) != outs):
            return 'wrong-return', 'returned %r, expected %r' % (v, outs)
        for i, p in enumerate(outs):
            got = h5.snapshot(p)
            if set(got) != {'/Hits'}:
                return 'wrong-nodes', 'nodes %s of %s, expected Hits' % (sorted(got), p)
            rows = data if fei4 else data[data['plane'] == ids[i]]
            want = np.zeros(len(rows), HIT)
            want['event_number'] = rows['event_number']
            want['column'], want['row'] = rows['column'].astype('i8') + (not fei4), rows['row'].astype('i8') + (not fei4)
            if fei4:
                want['frame'], want['charge'] = rows['relative_BCID'], rows['tot']
            a = got['/Hits'][2]
            for name in want.dtype.names:
                if name not in a.dtype.names or len(a) != len(want) or not np.array_equal(a[name].astype('f8' if name == 'charge' else 'i8'), want[name].astype('f8' if name == 'charge' else 'i8')):
                    return 'wrong-hits', 'column %s of the hits of %s: %s, expected %s' % (name, 'the plane' if fei4 else 'plane %d' % ids[i], a[name][:20].tolist() if name in a.dtype.names else None, want[name][:20].tolist())
        return None
    chunk = 1000000 if case['process'] else case['chunk']
    what = '%s %s(%d hits, header IDs %s, chunk size %d)' % (case['kind'], 'process_dut' if case['process'] else 'format_hit_table', len(data), None if fei4 else case['ids'], chunk)
    env.sig = [case['kind'], case['rows'], case['bad'], case['ids'], case['chunk'], case['process'], case['fault'], wrong]
    if case['bad'] is not None or wrong:
        before = {p: h5.sha(p) for p in [inter] if not case['process']}
        out = env.run(call, case['cfg'], tag=what)
        env.probes['unordered' if not wrong else 'wrong_list'] += 1
        if out.kind == 'ok':
            env.violation('silent-failure', '%s returned normally although %s' % (what, 'the number of files does not fit' if wrong else 'the event number decreases at row %d' % case['bad']))
        else:
            S._bad_state(env, out, before, what, False)
        env.nontrivial = len(data) > chunk
        return
    out = S.check_step(env, call, [] if case['process'] else [inter], outs, content, case['cfg'], case['fault'], what)
    if out is not None:
        env.nontrivial = len(data) > chunk
        env.probes['empty'] += not len(data)


def shrinks(case):
    yield from S.shrink_common(case)
    for k, v in (('process', False), ('several', False), ('names', False), ('ids', None), ('chunk', 100000)):
        if case[k] != v:
            yield dict(case, **{k: v})
    if case['bad'] is None:
        for c in S.shrink_events(case, 'rows', 0):
            yield c
