"""Workload generator and reference model for the split/map/combine engine."""
import numpy as np

HITS = np.dtype([('event_number', '<i8'), ('uid', '<u4'), ('column', '<u2'), ('row', '<u2'), ('charge', '<f4')])


def table_from(events):
    """events: [[event_number, n_hits], ...] -> structured array."""
    n = sum(e[1] for e in events)
    a = np.zeros(n, HITS)
    a['event_number'] = np.repeat([e[0] for e in events], [e[1] for e in events]) if n else []
    uid = np.arange(n)
    a['uid'] = uid
    a['column'] = 1 + (uid * 7919 + 3) % 11
    a['row'] = 1 + (uid * 104729 + 5) % 17
    a['charge'] = ((uid * 31) % 13) * 0.5
    return a


def gen_events(rng, n_max=24, hit_max=5):
    n = rng.choice([0, 1, 2, 3, n_max // 2, n_max, n_max]) if rng.random() < 0.5 else rng.randint(1, n_max)
    ev = rng.choice([0, 0, 1, 5, 2 ** 33])
    out = []
    for _ in range(n):
        out.append([ev, rng.choice([1, 1, 1, 2, 3, hit_max])])
        ev += rng.choice([1, 1, 1, 2, 7, 100])
    return out


def f_copy():
    def work(data):
        return data
    return work


def f_filter():
    def work(data):
        return data[data['uid'] % 3 != 0]
    return work


def f_sparse():
    # most chunks give no row at all
    def work(data):
        return data[data['uid'] % 17 == 16]
    return work


def f_dup():
    def work(data):
        return np.repeat(data, 1 + (data['uid'] % 3))
    return work


def f_event_size():
    # correct only when no event is split between chunks
    def work(data):
        out = np.zeros(len(data), [('event_number', '<i8'), ('uid', '<u4'), ('n_hits', '<i4'), ('rank', '<i4')])
        ev, first, inv, cnt = np.unique(data['event_number'], return_index=True, return_inverse=True, return_counts=True)
        out['event_number'], out['uid'] = data['event_number'], data['uid']
        out['n_hits'] = cnt[inv]
        out['rank'] = np.arange(len(data)) - first[inv]
        return out
    return work


def f_hist1():
    def work(data):
        return np.bincount(data['column'], minlength=12).astype(np.uint32)
    return work


def f_hist_var():
    def work(data):
        return np.bincount(data['row'])
    return work


def f_hist2():
    def work(data):
        h = np.zeros((12, 18), np.uint32)
        np.add.at(h, (data['column'], data['row']), 1)
        return h
    return work


def f_hist2_var():
    def work(data):
        h = np.zeros((int(data['column'].max()) + 1 if len(data) else 1, int(data['row'].max()) + 1 if len(data) else 1), np.uint32)
        np.add.at(h, (data['column'], data['row']), 1)
        return h
    return work


def f_histf():
    # float weights that are exact in binary, so that the sum has no rounding
    def work(data):
        return np.bincount(data['column'], weights=data['charge'], minlength=12)
    return work


def f_table_and_hist():
    def work(data):
        return data[data['uid'] % 2 == 0], np.bincount(data['column'], minlength=12)
    return work


def f_two_tables():
    def work(data):
        ev, cnt = np.unique(data['event_number'], return_counts=True)
        s = np.zeros(len(ev), [('event_number', '<i8'), ('n', '<i4')])
        s['event_number'], s['n'] = ev, cnt
        return data[data['uid'] % 3 != 1], s
    return work


def f_three():
    def work(data):
        ev, cnt = np.unique(data['event_number'], return_counts=True)
        s = np.zeros(len(ev), [('event_number', '<i8'), ('n', '<i4')])
        s['event_number'], s['n'] = ev, cnt
        return [np.bincount(data['row']), s, np.bincount(data['column'], minlength=12).astype(np.uint32)]
    return work


def f_scale():
    def work(data, factor, offset=0):
        out = data.copy()
        out['charge'] = data['charge'] * factor + offset
        return out
    return work


FUNCS = {
    'copy': (f_copy, ['T']), 'filter': (f_filter, ['T']), 'sparse': (f_sparse, ['T']), 'dup': (f_dup, ['T']), 'event_size': (f_event_size, ['T']),
    'hist1': (f_hist1, ['H']), 'hist_var': (f_hist_var, ['H']), 'hist2': (f_hist2, ['H']), 'hist2_var': (f_hist2_var, ['H']), 'histf': (f_histf, ['H']),
    'table_and_hist': (f_table_and_hist, ['T', 'H']), 'two_tables': (f_two_tables, ['T', 'T']), 'three': (f_three, ['H', 'T', 'H']),
    'scale': (f_scale, ['T'])}
FUNC_KW = {'scale': {'factor': 2.0, 'offset': 0.25}}


def expected(kind, data, bad=()):
    f = FUNCS[kind][0]()
    r = f(data, **FUNC_KW.get(kind, {}))
    return list(r) if isinstance(r, (tuple, list)) else [r]


def node_names(kind):
    return ['Out%d' % i for i in range(len(FUNCS[kind][1]))]


def sched_cfg(rng):
    """Swarm: each run enables a random subset of the perturbations."""
    return {
        'policy': rng.choice(['random', 'random', 'sticky', 'prio', 'prio']),
        'cpu_count': rng.choice([1, 2, 3, 4, 8]),
        'task_spread': rng.choice([1, 5, 50, 50, 300]),
        'stall_permille': rng.choice([0, 0, 10, 60]),
        'line_permille': rng.choice([0, 0, 20, 100]),
        'late_pickle_permille': rng.choice([0, 0, 300]),
    }
