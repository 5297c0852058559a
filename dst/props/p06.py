"""P06: pixel masks depend on the hits only, not on chunks, cores or schedule."""
import numpy as np

from .. import h5, smcwork as W, stepcheck as S, tel

ID = 'P06'
LEVEL = 'exploration'
PLAN = {'quick': {'cases': 1200, 'wall': 80}, 'thorough': {'cases': 60000, 'wall': 780}}
WARM = (0, 1)
RULE = ('one case = one random hit table with noisy pixels, masking parameters, chunk size, core count and schedule, optionally one injected fault, failing worker or '
        'process death; occupancy and mask compared with a reference; non-trivial when the hits were read in at least two chunks')
REAL = ['hit_analysis.mask_pixels / mask', 'tools.smc.SMC', 'C++ histogramming', 'PyTables/HDF5 on scratch files', 'process death (forked image, _exit at an I/O step)']
STUB = ['multiprocessing.Pool', 'threading primitives and timed waits', 'failing PyTables calls and workers (injected)']
ASSUMPTIONS = ['hit indices are inside the pixel matrix']


def gen(rng, index, tier):
    nc, nr = rng.choice([(5, 7), (8, 8), (12, 9), (3, 20)])
    n_ev = rng.choice([1, 3, 10, 30, 60, 60])
    noisy = [[rng.randint(1, nc), rng.randint(1, nr)] for _ in range(rng.choice([0, 1, 2, 4]))]
    ev, events = 0, []
    for _ in range(n_ev):
        hits = [[rng.randint(1, nc), rng.randint(1, nr)] for _ in range(rng.choice([1, 1, 2, 4]))]
        hits += [p for p in noisy if rng.random() < 0.6]
        events.append([ev, hits])
        ev += rng.choice([1, 1, 3])
    mx = max(len(e[1]) for e in events)
    total = sum(len(e[1]) for e in events)
    return {'events': events, 'n': [nc, nr], 'threshold': rng.choice([0.5, 1.0, 2.0, 3.0, 10.0]), 'size': rng.choice([1, 2, 3, 5, [2, 3], [4, 1]]),
            'iterations': rng.choice([None, None, 0, 1, 2, 3]), 'mask_name': rng.choice(['NoisyPixelMask', 'NoisyPixelMask', 'DisabledPixelMask']),
            'disable': [[rng.randint(1, nc), rng.randint(1, nr)] for _ in range(3)] if rng.random() < 0.3 else None, 'wrapper': rng.random() < 0.2,
            'chunk': rng.choice([mx + 1, mx + 2, mx + 5, max(mx + 1, total // 3), total + 1, 100000]), 'default_name': rng.random() < 0.2,
            'fault': S.gen_fault(rng, workers=True, p_none=0.5, p_crash=0.1), 'cfg': W.sched_cfg(rng)}


def table(events, extra=()):
    rows = [(e[0], h[0], h[1]) for e in events for h in e[1]]
    a = np.zeros(len(rows), [('event_number', '<i8'), ('frame', '<u1'), ('column', '<u2'), ('row', '<u2'), ('charge', '<u2')])
    for i, r in enumerate(rows):
        a['event_number'][i], a['column'][i], a['row'][i] = r
    return a


def median(occ, size):
    """Median filter of an integer image with zeros outside, as scipy defines it
    (upper median for even windows, window shifted towards low indices)."""
    sx, sy = (size, size) if not isinstance(size, (list, tuple)) else size
    out = np.zeros_like(occ)
    nx, ny = occ.shape
    for i in range(nx):
        for j in range(ny):
            w = []
            for di in range(-(sx // 2), sx - sx // 2):
                for dj in range(-(sy // 2), sy - sy // 2):
                    a, b = i + di, j + dj
                    w.append(occ[a, b] if 0 <= a < nx and 0 <= b < ny else 0)
            out[i, j] = sorted(w)[len(w) // 2]
    return out


def reference(case):
    occ = np.zeros(case['n'], 'i8')
    for _, hits in case['events']:
        for c, r in hits:
            occ[c - 1, r - 1] += 1
    hist = occ.copy()
    mask = np.zeros(case['n'], bool)
    doubtful = False
    i = 0
    while True:
        i += 1
        bl = median(occ, case['size'])
        diff = (occ - bl).astype('f8')
        nz = occ != 0
        std = np.std(diff[nz] / np.sqrt(occ[nz])) if nz.any() else float('nan')
        thr = case['threshold'] * std * np.sqrt(occ)
        # a pixel exactly on the threshold is decided by rounding
        doubtful |= bool(np.any(nz & (np.abs(diff - thr) < 1e-9 * (1 + np.abs(thr))) & ~((diff == 0) & (thr == 0))))
        new = nz & (diff > thr)
        n_new = np.count_nonzero(new & ~mask)
        mask |= new
        occ[mask] = bl[mask]
        if n_new == 0 or (case['iterations'] and i >= case['iterations']):
            break
    return hist, mask, doubtful


def run(case, env):
    from beam_telescope_analysis import hit_analysis as ha
    nc, nr = case['n']
    size = tuple(case['size']) if isinstance(case['size'], list) else case['size']
    hits = table(case['events'])
    inp = env.path('hits.h5')
    h5.write(inp, [('Hits', hits)])
    outp = env.path('hits_mask.h5') if case['default_name'] else env.path('out.h5')
    dis = None
    name = case['mask_name']
    if case['disable'] is not None:
        dis = np.zeros((nc, nr), bool)
        for c, r in case['disable']:
            dis[c - 1, r - 1] = True
        name = 'NoisyPixelMask'
    inputs, outputs = [inp], [outp]
    kw = dict(iterations=case['iterations'], threshold=case['threshold'], filter_size=size, disable_mask=dis)
    if case['wrapper']:
        conf, other = env.path('telescope.yaml'), env.path('other.h5')
        tel.telescope(conf, [dict(n_columns=nc + 1, n_rows=nr), dict(n_columns=nc, n_rows=nr)])
        h5.write(other, [('Hits', hits[:1])])
        inputs.append(other)
        oout = env.path('other_mask.h5') if case['default_name'] else env.path('oout.h5')
        outputs.append(oout)
        call = lambda: ha.mask(conf, [other, inp], output_mask_files=None if case['default_name'] else [oout, outp], pixel_mask_names=['NoisyPixelMask', name], iterations=[1, case['iterations']],
                               thresholds=[7.0, case['threshold']], filter_sizes=[2, size], disable_masks=[None, dis], plot=False, chunk_size=case['chunk'])
        value = [oout, outp]
    else:
        dut = tel.dut(n_columns=nc, n_rows=nr)
        call = lambda: ha.mask_pixels(dut, inp, pixel_mask_name=name, output_mask_file=None if case['default_name'] else outp, plot=False, chunk_size=case['chunk'], **kw)
        value = outp
    hist, mask, doubtful = reference(case)
    env.probes['doubtful'] += doubtful
    env.probes['masked'] += bool(mask.any())

    def compare(v):
        if v != value:
            return 'wrong-return', 'returned %r, expected %r' % (v, value)
        got = h5.snapshot(outp)
        need = {'/HistOcc', '/' + name} | ({'/DisabledPixelMask'} if dis is not None else set())
        if set(got) != need:
            return 'wrong-nodes', 'nodes %s, expected %s' % (sorted(got), sorted(need))
        if not np.array_equal(got['/HistOcc'][2].astype('i8'), hist):
            return 'wrong-occupancy', 'HistOcc has %d entries, %d hits; %s' % (got['/HistOcc'][2].sum(), hist.sum(), h5.same_array(got['/HistOcc'][2].astype('i8'), hist))
        m = got['/' + name][2]
        if m.shape != mask.shape or m.dtype != bool:
            return 'wrong-mask', 'mask shape %s, type %s' % (m.shape, m.dtype)
        if not doubtful and not np.array_equal(m, mask):
            return 'wrong-mask', 'masked %s, expected %s' % (np.argwhere(m).tolist(), np.argwhere(mask).tolist())
        if dis is not None and not np.array_equal(got['/DisabledPixelMask'][2], dis):
            return 'wrong-mask', 'the given disable mask was not stored as it is'
        return None
    out = S.check_step(env, call, inputs, outputs, compare, case['cfg'], case['fault'], 'mask_pixels(%dx%d, %d hits, chunk size %d, cores %d)' % (nc, nr, len(hits), case['chunk'], case['cfg']['cpu_count']))
    if out is not None:
        env.nontrivial = len(hits) > case['chunk']
    env.sig = [case['events'], case['chunk'], case['threshold'], size, case['iterations'], env.inter]


def shrinks(case):
    yield from S.shrink_common(case)
    yield from S.shrink_events(case)
    for k, v in (('wrapper', False), ('disable', None), ('default_name', False), ('iterations', 1), ('size', 3)):
        if case[k] != v:
            yield dict(case, **{k: v})
