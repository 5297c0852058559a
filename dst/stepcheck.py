"""Checks one analysis step: right result on any chunking/schedule, honest and
side-effect free failure, recoverable after a failure or process death."""
import os

from . import h5

FAULT_KINDS = ['EIO', 'EIO', 'ENOSPC', 'ENOMEM']


def gen_fault(rng, workers=False, p_none=0.4, p_crash=0.15):
    r = rng.random()
    if r < p_none:
        return None
    if r < p_none + p_crash:
        return {'type': 'crash', 'pos': rng.random()}
    if workers and rng.random() < 0.35:
        return {'type': 'worker', 'pos': rng.random(), 'kind': rng.choice(['EIO', 'ENOMEM', 'KILL'])}
    return {'type': 'io', 'pos': rng.random(), 'kind': rng.choice(FAULT_KINDS), 'when': rng.choice(['before', 'before', 'after', 'torn']), 'sticky': rng.random() < 0.3}


def _inputs(paths):
    return {p: h5.sha(p) for p in paths}


def _clear(paths):
    for p in paths:
        if os.path.exists(p):
            os.remove(p)


def check_step(env, call, inputs, outputs, compare, cfg, fault=None, what='step', refusal=None, handles_ok=False):
    """call() runs the step in simulation; compare(value) -> None or (class, message).

    refusal(error) -> True when the step may legitimately refuse this input.
    Returns the Outcome of the fault-free run, or None after a violation.
    """
    before = _inputs(inputs)
    _clear(outputs)
    out = env.run(call, cfg, tag=what)
    env.probes['steps_io'] += out.io.n
    if out.kind == 'hang':
        env.violation('hang', '%s does not return: %s' % (what, out.error))
        return None
    if out.kind == 'error':
        if refusal is not None and refusal(out.error):
            env.probes['refused'] += 1
            return None
        env.violation('spurious-error', '%s fails although nothing went wrong: %s%s' % (what, out.describe(), tb_tail(out)))
        return None
    if _bad_state(env, out, before, what + ' (no fault)', handles_ok):
        return None
    d = guarded(compare, out.value)
    if d:
        env.violation(d[0], '%s: %s' % (what, d[1]))
        return None
    if not fault:
        return out
    n = out.io.n
    if fault['type'] == 'crash':
        _clear(outputs)
        at = min(int(fault['pos'] * n), n - 1)
        r = env.crash_run(call, at, cfg)
        env.probes['crash_' + str(r)] += 1
        for p in inputs:
            if not os.path.exists(p) or h5.sha(p) != before[p]:
                env.violation('input-changed', '%s: the input file %s differs after a process death at I/O step %d' % (what, os.path.basename(p), at))
                return None
        desc = '%s repeated after the process died at I/O step %d of %d' % (what, at, n)
    else:
        _clear(outputs)
        if fault['type'] == 'worker':
            k = out.io.kinds.get('worker', 0)
            if not k:
                return out
            f = {'op': 'worker', 'nth': min(int(fault['pos'] * k), k - 1), 'kind': fault['kind'], 'when': 'before'}
        else:
            f = {'at': min(int(fault['pos'] * n), n - 1), 'kind': fault['kind'], 'when': fault['when'], 'sticky': fault['sticky']}
        fo = env.run(call, cfg, faults=[f], tag=what + ' with fault')
        desc = '%s with injected fault %s' % (what, fo.fired and fo.io.fired[0] or f)
        if fo.kind == 'hang':
            env.violation('hang', '%s does not return: %s' % (desc, fo.error))
            return None
        if fo.kind == 'error' and not fo.fired:
            env.violation('spurious-error', '%s fails although the fault was not met: %s' % (desc, fo.describe()))
            return None
        if fo.kind == 'ok':
            d = guarded(compare, fo.value)
            if d:
                env.violation('silent-failure' if fo.fired else d[0], '%s returned normally, but %s' % (desc, d[1]))
                return None
        if fo.kind == 'error':
            env.probes['failed_loudly'] += 1
        if _bad_state(env, fo, before, desc, handles_ok):
            return None
        if fo.kind == 'ok':
            return out
        desc = '%s repeated after a failure (%s)' % (what, fo.io.fired[0] if fo.fired else '')
    ro = env.run(call, cfg, tag=what + ' again')
    if ro.kind != 'ok':
        env.violation('not-repeatable', '%s: %s%s' % (desc, ro.describe(), tb_tail(ro)))
        return None
    if _bad_state(env, ro, before, desc, handles_ok):
        return None
    d = guarded(compare, ro.value)
    if d:
        env.violation('not-repeatable', '%s: %s' % (desc, d[1]))
        return None
    return out


def tb_tail(out):
    if not out.traceback:
        return ''
    lines = [x.strip() for x in out.traceback.strip().splitlines() if x.strip().startswith('File "') and 'beam_telescope' in x]
    return ' [%s]' % lines[-1] if lines else ''


def guarded(compare, value):
    try:
        return compare(value)
    except Exception as e:
        return ('unreadable', 'the output cannot be read as documented: %s: %s' % (type(e).__name__, str(e)[:300]))


def _bad_state(env, out, before, what, handles_ok):
    for p, s in before.items():
        if not os.path.exists(p) or h5.sha(p) != s:
            env.violation('input-changed', '%s: the input file %s was changed' % (what, os.path.basename(p)))
            return True
    if out.handles and not handles_ok:
        env.violation('leaked-file', '%s (%s): files still open: %s' % (what, out.describe(), out.handles))
        return True
    if out.live_threads or out.live_pools:
        env.violation('leaked-worker', '%s (%s): %d threads and %d worker pools still running' % (what, out.describe(), out.live_threads, out.live_pools))
        return True
    return False


def shrink_common(case):
    if case.get('fault'):
        yield dict(case, fault=None)
    cfg = case.get('cfg') or {}
    for k, v in (('line_permille', 0), ('stall_permille', 0), ('late_pickle_permille', 0), ('policy', 'random'), ('cpu_count', 2)):
        if k in cfg and cfg[k] != v:
            yield dict(case, cfg=dict(cfg, **{k: v}))


def shrink_events(case, key='events', minimum=1):
    ev = case[key]
    for k in (len(ev) // 2, len(ev) // 4, 1):
        if k and len(ev) - k >= minimum:
            for i in range(0, len(ev), k):
                if len(ev) - len(ev[i:i + k]) >= minimum:
                    yield dict(case, **{key: ev[:i] + ev[i + k:]})


def gen_config_fault(rng, p_none=0.4):
    """A fault for check_config_step; most hit the writing at the end."""
    if rng.random() < p_none:
        return None
    return {'type': rng.choice(['io', 'io', 'crash', 'power']), 'pos': rng.random(), 'tail': rng.random() < 0.7, 'kind': rng.choice(['EIO', 'ENOSPC', 'ENOMEM']), 'when': rng.choice(['before', 'after', 'torn']),
            'sticky': rng.random() < 0.4, 'keep': rng.choice([0.0, 0.5, 0.9])}


def check_config_step(env, call, target, inputs, compare, fault=None, what='step', refusal=None, temporary=(), cfg=None):
    """Checks a step whose result is the configuration file *target*, which may
    exist before and then is replaced as a whole or not at all.

    compare(value) -> None or (class, message), for the configuration in target.
    temporary(name) says which files a failed step may leave behind.
    """
    temporary = temporary or (lambda name: False)
    ins = [p for p in inputs if p != target]
    before = _inputs(ins)
    with env.iofault.harness():
        old = open(target, 'rb').read() if os.path.exists(target) else None
        files = set(os.listdir(env.dir))

    def content():
        with env.iofault.harness():
            return open(target, 'rb').read() if os.path.exists(target) else None

    def reset():
        with env.iofault.harness():
            for f in set(os.listdir(env.dir)) - files:
                os.remove(env.path(f))
            if old is not None:
                with open(target, 'wb') as f:
                    f.write(old)

    def stray(desc, failed=False):
        extra = sorted(f for f in set(os.listdir(env.dir)) - files - {os.path.basename(target)} if not (failed and temporary(f)))
        if extra:
            env.violation('stray-file', '%s: additional files %s' % (desc, extra))
        return bool(extra)

    out = env.run(call, cfg, tag=what, text=True)
    env.probes['steps_io'] += out.io.n
    if out.kind == 'hang':
        env.violation('hang', '%s does not return: %s' % (what, out.error))
        return None
    if out.kind == 'error':
        if refusal is not None and refusal(out.error):
            env.probes['refused'] += 1
            if content() != old:
                env.violation('torn-file', '%s is refused (%s), but the configuration was changed' % (what, out.describe()))
            else:
                stray(what + ' (refused)', True)
            return None
        env.violation('spurious-error', '%s fails although nothing went wrong: %s%s' % (what, out.describe(), tb_tail(out)))
        return None
    if _bad_state(env, out, before, what + ' (no fault)', False) or stray(what):
        return None
    d = guarded(compare, out.value)
    if d:
        env.violation(d[0], '%s: %s' % (what, d[1]))
        return None
    if not fault:
        return out
    n = out.io.n
    reset()
    at = int(fault['pos'] * n)
    if fault['tail']:
        at = n - 1 - int((1 - fault['pos']) * 25)
    at = min(max(at, 0), n - 1)
    if fault['type'] in ('crash', 'power'):
        r = env.crash_run(call, at, cfg, text=True, power=fault['keep'] if fault['type'] == 'power' else None)
        env.probes['crash_' + str(r)] += 1
        desc = '%s, then %s at file operation %d of %d' % (what, 'power loss' if fault['type'] == 'power' else 'process death', at, n)
        value = None
        for p in ins:
            if not os.path.exists(p) or h5.sha(p) != before[p]:
                env.violation('input-changed', '%s: the input file %s differs' % (desc, os.path.basename(p)))
                return None
    else:
        fo = env.run(call, cfg, faults=[{'at': at, 'kind': fault['kind'], 'when': fault['when'], 'sticky': fault['sticky']}], tag=what + ' with fault', text=True)
        desc = '%s with injected fault %s (operation %d of %d)' % (what, fo.io.fired and fo.io.fired[0], at, n)
        if fo.kind == 'hang':
            env.violation('hang', '%s does not return: %s' % (desc, fo.error))
            return None
        if fo.kind == 'error' and not fo.fired:
            env.violation('spurious-error', '%s fails although the fault was not met: %s' % (desc, fo.describe()))
            return None
        if fo.kind == 'ok':
            d = guarded(compare, fo.value)
            if d:
                env.violation('silent-failure' if fo.fired else d[0], '%s returned normally, but %s' % (desc, d[1]))
                return None
            return out
        env.probes['failed_loudly'] += 1
        if _bad_state(env, fo, before, desc, False):
            return None
        if not fo.io.full and not any('remove' in str(x[2]) for x in fo.io.fired) and stray(desc, True):
            return None
        value = None
    now = content()
    if now != old:
        d = guarded(compare, value)
        if d:
            env.violation('torn-file', '%s left a configuration that is neither the old nor the new one: %s' % (desc, d[1]))
        return None if d else out
    ro = env.run(call, cfg, tag=what + ' again', text=True)
    if ro.kind != 'ok':
        env.violation('not-repeatable', '%s repeated after it: %s%s' % (desc, ro.describe(), tb_tail(ro)))
        return None
    if _bad_state(env, ro, before, desc + ' repeated', False):
        return None
    d = guarded(compare, ro.value)
    if d:
        env.violation('not-repeatable', '%s repeated after it: %s' % (desc, d[1]))
        return None
    return out
