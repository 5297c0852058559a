"""Case runner, parallel search, minimiser, replay and evidence writer."""
import argparse
import faulthandler
import collections
import contextlib
import hashlib
import importlib
import json
import os
import random
import select
import shutil
import signal
import sys
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
RESERVED_EXIT = 77


class HarnessError(Exception):
    pass


class Violation(object):
    def __init__(self, cls, msg, key=None):
        self.cls, self.msg, self.key = cls, msg, key or cls

    def as_dict(self):
        return {'class': self.cls, 'message': self.msg[:2000], 'key': self.key}


class Env(object):
    """What one case may use."""

    def __init__(self, case, scratch):
        from . import core, iofault
        self.core, self.iofault = core, iofault
        self.case = case
        self.dir = os.path.join(scratch, 'case')
        shutil.rmtree(self.dir, ignore_errors=True)
        os.makedirs(self.dir)
        self.n_sims = 0
        self.traces = []
        self.violations = []
        self.stats = collections.Counter()
        self.inter = []
        self.sim_time = 0.0
        self.logs = []
        self.nontrivial = False
        self.sig = []
        self.probes = collections.Counter()
        self.last_io = None

    def path(self, name):
        return os.path.join(self.dir, name)

    def violation(self, cls, msg, key=None):
        self.violations.append(Violation(cls, msg, key))

    def run(self, fn, cfg=None, faults=(), crash_at=None, tag='', text=False, power=None):
        """Runs fn() as the main thread of a fresh simulation.

        Returns an Outcome with .kind in {'ok', 'error', 'hang'}.
        """
        core, iofault = self.core, self.iofault
        k = self.n_sims
        self.n_sims += 1
        choices = None
        rec = self.case.get('choices')
        if rec is not None and k < len(rec):
            choices = rec[k]
        sim = core.Sim('%s/%d' % (self.case.get('seed', 0), k), cfg, choices)
        io = iofault.IO(sim, faults, crash_at)
        io.text_root, io.power = (self.dir if text else None), power
        out = Outcome(sim, io)
        assert core._current[0] is None
        core._current[0] = sim
        sim.start_main()
        try:
            try:
                out.value = fn()
                out.kind = 'ok'
            except core.SimHang as e:
                out.kind, out.error = 'hang', e
            except core.SimKilled as e:
                raise HarnessError('main thread killed: %r' % e)
            except Exception as e:
                out.kind, out.error = 'error', e
                out.traceback = traceback.format_exc()
            except SystemExit as e:
                out.kind, out.error = 'error', e
            out.live_threads = sum(1 for t in sim.threads if t is not sim.main and t.state != 'done')
            out.live_pools = sum(1 for p in sim.pools if p.state == 'run')
            out.handles = iofault.open_handles() + sorted(f._name for f in io.text_files if not f._f.closed)
        finally:
            sim.unwind()
            core._current[0] = None
            iofault.close_all()
            io.end()
        self.traces.append(sim.trace)
        self.stats.update(sim.stats)
        self.stats['sim_runs'] += 1
        self.stats['sched_steps'] += sim.steps
        self.stats['context_switches'] += sim.n_switch
        self.sim_time += sim.now
        self.inter.append(sim.inter.hexdigest())
        self.logs.append({'tag': tag, 'kind': out.kind, 'error': repr(out.error)[:500] if out.error is not None else None,
                          'faults_fired': io.fired[:20], 'log': sim.log})
        return out

    def crash_run(self, fn, crash_at, cfg=None, text=False, power=None):
        """Runs fn() in a forked image that dies at I/O step crash_at; what is
        on disk at that instant survives.  True if the process died there."""
        k = self.n_sims
        sys.stdout.flush()
        sys.stderr.flush()
        pid = os.fork()
        if pid == 0:
            code = 0
            try:
                signal.alarm(120)
                out = self.run(fn, cfg, crash_at=crash_at, text=text, power=power)
                code = {'ok': 10, 'error': 11, 'hang': 12}[out.kind]
            except BaseException:
                traceback.print_exc()
                code = 99
            os._exit(code)
        _, status = os.waitpid(pid, 0)
        self.n_sims = k + 1
        self.traces.append([])
        self.stats['sim_runs'] += 1
        if os.WIFEXITED(status):
            code = os.WEXITSTATUS(status)
            if code == RESERVED_EXIT:
                self.stats['fault.process_crash' if power is None else 'fault.power_loss'] += 1
                return 'crashed'
            if code == 99:
                raise HarnessError('crash run failed in the harness')
            return {10: 'ok', 11: 'error', 12: 'hang'}.get(code, 'exit%d' % code)
        return 'signal%d' % os.WTERMSIG(status)


class Outcome(object):
    def __init__(self, sim, io):
        self.sim, self.io = sim, io
        self.kind = None
        self.value = None
        self.error = None
        self.traceback = None

    @property
    def fired(self):
        return bool(self.io.fired)

    def describe(self):
        if self.kind == 'ok':
            return 'returned normally'
        return '%s: %s: %s' % (self.kind, type(self.error).__name__, str(self.error)[:300])


def digest(env):
    h = hashlib.sha1()
    for x in env.inter:
        h.update(x.encode())
    h.update(json.dumps([v.as_dict() for v in env.violations], sort_keys=True).encode())
    h.update(json.dumps(env.traces).encode())
    return h.hexdigest()


def _theirs(e):
    """True if an exception was raised by the code under test (or by a library
    on its behalf) and not by the harness or by the machine."""
    from . import boot
    if isinstance(e, (HarnessError, MemoryError, OSError, ImportError)):
        return False
    frames = [os.path.realpath(f.filename) for f in traceback.extract_tb(e.__traceback__)]
    repo = os.path.join(os.path.realpath(boot.REPO), 'beam_telescope_analysis') + os.sep
    mine = os.path.join(VERIF, 'dst') + os.sep
    last = max([i for i, f in enumerate(frames) if f.startswith(mine)], default=-1)
    return any(f.startswith(repo) for f in frames[last + 1:])


def run_case(prop, case, scratch):
    env = Env(case, scratch)
    random.seed(0)
    import numpy as np
    np.random.seed(int(hashlib.sha1(str(case.get('seed')).encode()).hexdigest()[:8], 16))
    try:
        try:
            prop.run(case, env)
        except Exception as e:
            if not _theirs(e):
                raise
            # a constructor or helper of the code under test that the harness calls directly
            env.violation('spurious-error', 'code under test fails on valid input: %s: %s [%s]' % (type(e).__name__, str(e)[:300], ' < '.join(
                '%s:%d %s' % (os.path.basename(f.filename), f.lineno, f.name) for f in reversed(traceback.extract_tb(e.__traceback__)[-3:]))))
    finally:
        env.core._current[0] = None
        env.iofault.close_all()
        shutil.rmtree(env.dir, ignore_errors=True)
    return env


def gen_case(prop, seed, index, tier):
    rng = random.Random('%s/%s/%s' % (prop.ID, seed, index))
    case = prop.gen(rng, index, tier)
    case['property'] = prop.ID
    case['seed'] = '%s:%s:%d' % (prop.ID, seed, index)
    return case


# ---------------------------------------------------------------------------
# parallel search
# ---------------------------------------------------------------------------
@contextlib.contextmanager
def quiet(log):
    sys.stdout.flush()
    sys.stderr.flush()
    o, e = os.dup(1), os.dup(2)
    fd = os.open(log, os.O_WRONLY | os.O_CREAT | os.O_APPEND, 0o600)
    os.dup2(fd, 1)
    os.dup2(fd, 2)
    try:
        yield o
    finally:
        sys.stdout.flush()
        sys.stderr.flush()
        os.dup2(o, 1)
        os.dup2(e, 2)
        for x in (o, e, fd):
            os.close(x)


def _worker(prop, jobs, wfd, scratch, wid):
    """jobs: iterator of (index, case)."""
    wdir = os.path.join(scratch, 'w%s' % wid)
    os.makedirs(wdir, exist_ok=True)
    devnull = os.open(os.devnull, os.O_RDWR)
    os.dup2(devnull, 0)
    os.dup2(devnull, 1)
    errlog = os.open(os.path.join(wdir, 'err'), os.O_WRONLY | os.O_CREAT | os.O_TRUNC, 0o600)
    os.dup2(errlog, 2)

    def send(obj):
        data = (json.dumps(obj) + '\n').encode()
        while data:
            n = os.write(wfd, data)
            data = data[n:]
    for index, case in jobs:
        try:
            if os.fstat(errlog).st_size > 1 << 20:
                os.ftruncate(errlog, 0)
        except OSError:
            pass
        send({'start': index})
        t = time.time()
        try:
            env = run_case(prop, case, wdir)
            send({'done': index, 'wall': time.time() - t, 'digest': digest(env), 'violations': [v.as_dict() for v in env.violations],
                  'stats': dict(env.stats), 'inter': env.inter, 'sim_time': env.sim_time, 'nontrivial': env.nontrivial,
                  'sig': hashlib.sha1(json.dumps(env.sig, sort_keys=True, default=str).encode()).hexdigest(), 'probes': dict(env.probes)})
        except BaseException:
            send({'error': index, 'trace': traceback.format_exc()})
    send({'end': wid})
    os._exit(0)


class Search(object):
    def __init__(self, prop, scratch, seed, tier, workers):
        self.prop, self.scratch, self.seed, self.tier, self.workers = prop, scratch, seed, tier, workers

    def run(self, n_cases, wall, case_timeout, stop_on=lambda res: False, repeat_every=0):
        W = self.workers
        procs = {}
        results, errors, dead = {}, [], []
        repeats = {}
        t0 = time.time()
        deadline = t0 + wall

        def jobs(w):
            for i in range(w, n_cases, W):
                if time.time() > deadline:
                    return
                case = gen_case(self.prop, self.seed, i, self.tier)
                yield i, case
            # determinism self-check: some cases of the *next* worker again
            if repeat_every:
                # (in the same worker if each worker compiles code for its own cases)
                for i in range(w if getattr(self.prop, 'AFFINE', False) else (w + 1) % W, n_cases, W):
                    if (i // W) % repeat_every == 0 and time.time() < deadline:
                        yield -1 - i, gen_case(self.prop, self.seed, i, self.tier)

        for w in range(W):
            r, wr = os.pipe()
            pid = os.fork()
            if pid == 0:
                os.setsid()
                os.close(r)
                for p in procs.values():
                    os.close(p['fd'])
                try:
                    _worker(self.prop, jobs(w), wr, self.scratch, w)
                finally:
                    os._exit(1)
            os.close(wr)
            procs[w] = {'pid': pid, 'fd': r, 'buf': b'', 'cur': None, 'since': time.time(), 'alive': True, 'end': False}
        stop = False
        while any(p['alive'] for p in procs.values()) and not stop:
            fds = [p['fd'] for p in procs.values() if p['alive']]
            rd, _, _ = select.select(fds, [], [], 0.5)
            for w, p in procs.items():
                if not p['alive']:
                    continue
                if p['fd'] in rd:
                    data = os.read(p['fd'], 1 << 16)
                    if not data:
                        p['alive'] = False
                        _, status = os.waitpid(p['pid'], 0)
                        os.close(p['fd'])
                        if not p['end']:
                            dead.append((p['cur'], 'process died (status %r)' % status))
                            stop = True
                        continue
                    p['buf'] += data
                    while b'\n' in p['buf']:
                        line, p['buf'] = p['buf'].split(b'\n', 1)
                        msg = json.loads(line)
                        if 'start' in msg:
                            p['cur'], p['since'] = msg['start'], time.time()
                        elif 'done' in msg:
                            i = msg['done']
                            p['cur'] = None
                            p['since'] = time.time()
                            if i < 0:
                                repeats[-1 - i] = msg['digest']
                            else:
                                results[i] = msg
                                if stop_on(msg):
                                    stop = True
                        elif 'error' in msg:
                            errors.append((msg['error'], msg['trace']))
                            p['cur'] = None
                            if len(errors) > 3:
                                stop = True
                        elif 'end' in msg:
                            p['end'] = True
                elif p['cur'] is not None and time.time() - p['since'] > case_timeout:
                    dead.append((p['cur'], 'no answer within %d s' % case_timeout))
                    stop = True
        for p in procs.values():
            if p['alive']:
                _kill_group(p['pid'])
                os.close(p['fd'])
        return {'results': results, 'errors': errors, 'dead': dead, 'repeats': repeats, 'wall': time.time() - t0}


def _kill_group(pid):
    for f in (lambda: os.killpg(pid, signal.SIGKILL), lambda: os.kill(pid, signal.SIGKILL)):
        try:
            f()
        except OSError:
            pass
    try:
        os.waitpid(pid, 0)
    except OSError:
        pass


def last_words(path):
    try:
        text = open(path, errors='replace').read()[-20000:]
    except OSError:
        return ''
    lines = [x.strip() for x in text.replace('\r', '\n').split('\n')]
    return ' / '.join([x for x in lines if x and 'it/s' not in x and '%|' not in x][:25])[:1500]


def run_isolated(prop, case, scratch, timeout):
    """Runs one case in a forked process.  Returns a result dict; a crash or a
    missing answer of the process is itself a result."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        os.setsid()
        os.close(r)
        d = os.path.join(scratch, 'iso')
        os.makedirs(d, exist_ok=True)
        try:
            devnull = os.open(os.devnull, os.O_RDWR)
            os.dup2(devnull, 1)
            err = os.open(d + '.err', os.O_WRONLY | os.O_CREAT | os.O_TRUNC, 0o600)
            os.dup2(err, 2)
            faulthandler.enable(err)
            env = run_case(prop, case, d)
            res = {'violations': [v.as_dict() for v in env.violations], 'digest': digest(env), 'choices': env.traces, 'logs': env.logs}
        except BaseException:
            res = {'error': traceback.format_exc()}
        data = json.dumps(res, default=str).encode()
        while data:
            n = os.write(w, data)
            data = data[n:]
        os._exit(0)
    os.close(w)
    buf = b''
    end = time.time() + timeout
    timed_out = False
    while True:
        left = end - time.time()
        if left <= 0:
            timed_out = True
            break
        rd, _, _ = select.select([r], [], [], min(left, 1.0))
        if rd:
            data = os.read(r, 1 << 16)
            if not data:
                break
            buf += data
    os.close(r)
    if timed_out:
        _kill_group(pid)
        return {'violations': [{'class': 'no-answer', 'message': 'the call under test does not terminate (no answer within %d s of real time)' % timeout, 'key': 'no-answer'}], 'choices': [], 'logs': []}
    _, status = os.waitpid(pid, 0)
    try:
        return json.loads(buf.decode())
    except ValueError:
        return {'violations': [{'class': 'process-death', 'message': 'the process running the code under test died (wait status %d): %s' % (status, last_words(os.path.join(scratch, 'iso.err'))), 'key': 'process-death'}], 'choices': [], 'logs': []}


def minimise(prop, case, cls, scratch, budget_s, timeout):
    """Greedy shrinking of workload, faults and schedule; keeps the violation class."""
    t0 = time.time()
    tried = 0

    def fails(c):
        res = run_isolated(prop, c, scratch, timeout)
        hit = [v for v in res.get('violations', ()) if v['class'] == cls]
        return (res, hit) if hit else (None, None)

    best = dict(case)
    res, hit = fails(best)
    if not hit:
        return case, None, 0
    best_res = res
    improved = True
    while improved and time.time() - t0 < budget_s:
        improved = False
        for cand in (prop.shrinks(best) if hasattr(prop, 'shrinks') else ()):
            if time.time() - t0 > budget_s:
                break
            cand = dict(cand)
            cand.pop('choices', None)
            tried += 1
            r, h = fails(cand)
            if h:
                best, best_res, improved = cand, r, True
                break
    # schedule: cut the recorded choices from the end, then blank blocks
    ch = best_res.get('choices') or []
    if cls not in ('no-answer', 'process-death') and ch:
        cand = dict(best, choices=ch)
        r, h = fails(cand)
        if h:
            best, best_res = cand, r
            for k in range(len(ch)):
                n = len(ch[k])
                cut = n
                while cut > 0 and time.time() - t0 < budget_s:
                    cut //= 2
                    trial = [list(x) for x in best['choices']]
                    trial[k] = trial[k][:cut]
                    tried += 1
                    r, h = fails(dict(best, choices=trial))
                    if h:
                        best = dict(best, choices=trial)
                        best_res = r
                    else:
                        break
                size = max(1, len(best['choices'][k]) // 4)
                for lo in range(0, len(best['choices'][k]), size):
                    if time.time() - t0 > budget_s:
                        break
                    trial = [list(x) for x in best['choices']]
                    if not any(trial[k][lo:lo + size]):
                        continue
                    trial[k][lo:lo + size] = [0] * len(trial[k][lo:lo + size])
                    tried += 1
                    r, h = fails(dict(best, choices=trial))
                    if h:
                        best = dict(best, choices=trial)
                        best_res = r
    return best, best_res, tried


# ---------------------------------------------------------------------------
# known findings
# ---------------------------------------------------------------------------
def known_findings(pid):
    """Lines 'known: property=<id> key=<violation key> <what>' of the committed
    file; 'fixed: ...' lines are a record only and suppress nothing."""
    out = []
    path = os.path.join(VERIF, 'known_findings.txt')
    if os.path.exists(path):
        for line in open(path):
            p = line.split(None, 3)
            if len(p) == 4 and p[0] == 'known:' and p[1] == 'property=%s' % pid and p[2].startswith('key='):
                out.append({'key': p[2][4:], 'what': p[3].strip()})
    return out


def load_prop(pid):
    return importlib.import_module('dst.props.%s' % pid.lower())


def main(argv=None):
    ap = argparse.ArgumentParser()
    ap.add_argument('property')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--seed', type=int, default=int(os.environ.get('VERIF_SEED', '1') or 1))
    ap.add_argument('--cases', type=int)
    ap.add_argument('--workers', type=int, default=min(8, os.cpu_count() or 1))
    ap.add_argument('--wall', type=float)
    ap.add_argument('--replay')
    ap.add_argument('--one', type=int, help='run a single case index in this process and print it')
    ap.add_argument('--all', action='store_true', help='do not stop at the first violation')
    ap.add_argument('--no-evidence', action='store_true')
    ap.add_argument('--digests', help='write the digest of every case to this file')
    a = ap.parse_args(argv)
    if a.tier not in ('quick', 'thorough'):
        a.tier = 'quick'
    if not (a.replay or a.one is not None):
        code = _supervised(a)
        if code is not None:
            return code
        a.warm_isolated = True
    return _run(a, None)


def _supervised(a):
    """Runs the check in a child process, because the warm-up executes the code
    under test there.  Returns its exit code, or None when the warm-up crashed
    or did not end: then the check is repeated with every warm-up case in a
    process of its own."""
    r, w = os.pipe()
    sys.stdout.flush()
    sys.stderr.flush()
    me = os.getpid()
    pid = os.fork()
    if pid == 0:
        os.close(r)
        code = 2
        try:
            import ctypes
            ctypes.CDLL(None).prctl(1, 9)       # ends with its parent
            if os.getppid() != me:
                os._exit(2)
            code = _run(a, w)
        finally:
            sys.stdout.flush()
            sys.stderr.flush()
            os._exit(code)
    os.close(w)
    prop_timeout = 150.0
    warm = 'starting'
    scratch = None
    end = time.time() + 300
    while True:
        rd, _, _ = select.select([r], [], [], 1.0)
        if rd:
            data = os.read(r, 4096)
            if not data:
                break
            for line in data.decode().splitlines():
                if line.startswith('scratch '):
                    scratch = line[8:]
                else:
                    warm = line
            end = time.time() + prop_timeout
            if warm == 'done':
                break
        elif time.time() > end:
            os.kill(pid, signal.SIGKILL)
            break
    os.close(r)
    _, status = os.waitpid(pid, 0)
    if os.WIFEXITED(status):
        return os.WEXITSTATUS(status)
    if scratch:
        shutil.rmtree(scratch, ignore_errors=True)
    if warm == 'done':
        print('HARNESS-ERROR: the check process died (signal %d)' % os.WTERMSIG(status))
        return 2
    print('HARNESS-NOTE: warm-up (%s) ended by signal %d; repeating in isolation' % (warm, os.WTERMSIG(status)))
    return None


def _run(a, progress):
    from . import boot
    t0 = time.time()
    scratch = boot.scratch_root()
    a.progress = progress
    if progress is not None:
        os.write(progress, ('scratch %s\n' % scratch).encode())
    code = 2
    try:
        code = _main(a, scratch, t0, boot)
    except Exception:
        traceback.print_exc()
        print('HARNESS-ERROR property=%s' % a.property)
        code = 2
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
        sys.stdout.flush()
        sys.stderr.flush()
    return code


def _main(a, scratch, t0, boot):
    with quiet(os.path.join(scratch, 'boot.log')):
        info = boot.load(scratch)
    prop = load_prop(a.property)
    if a.replay:
        rec = json.load(open(a.replay))
        case = rec['case'] if 'case' in rec else rec
        with quiet(os.path.join(scratch, 'x.log')):
            res = run_isolated(prop, case, scratch, getattr(prop, 'CASE_TIMEOUT', 90) * 2)
        if 'error' in res:
            print(res['error'])
            return 2
        for lg in res.get('logs', []):
            print('--- simulation %s: %s %s faults=%s' % (lg['tag'], lg['kind'], lg['error'], lg['faults_fired']))
            for line in lg['log'][:400]:
                print('   ', line)
        if res['violations']:
            for v in res['violations']:
                print('%s: %s' % (v['class'], v['message']))
            print('VIOLATION property=%s replay=%s' % (prop.ID, a.replay))
            return 1
        print('replay: no violation')
        return 0
    if a.one is not None:
        case = gen_case(prop, a.seed, a.one, a.tier)
        print(json.dumps(case))
        t = time.time()
        env = run_case(prop, case, scratch)
        print('wall', time.time() - t, 'digest', digest(env), 'stats', dict(env.stats), 'probes', dict(env.probes))
        for v in env.violations:
            print('VIOLATION', v.cls, v.msg, v.key)
        return 1 if env.violations else 0

    plan = prop.PLAN[a.tier]
    n_cases = a.cases or plan['cases']
    wall = a.wall or plan['wall']
    case_timeout = getattr(prop, 'CASE_TIMEOUT', 90)
    known = known_findings(prop.ID)

    def is_known(v):
        return any(v['key'] == k['key'] for k in known)

    # Warm-up in the parent, so that the forked workers inherit compiled code.
    # A crash here must not take the check down: it runs isolated first.
    bad = {}
    for i in getattr(prop, 'WARM', (0,)):
        case = gen_case(prop, 'warm', i, a.tier)
        if a.progress is not None:
            os.write(a.progress, b'case %d\n' % i)
        if getattr(a, 'warm_isolated', False):
            res = run_isolated(prop, case, scratch, 180)
            died = [v for v in res.get('violations', ()) if v['class'] in ('no-answer', 'process-death')]
            if died:
                for v in died:
                    if not is_known(v):
                        bad.setdefault(v['key'], (-1 - i, v))
                break
        with quiet(os.path.join(scratch, 'warm.log')):
            try:
                run_case(prop, case, scratch)
            except BaseException:
                traceback.print_exc()
    if a.progress is not None:
        os.write(a.progress, b'done\n')
        os.close(a.progress)
    t_setup = time.time() - t0
    search = Search(prop, scratch, a.seed, a.tier, a.workers)
    def fresh(msg):
        return [v for v in msg['violations'] if not is_known(v)]

    if bad:
        n_cases, wall, case_timeout = 4, 40, 40
    out = search.run(n_cases, wall, case_timeout, stop_on=(lambda m: False) if a.all else (lambda m: bool(fresh(m))),
                     repeat_every=plan.get('repeat_every', 25))
    res = out['results']
    if a.digests:
        with open(a.digests, 'w') as f:
            for i in sorted(res):
                f.write('%d %s\n' % (i, res[i]['digest']))
    for i, m in sorted(res.items()):
        for v in fresh(m):
            bad.setdefault(v['key'], (i, v))
    # process deaths and missing answers: confirm in isolation
    for i, why in out['dead']:
        if i is None:
            print('HARNESS-ERROR: worker died outside a case: %s' % why)
            return 2
        if bad:
            break
        idx = -1 - i if i < 0 else i
        case = gen_case(prop, a.seed, idx, a.tier)
        r = run_isolated(prop, case, scratch, case_timeout * 2)
        confirmed = [v for v in r.get('violations', ()) if not is_known(v)]
        if confirmed:
            for v in confirmed:
                bad.setdefault(v['key'], (idx, v))
        elif 'error' in r:
            out['errors'].append((idx, r['error']))
        else:
            print('HARNESS-NOTE: case %d: %s; not reproduced in isolation' % (idx, why))
            if not bad:
                return 2
    if out['errors'] and not bad:
        for i, tr in out['errors'][:3]:
            print('HARNESS-ERROR in case %s\n%s' % (i, tr))
        return 2
    mism = [i for i, d in out['repeats'].items() if i in res and res[i]['digest'] != d]
    status = 0
    n_viol = 0
    for key, (i, v) in list(bad.items())[:3 if not a.all else 20]:
        n_viol += 1
        case = gen_case(prop, a.seed, i, a.tier) if i >= 0 else gen_case(prop, 'warm', -1 - i, a.tier)
        with quiet(os.path.join(scratch, 'min.log')):
            best, bres, tried = minimise(prop, case, v['class'], scratch, 40 if n_viol == 1 else 10, min(100, case_timeout * 2) if v['class'] == 'no-answer' else case_timeout * 2)
        msg = v['message']
        if bres is not None:
            msg = [x for x in bres['violations'] if x['class'] == v['class']][0]['message']
        rdir = os.path.join(VERIF, 'evidence', 'replays')
        os.makedirs(rdir, exist_ok=True)
        path = os.path.join(rdir, '%s-%s.json' % (prop.ID, hashlib.sha1(json.dumps(best, sort_keys=True, default=str).encode()).hexdigest()[:12]))
        with open(path, 'w') as f:
            json.dump({'property': prop.ID, 'violation': {'class': v['class'], 'key': v['key'], 'message': msg}, 'case': best,
                       'found': {'seed': a.seed, 'case_index': i, 'tier': a.tier}, 'minimiser_runs': tried, 'reproduced': bres is not None,
                       'trace': (bres or {}).get('logs', [])[:6],
                       'how_to_replay': 'cd /verif && ./check %s --replay %s' % (prop.ID, path)}, f, indent=1, default=str)
        print('%s [%s] seed=%s case=%d: %s' % (prop.ID, v['class'], a.seed, i, msg))
        print('VIOLATION property=%s replay=%s' % (prop.ID, path))
        status = 1
    seen_known = collections.Counter()
    for m in res.values():
        for v in m['violations']:
            for k in known:
                if v['key'] == k['key']:
                    seen_known[k['key']] += 1
    for k in known:
        print('KNOWN-FINDING: property=%s %s (met in %d cases of this run)' % (prop.ID, k['what'], seen_known[k['key']]))
    wall_s = time.time() - t0
    if not a.no_evidence:
        write_evidence(prop, a, res, out, mism, n_viol, wall_s, t_setup, info, seen_known)
    n = len(res)
    print('%s %s: %d cases, %d simulations, %.1f s (setup %.1f s), %d new violations%s' % (
        prop.ID, a.tier, n, sum(m['stats'].get('sim_runs', 0) for m in res.values()), wall_s, t_setup, n_viol,
        '' if not mism else ', DETERMINISM MISMATCH in %s' % mism[:5]))
    if status == 0 and n == 0:
        print('HARNESS-ERROR: nothing was executed')
        return 2
    return status


def write_evidence(prop, a, res, out, mism, n_viol, wall_s, t_setup, info, seen_known):
    stats = collections.Counter()
    probes = collections.Counter()
    inter, sigs = set(), set()
    sim_time = 0.0
    nontriv = 0
    for m in res.values():
        stats.update(m['stats'])
        probes.update(m['probes'])
        inter.update(m['inter'])
        sim_time += m['sim_time']
        if m['nontrivial']:
            nontriv += 1
            sigs.add(m['sig'])
    runs = stats.get('sim_runs', 0)
    search_s = max(out['wall'], 1e-3)
    samples = []
    for i in sorted(res)[:2]:
        c = gen_case(prop, a.seed, i, a.tier)
        s = json.dumps(c, default=str)
        samples.append(json.loads(s) if len(s) < 4000 else {'case': s[:4000]})
    faults = {k[6:]: v for k, v in sorted(stats.items()) if k.startswith('fault.')}
    ev = {
        'property': prop.ID, 'tier': a.tier, 'seed': a.seed, 'level': prop.LEVEL,
        'coverage': {
            'evaluations': len(res),
            'distinct_nontrivial': len(sigs),
            'rule': prop.RULE,
            'samples': samples,
            'simulated_runs': runs,
            'simulated_runs_per_hour': int(runs * 3600 / search_s),
            'seeds_per_hour': int(len(res) * 3600 / search_s),
            'simulated_seconds': round(sim_time, 3),
            'nontrivial_cases': nontriv,
            'distinct_interleavings': len(inter),
            'distinct_interleavings_measure': 'distinct hashes of the full event log of one simulation (every baton hand-over, I/O step, task completion and fault with its simulated time)',
            'faults_fired': faults,
            'schedule': {k: v for k, v in sorted(stats.items()) if not k.startswith('fault.') and not k.startswith('io.')},
            'io_steps': {k[3:]: v for k, v in sorted(stats.items()) if k.startswith('io.')},
            'probes': dict(sorted(probes.items())),
            'determinism_repeats': len(out['repeats']),
            'determinism_mismatches': len(mism),
            'real_components': prop.REAL,
            'stubbed_components': prop.STUB,
            'native_extension': info['extension'],
            'known_findings_met': dict(seen_known),
        },
        'assumptions': list(getattr(prop, 'ASSUMPTIONS', [])),
        'wall_s': round(wall_s, 2),
        'violations': n_viol,
    }
    d = os.path.join(VERIF, 'evidence')
    os.makedirs(d, exist_ok=True)
    tmp = os.path.join(d, '.%s.tmp' % prop.ID)
    with open(tmp, 'w') as f:
        json.dump(ev, f, indent=1, default=str)
    os.replace(tmp, os.path.join(d, '%s.json' % prop.ID))
