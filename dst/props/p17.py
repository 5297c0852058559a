"""P17: a saved telescope configuration is restored completely; saving is all or nothing."""
import math
import os

import yaml

from .. import stepcheck as S

ID = 'P17'
LEVEL = 'fault_enumeration'
PLAN = {'quick': {'cases': 4000, 'wall': 60}, 'thorough': {'cases': 200000, 'wall': 780}}
WARM = (0, 1)
RULE = ('one case = one history of up to 14 operations (new telescope, add, change or copy planes of every kind, change the telescope position, forbidden changes, save, save keeping other sections, load into a new or '
        'the same telescope, foreign sections written between) on up to 2 telescopes and 3 files, where any save or load may meet a failing or torn file operation, a process death or a power loss; '
        'every telescope and every file is compared with a model after every operation; non-trivial when a telescope with at least one plane was saved and loaded again')
REAL = ['telescope.Telescope', 'telescope.dut.*', 'PyYAML', 'text files on scratch storage', 'process death (forked image, _exit at a file operation)']
STUB = ['failing file operations (injected)', 'power loss (bytes of a file that were not synced are cut off before the process dies)']
ASSUMPTIONS = ['renaming a file over another is atomic; no two processes save the same file at the same time']
BASE = ['name', 'translation_x', 'translation_y', 'translation_z', 'rotation_alpha', 'rotation_beta', 'rotation_gamma', 'x_limit', 'y_limit', 'material_budget', 'intrinsic_resolution']
PIX = ['column_size', 'row_size', 'n_columns', 'n_rows']
KINDS = {'RectangularPixelDut': BASE + PIX, 'RectangularPixelDutWithDoubleColumns': BASE + PIX, 'FEI4': BASE, 'RD53A': BASE, 'RD53A_8x8': BASE, 'ITkPix': BASE, 'ITkPix_8x8': BASE, 'TJMonopix1': BASE,
         'TJMonopix1_2x2': BASE, 'PSI46': BASE, 'Mimosa26': BASE, 'DepfetH5z85': BASE, 'DepfetH5z55': BASE, 'Timepix3': BASE, 'ScatteringPlane': BASE,
         'Diamond3DpCVD': BASE + ['sensor_position'], 'DiamondPseudo3DpCVD': BASE + ['sensor_position']}
TELE = BASE[1:7]
NAMES = ['DUT', 'Mimosa26 #1', 'yes', 'null', '12', '1e3', 'a: b', '- x', '"q"', "it's", 'two\nlines', ' lead', 'µ-Vertex', '', '~', 'DUT\t1', '0x1F', '{a}', '2020-01-01', 'x' * 130 + ' ' + 'y' * 60]
SECTIONS = [{'FEI4': {'mask': [1, 2, 3]}}, {'RUN': 12, 'COMMENT': 'beam time: "DESY"\nsecond line'}, {'ALIGN': {'done': True, 'cuts': [[1.5, None], [0.1, 'x']]}}, {'LIST': [], 'EMPTY': None}]


def number(rng, angle=False):
    r = rng.random()
    if angle:
        return rng.choice([0.0, rng.uniform(-math.pi, math.pi), -1e-9, 1.2345678901234567e-05])
    if r < 0.3:
        return rng.choice([0.0, -0.0, 1e-300, 1e22, -123456.7890123, 1e-05, 5, 300000, 1. / 3])
    return rng.uniform(-1, 1) * 10 ** rng.randrange(-6, 7)


def value(rng, attr):
    if attr == 'name':
        return rng.choice(NAMES) + rng.choice(['', '', str(rng.randrange(9))])
    if attr.startswith('translation'):
        return number(rng)
    if attr.startswith('rotation'):
        return number(rng, True)
    if attr in ('x_limit', 'y_limit'):
        return rng.choice([None, [number(rng), number(rng)], [number(rng), number(rng)], [-5000, 5000.5]])
    if attr == 'material_budget':
        return rng.choice([0, 0.001, rng.random(), 1e-05])
    if attr == 'intrinsic_resolution':
        return rng.choice([None, [3.5, 4.25], [rng.random() * 20, rng.random() * 20]])
    if attr in ('column_size', 'row_size'):
        return rng.choice([18.4, 50, 250.0, rng.uniform(1, 300)])
    if attr in ('n_columns', 'n_rows'):
        return rng.choice([1, 80, 576, 1152])
    return [rng.randrange(0, 60), rng.randrange(0, 300)]


def gen_dut(rng):
    kind = rng.choice(sorted(KINDS) + ['RectangularPixelDut'] * 3 + ['Mimosa26', 'FEI4'])
    kw = {}
    for a in KINDS[kind]:
        need = a in TELE or a in PIX or a == 'sensor_position'
        if need or rng.random() < 0.6:
            kw[a] = value(rng, a)
            if kw[a] is None and rng.random() < 0.5:
                del kw[a]
    return kind, kw


def gen(rng, index, tier):
    ops, saved = [['new', 0, {}]], []
    for _ in range(rng.choice([3, 5, 8, 12])):
        r = rng.random()
        t = rng.choice([0, 0, 1])
        f = rng.choice(['a.yaml', 'a.yaml', 'b.yaml', 'c d.yml'])
        fault = None
        if rng.random() < 0.45:
            fault = {'type': rng.choice(['io', 'io', 'crash', 'power']), 'pos': rng.random(), 'kind': rng.choice(['EIO', 'ENOSPC', 'ENOMEM']), 'when': rng.choice(['before', 'after', 'torn']),
                     'sticky': rng.random() < 0.4, 'keep': rng.choice([0.0, 0.5, 0.9])}
        if r < 0.05:
            ops.append(['new', t, {a: value(rng, a) for a in TELE if rng.random() < 0.5}])
        elif r < 0.30:
            kind, kw = gen_dut(rng)
            ops.append(['add', t, rng.choice([0, 1, 2, 3, 10, 11, -1, 100000]), kind, kw, rng.random() < 0.2])
        elif r < 0.40:
            ops.append(['set', t, rng.randrange(4), rng.random(), rng.randrange(1 << 30)])
        elif r < 0.45:
            a = rng.choice(TELE)
            ops.append(['tset', t, a, value(rng, a)])
        elif r < 0.48:
            ops.append(['bad', t, rng.randrange(4), rng.choice(['nam', 'rotation', 'n_pixels', 'translation_zz', '_x'])])
        elif r < 0.70:
            ops.append(['save', t, rng.choice([f, f, f, None]), rng.random() < 0.4, fault])
            saved.append(f)
        elif r < 0.78:
            ops.append(['sections', f, rng.randrange(len(SECTIONS)), rng.choice(['add', 'only', 'empty', 'add'])])
        else:
            f = rng.choice(saved) if saved and rng.random() < 0.9 else f
            ops.append([rng.choice(['load', 'open']), t, rng.choice([f, f, None]), fault])
    if rng.random() < 0.7:
        ops += [['save', 0, 'a.yaml', rng.random() < 0.5, None], ['open', 1, 'a.yaml', None]]
        if rng.random() < 0.5:
            ops += [['set', 1, rng.randrange(4), rng.random(), rng.randrange(1 << 30)], ['save', 1, None, True, None], ['load', 0, 'a.yaml', None]]
    return {'ops': ops}


def norm(attr, v):
    """The value a plane keeps for an attribute."""
    if attr == 'name':
        return str(v)
    if attr in ('x_limit', 'y_limit'):
        return None if v is None else (float(min(v)), float(max(v)))
    if attr == 'intrinsic_resolution':
        return None if v is None else (float(v[0]), float(v[1]))
    if attr in ('n_columns', 'n_rows'):
        return int(v)
    if attr == 'sensor_position':
        return (int(v[0]), int(v[1]))
    if attr == 'material_budget' and v is None:
        return 0.0
    return float(v)


def model_dut(kind, kw, dut_id):
    d = {a: norm(a, kw.get(a)) if a in kw or a not in ('name',) + tuple(TELE) + tuple(PIX) else None for a in KINDS[kind]}
    if 'name' not in kw:
        d['name'] = 'DUT%d' % dut_id
    if kind == 'Mimosa26' and 'intrinsic_resolution' not in kw:
        d['intrinsic_resolution'] = (3.5, 3.5)
    return {'kind': kind, 'attr': d}


def plain(v):
    return list(v) if isinstance(v, tuple) else v


def as_doc(model):
    return dict({a: model['tel'][a] for a in TELE}, DUT={i: dict({a: plain(v) for a, v in d['attr'].items()}, dut_type=d['kind']) for i, d in model['dut'].items()})


def same(a, b):
    if type(a) is not type(b):
        return isinstance(a, (int, float)) and isinstance(b, (int, float)) and not isinstance(a, bool) and not isinstance(b, bool) and a == b
    if isinstance(a, dict):
        return set(a) == set(b) and all(same(a[k], b[k]) for k in a)
    if isinstance(a, list):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    return a == b and (not isinstance(a, float) or math.copysign(1, a) == math.copysign(1, b))


def diff(a, b, path=''):
    if isinstance(a, dict) and isinstance(b, dict):
        for k in sorted(set(a) | set(b), key=str):
            if k not in a or k not in b:
                return '%s/%s only in %s' % (path, k, 'the result' if k in a else 'the expectation')
            if not same(a[k], b[k]):
                return diff(a[k], b[k], '%s/%s' % (path, k))
    return '%s is %r, expected %r' % (path, a, b)


class Hist(object):
    def __init__(self, env):
        from beam_telescope_analysis.telescope import telescope as T, dut as D
        self.env, self.T, self.D = env, T, D
        self.tel = {}      # number -> (Telescope, model)
        self.files = {}    # name -> expected document (None: no file)

    def path(self, f):
        return self.env.path(f)

    def read(self, f):
        with self.env.iofault.harness():
            if not os.path.exists(self.path(f)):
                return None
            with open(self.path(f)) as fd:
                return yaml.safe_load(fd)

    def observe(self, obj):
        out = {'tel': {a: getattr(obj, a) for a in TELE}, 'dut': {}}
        for i, d in obj.dut.items():
            kind = type(d).__name__
            out['dut'][i] = {'kind': kind, 'attr': {a: getattr(d, a) for a in KINDS[kind]}}
        return out

    def check(self, what, files=True):
        env = self.env
        for t, (obj, model) in self.tel.items():
            got = as_doc(self.observe(obj))
            if not same(got, as_doc(model)):
                env.violation('wrong-telescope', '%s: telescope: %s' % (what, diff(got, as_doc(model))))
                return False
            names = [model['dut'][i]['attr']['name'] for i in sorted(model['dut'])]
            if len(obj) != len(names) or obj.dut_names != names or [d for d in obj] != [obj[i] for i in sorted(model['dut'])]:
                env.violation('wrong-order', '%s: planes %r, expected %r' % (what, obj.dut_names, names))
                return False
        return self.check_files(what)

    def check_files(self, what, skip=None):
        for f, want in self.files.items():
            if f == skip:
                continue
            try:
                got = self.read(f)
            except Exception as e:
                self.env.violation('broken-file', '%s: %s cannot be read: %s' % (what, f, str(e).replace(self.env.dir, '')[:200]))
                return False
            if not same(got, want):
                self.env.violation('wrong-file', '%s: %s: %s' % (what, f, diff(got, want) if isinstance(got, dict) and isinstance(want, dict) else 'contains %r, expected %r' % (got, want)))
                return False
        extra = sorted(set(os.listdir(self.env.dir)) - set(f for f, w in self.files.items()))
        if extra and not self.stray:
            self.env.violation('stray-file', '%s: additional files %s' % (what, extra))
            return False
        return True
    stray = False


def target(model, f):
    return f if f is not None else model.get('file')


def saved_doc(model, old, keep):
    doc = {}
    if keep and old is not None:
        doc = dict(old)
    sec = dict(doc.get('TELESCOPE', {}))
    sec.update(as_doc(model))
    doc['TELESCOPE'] = sec
    return doc


def do_save(h, env, obj, model, f, keep, fault, what):
    name = target(model, f)

    def call():
        return obj.save_configuration(None if f is None else h.path(f), keep_others=keep)
    if name is None:
        return True
    old = h.files.get(name)
    if name not in h.files:
        h.files[name] = None
        old = None
    # an existing file with no content is an empty document
    want = saved_doc(model, old, keep)
    if f is not None:
        model['file'] = f
    n_fault = None
    if fault is not None:
        with env.iofault.harness():
            before = open(h.path(name), 'rb').read() if os.path.exists(h.path(name)) else None
        # the number of steps of this save
        dry = env.run(call, None, tag=what, text=True)
        if dry.kind != 'ok':
            env.violation('spurious-error', '%s fails although nothing went wrong: %s%s' % (what, dry.describe(), S.tb_tail(dry)))
            return False
        n = dry.io.n
        with env.iofault.harness():
            if before is None:
                os.remove(h.path(name))
            else:
                with open(h.path(name), 'wb') as fd:
                    fd.write(before)
        n_fault = int(fault['pos'] * n)
        if fault['pos'] > 0.7:       # the last steps decide; the dump has many writes
            n_fault = max(0, n - 1 - int((1 - fault['pos']) * 20))
        n_fault = min(max(n_fault, 0), max(n - 1, 0))
        if not n:
            fault = None
    if fault is not None and fault['type'] in ('crash', 'power'):
        r = env.crash_run(call, n_fault, None, text=True, power=fault['keep'] if fault['type'] == 'power' else None)
        env.probes['crash_' + r] += 1
        what2 = '%s, then %s at file operation %d of %d' % (what, 'power loss' if fault['type'] == 'power' else 'process death', n_fault, n)
        h.stray = True
        try:
            got = h.read(name)
        except Exception as e:
            env.violation('broken-file', '%s: the configuration cannot be read: %s' % (what2, str(e).replace(env.dir, '')[:200]))
            return False
        if not same(got, old) and not same(got, want):
            env.violation('torn-file', '%s: the file is neither the old nor the new configuration: %s' % (what2, diff(got, want) if isinstance(got, dict) else repr(got)[:200]))
            return False
        if same(got, old) and old is None and os.path.exists(h.path(name)) and before is None:
            env.violation('torn-file', '%s: an empty file is left' % what2)
            return False
        if not h.check_files(what2, skip=name):
            return False
    elif fault is not None:
        fo = env.run(call, None, faults=[{'at': n_fault, 'kind': fault['kind'], 'when': fault['when'], 'sticky': fault['sticky']}], tag=what + ' with fault', text=True)
        what2 = '%s with injected fault %s (operation %d of %d)' % (what, fo.io.fired and fo.io.fired[0], n_fault, n)
        h.stray = h.stray or fo.io.full     # a full disk is no reason that cleaning up fails, but a failing removal is
        if any(x[2] == 'yaml_remove' for x in fo.io.fired):
            h.stray = True
        got = None
        try:
            got = h.read(name)
        except Exception as e:
            env.violation('broken-file', '%s (%s): the configuration cannot be read any more: %s' % (what2, fo.describe(), str(e).replace(env.dir, '')[:200]))
            return False
        if fo.kind == 'ok' and not same(got, want):
            env.violation('silent-failure', '%s returned normally, but the file was not written: %s' % (what2, diff(got, want) if isinstance(got, dict) else repr(got)[:200]))
            return False
        if fo.kind == 'hang':
            env.violation('hang', '%s: %s' % (what2, fo.error))
            return False
        if fo.kind == 'error':
            env.probes['failed_loudly'] += 1
            if not same(got, old) and not same(got, want):
                env.violation('torn-file', '%s failed and left a file that is neither the old nor the new configuration: %s' % (what2, diff(got, want) if isinstance(got, dict) else repr(got)[:200]))
                return False
            if before is None and got is None and os.path.exists(h.path(name)):
                env.violation('torn-file', '%s failed and left an empty file' % what2)
                return False
        if fo.handles:
            env.violation('leaked-file', '%s: files still open: %s' % (what2, fo.handles))
            return False
        if not h.check_files(what2, skip=name):
            return False
    out = env.run(call, None, tag=what, text=True)
    if out.kind != 'ok':
        env.violation('not-repeatable' if fault else 'spurious-error', '%s %s: %s%s' % (what, 'again after the fault' if fault else 'although nothing went wrong', out.describe(), S.tb_tail(out)))
        return False
    if out.handles:
        env.violation('leaked-file', '%s: files still open: %s' % (what, out.handles))
        return False
    h.files[name] = want
    env.probes['saved_planes'] += len(model['dut'])
    return True


def loaded(model, doc):
    new = {'tel': dict(model['tel']), 'dut': dict(model['dut'])}
    sec = (doc or {}).get('TELESCOPE') or {}
    for i, d in (sec.get('DUT') or {}).items():
        kind = d.get('dut_type', 'RectangularPixelDut')
        new['dut'][i] = model_dut(kind, {a: v for a, v in d.items() if a != 'dut_type'}, i)
    for a in TELE:
        if a in sec:
            new['tel'][a] = float(sec[a])
    return new


def do_load(h, env, t, f, fault, fresh, what):
    T = h.T
    obj, model = h.tel[t]
    name = f if fresh else target(model, f)
    if name is None:
        return True
    exists = h.files.get(name, None) is not None or name in h.files and os.path.exists(h.path(name))
    if fresh:
        def call():
            return T.Telescope(h.path(name))
    else:
        def call():
            obj.load_configuration(None if f is None else h.path(f))
            return obj
    if fault is not None and exists:
        if fault['type'] == 'io':
            k = fault['pos']
            fo = env.run(lambda: T.Telescope(h.path(name)), None, faults=[{'at': int(k * 3), 'kind': fault['kind'], 'when': 'before'}], tag=what + ' with fault', text=True)
            if fo.fired and fo.kind == 'ok':
                got = h.observe(fo.value)
                if not same(as_doc(got), as_doc(loaded({'tel': {a: 0.0 for a in TELE}, 'dut': {}}, h.files[name]))):
                    env.violation('silent-failure', '%s with injected fault %s returned normally with an incomplete telescope' % (what, fo.io.fired[0]))
                    return False
            if fo.handles:
                env.violation('leaked-file', '%s with fault: files still open: %s' % (what, fo.handles))
                return False
    out = env.run(call, None, tag=what, text=True)
    if not exists:
        if out.kind == 'ok':
            env.violation('silent-failure', '%s: the file does not exist, but loading returned normally' % what)
            return False
        if not isinstance(out.error, (ValueError, OSError)):
            env.violation('wrong-error', '%s of a file that does not exist: %s' % (what, out.describe()))
            return False
        if not fresh and f is not None:
            model['file'] = f
        return True
    if out.kind != 'ok':
        env.violation('spurious-error', '%s fails although nothing went wrong: %s%s' % (what, out.describe(), S.tb_tail(out)))
        return False
    if out.handles:
        env.violation('leaked-file', '%s: files still open: %s' % (what, out.handles))
        return False
    new = loaded({'tel': {a: 0.0 for a in TELE}, 'dut': {}} if fresh else model, h.files[name])
    new['file'] = name
    h.tel[t] = (out.value, new)
    if new['dut']:
        env.nontrivial = True
        env.probes['loaded_planes'] += len(new['dut'])
    return True


def run(case, env):
    h = Hist(env)
    for k, op in enumerate(case['ops']):
        what = 'operation %d, %s' % (k, op[0])
        kind = op[0]
        t = op[1]
        if kind != 'new' and kind != 'sections' and t not in h.tel:
            t = 0
        if kind != 'sections' and kind != 'new' and t not in h.tel:
            continue
        if kind == 'new':
            out = env.run(lambda: h.T.Telescope(**op[2]), None, tag=what, text=True)
            if out.kind == 'ok':
                h.tel[t] = (out.value, {'tel': dict({a: 0.0 for a in TELE}, **{a: float(v) for a, v in op[2].items()}), 'dut': {}})
        elif kind == 'add':
            obj, model = h.tel[t]
            dut_type = getattr(h.D, op[3]) if op[5] else op[3]
            out = env.run(lambda: obj.add_dut(dut_type, op[2], **{a: tuple(v) if isinstance(v, list) and k % 2 else v for a, v in op[4].items()}), None, tag=what, text=True)
            what += ' of a %s' % op[3]
            model['dut'][op[2]] = model_dut(op[3], op[4], op[2])
        elif kind == 'set':
            import random
            obj, model = h.tel[t]
            if not model['dut']:
                continue
            i = sorted(model['dut'])[op[2] % len(model['dut'])]
            attrs = KINDS[model['dut'][i]['kind']]
            a = attrs[int(op[3] * len(attrs))]
            v = value(random.Random(op[4]), a)
            out = env.run(lambda: setattr(obj[i], a, v), None, tag=what, text=True)
            what += ' %s' % a
            model['dut'][i] = {'kind': model['dut'][i]['kind'], 'attr': dict(model['dut'][i]['attr'], **{a: norm(a, v)})}
        elif kind == 'tset':
            obj, model = h.tel[t]
            out = env.run(lambda: setattr(obj, op[2], op[3]), None, tag=what, text=True)
            model['tel'][op[2]] = float(op[3])
        elif kind == 'bad':
            obj, model = h.tel[t]
            if not model['dut']:
                continue
            i = sorted(model['dut'])[op[2] % len(model['dut'])]
            out = env.run(lambda: setattr(obj[i], op[3], 1.0), None, tag=what, text=True)
            if out.kind != 'error' or not isinstance(out.error, ValueError):
                env.violation('accepted', '%s: setting the unknown attribute %s is not refused: %s' % (what, op[3], out.describe()))
                return
            out.kind = 'ok'
        elif kind == 'sections':
            f = op[1]
            old = h.files.get(f)
            if op[3] == 'empty':
                doc = None
            else:
                doc = dict(old) if op[3] == 'add' and old else {}
                doc.update(SECTIONS[op[2]])
                if op[3] == 'add' and 'TELESCOPE' in doc:
                    doc['TELESCOPE'] = dict(doc['TELESCOPE'], location='DESY')
            with env.iofault.harness():
                with open(h.path(f), 'w') as fd:
                    if doc is not None:
                        yaml.safe_dump(doc, fd)
            h.files[f] = doc
            continue
        elif kind == 'save':
            obj, model = h.tel[t]
            what = '%s(%s, keep_others=%s)' % (what, target(model, op[2]), op[3])
            if not do_save(h, env, obj, model, op[2], op[3], op[4], what) or not h.check(what):
                return
            continue
        else:
            fresh = kind == 'open'
            if fresh and op[2] is None:
                continue
            what = '%s(%s)' % (what, op[2])
            if not do_load(h, env, t, op[2], op[3], fresh, what) or not h.check(what):
                return
            continue
        if out.kind != 'ok':
            env.violation('spurious-error', '%s: %s%s' % (what, out.describe(), S.tb_tail(out)))
            return
        if not h.check(what):
            return
    env.sig = case['ops']


def shrinks(case):
    ops = case['ops']
    for n in (len(ops) // 2, 2, 1):
        for i in range(1, len(ops), max(n, 1)):
            if n:
                yield dict(case, ops=ops[:i] + ops[i + n:])
    for i, op in enumerate(ops):
        if op[0] in ('save', 'load', 'open') and op[-1] is not None:
            yield dict(case, ops=ops[:i] + [op[:-1] + [None]] + ops[i + 1:])
        if op[0] == 'add':
            for a in list(op[4]):
                if a not in TELE and a not in PIX and a != 'sensor_position':
                    yield dict(case, ops=ops[:i] + [op[:4] + [{k: v for k, v in op[4].items() if k != a}] + op[5:]] + ops[i + 1:])
                elif a in TELE and op[4][a] != 0.0:
                    yield dict(case, ops=ops[:i] + [op[:4] + [dict(op[4], **{a: 0.0})] + op[5:]] + ops[i + 1:])
