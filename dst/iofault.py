"""I/O seam: every PyTables operation of the code under test is a numbered step
of the simulation.  A step is a scheduling point and may fail, be torn, or be
the instant at which the process dies."""
import errno
import os

import tables as tb
import tables.file as tbfile

from . import core

WRITE_OPS = {'append', 'flush', 'fflush', 'create', 'remove', 'rename', 'setitem', 'copy', 'yaml_write', 'yaml_flush', 'yaml_sync', 'yaml_close'}
TEXT_OPS = {'open', 'yaml_write', 'yaml_open', 'yaml_read', 'yaml_replace', 'yaml_sync', 'yaml_flush', 'yaml_close', 'yaml_remove'}


class InjectedFault(Exception):
    """Mixed into every injected error so that an oracle can recognise it."""


class InjectedHDF5(tb.HDF5ExtError, InjectedFault):
    def __init__(self, msg):
        Exception.__init__(self, msg)
        self.args = (msg,)

    def __str__(self):
        return self.args[0]

    def __reduce__(self):
        return (InjectedHDF5, (self.args[0],))


class InjectedOSError(OSError, InjectedFault):
    pass


class InjectedMemoryError(MemoryError, InjectedFault):
    pass


class InjectedRuntimeError(RuntimeError, InjectedFault):
    pass


class IO(object):
    """Fault plan and step counter of one simulated execution."""

    def __init__(self, sim, faults=(), crash_at=None, root=None):
        self.sim = sim
        self.faults = [dict(f) for f in faults]
        self.crash_at = crash_at
        self.n = 0
        self.depth = 0
        self.fired = []
        self.ops = []            # (index, op, file, node)
        self.full = False        # disk full: write operations fail until healed
        self.root = root
        self.kinds = {}
        self.text_root = None    # text files below this folder are steps, too
        self.power = None        # process death is a power loss: data that was not synced is lost
        self.text_files = []
        self.written = {}        # (device, inode) -> [descriptor, bytes known to be on disk]
        sim.io = self

    def hit(self, op, target='', node='', index=None):
        """One step.  Returns None, or the name of a fault to apply *after* or
        *instead of* the real operation ('after', 'torn')."""
        sim = self.sim
        i = self.n
        self.n += 1
        self.ops.append((i, op, target, node))
        k = self.kinds.get(op, 0)
        self.kinds[op] = k + 1
        sim.stats['io.' + op] += 1
        sim.event('io', i, op, target, node)
        sim.progress()
        if self.crash_at is not None and i == self.crash_at:
            self.lose_power()
            os._exit(77)
        for f in self.faults:
            if f.get('op') is not None:
                match = f['op'] == op and f.get('nth', 0) == k
            elif op == 'worker' and f.get('task') is not None:
                match = f['task'] == index
            else:
                match = f.get('at') == i
            if match:
                return self._fire(f, op, target, node)
        if self.full and op in WRITE_OPS:
            self.fired.append((i, 'ENOSPC', op))
            sim.stats['fault.ENOSPC_sticky'] += 1
            raise self._error(op, 'ENOSPC', target, node)
        return None

    def lose_power(self):
        if self.power is None:
            return
        for fd, synced in self.written.values():
            size = os.fstat(fd).st_size
            if size > synced:
                os.ftruncate(fd, synced + int((size - synced) * self.power))

    def end(self):
        for f in self.text_files:
            if not f._f.closed:
                try:
                    f._f.close()
                except Exception:
                    pass
        for fd, _ in self.written.values():
            os.close(fd)
        self.text_files, self.written = [], {}

    def _fire(self, f, op, target, node):
        kind = f.get('kind', 'EIO')
        sim = self.sim
        if kind == 'ENOSPC' and op in WRITE_OPS and f.get('sticky'):
            self.full = True
        when = f.get('when', 'before')
        if op in ('close', 'yaml_close'):
            when = 'after'
        if when == 'torn' and op not in ('append', 'setitem', 'yaml_write'):
            when = 'before'
        self.fired.append((self.n - 1, kind, op))
        sim.stats['fault.%s_on_%s' % (kind, op)] += 1
        sim.event('FAULT', kind, when, op, target, node)
        if when == 'before':
            raise self._error(op, kind, target, node)
        f['_err'] = self._error(op, kind, target, node)
        return (when, f['_err'])

    def _error(self, op, kind, target, node):
        msg = 'injected %s during %s of %s %s' % (kind, op, target, node)
        if op == 'worker' and kind == 'KILL':
            return core.WorkerKilled(msg)
        if op == 'worker':
            return InjectedMemoryError(msg) if kind == 'ENOMEM' else InjectedRuntimeError(msg)
        if op == 'thread_start':
            return InjectedRuntimeError("can't start new thread (%s)" % msg)
        if op == 'pool_create':
            return InjectedOSError(errno.EAGAIN, msg)
        if op in TEXT_OPS:
            return InjectedOSError(errno.ENOSPC if kind == 'ENOSPC' else errno.EIO, msg)
        if kind == 'ENOMEM':
            return InjectedMemoryError(msg)
        return InjectedHDF5(msg)


def _name(x):
    try:
        return os.path.basename(x)
    except Exception:
        return str(x)


def _wrap(real, op, ident, tear=None):
    def wrapper(self, *a, **k):
        sim = core.active()
        io = sim.io if sim is not None else None
        if io is None or io.depth or getattr(core._tls, 'harness', False):
            return real(self, *a, **k)
        f, node = ident(self, a, k)
        sim.preempt('io')
        after = io.hit(op, f, node)
        io.depth += 1
        try:
            if after and after[0] == 'torn' and tear is not None:
                tear(real, self, a, k)
                raise after[1]
            r = real(self, *a, **k)
        finally:
            io.depth -= 1
        if after:
            raise after[1]
        sim.preempt('io')
        return r
    wrapper.__name__ = getattr(real, '__name__', op)
    wrapper.__doc__ = getattr(real, '__doc__', None)
    wrapper._real = real
    return wrapper


def _file_ident(self, a, k):
    return _name(self.filename), str(k.get('name') or (a[1] if len(a) > 1 and isinstance(a[1], str) else ''))


def _leaf_ident(self, a, k):
    try:
        return _name(self._v_file.filename), self._v_name
    except Exception:
        return '?', '?'


def _tear_append(real, self, a, k):
    rows = a[0] if a else k.get('rows', k.get('sequence'))
    try:
        n = len(rows) // 2
    except TypeError:
        return
    if n:
        real(self, rows[:n])


def _text_io(path):
    """The IO of the running simulation if this path is one of its text files."""
    sim = core.active()
    io = sim.io if sim is not None else None
    if io is None or io.depth or io.text_root is None or getattr(core._tls, 'harness', False):
        return None
    try:
        path = os.path.abspath(os.fspath(path))
    except TypeError:
        return None
    if isinstance(path, bytes):
        path = os.fsdecode(path)
    return io if path.startswith(io.text_root + os.sep) else None


class TextFile(object):
    """A text (or binary) file whose operations are steps of the simulation."""

    def __init__(self, real, io, name, mode):
        self.__dict__.update(_f=real, _io=io, _name=name, _mode=mode)
        if any(c in mode for c in 'wax+'):
            fd = os.dup(real.fileno())
            st = os.fstat(fd)
            old = io.written.get((st.st_dev, st.st_ino))
            io.written[(st.st_dev, st.st_ino)] = [fd, min(old[1], st.st_size) if old else 0 if 'w' in mode or 'x' in mode else st.st_size]

    def __getattr__(self, name):
        return getattr(self._f, name)

    def __setattr__(self, name, value):
        setattr(self._f, name, value)

    def _step(self, op):
        io = self._io
        if io.depth or getattr(core._tls, 'harness', False):
            return None
        return io.hit(op, self._name, self._mode)

    def write(self, data):
        after = self._step('yaml_write')
        if after and after[0] == 'torn':
            self._f.write(data[:len(data) // 2])
            self._f.flush()
            raise after[1]
        n = self._f.write(data)
        if after:
            raise after[1]
        return n

    def writelines(self, lines):
        for x in lines:
            self.write(x)

    def flush(self):
        after = self._step('yaml_flush')
        self._f.flush()
        if after:
            raise after[1]

    def read(self, *a):
        after = self._step('yaml_read')
        if after:
            raise after[1]
        return self._f.read(*a)

    def readline(self, *a):
        after = self._step('yaml_read')
        if after:
            raise after[1]
        return self._f.readline(*a)

    def readlines(self, *a):
        after = self._step('yaml_read')
        if after:
            raise after[1]
        return self._f.readlines(*a)

    def __iter__(self):
        return self

    def __next__(self):
        x = self.readline()
        if not x:
            raise StopIteration
        return x

    def close(self):
        if self._f.closed:
            return
        after = None
        try:
            after = self._step('yaml_close')
        except BaseException:
            self._f.close()
            raise
        if after:        # what was still buffered is lost
            fd = os.dup(self._f.fileno())
            size = os.fstat(fd).st_size
            self._f.close()
            if 'r' not in self._mode or '+' in self._mode:
                os.ftruncate(fd, size)
            os.close(fd)
            raise after[1]
        self._f.close()

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()


def _install_text():
    import builtins
    import io as _io
    real_open = builtins.open

    def text_open(file, mode='r', *a, **k):
        io = _text_io(file) if isinstance(file, (str, bytes, os.PathLike)) else None
        if io is None:
            return real_open(file, mode, *a, **k)
        after = io.hit('yaml_open', _name(file), mode)
        f = real_open(file, mode, *a, **k)
        if after:
            f.close()
            raise after[1]
        t = TextFile(f, io, _name(file), mode)
        io.text_files.append(t)
        return t
    builtins.open = text_open
    _io.open = text_open

    def two(real):
        def call(src, dst, *a, **k):
            io = _text_io(dst)
            if io is None:
                return real(src, dst, *a, **k)
            after = io.hit('yaml_replace', _name(src), _name(dst))
            real(src, dst, *a, **k)
            if after:
                raise after[1]
        return call

    def one(real):
        def call(path, *a, **k):
            io = _text_io(path)
            if io is None:
                return real(path, *a, **k)
            after = io.hit('yaml_remove', _name(path))
            real(path, *a, **k)
            if after:
                raise after[1]
        return call

    real_fsync = os.fsync

    def sync(real):
        def call(fd):
            sim = core.active()
            io = sim.io if sim is not None else None
            if io is None or io.depth or io.text_root is None or getattr(core._tls, 'harness', False):
                return real(fd)
            n = fd if isinstance(fd, int) else fd.fileno()
            st = os.fstat(n)
            w = io.written.get((st.st_dev, st.st_ino))
            if w is None:
                return real_fsync(n)
            after = io.hit('yaml_sync')
            if after:
                raise after[1]
            w[1] = st.st_size
        return call
    os.replace, os.rename = two(os.replace), two(os.rename)
    os.remove, os.unlink = one(os.remove), one(os.unlink)
    os.fsync, os.fdatasync = sync(os.fsync), sync(os.fdatasync)


_installed = []


def install():
    if _installed:
        return
    _installed.append(True)
    _install_text()
    real_open = tbfile.open_file

    def open_file(filename, mode='r', *a, **k):
        sim = core.active()
        io = sim.io if sim is not None else None
        if io is None or io.depth or getattr(core._tls, 'harness', False):
            return real_open(filename, mode, *a, **k)
        sim.preempt('io')
        after = io.hit('open', _name(filename), mode)
        io.depth += 1
        try:
            f = real_open(filename, mode, *a, **k)
            if after:
                f.close()
                raise after[1]
        finally:
            io.depth -= 1
        sim.preempt('io')
        return f
    open_file._real = real_open
    tb.open_file = open_file
    tbfile.open_file = open_file
    F = tbfile.File
    for meth, op in (('create_table', 'create'), ('create_carray', 'create'), ('create_earray', 'create'), ('create_array', 'create'),
                     ('create_group', 'create'), ('create_vlarray', 'create'), ('remove_node', 'remove'), ('rename_node', 'rename'),
                     ('move_node', 'rename'), ('copy_node', 'copy'), ('flush', 'fflush'), ('close', 'close')):
        setattr(F, meth, _wrap(getattr(F, meth), op, _file_ident))
    from tables import Table, Array, CArray, EArray, Leaf
    from tables.node import Node
    T = Table
    T.append = _wrap(T.append, 'append', _leaf_ident, _tear_append)
    T.flush = _wrap(T.flush, 'flush', _leaf_ident)
    T.read = _wrap(T.read, 'read', _leaf_ident)
    T.__getitem__ = _wrap(T.__getitem__, 'read', _leaf_ident)
    EArray.append = _wrap(EArray.append, 'append', _leaf_ident, _tear_append)
    Array.__setitem__ = _wrap(Array.__setitem__, 'setitem', _leaf_ident)
    Array.__getitem__ = _wrap(Array.__getitem__, 'read', _leaf_ident)
    Array.read = _wrap(Array.read, 'read', _leaf_ident)
    Node._f_copy = _wrap(Node._f_copy, 'copy', _leaf_ident)
    Leaf._f_copy = _wrap(Leaf._f_copy, 'copy', _leaf_ident) if '_f_copy' in vars(Leaf) else Leaf._f_copy
    Node._f_remove = _wrap(Node._f_remove, 'remove', _leaf_ident)
    Node._f_rename = _wrap(Node._f_rename, 'rename', _leaf_ident)


class harness(object):
    """Context in which the harness itself uses PyTables (no faults, no steps)."""
    def __enter__(self):
        self.prev = getattr(core._tls, 'harness', False)
        core._tls.harness = True

    def __exit__(self, *a):
        core._tls.harness = self.prev


def open_handles():
    return sorted(set(_name(h.filename) for h in list(tbfile._open_files._handlers)))


def close_all():
    with harness():
        for h in list(tbfile._open_files._handlers):
            try:
                h.close()
            except BaseException:
                try:
                    tbfile._open_files._handlers.discard(h)
                except Exception:
                    pass
