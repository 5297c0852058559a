"""HDF5 helpers of the harness (never subject to faults)."""
import hashlib

import numpy as np
import tables as tb

from .iofault import harness


def write(path, tables=(), arrays=(), groups=()):
    """tables: [(name, structured array)], arrays: [(name, ndarray)]"""
    with harness():
        with tb.open_file(path, 'w') as f:
            for name, arr in tables:
                t = f.create_table(f.root, name, description=arr.dtype, title=name, filters=tb.Filters(complib='blosc', complevel=5))
                if len(arr):
                    t.append(arr)
                t.flush()
            for name, arr in arrays:
                c = f.create_carray(f.root, name, atom=tb.Atom.from_dtype(arr.dtype), shape=arr.shape)
                c[:] = arr
            for group, name, arr in groups:
                f.create_table(f.create_group(f.root, group), name, obj=arr)


def snapshot(path, ignore=('/arguments',)):
    """{node path: (class, dtype, array)} of a file; raises when unreadable."""
    out = {}
    with harness():
        with tb.open_file(path, 'r') as f:
            for node in f.walk_nodes('/', 'Leaf'):
                p = node._v_pathname
                if any(p.startswith(i) for i in ignore):
                    continue
                out[p] = (node._c_classid, node.dtype, node[:] if node.nrows or not isinstance(node, tb.Table) else np.empty(0, node.dtype))
    return out


def node(path, name):
    with harness():
        with tb.open_file(path, 'r') as f:
            n = f.get_node('/', name)
            return n[:]


def names(path):
    with harness():
        with tb.open_file(path, 'r') as f:
            return sorted(n._v_pathname for n in f.walk_nodes('/', 'Leaf'))


def same_array(a, b):
    """None when equal (NaN equal to NaN), else a description."""
    if a.dtype.names != b.dtype.names:
        return 'columns %s != %s' % (a.dtype.names, b.dtype.names)
    if a.shape != b.shape:
        return 'shape %s != %s' % (a.shape, b.shape)
    if a.dtype.names:
        for n in a.dtype.names:
            d = same_array(a[n], b[n])
            if d:
                return 'column %s: %s' % (n, d)
        return None
    if a.dtype.kind == 'f' or b.dtype.kind == 'f':
        eq = (a == b) | (np.isnan(a.astype('f8')) & np.isnan(b.astype('f8')))
    else:
        eq = a == b
    if not np.all(eq):
        i = tuple(int(x[0]) for x in np.nonzero(~np.atleast_1d(eq)))
        return '%d of %d values differ, first at %s: %r != %r' % (np.count_nonzero(~np.atleast_1d(eq)), a.size, i, np.atleast_1d(a)[i].item(), np.atleast_1d(b)[i].item())
    return None


def close_array(a, b, rtol=1e-6, atol=1e-6):
    if a.dtype.names != b.dtype.names:
        return 'columns %s != %s' % (a.dtype.names, b.dtype.names)
    if a.shape != b.shape:
        return 'shape %s != %s' % (a.shape, b.shape)
    if a.dtype.names:
        for n in a.dtype.names:
            d = close_array(a[n], b[n], rtol, atol)
            if d:
                return 'column %s: %s' % (n, d)
        return None
    if a.dtype.kind == 'f':
        eq = np.isclose(a.astype('f8'), b.astype('f8'), rtol=rtol, atol=atol, equal_nan=True)
    else:
        eq = a == b
    if not np.all(eq):
        i = tuple(int(x[0]) for x in np.nonzero(~np.atleast_1d(eq)))
        return '%d of %d values differ, first at %s: %r != %r' % (np.count_nonzero(~np.atleast_1d(eq)), a.size, i, np.atleast_1d(a)[i].item(), np.atleast_1d(b)[i].item())
    return None


def compare_snapshots(got, want, close=False, rtol=1e-6, atol=1e-6, what=('result', 'reference')):
    """None, or the first difference between two snapshots."""
    if sorted(got) != sorted(want):
        return 'nodes of %s: %s, of %s: %s' % (what[0], sorted(got), what[1], sorted(want))
    for p in sorted(want):
        if got[p][1] != want[p][1]:
            return '%s: dtype %s != %s' % (p, got[p][1], want[p][1])
        d = close_array(got[p][2], want[p][2], rtol, atol) if close else same_array(got[p][2], want[p][2])
        if d:
            return '%s: %s' % (p, d)
    return None


def sha(path):
    with open(path, 'rb') as f:
        return hashlib.sha1(f.read()).hexdigest()
