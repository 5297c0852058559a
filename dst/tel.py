"""Telescope configurations used by the workloads."""


def dut(name='DUT0', column_size=250.0, row_size=50.0, n_columns=20, n_rows=30, z=0.0, x=0.0, y=0.0, alpha=0.0, beta=0.0, gamma=0.0, **kw):
    from beam_telescope_analysis.telescope.dut import RectangularPixelDut
    return RectangularPixelDut(name=name, translation_x=x, translation_y=y, translation_z=z, rotation_alpha=alpha, rotation_beta=beta, rotation_gamma=gamma,
                               column_size=column_size, row_size=row_size, n_columns=n_columns, n_rows=n_rows, **kw)


def telescope(path, duts):
    """duts: list of dicts of keyword arguments of RectangularPixelDut (or dut_type)."""
    from beam_telescope_analysis.telescope.telescope import Telescope
    t = Telescope()
    for i, d in enumerate(duts):
        kw = dict(name='DUT%d' % i, translation_x=0.0, translation_y=0.0, translation_z=10000.0 * i, rotation_alpha=0.0, rotation_beta=0.0, rotation_gamma=0.0,
                  column_size=250.0, row_size=50.0, n_columns=20, n_rows=30)
        kw.update(d)
        if kw.get('dut_type', 'Rectangular')[:11] != 'Rectangular':     # sizes are those of the kind
            for k in ('column_size', 'row_size', 'n_columns', 'n_rows'):
                kw.pop(k)
        t.add_dut(dut_type=kw.pop('dut_type', 'RectangularPixelDut'), dut_id=i, **kw)
    t.save_configuration(path)
    return t


def frame(d):
    """Origin and rotation matrix (columns: local axes) of a plane, from its
    description or a Dut; computed here, not by the code under test."""
    import math
    import numpy as np
    get = d.get if isinstance(d, dict) else (lambda k, v=0.0: getattr(d, k))
    a, b, c = (get('rotation_' + k, 0.0) for k in ('alpha', 'beta', 'gamma'))
    rx = np.array([[1, 0, 0], [0, math.cos(a), -math.sin(a)], [0, math.sin(a), math.cos(a)]])
    ry = np.array([[math.cos(b), 0, math.sin(b)], [0, 1, 0], [-math.sin(b), 0, math.cos(b)]])
    rz = np.array([[math.cos(c), -math.sin(c), 0], [math.sin(c), math.cos(c), 0], [0, 0, 1]])
    return np.array([get('translation_' + k, 0.0) for k in ('x', 'y', 'z')], dtype='f8'), rz.dot(ry).dot(rx)


def to_global(d, u, v):
    t, r = frame(d)
    return t + r.dot([u, v, 0.0])


def cross(d, origin, direction):
    """Local (u, v) at which a line meets a plane, and its local direction
    (normalised, third component positive)."""
    import numpy as np
    t, r = frame(d)
    o, s = r.T.dot(np.asarray(origin) - t), r.T.dot(np.asarray(direction))
    p = o - s * (o[2] / s[2])
    s = s / np.sqrt(s.dot(s))
    return p[:2], (-s if s[2] < 0 else s)
