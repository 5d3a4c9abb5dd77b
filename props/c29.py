"""C29: matrix export is lossless, well-formed and never overwrites unasked."""
import os, math
from .common import *
BOUNDS = 'matrices of up to 3x3 entries (also with no rows or columns) with any numbers, any entry missing, infinite, tiny and huge entries, whole-number matrices, transposed and sliced views; file absent or present'
OUTSIDE = 'larger matrices; numbers are compared exactly (to 1e-12 relative when re-run on the real code)'


def configs(tier):
    out = []
    for sh in ((1, 1), (1, 2), (2, 1), (2, 2), (2, 3), (0, 2), (2, 0)) + (((3, 3), (3, 2)) if tier != 'quick' else ()):
        for kind in ('real', 'nan', 'int', 'view', 'special'):
            if kind == 'nan' and sh[0] * sh[1] > 4 and tier == 'quick' or 0 in sh and kind != 'real': continue
            for there in ('absent', 'over'): out.append({'name': '%s-%s-%s' % (kind, name(sh), there), 'params': {'kind': kind, 'shape': list(sh), 'there': there}})
        out.append({'name': 'keep-%s' % name(sh), 'params': {'kind': 'real', 'shape': list(sh), 'there': 'keep'}})
    for sh in ((2,), (1, 1, 2), ()): out.append({'name': 'refuse-%s' % name(sh), 'params': {'kind': 'real', 'shape': list(sh), 'there': 'refuse'}})
    return out


def read(X, text):
    """Rows of the file: dimensions in brackets, then one parenthesised list per row."""
    head, body = text.split('\n', 1)
    X.prove(head.strip().startswith('[') and head.strip().endswith(']'), 'starts with its dimensions')
    dims = tuple(int(t) for t in head.strip()[1:-1].split(','))
    body = body.strip()
    X.prove(body.startswith('(') and body.endswith(')'), 'rows in parentheses')
    body = body[1:-1].strip()
    rows = []
    while body:
        X.prove(body.startswith('(') and ')' in body, 'a row in parentheses')
        row, body = body[1:].split(')', 1)
        rows.append([t.strip() for t in row.split(',')] if row.strip() else [])
        body = body.strip()
        if body.startswith(','): body = body[1:].strip()
        elif body: X.prove(False, 'rows separated by commas')
    return dims, rows


def number(X, t):
    if X.symbolic:
        v = X.e.untoken(t)
        if v is not None: return v
    return float(t)


def run(X, kind, shape, there):
    shape = tuple(shape)
    w = X.fn('Grid', 'write_matrix')
    p = os.path.join(X.tmp, 'grid.txt')
    if kind == 'int': m = X.array([3 * i - 4 for i in range(shape[0] * shape[1])], shape)
    else: m = X.reals('m', shape, -1e6, 1e6, nan=kind == 'nan')
    if kind == 'view': m = X.np.transpose(X.reals('t', (shape[1], shape[0] * 2), -1e6, 1e6))[::2]
    if kind == 'special':
        # exact values whose text is out of the ordinary, and one symbolic entry
        m = X.reals('m', shape, -1e6, 1e6)
        vals = [float('inf'), float('-inf'), 1e22, -0.1 - 0.2, 1e-300, 123456789012345.678]
        for i, k in enumerate(X.np.ndindex(*shape)):
            if i or shape == (1, 1): m[k] = vals[(i - 1) % len(vals)]
    if there == 'refuse':
        X.refuses(lambda: w(p, m), 'a non-matrix is refused')
        X.prove(not os.path.exists(p), 'no file is created')
        with open(p, 'w') as f: f.write('old')
        X.refuses(lambda: w(p, m, overwrite=True), 'a non-matrix is refused')
        X.prove(open(p).read() == 'old', 'an existing file is left alone')
        return
    if there != 'absent':
        with open(p, 'w') as f: f.write('old content ' * 100)
    if there == 'keep':
        X.refuses(lambda: w(p, m), 'an existing file is not overwritten')
        X.prove(open(p).read() == 'old content ' * 100, 'the existing file is untouched')
        X.prove(os.listdir(X.tmp) == ['grid.txt'], 'no other file')
        return
    before = X.copy(m)
    w(p, m, **({'overwrite': True} if there == 'over' else {}))
    X.eq(m, before, 'the matrix is not changed')
    dims, rows = read(X, open(p).read())
    X.prove(dims == shape, 'its dimensions')
    X.prove(len(rows) == shape[0] and all(len(r) == shape[1] for r in rows), 'every row with every entry')
    for i in range(shape[0]):
        for j in range(shape[1]):
            if X.decide(X.isnan(m[i, j])): X.prove(rows[i][j] == 'nan', 'missing entries as nan')
            else:
                X.prove(rows[i][j] != 'nan', 'only missing entries as nan')
                v = number(X, rows[i][j])
                if kind == 'special' and (i or j or shape == (1, 1)):
                    X.prove(v == float(m[i, j]), 'every entry at its place, digit for digit')
                    continue
                X.prove(X.abs(v - m[i, j]) <= 1e-12 * X.abs(m[i, j]), 'every entry at its place, digit for digit')
