"""Reference indexing of (array, labels): what an index into a larry means, axis
by axis, written without la."""
import numpy as np


def to_index(j):
    "JSON index -> Python index"
    kind = j[0]
    if kind == 'i':
        return j[1]
    if kind == 's':
        return slice(*j[1:4])
    if kind == 'l':
        return list(j[1])
    if kind == 'm':
        return np.array([bool(b) for b in j[1]], dtype=bool)
    if kind == 't':
        return tuple(to_index(k) for k in j[1])
    if kind == 'bad':
        return {'str': 'no', 'none': None, 'float': 1.5, 'ell': Ellipsis,
                'np2d': np.zeros((2, 2), int), 'dict': {}}[j[1]]
    raise ValueError(j)


class Reject(Exception):
    pass


def positions(j, n):
    "-> (list of positions, keep axis?)"
    if j[0] == 'i':
        if not -n <= j[1] < n:
            raise Reject('out of range')
        return [j[1] % n], False
    if j[0] == 's':
        return list(range(n))[slice(*j[1:4])], True
    if j[0] == 'l':
        for k in j[1]:
            if not -n <= k < n:
                raise Reject('out of range')
        p = [k % n for k in j[1]]
        if len(set(p)) != len(p):
            raise Reject('duplicates')
        return p, True
    if j[0] == 'm':
        if len(j[1]) != n:
            raise Reject('mask length')
        return [i for i, b in enumerate(j[1]) if b], True
    raise Reject('unknown')


def norm(j, ndim):
    per = list(j[1]) if j[0] == 't' else [j]
    if len(per) > ndim or not per:
        raise Reject('too many')
    return per + [['s', None, None, None]] * (ndim - len(per))


def select(x, label, j):
    "-> scalar, or (array, labels)"
    per = norm(j, x.ndim)
    pos = [positions(p, n) for p, n in zip(per, x.shape)]
    y = x
    for ax, (p, keep) in enumerate(pos):
        y = np.take(y, np.array(p, dtype=int), axis=ax)
    lab = [[label[ax][i] for i in p] for ax, (p, keep) in enumerate(pos) if keep]
    shape = [len(p) for p, keep in pos if keep]
    y = y.reshape(shape)
    if not shape:
        return y[()]
    return y, lab


def assign(x, j, value):
    "A copy of x with the selected elements set to value (scalar or array)."
    per = norm(j, x.ndim)
    pos = [positions(p, n) for p, n in zip(per, x.shape)]
    x = x.copy()
    if not all(len(p) for p, _ in pos):
        return x
    ix = np.ix_(*[np.array(p, dtype=int) for p, _ in pos])
    if np.ndim(value):
        value = np.asarray(value).reshape([len(p) for p, _ in pos])
    x[ix] = value
    return x


def fancy(j):
    per = list(j[1]) if j[0] == 't' else [j]
    return any(p[0] in 'lm' for p in per)


def odd_mask(j, shape):
    "A mask of the wrong length: numpy takes it to mean several things."
    per = list(j[1]) if j[0] == 't' else [j]
    return any(p[0] == 'm' and len(p[1]) != n for p, n in zip(per, shape))


def bare_ints(j, ndim):
    """A tuple of fewer integers than axes: la gives an array without labels."""
    return j[0] == 't' and len(j[1]) < ndim and all(p[0] == 'i' for p in j[1])


def plain(j, shape):
    """Is it an index that partial reads and writes of an archived larry must
    support: integers, forward slices, and at most one increasing list or mask,
    the list or mask only inside a tuple?"""
    per = list(j[1]) if j[0] == 't' else [j]
    if len(per) > len(shape) or not per:
        return False
    fancy, empty = 0, False
    for p, n in zip(per, shape):
        if p[0] in 'lm':
            fancy += 1
            if j[0] != 't' or len(per) < len(shape):
                return False
            if p[0] == 'l' and (sorted(set(p[1])) != p[1] or not p[1] or p[1][0] < 0):
                return False
            if p[0] == 'm' and not any(p[1]):
                return False
        elif p[0] == 's':
            a, b, c = slice(*p[1:4]).indices(n)
            if c < 1 or a > b:
                return False
            empty = empty or a == b
        elif p[0] != 'i':
            return False
    return fancy == 0 or (fancy == 1 and not empty)
