"""larrys from small JSON specs, and exact comparison."""
import datetime
import numpy as np

KINDS = ['str', 'int', 'float', 'date', 'datetime', 'time', 'bool', 'str2', 'neg',
         'bigint', 'bigtime', 'bigdt', 'bigdate', 'longstr', 'tiny']
AKINDS = KINDS + ['ulong', 'strnul', 'blank', 'npint', 'npfloat', 'npstr', 'long',
                  'complex']                               # fit for archives
DTYPES = ['f8', 'i8', 'f4', 'i4', 'u1', 'b1', 'S3', 'c16', '>f8', 'f2',
          'i2', 'u4', 'u8', 'c8', 'S9', 'i1', '>i4']


def label(kind, n, off=0):
    "n distinct labels of one type; off shifts them."
    r = range(off, off + n)
    if kind == 'str':
        return ['r%d' % i for i in r]
    if kind == 'str2':                       # lengths differ, order differs
        return ['z' * (i % 3) + chr(97 + i % 26) + str(i) for i in r]
    if kind == 'int':
        return [i for i in r]
    if kind == 'neg':
        return [(-1) ** i * (i + 1) * 7 for i in r]
    if kind == 'float':
        return [i + 0.25 for i in r]
    if kind == 'date':
        return [datetime.date(2010, 1, 1) + datetime.timedelta(3 * i) for i in r]
    if kind == 'datetime':
        return [datetime.datetime(2009, 12, 31, 23, 59, 58, 5) +
                datetime.timedelta(0, 4001 * i) for i in r]
    if kind == 'time':
        return [datetime.time(i // 60 % 24, i % 60, (i * 7) % 60, i) for i in r]
    if kind == 'bool':
        return [bool((i + off) % 2) for i in range(n)] if n <= 2 else ['b%d' % i for i in r]
    if kind == 'bigint':
        return [(-1) ** i * (2 ** (62 - i % 31) + i) for i in r]
    if kind == 'bigtime':
        return [datetime.time(23 - i % 24, 59 - i // 24 % 60, 59 - i % 7, 999999 - 7919 * (i % 120))
                for i in r]
    if kind == 'bigdt':
        return [datetime.datetime([9999, 1900, 1, 2038, 1969][i % 5], 12 - i % 12, 28 - i % 27,
                                  23 - i % 24, 59 - i // 24 % 60, i % 60, 999999 - 7919 * (i % 120))
                for i in r]
    if kind == 'bigdate':
        return [datetime.date([9999, 1, 1969, 2038][i % 4], 12 - i % 12, 28 - i % 27) for i in r]
    if kind == 'longstr':
        return [('label %d ' % i) * (1 + 9 * (i % 4)) + 'x' for i in r]
    if kind == 'tiny':
        return [[1e-300, -1e300, 0.1, 1 / 3e5, 5e-324, -2.5e-9, 1e16][i % 7] * (1 + i // 7) for i in r]
    if kind == 'ulong':
        return [2 ** 63 + 4097 * i + 1 for i in r]
    if kind == 'strnul':
        return ['\0' * (i % 3) + 'n%d' % i for i in r]
    if kind == 'blank':
        return [' ' * i + '\t\n ,"\xe9'[i % 6:i % 6 + i % 2] for i in r]
    if kind == 'npint':
        return [np.int64((-1) ** i * 2 ** (i % 63)) for i in r]
    if kind == 'npfloat':
        return [np.float64(i / 3.) for i in r]
    if kind == 'npstr':
        return [np.str_('s%d' % (i * i)) for i in r]
    if kind == 'long':
        return [long(i * 3 - 4) for i in r]
    if kind == 'complex':
        return [complex(i, -i / 3.) for i in r]
    if kind == 'odd2':                       # replaced by the caller
        return ['o%d' % i for i in r]
    raise ValueError(kind)


def stored(v):
    "How an archive gives a label back: numpy and long numbers as those of Python."
    if isinstance(v, np.generic):
        v = v.item()
    return int(v) if type(v) is long else v


def data(shape, dt, tag):
    n = int(np.prod(shape)) if len(shape) else 1
    k = np.arange(n)
    if dt == 'b1':
        x = ((k * 7 + tag * 3 + k // 3) % 5) < 2
    elif dt == 'u1':
        x = (k * 3 + tag * 11 + 1) % 251
    elif dt == 'u8':
        x = np.uint64(2 ** 64 - 1) - (k * 3 + tag).astype('u8')
    elif dt == 'u4':
        x = 2 ** 32 - 1 - (k * 3 + tag)
    elif dt == 'i2':
        x = (-1) ** k * (32767 - k * 5 - tag)
    elif dt == 'i1':
        x = (k * 37 + tag) % 256 - 128
    elif dt == 'c8':
        x = (k + 1 + tag * 10) - 1j * (k + 0.25)
    elif dt == 'f2':
        x = (k + tag * 13) % 1000 + 0.5
    elif dt[0] == 'S':
        x = np.array([('%03d' % ((i * 7 + tag * 31) % 1000)) for i in range(n)], dtype=dt)
    elif dt == 'c16':
        x = (k + 1 + tag * 100) + 1j * (k + 0.5)
    elif dt == 'i8' and tag % 13 == 12:      # more than a float can hold
        x = (-1) ** k * (2 ** 53 + 1 + k * 2 ** 40 + tag)
    elif dt[-2] == 'i':
        x = k * 3 + 1 + tag * 1000
    elif tag % 7 == 6 and dt in ('f8', '>f8'):
        x = (k + tag) / 7.0 * 10.0 ** ((k * 29 + tag) % 60 - 30)
        x[::4] *= -1
        x[k % 11 == 5] = np.inf
    else:
        x = k * 1.25 + 0.125 + tag * 1000
    x = np.asarray(x).astype(dt)
    return x.reshape(shape)


def make(spec):
    from la import larry
    sh = tuple(spec['sh'])
    x = data(sh, spec.get('dt', 'f8'), spec.get('tag', 0))
    if spec.get('nan') and x.dtype.kind == 'f' and x.size:
        x.flat[::spec['nan'] + 1] = np.nan
    if spec.get('ord') == 'F':
        x = np.asfortranarray(x)
    elif spec.get('ord') == 'T' and x.ndim > 1:
        x = np.ascontiguousarray(x.T).T
    lab = [label(k, n, o) for k, n, o in zip(spec['lab'], sh, spec.get('off') or [0] * len(sh))]
    for ax, p in (spec.get('perm') or {}).items():
        lab[int(ax)] = [lab[int(ax)][i] for i in p]
    return larry(x, lab)


def spec(rng, ndims=(1, 2, 2, 3), maxn=4, zero=0.06, dts=None, kinds=None, tag=None, many=0):
    nd = rng.choice(ndims)
    if many and rng.random() < .06:
        nd, maxn, zero = rng.randrange(4, many), 2, zero / 10.
    sh = [0 if rng.random() < zero else rng.randrange(1, maxn + 1) for _ in range(nd)]
    s = {'sh': sh, 'dt': rng.choice(dts or (DTYPES + ['f8'] * 6)),
         'lab': [rng.choice(kinds or KINDS) for _ in range(nd)],
         'tag': rng.randrange(1, 30) if tag is None else tag}
    if any(sh) and rng.random() < .4:
        s['off'] = [rng.randrange(0, 9) for _ in range(nd)]
    if rng.random() < .15:
        s['nan'] = rng.randrange(1, 4)
    if rng.random() < .2:
        s['ord'] = rng.choice('FT')
    return s


def same_array(a, b):
    a, b = np.asarray(a), np.asarray(b)
    if a.dtype != b.dtype or a.shape != b.shape:
        return False
    if a.dtype.kind in 'fc':
        return bool(((a == b) | ((a != a) & (b != b))).all())
    if a.dtype.kind == 'O':
        return a.tolist() == b.tolist()
    return bool((a == b).all())


def same_label(a, b):
    if len(a) != len(b):
        return False
    for p, q in zip(a, b):
        if type(p) != list or type(q) != list or len(p) != len(q):
            return False
        for u, v in zip(p, q):
            if u != v and not (u != u and v != v):
                return False
            if isinstance(u, bool) != isinstance(v, bool):
                return False
    return True


def same(a, b):
    from la import larry
    if isinstance(a, larry) != isinstance(b, larry):
        return False
    if isinstance(a, larry):
        return same_array(a.x, b.x) and same_label(a.label, b.label)
    return same_array(a, b)


def show(v, n=160):
    from la import larry
    if isinstance(v, larry):
        s = 'larry(%s %s %s)' % (v.x.dtype, v.x.tolist(), v.label)
    else:
        s = repr(v)
    return s[:n] + ('...' if len(s) > n else '')
