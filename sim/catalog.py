"""The public operations of la, as functions of an environment of operands and a
dictionary of parameters.  Used by the scenarios on operands, threads, copies,
in-place changes and installations."""
import datetime
import operator

import numpy as np

import values


class Env(object):
    "y: larry; z: larry related to y; g: group; a: array; lab: list of labels"


class Boom(Exception):
    "raised by a user function"


def relabel(lab, how, kind, off):
    n = len(lab)
    if how == 'same':
        return list(lab)
    if how == 'perm':
        k = n // 2
        return list(lab[k:]) + list(lab[:k])[::-1]
    if how == 'over':
        return values.label(kind, n, off + max(n // 2, 1)) if kind != 'bool' else list(lab)
    if how == 'disj':
        return values.label(kind, max(n, 1), off + n + 5) if kind != 'bool' else list(lab)
    if how == 'sub':
        return list(lab[:max(n - 1, 0)])
    if how == 'sup':
        return list(lab) + (values.label(kind, 2, off + n) if kind != 'bool' else [])
    raise ValueError(how)


def ordered(y):
    """Whether Python 2 can compare the elements of y. It compares a NaN that is an
    object by address, so the order of an object array with NaN means nothing."""
    if y.x.dtype.kind != 'O':
        return True
    return all(v == v for v in y.x.ravel().tolist())


def make_env(spec):
    from la import larry
    e = Env()
    e.y = values.make(spec['y'])
    ys, zs = spec['y'], spec['z']
    offs = ys.get('off') or [0] * len(ys['sh'])
    lab = [relabel(l, h, k, o) for l, h, k, o in zip(e.y.label, zs['rel'], ys['lab'], offs)]
    sh = tuple(len(l) for l in lab)
    x = values.data(sh, zs.get('dt', 'f8'), zs.get('tag', 3))
    if zs.get('nan') and x.dtype.kind == 'f' and x.size:
        x.flat[::zs['nan'] + 1] = np.nan
    e.z = larry(x, lab)
    if zs.get('drop') and e.z.ndim > 1 and 0 not in e.z.shape:
        e.z = larry(e.z.x[0].copy(), [list(l) for l in e.z.label[1:]])
    n = e.y.shape[0]
    e.g = larry(np.array([['g1', 'g2', 'g3'][(i * i + ys.get('tag', 0)) % 3] for i in range(n)] or
                         [], dtype=object), [list(e.y.label[0])]) if n else \
        larry(np.array([], dtype=object), [[]])
    e.a = values.data(e.y.shape, 'f8', 5)
    e.lab = relabel(e.y.label[0], spec.get('lab', 'perm'), ys['lab'][0], offs[0])
    e.mask = larry(np.arange(n) % 2 == 0, [list(e.y.label[0])])
    e.ints = [i for i in range(n)][::-1]
    e.idx = [i for i in range(n) if i % 3 != 1]
    e.join = ['inner', 'outer', 'left', 'right', 'inner'][:e.y.ndim]
    e.join1 = [['outer', 'inner', 'left'][ys.get('tag', 0) % 3]]
    e.picks = [relabel(l, 'perm', k, 0) for l, k in zip(e.y.label, ys['lab'])]
    e.data = [[1.5, -2.0], [3.0, 4.0]]
    e.lrows = [['b', 2, 2.5], ['a', 1, 1.0], ['a', 2, 4.0]]
    e.rows = [('a', 1, 1.0), ('b', 2, 2.5), ('a', 2, 4.0)]
    e.dict = {('a', 1): 1.0, ('b', 2): 2.5, ('a', 2): 3.0, ('c', 1): 0.5}
    e.labels = [['a', 'b'], ['x', 'y']]
    e.lists = [[1.0, 2.0, 3.0], [('b', 'x'), ('a', 'y'), ('a', 'x')]]
    return e


def operands(e):
    return [(k, getattr(e, k)) for k in sorted(e.__dict__)]


# ---- exact, comparable forms -------------------------------------------------
def canon(v, depth=0):
    from la import larry
    if isinstance(v, larry):
        return ('larry', canon(v.x), canon(v.label))
    if isinstance(v, np.ndarray):
        return ('array', v.dtype.str, v.shape, tuple(map(canon, v.ravel().tolist()))
                if v.dtype.kind == 'O' else repr(v.ravel().tolist()))
    if isinstance(v, np.generic):
        return (type(v).__name__, repr(v))
    if isinstance(v, dict):
        return ('dict', tuple(sorted((canon(k), canon(u)) for k, u in v.items())))
    if isinstance(v, (list, tuple)):
        return (type(v).__name__,) + tuple(canon(u) for u in v)
    if isinstance(v, (int, long, float, complex, str, unicode, bool, type(None), datetime.date,
                      datetime.time)):
        return (type(v).__name__, repr(v))
    return ('object', type(v).__name__)


# ---- the operations ---------------------------------------------------------------
OPS = {}


def op(name, flags=''):
    def deco(f):
        assert name not in OPS
        OPS[name] = (f, frozenset(flags.split()))
        return f
    return deco


def ax(e, p):
    return p['ax'] % e.y.ndim - (e.y.ndim if p['neg'] else 0)


def axn(e, p):
    "an axis or None"
    return None if p['none'] else ax(e, p)


def win(e, p):
    return 1 + p['k'] % max(e.y.shape[ax(e, p)], 1)


def scalar(p):
    return [2, 0.5, -1, 3.0, np.float64(1.5), 0, 1, 1.0][p['s'] % 8]


def simple(name, flags, f):
    OPS[name] = (f, frozenset(flags.split()))

# unary
for _n in ('log', 'exp', 'sqrt', 'sign', 'abs', 'isnan', 'isfinite', 'isinf', 'copy', 'ismissing',
           'invert'):
    simple(_n, 'copy', lambda e, p, n=_n: getattr(e.y, n)())
simple('neg', 'copy', lambda e, p: -e.y)
simple('pos', 'copy', lambda e, p: +e.y)
simple('absop', 'copy', lambda e, p: abs(e.y))
simple('invertop', 'copy', lambda e, p: ~(e.y > 2))
simple('power', 'copy', lambda e, p: e.y.power([2, 1, 0, .5, 3, -1][p['k'] % 6]))
simple('powop', 'copy', lambda e, p: e.y ** [2, 1, 0, .5, 3, e.y][p['k'] % 6])
simple('clip', 'copy', lambda e, p: e.y.clip(1, 1 + p['k']))
simple('clipwide', 'copy', lambda e, p: e.y.clip(-1e12, 1e12))
simple('clipbad', 'copy', lambda e, p: e.y.clip(3, 1))
for _n in ('cumsum', 'cumprod'):
    simple(_n, 'copy', lambda e, p, n=_n: getattr(e.y, n)(ax(e, p)))
    simple(_n + 'bad', 'copy', lambda e, p, n=_n: getattr(e.y, n)([None, 7][p['k'] % 2]))

# binary
for _n in ('add', 'sub', 'mul', 'div', 'truediv', 'floordiv', 'and_', 'or_'):
    simple(_n, 'new', lambda e, p, n=_n: getattr(operator, n)(e.y, e.z))
    simple(_n + 's', 'new', lambda e, p, n=_n: getattr(operator, n)(e.y, scalar(p)))
    simple(_n + 'r', 'new', lambda e, p, n=_n: getattr(operator, n)(scalar(p), e.y))
    simple(_n + 'a', 'new', lambda e, p, n=_n: getattr(operator, n)(e.y, e.a))
    simple(_n + 'self', 'new', lambda e, p, n=_n: getattr(operator, n)(e.y, e.y))
    simple(_n + 'bad', 'new', lambda e, p, n=_n: getattr(operator, n)(e.y, e.rows))


def comparable(e, other):
    """numpy does not compare text with numbers; Python 2 then compares the
    addresses of the two arrays, which means nothing."""
    x = getattr(other, 'x', other)
    return other if (x.dtype.kind in 'SO') == (e.y.x.dtype.kind in 'SO') else e.y

for _n in ('eq', 'ne', 'lt', 'gt', 'le', 'ge'):
    simple(_n, 'new', lambda e, p, n=_n: getattr(operator, n)(e.y, comparable(e, e.z)))
    simple(_n + 's', 'new', lambda e, p, n=_n: getattr(operator, n)(e.y, scalar(p)))
    simple(_n + 'a', 'new', lambda e, p, n=_n: getattr(operator, n)(e.y, comparable(e, e.a)))

# reductions
for _n in ('sum', 'prod', 'mean', 'median', 'std', 'var', 'max', 'min', 'any', 'all'):
    simple(_n, 'new', lambda e, p, n=_n: getattr(e.y, n)(axn(e, p)))
simple('sumbad', 'new', lambda e, p: e.y.sum('axis'))
simple('stdd', 'new', lambda e, p: e.y.std(axn(e, p), ddof=1))
simple('geometric_mean', 'new', lambda e, p: e.y.geometric_mean(axn(e, p)))
simple('geometric_mean0', 'new',
       lambda e, p: e.y.geometric_mean(axn(e, p), check_for_greater_than_zero=False))
simple('lastrank', 'new', lambda e, p: e.y.lastrank(ax(e, p)))
simple('lastrankd', 'new', lambda e, p: e.y.lastrank(ax(e, p), decay=0.1))

# indexing; what shares data is stated by the flags
simple('getint', 'view vlab', lambda e, p: e.y[p['k'] % max(e.y.shape[0], 1)])
simple('getneg', 'view vlab', lambda e, p: e.y[-1])
simple('getslice', 'view vlab', lambda e, p: e.y[p['k'] % 2:])
simple('getall', 'view vlab', lambda e, p: e.y[:])
simple('gettuple', 'view vlab', lambda e, p: e.y[(slice(None),) * (e.y.ndim - 1) + (0,)])
simple('getslices', 'view vlab', lambda e, p: e.y[(slice(0, 2),) * e.y.ndim])
simple('getlist', 'view vlab', lambda e, p: e.y[e.idx])
simple('getmask', 'view vlab', lambda e, p: e.y[e.mask])
simple('getbool', 'view vlab', lambda e, p: e.y[e.mask.x])
simple('getarr', 'view vlab', lambda e, p: e.y[np.array(e.idx, int)])
simple('getout', 'view vlab', lambda e, p: e.y[e.y.shape[0] + 3])
simple('gettuplelist', 'view vlab', lambda e, p: e.y[(e.idx,) + (slice(None),) * (e.y.ndim - 1)])
simple('getbad', 'view vlab', lambda e, p: e.y['nothing'])
simple('lixlist', 'view vlab', lambda e, p: e.y.lix[[e.y.label[0][0]]])
simple('lixlists', 'view vlab', lambda e, p: e.y.lix[[e.y.label[0][i] for i in e.idx]])
simple('lixtuple', 'view vlab', lambda e, p: e.y.lix[tuple([list(l) for l in e.y.label])])
simple('lixpicks', 'view vlab', lambda e, p: e.y.lix[e.picks[0]])
simple('lixpickstuple', 'view vlab', lambda e, p: e.y.lix[tuple(e.picks)])
simple('lixpicksaxis', 'view vlab', lambda e, p: e.y.lix[full(e, e.picks[ax(e, p)],
                                                             p['ax'] % e.y.ndim)])
simple('lixslice', 'view vlab', lambda e, p: e.y.lix[[e.y.label[0][0]]:])
simple('lixscalar', 'view vlab', lambda e, p: e.y.lix[0])
simple('lixmiss', 'view vlab', lambda e, p: e.y.lix[['never there']])
simple('take', 'copy', lambda e, p: e.y.take(e.ints, 0))
simple('takedup', 'copy', lambda e, p: e.y.take([0, 0], 0))
simple('takesub', 'copy', lambda e, p: e.y.take(e.idx, 0))
simple('get', '', lambda e, p: e.y.get([l[-1] for l in e.y.label]))
simple('getmiss', '', lambda e, p: e.y.get(['never there'] * e.y.ndim))
simple('getx', 'copy', lambda e, p: e.y.getx())
simple('getxref', 'view', lambda e, p: e.y.getx(copy=False))
simple('A', 'view', lambda e, p: e.y.A)
simple('getlabel', 'copy', lambda e, p: e.y.getlabel(ax(e, p)))
simple('getlabelref', 'vlab', lambda e, p: e.y.getlabel(ax(e, p), copy=False))
simple('pull', 'view', lambda e, p: e.y.pull(e.y.label[ax(e, p)][0], ax(e, p)))
simple('pullmiss', 'view', lambda e, p: e.y.pull('never there', 0))
for _n in ('==', '>', '<', '>=', '<=', '!='):
    simple('keep_label' + _n, 'copy',
           lambda e, p, n=_n: e.y.keep_label(n, e.y.label[ax(e, p)][-1], ax(e, p)))
    simple('keep_x' + _n, 'copy', lambda e, p, n=_n: e.y.keep_x(n, 3, vacuum=bool(p['none'])))
simple('keep_labelin', 'copy', lambda e, p: e.y.keep_label('in', e.lab, 0))
simple('keep_labelnotin', 'copy', lambda e, p: e.y.keep_label('not in', e.lab[:1], 0))
simple('keep_labelbad', 'copy', lambda e, p: e.y.keep_label('~', 1, 0))

# labels
simple('maxlabel', '', lambda e, p: e.y.maxlabel(axn(e, p)))
simple('minlabel', '', lambda e, p: e.y.minlabel(axn(e, p)))
simple('labelindex', '', lambda e, p: e.y.labelindex(e.y.label[ax(e, p)][-1], ax(e, p)))
simple('labelindexle', '', lambda e, p: e.y.labelindex(e.y.label[0][0], 0, exact=False))
simple('labelindexmiss', '', lambda e, p: e.y.labelindex('never there', ax(e, p)))
simple('maplabel', 'copy', lambda e, p: e.y.maplabel(lambda l: ('m', l), axn(e, p)))
simple('maplabelstr', 'copy', lambda e, p: e.y.maplabel(str, axn(e, p)))
simple('maplabelone', 'copy', lambda e, p: e.y.maplabel(lambda l: 'all the same', axn(e, p)))


def failing_map(n):
    c = [0]

    def f(l):
        c[0] += 1
        if c[0] > n:
            raise Boom('user function')
        return ('m', l)
    return f

simple('maplabelfail', 'copy', lambda e, p: e.y.maplabel(failing_map(p['k']), axn(e, p)))

# moving windows
for _n in ('move_sum', 'move_mean', 'move_std', 'move_min', 'move_max'):
    simple(_n, 'new', lambda e, p, n=_n: getattr(e.y, n)(win(e, p), ax(e, p)))
    simple(_n + 'bad', 'new', lambda e, p, n=_n: getattr(e.y, n)(99, ax(e, p)))
for _n in ('move_median', 'move_ranking'):
    simple(_n, 'new', lambda e, p, n=_n: getattr(e.y, n)(
        win(e, p), ax(e, p), method=['loop', 'strides'][p['s'] % 2]))
simple('move_func', 'new', lambda e, p: e.y.move_func(
    lambda x, axis: x.max(axis), win(e, p), ax(e, p), method=['loop', 'strides'][p['s'] % 2]))


def failing_func(x, axis):
    raise Boom('user function')

simple('move_funcfail', 'new', lambda e, p: e.y.move_func(failing_func, win(e, p), ax(e, p)))
simple('movingsum_forward', 'new', lambda e, p: e.y.movingsum_forward(
    win(e, p), skip=p['s'] % 2, axis=ax(e, p), norm=bool(p['none'])))

# calculations
simple('demean', 'copy', lambda e, p: e.y.demean(axn(e, p)))
simple('demedian', 'copy', lambda e, p: e.y.demedian(axn(e, p)))
simple('zscore', 'copy', lambda e, p: e.y.zscore(axn(e, p)))
simple('ranking', 'new', lambda e, p: e.y.ranking(axn(e, p)))
simple('rankingN', 'new', lambda e, p: e.y.ranking(ax(e, p), norm='0,N-1'))
simple('rankinggauss', 'new opt', lambda e, p: e.y.ranking(ax(e, p), norm='gaussian'))
simple('rankingbad', 'new', lambda e, p: e.y.ranking(ax(e, p), norm='other'))
simple('quantile', 'copy', lambda e, p: e.y.quantile(1 + p['k'] % 3, ax(e, p)))
simple('quantilebad', 'copy', lambda e, p: e.y.quantile(0, ax(e, p)))
for _n in ('group_ranking', 'group_mean', 'group_median'):
    simple(_n, 'new', lambda e, p, n=_n: getattr(e.y, n)(e.g))
    simple(_n + 'bad', 'new', lambda e, p, n=_n: getattr(e.y, n)(e.z))
simple('push', 'new', lambda e, p: e.y.push(p['k'] % 3, ax(e, p)))

# alignment
simple('morph', 'copy', lambda e, p: e.y.morph(e.lab, 0))
simple('morphsame', 'copy', lambda e, p: e.y.morph(e.y.label[ax(e, p)], ax(e, p)))
simple('morphbad', 'copy', lambda e, p: e.y.morph(list(e.lab) + list(e.lab), 0))
simple('morph_like', 'new', lambda e, p: e.y.morph_like(e.z))
simple('merge', 'new', lambda e, p: e.y.merge(e.z))
simple('mergeu', 'new', lambda e, p: e.y.merge(e.z, update=True))
simple('mergenan', 'new', lambda e, p: (e.y * np.nan).merge(e.y))
simple('squeeze', 'view vlab', lambda e, p: e.y.squeeze())
simple('lag', 'copy', lambda e, p: e.y.lag([1, 0, -1, 2][p['k'] % 4], ax(e, p)))
simple('sortaxis', 'copy', lambda e, p: e.y.sortaxis(axn(e, p), reverse=bool(p['s'] % 2)))
simple('flipaxis', 'copy', lambda e, p: e.y.flipaxis(axn(e, p)))
simple('cut_missing', 'copy', lambda e, p: e.y.cut_missing(0.4, axn(e, p)))
simple('vacuum', 'copy', lambda e, p: e.y.vacuum(axn(e, p)))
simple('nan_replace', 'copy', lambda e, p: e.y.nan_replace(p['k']))
simple('astype', 'copy', lambda e, p: e.y.astype([float, int, 'f4', bool, object][p['s'] % 5]))
simple('T', 'copy', lambda e, p: e.y.T)
simple('swapaxes', 'new', lambda e, p: e.y.swapaxes(0, ax(e, p)))
simple('flatten', 'copy', lambda e, p: e.y.flatten(order='CF'[p['s'] % 2]))
simple('flattenbad', 'copy', lambda e, p: e.y.flatten(order='K'))
simple('unflatten', 'copy', lambda e, p: e.y.flatten().unflatten())
simple('insertaxis', 'copy', lambda e, p: e.y.insertaxis(p['k'] % (e.y.ndim + 1), 'new'))
simple('insertaxisbad', 'copy', lambda e, p: e.y.insertaxis(None, 'new'))
simple('copylabel', 'copy', lambda e, p: e.y.copylabel())
simple('copyx', 'copy', lambda e, p: e.y.copyx())
simple('nx', '', lambda e, p: e.y.nx)
simple('sizes', '', lambda e, p: (e.y.size, e.y.shape, e.y.ndim, str(e.y.dtype)))
simple('repr', '', lambda e, p: repr(e.y))

# conversion
simple('totuples', 'new', lambda e, p: e.y.totuples())
simple('tolist', 'new', lambda e, p: e.y.tolist())
simple('todict', 'new', lambda e, p: e.y.todict())


def static(name, f):
    simple(name, 'new', f)


def L():
    import la
    return la

static('fromtuples', lambda e, p: L().larry.fromtuples(e.rows))
static('fromtupleslists', lambda e, p: L().larry.fromtuples(e.lrows))
static('fromlist', lambda e, p: L().larry.fromlist(e.lists))
static('fromdict', lambda e, p: L().larry.fromdict(e.dict))
static('roundtuples', lambda e, p: L().larry.fromtuples(e.y.totuples()))
static('rounddict', lambda e, p: L().larry.fromdict(e.y.todict()))
simple('larry', 'vlab', lambda e, p: L().larry(e.data, e.labels))
simple('larrybad', 'vlab', lambda e, p: L().larry(e.data, [['a', 'a'], ['x', 'y']]))
simple('larrydt', 'vlab', lambda e, p: L().larry(e.a, dtype=int))

# functions
for _n in ('inner', 'outer', 'left', 'right', 'skip'):
    simple('align' + _n, 'copy', lambda e, p, n=_n: L().align(e.y, e.z, join=n))
    simple('align_raw' + _n, 'view', lambda e, p, n=_n: L().align_raw(e.y, e.z, join=n)[:2])
    if _n != 'skip':
        simple('align_axis' + _n, 'new',
               lambda e, p, n=_n: L().align_axis([e.y, e.z, e.y], axis=0, join=n))
simple('alignlist', 'copy', lambda e, p: L().align(e.y, e.z, join=e.join))
simple('alignlistone', 'copy', lambda e, p: L().align(e.y, e.z, join=e.join1))
simple('alignnocast', 'copy', lambda e, p: L().align(e.y, e.z, join='outer', cast=False))
simple('alignbad', 'copy', lambda e, p: L().align(e.y, e.z, join='other'))
simple('isaligned', '', lambda e, p: L().isaligned(e.y, e.z, [None, 0][p['none']]))
simple('union', 'new', lambda e, p: L().union(0, e.y, e.z))
simple('intersection', 'new', lambda e, p: L().intersection(0, e.y, e.z))
simple('unionbad', 'new', lambda e, p: L().union(0, e.y, e.a))
for _n in ('add', 'subtract', 'multiply', 'divide'):
    simple('la.' + _n, 'new', lambda e, p, n=_n: getattr(L(), n)(
        e.y, e.z, join=['inner', 'outer', 'left', 'right'][p['k'] % 4]))
    simple('la.' + _n + 'miss', 'new', lambda e, p, n=_n: getattr(L(), n)(
        e.y, e.z, join=['inner', 'outer', 'left', 'right'][p['k'] % 4], missone=0,
        misstwo=[0, 'ignore'][p['s'] % 2]))
    simple('la.' + _n + 'two', 'new', lambda e, p, n=_n: getattr(L(), n)(
        e.y, e.z, join=e.join, misstwo=-1))
    simple('la.' + _n + 'same', 'new', lambda e, p, n=_n: getattr(L(), n)(
        e.y, e.y, missone=1, misstwo=2))
    simple('la.' + _n + 'shift', 'new', lambda e, p, n=_n: getattr(L(), n)(
        e.y, e.y.push(1, 0), missone=1, misstwo=2))
simple('binaryop', 'new', lambda e, p: L().binaryop(np.maximum, e.y, e.z, join='outer', missone=1))
simple('binaryopkw', 'new', lambda e, p: L().binaryop(
    lambda a, b, c=0: a + b * c, e.y, e.z, missone=0, misstwo=0, c=2))


def boom2(a, b):
    raise Boom('user function')

simple('binaryopfail', 'new', lambda e, p: L().binaryop(boom2, e.y, e.z, missone=0, misstwo=0))
simple('unique', 'new', lambda e, p: L().unique(e.y, return_index=True, return_inverse=True))
simple('stack', 'new', lambda e, p: L().stack(['union', 'intersection'][p['k'] % 2],
                                              b=e.y, a=e.z, c=e.y))
simple('stack5', 'new', lambda e, p: L().stack('union', one=e.y, two=e.z, three=e.y, four=e.z,
                                               five=e.z))
simple('stackbad', 'new', lambda e, p: L().stack('other', a=e.y))
simple('panel', 'new', lambda e, p: L().panel(e.y))
simple('cov', 'new', lambda e, p: L().cov(e.y))
simple('sortby', 'copy', lambda e, p: L().sortby(e.y, e.y.label[ax(e, p)][0], ax(e, p),
                                                 reverse=bool(p['s'] % 2)))
simple('lrange', 'vlab', lambda e, p: L().lrange(label=e.labels))
simple('ones', 'vlab', lambda e, p: L().ones(label=e.labels))
simple('zeros', 'vlab', lambda e, p: L().zeros(shape=(2, 3)))
simple('emptybad', 'vlab', lambda e, p: L().empty())

# ---- rarer arguments -----------------------------------------------------------------
def mixed(n):
    "positions counted from both ends"
    return [0, -n] if n else []


def full(e, i, at):
    "an index of slices with i along axis `at`"
    return tuple([slice(None)] * at + [i] + [slice(None)] * (e.y.ndim - 1 - at))

simple('getmixed', 'view vlab', lambda e, p: e.y[mixed(e.y.shape[0])])
simple('getmixedarr', 'view vlab', lambda e, p: e.y[np.array(mixed(e.y.shape[0]), int)])
simple('getmixedtuple', 'view vlab', lambda e, p: e.y[full(e, mixed(e.y.shape[ax(e, p)]), p['ax'] % e.y.ndim)])
simple('getdup', 'view vlab', lambda e, p: e.y[[0, 0]])
simple('getdupneg', 'view vlab', lambda e, p: e.y[[-1, -1]])
simple('getnegs', 'view vlab', lambda e, p: e.y[[-1 - i for i in e.idx]])
simple('getstep', 'view vlab', lambda e, p: e.y[::[-1, 2, -2][p['k'] % 3]])
simple('getempty', 'view vlab', lambda e, p: e.y[4:1])
simple('getnolist', 'view vlab', lambda e, p: e.y[[]])
simple('getellipsis', 'view vlab', lambda e, p: e.y[..., 0])
simple('getnone', 'view vlab', lambda e, p: e.y[None])
simple('getaxis', 'view vlab', lambda e, p: e.y[full(e, p['k'] % 3, p['ax'] % e.y.ndim)])
simple('getaxisneg', 'view vlab', lambda e, p: e.y[full(e, -1 - p['k'] % 3, p['ax'] % e.y.ndim)])
simple('getaxisstep', 'view vlab', lambda e, p: e.y[full(e, slice(None, None, -1), p['ax'] % e.y.ndim)])
simple('getaxislist', 'view vlab', lambda e, p: e.y[full(e, [0], p['ax'] % e.y.ndim)])
simple('getaxisarr', 'view vlab', lambda e, p: e.y[full(e, np.array([-1, 0]), p['ax'] % e.y.ndim)])
simple('getaxismask', 'view vlab', lambda e, p: e.y[full(
    e, np.arange(e.y.shape[ax(e, p)]) % 2 == 0, p['ax'] % e.y.ndim)])
simple('getaxisbools', 'view vlab', lambda e, p: e.y[full(
    e, [i % 2 == 0 for i in range(e.y.shape[ax(e, p)])], p['ax'] % e.y.ndim)])
simple('gettwolists', 'view vlab', lambda e, p: e.y[tuple([[0, -1]] * e.y.ndim)])
simple('gettwosame', 'view vlab', lambda e, p: e.y[tuple([[0]] * e.y.ndim)])
simple('getints', '', lambda e, p: e.y[tuple(-1 - p['k'] % 2 for _ in e.y.shape)])
simple('getint64', 'view vlab', lambda e, p: e.y[np.int64(p['k'] % 3)])
simple('getlong', 'view vlab', lambda e, p: e.y[long(p['k'] % 3)])
simple('getfloat', 'view vlab', lambda e, p: e.y[1.0])
simple('getmanyidx', 'view vlab', lambda e, p: e.y[(0,) * (e.y.ndim + 1)])
simple('getlarryidx', 'view vlab', lambda e, p: e.y[e.y > 2])
simple('getarr2', 'view vlab', lambda e, p: e.y[e.y.x > 2])
simple('takemixed', 'copy', lambda e, p: e.y.take(mixed(e.y.shape[ax(e, p)]), ax(e, p)))
simple('takeaxis', 'copy', lambda e, p: e.y.take([0, 1], ax(e, p)))
simple('takearr', 'copy', lambda e, p: e.y.take(np.array([1, 0]), ax(e, p)))
simple('takeint', 'copy', lambda e, p: e.y.take(0, ax(e, p)))
simple('takenone', 'copy', lambda e, p: e.y.take([], ax(e, p)))
simple('takeout', 'copy', lambda e, p: e.y.take([99], ax(e, p)))
simple('lixaxis', 'view vlab', lambda e, p: e.y.lix[full(
    e, [e.y.label[ax(e, p)][-1]], p['ax'] % e.y.ndim)])
simple('lixaxisslice', 'view vlab', lambda e, p: e.y.lix[full(
    e, slice(None, [e.y.label[ax(e, p)][-1]]), p['ax'] % e.y.ndim)])
simple('lixstep', 'view vlab', lambda e, p: e.y.lix[[e.y.label[0][0]]:[e.y.label[0][-1]]:2])
simple('lixback', 'view vlab', lambda e, p: e.y.lix[[e.y.label[0][-1]]:[e.y.label[0][0]]:-1])
simple('lixmix', 'view vlab', lambda e, p: e.y.lix[full(e, 0, p['ax'] % e.y.ndim)])
simple('lixdup', 'view vlab', lambda e, p: e.y.lix[[e.y.label[0][0]] * 2])
simple('lixellipsis', 'view vlab', lambda e, p: e.y.lix[..., [e.y.label[-1][0]]])
simple('lixmany', 'view vlab', lambda e, p: e.y.lix[([e.y.label[0][0]],) * (e.y.ndim + 1)])
simple('getshort', '', lambda e, p: e.y.get([l[0] for l in e.y.label][:-1]))
simple('keep_labelaxis', 'copy', lambda e, p: e.y.keep_label('in', e.y.label[ax(e, p)][::2], ax(e, p)))
simple('keep_labelnone', 'copy', lambda e, p: e.y.keep_label('==', 'never there', ax(e, p)))
simple('keep_xbad', 'copy', lambda e, p: e.y.keep_x('~', 1))
simple('keep_xall', 'copy', lambda e, p: e.y.keep_x('!=', -999, vacuum=bool(p['none'])))
simple('keep_xnone', 'copy', lambda e, p: e.y.keep_x('==', -999, vacuum=bool(p['none'])))
simple('labelindexlt', '', lambda e, p: e.y.labelindex(-5, ax(e, p), exact=False))
simple('labelindexlast', '', lambda e, p: e.y.labelindex(e.y.label[ax(e, p)][-1], ax(e, p), exact=False))
simple('labelindexbad', '', lambda e, p: e.y.labelindex(e.y.label[0][0], None))
simple('maxlabelbad', '', lambda e, p: e.y.maxlabel(9))
simple('maplabelint', 'copy', lambda e, p: e.y.maplabel(lambda l: repr(l)[::-1], axn(e, p)))


def group(e, at):
    l = e.y.label[at]
    from la import larry
    x = np.empty(len(l), dtype=object)
    x[:] = [['g1', 'g2', None, 'g3'][(i * i + i) % 4] for i in range(len(l))]
    return larry(x, [list(l)])

for _n in ('group_ranking', 'group_mean', 'group_median'):
    simple(_n + 'axis', 'new', lambda e, p, n=_n: getattr(e.y, n)(group(e, ax(e, p)), ax(e, p)))
    simple(_n + 'perm', 'new', lambda e, p, n=_n: getattr(e.y, n)(e.g[::-1]))
simple('morphaxis', 'copy', lambda e, p: e.y.morph(e.y.label[ax(e, p)][::-1], ax(e, p)))
simple('morphsub', 'copy', lambda e, p: e.y.morph(e.y.label[ax(e, p)][1:], ax(e, p)))
simple('morphnone', 'copy', lambda e, p: e.y.morph([], ax(e, p)))
simple('mergeoverlap', 'new', lambda e, p: e.y.merge(e.y.lag(0, 0), update=bool(p['none'])))
simple('mergepart', 'new', lambda e, p: e.y[:1].merge(e.y[1:]))
simple('mergebad', 'new', lambda e, p: e.y.merge(e.a))
simple('lagall', 'copy', lambda e, p: e.y.lag(e.y.shape[ax(e, p)] - 1, ax(e, p)))
simple('lagover', 'copy', lambda e, p: e.y.lag(e.y.shape[ax(e, p)] + p['k'], ax(e, p)))
simple('lagback', 'copy', lambda e, p: e.y.lag(-e.y.shape[ax(e, p)], ax(e, p)))
simple('cut_missingall', 'copy', lambda e, p: e.y.cut_missing([0, 1, -1, 1e-9][p['k'] % 4], axn(e, p)))
simple('cut_missingaxes', 'copy', lambda e, p: e.y.cut_missing(0.4, range(e.y.ndim)))
simple('vacuumaxes', 'copy', lambda e, p: e.y.vacuum(tuple(range(e.y.ndim))[::-1]))
simple('vacuumnan', 'copy', lambda e, p: (e.y * np.nan).vacuum(axn(e, p)))
simple('vacuumone', 'copy', lambda e, p: e.y.morph(list(e.y.label[0]) + ['new one'], 0).vacuum(axn(e, p)))
simple('nan_replacedef', 'copy', lambda e, p: e.y.nan_replace())
simple('swapaxesneg', 'new', lambda e, p: e.y.swapaxes(-1, ax(e, p)))
simple('swapaxesbad', 'new', lambda e, p: e.y.swapaxes(9, 0))
simple('squeezeone', 'view vlab', lambda e, p: e.y[:1].squeeze())
simple('unflattenbad', 'copy', lambda e, p: e.y.unflatten())
simple('unflattenpart', 'copy', lambda e, p: e.y.flatten()[1:].unflatten())
simple('unflattenF', 'copy', lambda e, p: e.y.flatten(order='F').unflatten())
simple('insertaxisneg', 'copy', lambda e, p: e.y.insertaxis(-1 - p['k'] % (e.y.ndim + 1), 'new'))
simple('insertaxisfar', 'copy', lambda e, p: e.y.insertaxis(e.y.ndim + 4, 'new'))
simple('insertaxislist', 'copy', lambda e, p: e.y.insertaxis(0, ['new']))
simple('sortaxisneg', 'copy', lambda e, p: e.y.sortaxis(ax(e, p)))
simple('flipaxisneg', 'copy', lambda e, p: e.y.flipaxis(ax(e, p)))
simple('fromtuplesbad', 'new', lambda e, p: L().larry.fromtuples(e.rows + e.rows))
simple('fromdictbad', 'new', lambda e, p: L().larry.fromdict({1: 2}))
simple('fromlistbad', 'new', lambda e, p: L().larry.fromlist([[1.0, 2.0], [('a', 'b'), ('a', 'b')]]))
simple('fromnothing', 'new', lambda e, p: [L().larry.fromtuples, L().larry.fromlist,
                                          L().larry.fromdict][p['k'] % 3]([]))
simple('roundlist', 'new', lambda e, p: L().larry.fromlist(e.y.tolist()))
simple('larrylen', 'vlab', lambda e, p: L().larry(e.data, [['a', 'b'], ['x']]))
simple('larryextra', 'vlab', lambda e, p: L().larry(e.data, [['a', 'b'], ['x', 'y'], []]))
simple('larrynone', 'copy', lambda e, p: L().larry(e.data))
simple('larryref', 'view vlab', lambda e, p: L().larry(e.a, e.y.label))
simple('larrynoval', 'view vlab', lambda e, p: L().larry(
    e.y.x[::-1], e.y.label, validate=False))
simple('larrylarry', 'view vlab', lambda e, p: L().larry(e.y.x, [list(l) for l in e.y.label]))
simple('larrytuplelab', 'vlab', lambda e, p: L().larry(e.data, [('a', 'b'), ('x', 'y')]))
simple('larryscalar', 'copy', lambda e, p: L().larry(3))
simple('deepcopy', 'copy', lambda e, p: __import__('copy').deepcopy(e.y))
simple('pickle', 'copy', lambda e, p: pickled(e.y, p['k'] % 3))
simple('str', '', lambda e, p: str(e.y))
simple('reprmany', '', lambda e, p: repr(e.y.astype(object)))
simple('asarray', 'view', lambda e, p: np.asarray(e.y.x))
for _n in ('sum', 'mean', 'median', 'max', 'any', 'std'):
    simple(_n + 'neg', 'new', lambda e, p, n=_n: getattr(e.y, n)(-1 - p['ax'] % e.y.ndim))
    simple(_n + 'out', 'new', lambda e, p, n=_n: getattr(e.y, n)(e.y.ndim + p['k']))
    simple(_n + 'nans', 'new', lambda e, p, n=_n: getattr(e.y * np.nan, n)(axn(e, p)))
for _n in ('demean', 'demedian', 'zscore', 'ranking', 'lastrank', 'push', 'lag', 'quantile'):
    simple(_n + 'out', 'new', lambda e, p, n=_n: getattr(e.y, n)(*(
        [1, 9] if n in ('push', 'lag', 'quantile') else [9])))
    simple(_n + 'nans', 'new', lambda e, p, n=_n: getattr(e.y * np.nan, n)(*(
        [1, ax(e, p)] if n in ('push', 'lag', 'quantile') else [ax(e, p)])))
simple('move_rankingbad', 'new', lambda e, p: e.y.move_ranking(win(e, p), ax(e, p), method='other'))
simple('move_medianbad', 'new', lambda e, p: e.y.move_median(win(e, p), ax(e, p), method='other'))
simple('move_funckw', 'new', lambda e, p: e.y.move_func(
    lambda x, axis, q=0: x.sum(axis) + q, win(e, p), ax(e, p), method=['loop', 'strides'][p['s'] % 2],
    q=1))




def pickled(y, protocol):
    import pickle
    return pickle.loads(pickle.dumps(y, protocol))

for _n in ('inner', 'outer', 'left', 'right'):
    simple('align_axislast' + _n, 'new', lambda e, p, n=_n: L().align_axis(
        [e.y, e.z, e.y.flipaxis(-1)], axis=-1, join=n))
    simple('align_three' + _n, 'new', lambda e, p, n=_n: L().align_axis(
        (e.z, e.y, e.z), axis=p['ax'] % e.y.ndim, join=n))
simple('align_axisone', 'new', lambda e, p: L().align_axis([e.y], axis=0))
simple('align_axisnone', 'new', lambda e, p: L().align_axis([], axis=0))
simple('align_axisbad', 'new', lambda e, p: L().align_axis([e.y, e.z], axis=0, join='other'))
simple('alignself', 'copy', lambda e, p: L().align(e.y, e.y, join=['inner', 'outer', 'left', 'right', 'skip'][p['k'] % 5]))
simple('alignint', 'copy', lambda e, p: L().align(
    e.y.astype(int), e.z.astype(bool), join='outer', cast=bool(p['none'])))
simple('alignstr', 'copy', lambda e, p: L().align(e.y.astype(str), e.z.astype(str), join='outer'))
simple('alignobj', 'copy', lambda e, p: L().align(e.y.astype(object), e.z.astype(object), join='outer'))
simple('alignlistbad', 'copy', lambda e, p: L().align(e.y, e.z, join=e.join + ['inner']))
simple('isaligneddim', '', lambda e, p: L().isaligned(e.y, e.y.insertaxis(0, 'new')))
simple('unionaxis', 'new', lambda e, p: L().union(-1, e.y, e.z, e.y.flipaxis(-1)))
simple('intersectionaxis', 'new', lambda e, p: L().intersection(-1, e.y, e.z, e.y.flipaxis(-1)))
simple('unionone', 'new', lambda e, p: L().union(0, e.y))
simple('intersectionone', 'new', lambda e, p: L().intersection(0, e.y))
for _n in ('add', 'subtract', 'multiply', 'divide'):
    simple('la.' + _n + 'nocast', 'new', lambda e, p, n=_n: getattr(L(), n)(
        e.y.astype(int), e.z.astype(int), join='outer', cast=False, missone=0, misstwo=0))
    simple('la.' + _n + 'int', 'new', lambda e, p, n=_n: getattr(L(), n)(
        e.y.astype(int), e.z.astype(int), join='outer', missone=0))
    simple('la.' + _n + 'bad', 'new', lambda e, p, n=_n: getattr(L(), n)(e.y, e.a))
simple('uniqueindex', 'new', lambda e, p: L().unique(e.y, return_index=True))
simple('uniqueinverse', 'new', lambda e, p: L().unique(e.y, return_inverse=True))
simple('uniqueonly', 'new', lambda e, p: L().unique(e.y))
simple('stackone', 'new', lambda e, p: L().stack('union', a=e.y))
simple('stacknone', 'new', lambda e, p: L().stack('union'))
simple('covbad', 'new', lambda e, p: L().cov(e.a))
simple('sortbymiss', 'copy', lambda e, p: L().sortby(e.y, 'never there', ax(e, p)))
simple('lrangeshape', 'copy', lambda e, p: L().lrange((2, 3), start=p['k'], step=[1, 2, -1][p['s'] % 3]))
simple('lrangedt', 'copy', lambda e, p: L().lrange((2, 2), dtype=[int, 'f4', object][p['s'] % 3]))
simple('lrangeint', 'copy', lambda e, p: L().lrange(4))
simple('onesorder', 'vlab', lambda e, p: L().ones(label=e.labels, order='F', dtype=int))
simple('zerosboth', 'vlab', lambda e, p: L().zeros((2, 2), e.labels))
simple('zerosbad', 'vlab', lambda e, p: L().zeros((3, 2), e.labels))


# functions on arrays and label lists
def fa(name, f):
    simple('farray.' + name, 'new', f)


def F():
    import la.farray
    return la.farray

fa('ranking', lambda e, p: F().ranking(e.y.x, axn(e, p)))
fa('quantile', lambda e, p: F().quantile(e.y.x, 2, axn(e, p)))
fa('push', lambda e, p: F().push(e.y.x, 1, ax(e, p)))
fa('zscore', lambda e, p: F().zscore(e.y.x, axn(e, p)))
fa('demean', lambda e, p: F().demean(e.y.x, axn(e, p)))
fa('demedian', lambda e, p: F().demedian(e.y.x, axn(e, p)))
fa('lastrank', lambda e, p: F().lastrank(e.y.x, ax(e, p), p['k'] % 2))
fa('geometric_mean', lambda e, p: F().geometric_mean(e.y.x, ax(e, p), False))
fa('correlation', lambda e, p: F().correlation(e.y.x, e.a, axn(e, p)))
fa('covMissing', lambda e, p: F().covMissing(e.y.x))
fa('group_ranking', lambda e, p: F().group_ranking(e.y.x, e.g.x.tolist()))
fa('group_mean', lambda e, p: F().group_mean(e.y.x, e.g.x.tolist()))
fa('group_median', lambda e, p: F().group_median(e.y.x, e.g.x.tolist()))
fa('unique_group', lambda e, p: F().unique_group(e.g.x.tolist() + [None]))
fa('move_nanmedian', lambda e, p: F().move_nanmedian(e.y.x, win(e, p), ax(e, p)))
fa('movingsum_forward', lambda e, p: F().movingsum_forward(e.y.x, win(e, p), axis=ax(e, p)))

fa('move_nanmedianm', lambda e, p: F().move_nanmedian(
    e.y.x, win(e, p), ax(e, p), method=['loop', 'strides', 'other'][p['s'] % 3]))
fa('move_nanranking', lambda e, p: F().move_nanranking(
    e.y.x, win(e, p), ax(e, p), method=['loop', 'strides', 'other'][p['s'] % 3]))
fa('move_func', lambda e, p: F().move_func(
    lambda x, axis: x.min(axis), e.y.x, win(e, p), ax(e, p), method=['loop', 'strides'][p['s'] % 2]))
fa('pushneg', lambda e, p: F().push(e.y.x, -1 + p['k'] % 3, ax(e, p)))
fa('lastrankdecay', lambda e, p: F().lastrank(e.y.x, ax(e, p), 0.3))
fa('rankingnorm', lambda e, p: F().ranking(e.y.x, ax(e, p), ['0,N-1', '-1,1'][p['k'] % 2]))
fa('correlationbad', lambda e, p: F().correlation(e.y.x, e.a[..., :1], axn(e, p)))
fa('geometric_meancheck', lambda e, p: F().geometric_mean(e.y.x, axn(e, p)))
for _n in ('group_ranking', 'group_mean', 'group_median'):
    fa(_n + 'axis', lambda e, p, n=_n: getattr(F(), n)(
        e.y.x, group(e, ax(e, p)).x.tolist(), axis=ax(e, p)))
    fa(_n + 'len', lambda e, p, n=_n: getattr(F(), n)(e.y.x, ['g'] * 17))


def fl():
    import sys
    import la
    return sys.modules['la.flabel']

simple('listmap', 'new', lambda e, p: fl().listmap(e.y.label[0], e.z.label[0]))
simple('listmapig', 'new', lambda e, p: fl().listmap(e.y.label[0], e.lab, ignore_unmappable=True))
simple('listmap_fill', 'new', lambda e, p: fl().listmap_fill(e.y.label[0], e.z.label[0], p['k']))
simple('flattenlabel', 'new', lambda e, p: fl().flattenlabel(e.y.label, 'CF'[p['s'] % 2]))
simple('list2index', 'new', lambda e, p: fl().list2index(e.y.label[0]))


def missing():
    import sys
    import la
    return sys.modules['la.missing']

simple('missing_marker', '', lambda e, p: missing().missing_marker(e.y))
simple('ismissing_f', 'new', lambda e, p: missing().ismissing(e.y))
simple('nans', 'new', lambda e, p: missing().nans(e.y.shape))


# ---- in-place operations on y -------------------------------------------------------
def mut(name, f, flags=''):
    OPS['!' + name] = (f, frozenset(('mut ' + flags).split()))


def setter(key, val):
    def f(e, p):
        e.y[key(e, p)] = val(e, p)
    return f

mut('fill', lambda e, p: e.y.fill(p['k']))
mut('fillbad', lambda e, p: e.y.fill('not a number'))
mut('setint', setter(lambda e, p: 0, lambda e, p: -7 - p['k']))
mut('setslice', setter(lambda e, p: slice(0, 2), lambda e, p: -17))
mut('setlist', setter(lambda e, p: e.idx, lambda e, p: -27))
mut('setmask', setter(lambda e, p: e.y > 2, lambda e, p: -37))
mut('setmaskbad', setter(lambda e, p: e.z > 2, lambda e, p: -38))
mut('setlarry', setter(lambda e, p: slice(0, 1), lambda e, p: e.y[0:1] * 3))
mut('setlarrybad', setter(lambda e, p: slice(0, 1), lambda e, p: e.z))
mut('setshape', setter(lambda e, p: slice(0, 1), lambda e, p: np.ones(97)))
mut('setout', setter(lambda e, p: e.y.shape[0] + 5, lambda e, p: 1))
mut('setall', setter(lambda e, p: slice(None), lambda e, p: e.y * 2))
mut('set', lambda e, p: e.y.set([l[0] for l in e.y.label], -47 - p['k']))
mut('setmiss', lambda e, p: e.y.set(['never there'] * e.y.ndim, 1))
mut('setlen', lambda e, p: e.y.set([], 1))


def lix(key, val):
    def f(e, p):
        e.y.lix[key(e, p)] = val(e, p)
    return f

mut('lixset', lix(lambda e, p: [e.y.label[0][0]], lambda e, p: -57))
mut('lixtuple', lix(lambda e, p: tuple([[l[0]] for l in e.y.label]), lambda e, p: -67))
mut('lixslice', lix(lambda e, p: slice([e.y.label[0][0]], None), lambda e, p: -77))
mut('lixmiss', lix(lambda e, p: ['never there'], lambda e, p: 1))
mut('lixlarry', lix(lambda e, p: tuple([list(l[:1]) for l in e.y.label]), lambda e, p: e.z))
mut('maplabel', lambda e, p: e.y.maplabel(lambda l: ('i', l), axn(e, p), copy=False), 'lab ret')
mut('maplabelfail', lambda e, p: e.y.maplabel(failing_map(p['k']), axn(e, p), copy=False), 'lab ret')
mut('maplabelone', lambda e, p: e.y.maplabel(lambda l: 'same', axn(e, p), copy=False), 'lab ret')
mut('maplabelbad', lambda e, p: e.y.maplabel(lambda l: ('i', l), 9, copy=False), 'lab ret')
mut('flipaxis', lambda e, p: e.y.flipaxis(axn(e, p), copy=False), 'lab ret')
mut('flipaxisbad', lambda e, p: e.y.flipaxis(9, copy=False), 'lab ret')
mut('shuffle', lambda e, p: e.y.shuffle(axn(e, p)))
mut('shufflebad', lambda e, p: e.y.shuffle(9))
mut('shufflelabel', lambda e, p: e.y.shufflelabel(axn(e, p)), 'lab')
mut('shufflelabelbad', lambda e, p: e.y.shufflelabel(9), 'lab')
mut('rawdata', lambda e, p: operator.setitem(e.y.x, Ellipsis, -87))


mut('setmixed', setter(lambda e, p: mixed(e.y.shape[0]), lambda e, p: -101))
mut('setaxis', setter(lambda e, p: full(e, p['k'] % 2, p['ax'] % e.y.ndim), lambda e, p: -102))
mut('setaxisneg', setter(lambda e, p: full(e, -1, p['ax'] % e.y.ndim), lambda e, p: -103))
mut('setaxislist', setter(lambda e, p: full(e, [0, -1], p['ax'] % e.y.ndim), lambda e, p: -104))
mut('setstep', setter(lambda e, p: slice(None, None, -2), lambda e, p: -105))
mut('setarr', setter(lambda e, p: slice(None), lambda e, p: e.a))
mut('setellipsis', setter(lambda e, p: Ellipsis, lambda e, p: -106))
mut('setmaskarr', setter(lambda e, p: e.a > 2, lambda e, p: -107))
mut('setstr', setter(lambda e, p: 0, lambda e, p: 'text'))
mut('setreversed', setter(lambda e, p: slice(None), lambda e, p: e.y[::-1]))
mut('setself', setter(lambda e, p: slice(None), lambda e, p: e.y))
mut('setshift', setter(lambda e, p: slice(1, None), lambda e, p: e.y.x[:-1]))
mut('setarrback', setter(lambda e, p: slice(None), lambda e, p: e.y.x[::-1]))
mut('lixaxis', lix(lambda e, p: full(e, [e.y.label[ax(e, p)][-1]], p['ax'] % e.y.ndim),
                   lambda e, p: -108))
mut('lixarr', lix(lambda e, p: tuple([list(l) for l in e.y.label]), lambda e, p: e.a))
mut('lixback', lix(lambda e, p: slice([e.y.label[0][-1]], None, -1), lambda e, p: -109))
mut('fillnan', lambda e, p: e.y.fill(np.nan))
mut('setget', lambda e, p: e.y.set([l[-1] for l in e.y.label], e.y.get([l[0] for l in e.y.label])))


def rawlabel(e, p):
    i = ax(e, p)
    if e.y.label[i]:
        j = p['s'] % len(e.y.label[i])
        e.y.label[i][j] = ('raw', p['k'], e.y.label[i][j])

mut('rawlabel', rawlabel, 'lab')
mut('rawreverse', lambda e, p: e.y.label[ax(e, p)].reverse(), 'lab')


def rawswap(e, p):
    l = e.y.label[ax(e, p)]
    l[-1:], l[:1] = l[:1], l[-1:]

mut('rawswap', rawswap, 'lab')



# ---- families -------------------------------------------------------------------
# Operations that share code are tried together; a family is as likely as any other.
BASES = ['align_axis', 'align', 'binaryop', 'move_median', 'move_ranking', 'move_func', 'move_',
         'movingsum', 'lastrank', 'ranking', 'quantile', 'demean', 'demedian', 'zscore', 'push',
         'geometric_mean', 'correlation', 'cov', 'group', 'unique', 'stack', 'panel', 'sortby',
         'sortaxis', 'flipaxis', 'lag', 'morph', 'merge', 'cut_missing', 'vacuum', 'squeeze',
         'nan', 'missing', 'ismissing', 'astype', 'swapaxes', 'flatten', 'unflatten', 'insertaxis',
         'fromtuples', 'fromlist', 'fromdict', 'round', 'to', 'maplabel', 'labelindex', 'maxlabel',
         'minlabel', 'keep_label', 'keep_x', 'pull', 'take', 'lix', 'getlabel', 'getx', 'get',
         'set', 'cum', 'clip', 'listmap', 'list2index', 'union', 'intersection', 'isaligned',
         'lrange', 'larry', 'repr', 'copy', 'pickle', 'deepcopy', 'fill', 'shuffle', 'shufflelabel',
         'add', 'sub', 'mul', 'div', 'truediv', 'floordiv', 'and_', 'or_', 'sum', 'prod', 'mean',
         'median', 'std', 'var', 'max', 'min', 'any', 'all', 'ones', 'zeros', 'pow']
FAMILY = {}
for _n in OPS:
    _b = _n.lstrip('!').replace('farray.', '').replace('la.', '')
    _m = [b for b in BASES if _b.startswith(b)]
    FAMILY[_n] = max(_m, key=len) if _m else 'rest'
    if FAMILY[_n] == 'rest' and _b[:2] in ('eq', 'ne', 'lt', 'gt', 'le', 'ge'):
        FAMILY[_n] = 'compare'
MEMBERS = {}
for _n in sorted(OPS):
    MEMBERS.setdefault(FAMILY[_n], []).append(_n)


def related(rng, pool):
    "Those operations of the pool that belong to one family."
    fams = sorted(set(FAMILY[n] for n in pool))
    f = rng.choice(fams)
    return [n for n in pool if FAMILY[n] == f]


def even(rng, pool):
    "One operation: every family is equally likely."
    return rng.choice(related(rng, pool)) if rng.random() < .7 else rng.choice(pool)


# ---- generation -------------------------------------------------------------------
def gen_params(rng):
    return {'ax': rng.randrange(6), 'neg': int(rng.random() < .3), 'none': int(rng.random() < .3),
            'k': rng.randrange(6), 's': rng.randrange(30)}


def gen_env(rng, big=False):
    kinds = [k for k in values.KINDS if k != 'bool']
    y = values.spec(rng, ndims=(1, 1, 2, 2, 2, 2, 3, 3), maxn=5, zero=0.02,
                    dts=['f8'] * 12 + ['i8', 'i8', 'f4', 'b1', 'i4', 'S3', 'c16', '>f8'],
                    kinds=kinds)
    if rng.random() < .6:
        y['nan'] = rng.randrange(1, 4)
    if big:
        y['sh'] = [rng.randrange(24, 40) for _ in y['sh'][:2]]
        y['lab'] = y['lab'][:2]
        y.pop('off', None)
    if rng.random() < .2:
        y['sh'] = [1 if rng.random() < .4 else n for n in y['sh']]
    hows = ['same', 'same', 'perm', 'over', 'disj', 'sub', 'sup']
    rel = [rng.choice(hows) for _ in y['sh']]
    if rng.random() < .35:
        rel = ['same'] * len(rel)
    z = {'rel': rel, 'tag': rng.randrange(9), 'dt': rng.choice([y['dt']] * 4 + ['f8', 'i8', 'b1'])}
    if rng.random() < .5:
        z['nan'] = rng.randrange(1, 3)
    if rng.random() < .04:
        z['drop'] = 1
    return {'y': y, 'z': z, 'lab': rng.choice(hows)}


def simpler_env(spec):
    y, z = spec['y'], spec['z']
    for f in ('ord', 'nan', 'off'):
        if f in y:
            t = dict(y)
            del t[f]
            yield dict(spec, y=t)
    for f in ('nan', 'drop'):
        if f in z:
            t = dict(z)
            del t[f]
            yield dict(spec, z=t)
    if y['dt'] != 'f8':
        yield dict(spec, y=dict(y, dt='f8'))
    if z['dt'] != 'f8':
        yield dict(spec, z=dict(z, dt='f8'))
    for i, n in enumerate(y['sh']):
        if n > 2:
            yield dict(spec, y=dict(y, sh=y['sh'][:i] + [2] + y['sh'][i + 1:]))
        if y['lab'][i] != 'str':
            yield dict(spec, y=dict(y, lab=y['lab'][:i] + ['str'] + y['lab'][i + 1:]))
    if len(y['sh']) > 1:
        t = dict(y, sh=y['sh'][:-1], lab=y['lab'][:-1])
        if t.get('off'):
            t['off'] = t['off'][:-1]
        t.pop('perm', None)
        yield dict(spec, y=t, z=dict(z, rel=z['rel'][:-1]))
    if set(z['rel']) != set(['same']):
        yield dict(spec, z=dict(z, rel=['same'] * len(z['rel'])))
