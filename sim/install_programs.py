"Programs whose results must not depend on the installation (D01)."
import os
import warnings

import numpy as np

import catalog as C
import values

X = {}                       # further operations, with the packages they need


def x(name, needs=''):
    def deco(f):
        X[name] = (f, frozenset(needs.split()))
        return f
    return deco


def la():
    import la
    return la


LABELS = [['b', 'a', 'c'], [1, 2.5, True, 'x'], [u'b', 'a', 'c'], [('a', 1), ('b', 2)],
          [None, 0, -1], ['a', 1, None], [3, 2, 1, 0, -1, 10 ** 20], [1.0, 2, 3],
          [np.int64(2), 1, np.float64(3)], [], ['', ' ', 'A', 'a'], [[1], 'a'],
          ['x%d' % i for i in range(40)], list(range(30))]


def flabel():
    import sys
    import la
    return sys.modules['la.flabel']


@x('listmap')
def _(e, p):
    return flabel().listmap(LABELS[p['k'] % len(LABELS)], LABELS[p['s'] % len(LABELS)],
                            bool(p['none']))


@x('listmapsub')
def _(e, p):
    l = LABELS[p['k'] % len(LABELS)]
    return flabel().listmap(l, l[::-1] + l[:1], bool(p['none']))


@x('listmap_fill')
def _(e, p):
    return flabel().listmap_fill(LABELS[p['k'] % len(LABELS)], LABELS[p['s'] % len(LABELS)],
                                 fill=[0, -1, 7][p['ax'] % 3])


@x('listmap_filldup')
def _(e, p):
    l = LABELS[p['k'] % len(LABELS)]
    return flabel().listmap_fill(l + l[:1], ['no'] + l[::-1] + l + ['never'])


def many(e, p):
    "two larrys whose labels overlap, in an order that hash order would mix up"
    n = 5 + p['k'] * 3
    kind = ['str', 'str2', 'date', 'datetime', 'float', 'int'][p['s'] % 6]
    a = values.label(kind, n, 0)[::-1]
    b = values.label(kind, n, n // 2)
    b = b[::2] + b[1::2]
    L = la()
    return L.larry(np.arange(1.0 * n), [a]), L.larry(np.arange(2.0 * n).reshape(n, 2),
                                                     [b, ['x', 'y']])[:, 0]


for _n in ('inner', 'outer', 'left', 'right'):
    X['align' + _n] = ((lambda n: lambda e, p: la().align(*many(e, p), join=n))(_n), frozenset())
    X['add' + _n] = ((lambda n: lambda e, p: la().add(*many(e, p), join=n))(_n), frozenset())
    X['align_axis' + _n] = ((lambda n: lambda e, p: la().align_axis(list(many(e, p)) * 2, axis=0,
                                                                    join=n))(_n), frozenset())
X['plus'] = (lambda e, p: many(e, p)[0] + many(e, p)[1], frozenset())
X['less'] = (lambda e, p: many(e, p)[0] < many(e, p)[1], frozenset())
X['and'] = (lambda e, p: many(e, p)[0] & many(e, p)[1], frozenset())
X['or'] = (lambda e, p: many(e, p)[0] | many(e, p)[1], frozenset())
X['mergemany'] = (lambda e, p: many(e, p)[0].merge(many(e, p)[1], update=bool(p['none'])),
                  frozenset())
X['union'] = (lambda e, p: la().union(0, *many(e, p)), frozenset())
X['intersection'] = (lambda e, p: la().intersection(0, *many(e, p)), frozenset())
X['isaligned'] = (lambda e, p: la().isaligned(*many(e, p)), frozenset())


@x('stack')
def _(e, p):
    a, b = many(e, p)
    a, b = a.insertaxis(1, 'i'), b.insertaxis(1, 'j')
    kw = dict((n, [a, b][i % 2]) for i, n in enumerate(['zeta', 'alpha', 'beta', 'gamma', 'a1',
                                                       'b2'][:2 + p['ax'] % 5]))
    return la().stack(['union', 'intersection'][p['none']], **kw)


@x('fromtuples')
def _(e, p):
    a, b = many(e, p)
    rows = b.totuples()
    return la().larry.fromtuples(rows[::2] + rows[1::2])


@x('fromdict')
def _(e, p):
    b = many(e, p)[1]
    return la().larry.fromdict(b.todict())


@x('group_mean')
def _(e, p):
    a, b = many(e, p)
    g = la().larry(np.array([['tech', 'oil', 'bank', 'food'][i * i % 4]
                             for i in range(len(b.label[0]))]), [list(b.label[0])])
    return b.group_mean(g), b.group_ranking(g), b.group_median(g)


@x('unique_group')
def _(e, p):
    from la.farray import unique_group
    return unique_group([str(i * 37 % 11) for i in range(20)] + [None])


@x('ranks')
def _(e, p):
    a, b = many(e, p)
    return a.ranking(), b.quantile(2), b.sortaxis(), b.morph(a.label[0], 0), b.lag(1)


@x('resample')
def _(e, p):
    from la.util import resample
    r = np.random.RandomState(p['s'])
    return (list(resample.cross_validation(7 + p['k'], 3, shuffle=r.shuffle)),
            list(resample.bootstrap(5 + p['k'], 3, randint=r.randint)))


@x('resamplenp')
def _(e, p):
    from la.util import resample
    np.random.seed(p['s'])
    return (list(resample.cross_validation(7 + p['k'], 3)),
            list(resample.bootstrap(5 + p['k'], 3)), la().rand(3, 2), la().randn(2, 2))


@x('csv')
def _(e, p):
    y = e.y
    y.tocsv(e.dir + 't.csv')
    s = open(e.dir + 't.csv').read()
    return s, la().larry.fromcsv(e.dir + 't.csv')


@x('tofile')
def _(e, p):
    e.y.tofile(e.dir + 't.txt', ',')
    return open(e.dir + 't.txt').read()


@x('reprs')
def _(e, p):
    return repr(e.y), str(e.z), repr(e.g)


@x('panel')
def _(e, p):
    b = many(e, p)[1]
    return la().panel(la().stack('union', q=b.insertaxis(1, 1), c=b.insertaxis(1, 1)))


KEYS = ['y', 'zeta', 'a/b', 'deep/er/key', 'Beta', 'm1', 'm2', '0']


@x('archive', 'h5py')
def _(e, p):
    io = la().IO(e.dir + 'own.hdf5')
    a, b = many(e, p)
    for i, k in enumerate(KEYS[:3 + p['k']]):
        io[k] = [a, b, e.y][i % 3]
    got = [(k, io[k][:]) for k in io.keys()]
    if p['none']:
        del io[KEYS[0]]
        io.repack()
    return got, io.keys(), repr(io), len(io), [k in io for k in KEYS], \
        [(k, v[:]) for k, v in io.items()], list(io)


@x('lara', 'h5py')
def _(e, p):
    io = la().IO(e.dir + 'own2.hdf5')
    io['y'] = e.y
    r = io['y']
    r[0] = r[0]
    return r[0:1], r[:], r.shape, r.label, r.maxlabel(), r.minlabel()


@x('foreign', 'h5py')
def _(e, p):
    "an archive written by the reference installation"
    io = la().IO(e.foreign)
    return [(k, io[k][:]) for k in io.keys()], io.keys()


@x('foreigncsv')
def _(e, p):
    return la().larry.fromcsv(e.foreigncsv)


def outcome(r, err):
    if err is not None:
        return ('raised', type(err).__name__)
    return ('returned', C.canon(r))


def foreign_larrys(script):
    return [C.make_env(pr['env']).y for pr in script['programs'][:4]]


def write_foreign(script, d):
    L = la()
    if hasattr(L, 'IO'):
        io = L.IO(d + 'foreign.hdf5')
        for i, y in enumerate(foreign_larrys(script)):
            try:
                io['k%d' % i] = y
            except Exception:
                pass
    y = L.larry(np.array([[1.5, 2.25], [-3.125, 1e-7]]), [['r1', 'r0'], [2.5, 1.0]])
    y.tocsv(d + 'foreign.csv')


def run_one(pr, script, d, foreign):
    e = C.make_env(pr['env'])
    e.dir = d
    e.foreign, e.foreigncsv = foreign + 'foreign.hdf5', foreign + 'foreign.csv'
    np.random.seed(script['reseed'])
    out = []
    for o in pr['ops']:
        fn = X[o['name'][2:]][0] if o['name'].startswith('x:') else C.OPS[o['name']][0]
        try:
            r, err = fn(e, o['p']), None
        except Exception as x:
            r, err = None, x
        res = outcome(r, err)
        if o['name'][0] == '!':
            res = (res, C.canon(e.y))
        out.append(res)
        if o.get('keep') and err is None and type(r).__name__ == 'larry' and r.ndim and \
                r.size < 300 and C.ordered(r):
            e.y = r
            e.a = values.data(r.shape, 'f8', 5)
    return out


def run(script, d, foreign=None):
    warnings.simplefilter('ignore')
    np.seterr(all='ignore')
    write_foreign(script, d)
    out = []
    for i, pr in enumerate(script['programs']):
        sub = os.path.join(d, 'p%d/' % i)
        os.mkdir(sub)
        out.append(run_one(pr, script, sub, foreign or os.path.join(d, '../ref/')))
    return out


def read_back(d):
    "What the reference reads from the files another installation wrote."
    L = la()
    out = []
    if os.path.exists(d + 'foreign.hdf5'):
        io = L.IO(d + 'foreign.hdf5')
        out.append([(k, C.canon(io[k][:])) for k in io.keys()])
    out.append(C.canon(L.larry.fromcsv(d + 'foreign.csv')))
    return out
