"""A01-A08: the HDF5 archive.  Real la, h5py and HDF5; simulated disk, clock,
process crashes and thread schedule."""
import errno
import os
import random
import shutil
import sys

import numpy as np

import core
import failpoint
import refidx
import seams
import values
from seams import sd

KEYS = ['a', 'b', 'c d', 'a/q', 'n/m', 'n/m/o', '/lead/s', '1', '1/7/8', 'x',
        '\xc3\xa9']
ODD = [' s', 's ', '.h', 'n/.h', 'A', 'a.b', '_', 'L' * 150, '%s', 'larry', "it's", '-1', 'a/y',
       'x_repack_tmp_', '*', 'a,b', '\\', 'a=1', 'False', 'None', '0', 'a/ b', 'd/e/e/p/e/r']
NAME = 'arc.h5'
READS = ('load', 'get', 'keys', 'iter', 'iterkeys', 'dir', 'len', 'has', 'haskey', 'isarc',
         'values', 'itervalues', 'items', 'iteritems', 'repr', 'space', 'freespace',
         'hold', 'hget', 'attrs', 'hlabel')


def some_keys(rng, lo, hi):
    "Between lo and hi - 1 keys."
    keys = rng.sample(KEYS, rng.randrange(lo, hi))
    if rng.random() < .3:
        keys[rng.randrange(len(keys))] = rng.choice(ODD)
    return keys


def dims(keys):
    "Larrys have less axes than this; axis 7 is stored where '1/7/8' has a group."
    return 7 if any(norm(k).startswith('1/7') for k in keys) else 12


NEAR = [lambda k: k, lambda k: ' ' + k, lambda k: k + ' ', lambda k: k.upper(), lambda k: k.lower(),
        lambda k: k[:-1], lambda k: k + 'x', lambda k: k + '*', lambda k: k + '/x', lambda k: k + '\n']


def norm(key):
    return '/'.join(k for k in key.split('/') if k)


class V(object):
    "The reference model's larry: an array and its labels."

    def __init__(self, x, label):
        self.x, self.label = x, label

    def __reduce__(self):               # unpickling an array makes it native
        x = self.x
        return unpack, (x.dtype.str, x.shape, x.tostring(), self.label)

    @classmethod
    def of(cls, spec):
        l = values.make(spec)
        return cls(np.array(l.x), [[values.stored(v) for v in z] for z in l.label])

    def matches(self, l):
        import la
        return type(l) == la.larry and values.same_array(l.x, self.x) and \
            values.same_label(l.label, self.label)

    def __repr__(self):
        return 'larry(%s %s %s)' % (self.x.dtype, self.x.tolist(), self.label)


def unpack(dt, shape, data, label):
    return V(np.fromstring(data, dtype=dt).reshape(shape), label)


class Model(dict):
    "What the archive holds; foreign: objects in the file that are not larrys."

    def __init__(self, *args):
        dict.__init__(self, *args)
        self.foreign = {}


class Maybe(object):
    "After a failed operation: any one of options (None: not in the archive)."

    def __init__(self, options, unreadable=False):
        self.options, self.unreadable = options, unreadable


def opts(m):
    return m.options if isinstance(m, Maybe) else [m]


MID = 'mid'


def link(root):
    "The name of the symbolic link to the archive."
    return root.rstrip('/') + '.links/' + NAME


def make_link(root, how=1):
    "An absolute link, one relative to its directory, or a link to a link."
    d = os.path.dirname(link(root))
    os.mkdir(d)
    rel = '../%s/%s' % (os.path.basename(root.rstrip('/')), NAME)
    if how == 3:
        os.mkdir(d + '/' + MID)
        os.symlink('../' + rel, d + '/' + MID + '/l2')
        rel = MID + '/l2'
    os.symlink(root + NAME if how == 1 else rel, link(root))


class Proc(object):
    "The clients of the archive inside one process."

    def __init__(self, ctx, model, emit, policy):
        import la
        import h5py
        self.la, self.h5py = la, h5py
        self.ctx, self.model, self.emit, self.policy = ctx, model, emit, policy
        self.path = ctx.root + NAME
        # another name of the archive: a symbolic link in another directory
        self.link = link(ctx.root) if ctx.script.get('link') else self.path
        self.ios = {}
        self.h = None                    # the open handle, if any
        self.held = {}                   # slot -> (lara, key)
        self.seen = {}                   # slot -> what its labels may be
        self.ended = False               # nothing more is claimed in this run
        self.stop = False                # ... in this process
        sd.sim_enable(1)

    def io(self, c):
        if c not in self.ios:
            name = self.name({'ln': c})
            if c and name != self.link:
                return self.la.IO(name)  # HDF5 does not create a file through a link
            self.ios[c] = self.la.IO(name)
        return self.ios[c]

    def name(self, op):
        return self.link if op.get('ln') and os.path.exists(self.path) else self.path

    def via(self, op):
        if op.get('via') == 'h' and self.h is not None:
            return self.h
        return self.name(op)

    def want(self, key):
        return self.model.get(norm(key))

    def there(self):
        return 'ok' if os.path.exists(self.path) else 'any'

    # What each operation calls, whether it must succeed, how its value is
    # checked and what it does to the model.
    def plan(self, op):
        la, k = self.la, op.get('k')
        name = op['op']
        m = self.model
        cur = self.want(k) if k is not None else None
        ok, rej = 'ok', 'raise'
        sure = cur if not isinstance(cur, Maybe) else 'any'

        def value_is(want):
            def check(got):
                if not want.matches(got):
                    self.ctx.fail('wrong-value', '%s of %r gave %s, archived was %s' % (
                        name, k, values.show(got), repr(want)[:200]))
            return check

        def equals(want):
            def check(got):
                if got != want:
                    self.ctx.fail('wrong-answer', '%s gave %r, should be %r' % (name, got, want))
            return check

        def keyset(got):
            got = list(got)
            if any(type(g) != str for g in got):
                self.ctx.fail('key-type', 'keys are not strings of type str: %r' % got)
            if len(got) != len(set(got)) or set(got) != set(m):
                self.ctx.fail('wrong-keys', '%s gave %r, archive holds %r' % (
                    name, sorted(got), sorted(m)))
        sizes = len(m)
        if name == 'set':
            v = V.of(op['v'])
            lar = values.make(op['v'])
            return (lambda: self.io(op['c']).__setitem__(k, lar)), ok, None, {norm(k): v}
        if name == 'save':
            lar = values.make(op['v'])
            f = self.via(op)
            if cur is not None:
                return (lambda: la.save(f, lar, k)), rej, None, {}
            return (lambda: la.save(f, lar, k)), ok, None, {norm(k): V.of(op['v'])}
        if name == 'load':
            f = self.via(op)
            if cur is None:
                return (lambda: la.load(f, k)), rej, None, {}
            return (lambda: la.load(f, k)), ok, value_is(cur), {}
        if op.get('u') and name in ('get', 'has', 'haskey', 'isarc'):
            # a unicode key: no answer is promised, a wrong one is not given
            try:
                u = norm(k).decode('ascii')
            except UnicodeDecodeError:
                return None
            if name == 'get':
                return (lambda: self.io(op['c'])[u][:]), 'raise' if cur is None else 'any', \
                    value_is(cur), {}
            if name == 'isarc':
                f = self.via(op)
                return (lambda: la.is_archived_larry(f, u)), 'any', equals(cur is not None), {}
            fn = '__contains__' if name == 'has' else 'has_key'
            return (lambda: getattr(self.io(op['c']), fn)(u)), 'any', equals(cur is not None), {}
        if name == 'get':
            if cur is None:
                return (lambda: self.io(op['c'])[k][:]), rej, None, {}
            return (lambda: self.io(op['c'])[k][:]), ok, value_is(cur), {}
        if name == 'del':
            return (lambda: self.io(op['c']).__delitem__(k)), rej if cur is None else ok, \
                None, {} if cur is None else {norm(k): None}
        if name == 'fdel':
            f = self.via(op)
            return (lambda: la.io.delete(f, k)), rej if cur is None else ok, \
                None, {} if cur is None else {norm(k): None}
        if name == 'keys':
            return (lambda: self.io(op['c']).keys()), ok, keyset, {}
        if name == 'iter':
            return (lambda: list(self.io(op['c']))), ok, keyset, {}
        if name == 'iterkeys':
            return (lambda: list(self.io(op['c']).iterkeys())), ok, keyset, {}
        if name == 'dir':
            f = self.via(op)
            return (lambda: la.archive_directory(f)), ok, keyset, {}
        if name == 'len':
            return (lambda: len(self.io(op['c']))), ok, equals(sizes), {}
        if name == 'has':
            return (lambda: k in self.io(op['c'])), ok, equals(cur is not None), {}
        if name == 'haskey':
            return (lambda: self.io(op['c']).has_key(k)), ok, equals(cur is not None), {}
        if name == 'isarc':
            f = self.via(op)
            if cur is None:
                # False, or an exception if nothing of that name is there
                return (lambda: la.is_archived_larry(f, k)), 'any', equals(False), {}
            return (lambda: la.is_archived_larry(f, k)), ok, equals(True), {}
        if name in ('values', 'itervalues'):
            def vals():
                return [v[:] for v in getattr(self.io(op['c']), name)()]

            def check(got):
                left = list(m.values())
                for g in got:
                    for i, w in enumerate(left):
                        if w.matches(g):
                            del left[i]
                            break
                    else:
                        self.ctx.fail('wrong-value', '%s has %s' % (name, values.show(g)))
                if left:
                    self.ctx.fail('wrong-value', '%s lacks %r' % (name, left[0]))
            return vals, ok, check, {}
        if name in ('items', 'iteritems'):
            def its():
                return [(q, v[:]) for q, v in getattr(self.io(op['c']), name)()]

            def check(got):
                keyset([q for q, v in got])
                for q, v in got:
                    if not m[q].matches(v):
                        self.ctx.fail('wrong-value', '%s pairs %r with %s' % (
                            name, q, values.show(v)))
            return its, ok, check, {}
        if name == 'walk':               # a loop that deletes some of what it meets
            go = set(q for q in m if op['n'] >> (len(q) + ord(q[-1])) % 8 & 1)

            def walk():
                io, got = self.io(op['c']), []
                for z in getattr(io, op['how'])():
                    if op['how'] == 'iteritems':
                        q, v = z[0], z[1][:]
                    else:
                        q, v = z, io[z][:]
                    got.append((q, v))
                    if q in go:
                        del io[q]
                return got

            def check(got):
                keyset([q for q, v in got])
                for q, v in got:
                    if not m[q].matches(v):
                        self.ctx.fail('wrong-value', '%s pairs %r with %s' % (
                            name, q, values.show(v)))
            return walk, ok, check, dict((q, None) for q in go)
        if name == 'clear':
            return (lambda: self.io(op['c']).clear()), ok, None, dict((q, None) for q in m)
        if name == 'repr':
            def check(got):
                rows = [r for r in got.split('\n') if r.strip()][2:]
                want = sorted((q, str(v.x.dtype), str(v.x.shape)) for q, v in m.items())
                if len(rows) != len(want):
                    self.ctx.fail('wrong-repr', 'repr shows %d larrys, not %d' % (
                        len(rows), len(want)))
                for r, (q, d, s) in zip(sorted(rows), sorted(want)):
                    pass
                for q, d, s in want:
                    if not any(r.strip().startswith(q.strip() + ' ') and d in r and r.rstrip().endswith(s)
                               for r in rows):
                        self.ctx.fail('wrong-repr', 'repr has no row %r in %r' % ((q, d, s), rows))
            return (lambda: repr(self.io(op['c']))), ok, check, {}
        if name == 'space':
            def check(got):
                if not sd.sim_open_fds() and got != os.path.getsize(self.path):
                    self.ctx.fail('wrong-space', 'space is %r, the file has %d bytes' % (
                        got, os.path.getsize(self.path)))
            return (lambda: self.io(op['c']).space), self.there(), check, {}
        if name == 'freespace':
            def check(got):
                used = sum(v.x.size * v.x.dtype.itemsize for v in m.values())
                if got < 0 or (not sd.sim_open_fds() and got > os.path.getsize(self.path) - used):
                    self.ctx.fail('wrong-space', 'freespace is %r' % got)
            return (lambda: self.io(op['c']).freespace), self.there(), check, {}
        if name == 'repack':
            if self.h is not None and op['via'] != 'h':
                return None
            if op['via'] == 'h':
                if self.h is None:
                    return None
                self.h.flush()

                def rep():
                    old = self.h
                    self.h = la.repack(old)
                    return old, list(self.h.keys())

                def gone(got):
                    if got[0].id.valid:
                        self.ctx.fail('not-released', 'repack left the file it was given open')
                return rep, ok, gone, {}
            if op['via'] == 'p':
                return (lambda: la.repack(self.name(op))), ok, equals(None), {}
            return (lambda: self.io(op.get('ln', 0)).repack()), ok, None, {}
        if name == 'hold':
            if cur is None:
                return None

            def hold():
                self.held[op['s']] = (self.io(op['c'])[k], norm(k))
                self.seen[op['s']] = [[list(z) for z in self.held[op['s']][0].label]]
            return hold, ok, None, {}
        if name == 'hlabel':
            if op['s'] not in self.held:
                return None
            y, key = self.held[op['s']]
            cur, seen = m.get(key), self.seen[op['s']]
            if isinstance(cur, Maybe):
                return None
            # those of the larry now, or those of the last use of this reader
            lab = seen + ([cur.label] if cur is not None else [])
            n, ax = op['n'], op['ax']
            ask = [lambda: y.label, lambda: y.getlabel(ax), lambda: y.getlabel(ax, copy=False),
                   lambda: y.maxlabel(ax), lambda: y.minlabel(ax),
                   lambda: y.maxlabel(), lambda: y.labelindex(y.label[ax][-1], ax)][n % 7]
            tell = [lambda z: z, lambda z: z[ax], lambda z: z[ax], lambda z: max(z[ax]),
                    lambda z: min(z[ax]), lambda z: max(max(q) for q in z),
                    lambda z: z[ax].index(z[ax][-1])][n % 7]
            wants = []
            for z in lab:
                try:
                    wants.append(tell(z))
                except (ValueError, IndexError, TypeError):
                    return None

            def check(got):
                if got not in wants:
                    self.ctx.fail('wrong-label', 'labels of %r: %r, not %r' % (key, got, wants))
                if n % 7 == 1 and got:
                    got[0] = 'changed by the user'
                elif n % 7 == 0 and n > 40:
                    y.label = [list(z) for z in y.label]
            sure = cur is not None and len(set(len(z) for z in lab)) == 1
            return ask, ok if sure else 'any', check, {}
        if name in ('hget', 'hset', 'attrs'):
            if op['s'] not in self.held:
                return None
            y, key = self.held[op['s']]
            cur = m.get(key)
            if cur is None:
                if name == 'hget':
                    return (lambda: y[refidx.to_index(op['i'])]), rej, None, {}
                return None
            if isinstance(cur, Maybe):
                return None
            if name == 'attrs':
                def check(got):
                    want = (cur.x.shape, cur.x.dtype, cur.x.ndim, cur.x.size)
                    if tuple(got) != want:
                        self.ctx.fail('wrong-answer', 'shape, dtype, ndim, size: %r not %r' % (
                            got, want))
                return (lambda: (y.shape, y.dtype, y.ndim, y.size)), ok, check, {}
            if name == 'hset' and op['i'][0] == 'L':
                # the part is chosen by a larry
                t = op['i'][1]
                mask = values.data(cur.x.shape, 'b1', t)
                lab = [list(z) for z in cur.label]
                if op['i'][2] == 2:      # that of the larry this reader knew before
                    old = self.seen[op['s']][0]
                    if [len(z) for z in old] == [len(z) for z in lab]:
                        lab = [list(z) for z in old]
                elif op['i'][2] and lab[t % len(lab)]:
                    lab[t % len(lab)][-1:] = ['~']
                part = self.la.larry(mask, lab)
                dt = cur.x.dtype
                val = values.data((1,), str(dt.str[1:] if dt.kind != 'b' else 'b1'),
                                  op['w']['tag'])[0].astype(dt)
                new = cur.x.copy()
                new[mask] = val

                def putmask():
                    y[part] = val
                if op['i'][2] and lab != cur.label:
                    return putmask, rej, None, {}
                return putmask, 'any', None, {key: V(new, cur.label)}
            if refidx.odd_mask(op['i'], cur.x.shape):
                return None
            idx = refidx.to_index(op['i'])
            plain = refidx.plain(op['i'], cur.x.shape)
            try:
                want = refidx.select(cur.x, cur.label, op['i'])
            except refidx.Reject:
                want = None
            must = ok if (plain and want is not None) else rej if want is None else 'any'
            if name == 'hget':
                def check(got):
                    if refidx.bare_ints(op['i'], cur.x.ndim):
                        good = values.same_array(getattr(got, 'x', got), want[0])
                    elif isinstance(want, tuple):
                        good = V(*want).matches(got)
                    else:
                        good = not isinstance(got, self.la.larry) and values.same_array(got, want)
                    if not good:
                        self.ctx.fail('wrong-part', '%r[%r] gave %s, should be %s' % (
                            key, idx, values.show(got), repr(want)[:200]))
                return (lambda: y[idx]), must, check, {}
            # hset
            w = op['w']
            if want is None:
                val, new = 1, None
            else:
                sub, lab = want if isinstance(want, tuple) else (np.asarray(want), [])
                val = values.data(sub.shape, str(cur.x.dtype.str[1:] if cur.x.dtype.kind != 'b'
                                                 else 'b1'), w['tag']) \
                    if w['kind'] != 'scalar' else \
                    values.data((1,), str(cur.x.dtype.str[1:] if cur.x.dtype.kind != 'b'
                                          else 'b1'), w['tag'])[0]
                val = val.astype(cur.x.dtype) if w['kind'] != 'scalar' else val
                if w['kind'] == 'larry' and lab:
                    new = refidx.assign(cur.x, op['i'], val)
                    val = self.la.larry(val, [list(z) for z in lab])
                elif w['kind'] == 'misaligned' and lab and sub.size:
                    # one label, or all of them, are not those of the part
                    lab2, t = [list(z) for z in lab], w['tag']
                    if t % 4 == 0:
                        lab2 = [['~%d' % i for i in range(len(z))] for z in lab]
                    else:
                        ax = t // 4 % len(lab2)
                        if t % 4 == 1 and len(lab2[ax]) > 1:
                            lab2[ax].reverse()
                        else:
                            lab2[ax][t // 3 % len(lab2[ax])] = '~'
                    val = self.la.larry(val, lab2)
                    new, must = None, rej
                else:
                    if w['kind'] in ('larry', 'misaligned'):
                        val = val[()] if np.ndim(val) == 0 else val
                    new = refidx.assign(cur.x, op['i'], val)
            if must == ok and (refidx.fancy(op["i"]) or refidx.bare_ints(op["i"], cur.x.ndim)):
                must = 'any'             # h5py assigns to those in a few forms only
            if want is not None and not np.asarray(want[0] if isinstance(want, tuple) else want).size:
                must = 'any'
            eff = {} if new is None else {key: V(new, cur.label)}

            def put():
                y[idx] = val
            return put, must, None, eff
        if name == 'bad':
            return self.bad(op)
        raise core.Harness('unknown op %r' % op)

    def bad(self, op):
        "Operations that must be rejected and change nothing."
        la = self.la
        what, k, c = op['what'], op.get('k'), op.get('c', 0)
        f = self.via(op)
        L = la.larry
        lar = L([1.0, 2.0])
        import datetime
        n = op.get('n', 0)

        def mixed(usual, odd):
            "One label, anywhere, is not of the type of the others."
            sh = [[2], [3], [4], [2, 3], [3, 2], [5, 4], [2, 3, 2]][n % 7]
            lab = [['r%d' % i for i in range(m)] for m in sh]
            ax = n // 7 % len(sh)
            lab[ax] = [usual(i) for i in range(sh[ax])]
            lab[ax][n // 2 % sh[ax]] = odd
            return L(np.zeros(sh), lab)

        def lay(lab):
            "A larry with these labels on one of its axes."
            sh = [[], [2], [1], [3], [1, 2], [2, 2], [2, 1, 1]][n // 2 % 7]
            ax = n // 14 % (len(sh) + 1)
            sh = sh[:ax] + [len(lab)] + sh[ax:]
            labs = [values.label(values.KINDS[(n + i) % 6], m) for i, m in enumerate(sh)]
            labs[ax] = lab
            return L(np.zeros(sh), labs)
        date = lambda i: datetime.date(2010, 1, 1 + i)
        badval = {
            'mixed': lambda: mixed(*[(str, 3), (int, 'a'), (int, 2.5), (float, 7),
                                     (str, u'u'), (int, None)][n % 6]),
            'mixeddate': lambda: mixed(*[(date, 'x'), (str, date(0)), (date, 733000),
                                         (date, datetime.datetime(2011, 1, 1)),
                                         (lambda i: datetime.datetime(2010, 1, 1 + i), date(9)),
                                         (date, datetime.time(1))][n % 6]),
            'mixed2': lambda: mixed(lambda i: (str, int)[n % 2](i + 10), (5, 'five')[n % 2]),
            'object': lambda: L(np.array([1, 'a', None], dtype=object)),
            'unicode': lambda: L(np.array([u'a', u'b'])),
            'ulabel': lambda: lay([u'a', u'b']),
            'nonelabel': lambda: lay(['a', 'b', None]),
            'objlabel': lambda: lay([None]),
            'dt64': lambda: L(np.array(['2010-01-01', '2011-01-01'], dtype='M8[D]')),
            'tuples': lambda: L([[1, 2], [3, 4]], [['a', 'b'], [[1, 2], ['x', 'y']][n % 2]]).flatten(),
            'nested': lambda: lay([(1,), (2,), (n + 3,)]),
            'nul': lambda: lay(['a', 'b\0', ['c', 'b'][n % 2]]),
            'delta': lambda: lay([datetime.timedelta(1), datetime.timedelta(n + 2)]),
            'huge': lambda: lay([[2 ** 70, 2 ** 71], [2 ** 63 + n, 5L], [2 ** 63 + 1, -1L - n],
                                 [2 ** 64, 2 ** 63]][n % 4]),
        }
        if what in badval:
            v = badval[what]()
            if op.get('fn'):
                if self.want(k) is not None and not op.get('any'):
                    pass
                return (lambda: la.save(f, v, k)), 'raise', None, {}
            return (lambda: self.io(c).__setitem__(k, v)), 'raise', None, {}
        if what == 'notlarry':
            v = [np.array([1, 2]), [1, 2], None, 5, {'a': 1}][op['n'] % 5]
            if op.get('fn'):
                return (lambda: la.save(f, v, k)), 'raise', None, {}
            return (lambda: self.io(c).__setitem__(k, v)), 'raise', None, {}
        if what == 'badkey':
            q = [5, None, u'a', ('a',), 1.5, k.decode('latin-1')][op['n'] % 6]
            if op.get('fn') == 1:
                return (lambda: la.save(f, lar, q)), 'raise', None, {}
            if op.get('fn') == 2:
                return (lambda: la.load(f, q)), 'raise', None, {}
            if op.get('fn') == 3:
                return (lambda: la.io.delete(f, q)), 'raise', None, {}
            return (lambda: self.io(c).__setitem__(q, lar)), 'raise', None, {}
        if what == 'oddkey':            # names of no object, or of another one
            k2 = norm(k)
            q = [k2 + '\0', k2 + '\0x', './' + k2, k2 + '/.', '.', '/', '', '//', '\0', '\xff',
                 'new/\xff', 'new/.', k2 + '/\xe9', 'new/./b'][n % 14]
            fn = [lambda: self.io(c).__setitem__(q, lar), lambda: la.save(f, lar, q),
                  lambda: self.io(c)[q], lambda: la.load(f, q), lambda: self.io(c).__delitem__(q),
                  lambda: la.io.delete(f, q), lambda: la.is_archived_larry(f, q)]
            return fn[n // 14 % 7], 'raise', None, {}
        if what == 'foreign':           # the raw HDF5 dataset 'fd'
            fn = [lambda: self.io(c).__setitem__('fd', lar), lambda: self.io(c)['fd'],
                  lambda: self.io(c).__delitem__('fd'), lambda: la.load(f, 'fd'),
                  lambda: la.io.delete(f, 'fd'), lambda: la.save(f, lar, 'fd'),
                  lambda: la.save(f, lar, 'fd/sub'), lambda: la.io.delete(f, 'fg'),
                  lambda: la.load(f, 'fg'), lambda: self.io(c)['fg'],
                  lambda: self.io(c).__delitem__('fg'),
                  lambda: la.save(f, lar, 'fm'), lambda: self.io(c).__setitem__('fm', lar)]
            big = L(np.zeros((1, 2, 1)))
            for q, v in (('fp', big), ('fo', big), ('fq', lar), ('fq', big), ('fp', L([[3.]]))):
                fn += [lambda q=q, v=v: la.save(f, v, q),
                       lambda q=q, v=v: self.io(c).__setitem__(q, v)]
            for q in ('fs', 'fe', 'fg/dangling'):
                fn += [lambda q=q: la.save(f, lar, q), lambda q=q: self.io(c).__setitem__(q, lar)]
            for q in ('fl', 'fx', 'fn', 'fm', 'fo', 'fp', 'fq', 'fg/ds', 'fs', 'fe', 'fg/dangling'):
                fn += [lambda q=q: self.io(c)[q], lambda q=q: self.io(c).__delitem__(q),
                       lambda q=q: la.load(f, q), lambda q=q: la.io.delete(f, q)]
            return fn[op['n'] % len(fn)], 'raise', None, {}
        if what == 'missing':
            fn = [lambda: self.io(c)['no/such'], lambda: self.io(c).__delitem__('nosuch'),
                  lambda: la.load(f, 'nosuch'), lambda: la.io.delete(f, 'no/such'),
                  lambda: la.is_archived_larry(f, 'nosuch')]
            return fn[op['n'] % len(fn)], 'raise', None, {}
        if what == 'inside':            # below a larry's own dataset
            if self.want(k) is None:
                return None
            fn = [lambda: self.io(c).__setitem__(k + '/x', lar),
                  lambda: self.io(c).__setitem__(k + '/0', lar),
                  lambda: la.save(f, lar, k + '/x/y')]
            return fn[op['n'] % 3], 'raise', None, {}
        if what == 'badfile':
            g = [5, None, u'arc.h5', ['a']][op['n'] % 4]
            fn = [lambda: la.save(g, lar, 'a'), lambda: la.load(g, 'a'),
                  lambda: la.archive_directory(g), lambda: la.io.delete(g, 'a'),
                  lambda: la.repack(g)]
            return fn[op['n'] % len(fn)], 'raise', None, {}
        if what == 'index':
            if op['s'] not in self.held:
                return None
            y, key = self.held[op['s']]
            cur = self.model.get(key)
            if cur is None or isinstance(cur, Maybe):
                return None
            idx = [cur.x.shape[0], 'no', None, 1j, (0,) * (cur.x.ndim + 1),
                   -cur.x.shape[0] - 1, [cur.x.shape[0]], {}][op['n'] % 8]
            if op.get('set'):
                if op['n'] % 8 in (3, 7, 1, 2):
                    idx = [cur.x.shape[0]]
                elif op['n'] % 8 == 0:
                    idx = cur.x.shape[0]

                def put():
                    y[idx] = self.la.larry([9], [['nope']])
                return put, 'raise', None, {}
            return (lambda: y[idx]), 'raise', None, {}
        if what == 'shape':             # an array of the wrong shape
            if op['s'] not in self.held:
                return None
            y, key = self.held[op['s']]
            cur = self.model.get(key)
            if cur is None or isinstance(cur, Maybe) or not cur.x.size:
                return None

            def put():
                y[:] = np.zeros([n + 2 for n in cur.x.shape], dtype=cur.x.dtype)
            return put, 'raise', None, {}
        raise core.Harness('bad op %r' % op)

    # run one operation ------------------------------------------------------
    def step(self, n, op):
        ctx, pol = self.ctx, self.policy
        name = op['op']
        if name == 'hopen':
            if self.h is None:
                self.h = self.h5py.File(self.path, 'a', **op.get('o', {}))
                if 'kill' in pol:
                    self.h.flush()       # a new file is its creator's to store
            return
        if name == 'hclose':
            if self.h is not None:
                self.h.close()
                self.h = None
            return
        if name == 'plant':
            return self.plant(op)
        if any(isinstance(v, Maybe) for v in self.model.values()):
            self.settle()
            if self.ended:
                return
        if op.get('other') and self.h is None:
            # another process does it, while this one goes on living
            def sub(emit):
                q = Proc(ctx, self.model, emit, pol)
                q.step(n, dict(op, other=0))
                emit('model', q.model)
            status, out = ctx.segment(sub)
            if status != 'done':
                ctx.fail('died', 'another process ended with %s' % status)
            self.model = out[-1][1]
            ctx.fired('operation by another process')
            return
        plan = self.plan(op)
        if plan is None:
            ctx.count('skipped')
            return
        call, must, check, effects = plan
        before = dict(self.model)
        fault = op.get('f')
        existed = os.path.exists(self.path)
        hpath = self.h is not None
        if 'reads' in pol and name in READS + ('bad',) and existed:
            sd.sim_log_clear()
            sd.sim_log(1)
            old = open(self.path, 'rb').read()
        whole = self.whole() if 'whole' in pol and existed and must != 'ok' else None
        out, fds = self.attempt(call, fault, op)
        if 'reads' in pol and name in READS + ('bad',) and existed:
            sd.sim_log(0)
            if not self.fired:
                self.no_writes(op)
            if open(self.path, 'rb').read() != old:
                ctx.fail('read-modifies', '%s changed the file' % describe(op))
        fired = self.fired
        if op.get('s') in self.held and name in ('hget', 'hset', 'bad'):
            lab = before.get(self.held[op['s']][1])
            if isinstance(lab, V):
                if out[0] == 'ok':
                    self.seen[op['s']] = [lab.label]
                else:
                    self.seen[op['s']].append(lab.label)
        label = name if name != 'bad' else 'bad-' + op['what']
        ctx.count(label)
        ctx.ev(n, label, op.get('k'), out[0], out[1] if out[0] == 'exc' else None, fired)
        if out[0] == 'ok':
            if must == 'raise' and not fired:
                ctx.fail('not-rejected', '%s was accepted' % describe(op))
            if must == 'raise' and effects == {}:
                pass
            if check is not None:
                check(out[1])
            for k, v in effects.items():
                if v is None:
                    self.model.pop(k, None)
                else:
                    self.model[k] = v
        else:
            if must == 'ok' and not fired:
                ctx.fail('op-failed', '%s raised %s: %s' % (describe(op), out[1], out[2]))
            if fired:
                disk = fault['t'] in ('disk', 'quota')
                for k, v in effects.items():
                    o = [before.get(k), v] + ([None] if name in ('set', 'save', 'del', 'fdel', 'clear', 'walk') else [])
                    self.model[k] = Maybe(o, unreadable=disk)
                ctx.probe('failed-' + fault['t'] + ('-write' if effects else '-read'))
        if name == 'repack' and out[0] == 'exc' and self.h is not None and not self.h.id.valid:
            self.h = None                # repack had closed it, to replace the file
        if 'release' in pol:
            self.released(op, out, fds, hpath, fired, fault)
        ctx.state((label, out[0], fired, sorted(self.model),
                   sorted(str(v.x.shape) for v in self.model.values() if isinstance(v, V))))
        if out[0] == 'exc' and 'unchanged' in pol and not fired:
            self.verify('after the rejected ' + describe(op))
            if whole is not None:
                now = self.whole()
                for q in sorted(set(whole) | set(now)):
                    if whole.get(q) != now.get(q):
                        ctx.fail('object-changed', 'the rejected %s: %r was %s and is %s' % (
                            describe(op), q, whole.get(q, 'not there'), now.get(q, 'gone')))
        if fired and fault['t'] in ('disk', 'quota') and self.h is not None:
            # HDF5 keeps what it half read or half wrote as long as the file is open
            self.stop = True
            ctx.probe('disk-fault-with-open-file')
        elif out[0] == 'exc' and fired and op.get('retry'):
            self.retry(op, effects)

    def attempt(self, call, fault, op):
        self.fired = self.close_failed = False
        fp, fi = None, None
        t = (fault or {}).get('t')
        if t == 'disk':
            fi = sd.sim_fault(fault['cls'], fault['nth'], fault['act'], fault['arg'],
                              fault.get('sticky', 0), fault.get('sub') or '')
        elif t == 'quota':
            sd.sim_quota(fault['n'])
        elif t == 'ro':
            sd.sim_readonly(fault['err'])
            existed = os.path.exists(self.path)
        elif t == 'fp':
            fp = failpoint.FailPoint(fault['mode'], fault['nth'], fault['exc'], 'la/io.py')
        fds = None
        count = sd.sim_open_fds
        if t in ('disk', 'quota'):
            # HDF5 1.8 can itself leak what it was creating when the disk failed,
            # and with that the file; what la can do is to close the file's id
            count = self.open_ids
        self.count_open = count
        try:
            try:
                v = failpoint.run(fp, call) if fp else call()
                out = ('ok', v)
            except (Exception, KeyboardInterrupt) as e:
                fds = count()               # while the traceback is alive
                out = ('exc', type(e).__name__, str(e)[:200])
        finally:
            denied = sd.sim_quota_denied() if t in ('quota', 'ro') else 0
            nf = sd.sim_fault_fired(fi) if fi is not None else 0
            sd.sim_faults_clear()
        try:
            sys.exc_clear()
        except AttributeError:
            pass
        if t == 'disk' and nf:
            self.fired = True
            self.ctx.fired('%s-%s%s' % (seams.CLASSNAME[fault['cls']],
                                        seams.ACTIONNAME[fault['act']],
                                        '-' + errno.errorcode.get(fault['arg'], '')
                                        if fault['act'] == seams.ERR else ''), nf)
        if t == 'quota' and denied:
            self.fired = True
            self.ctx.fired('disk-full')
        if t == 'ro' and denied:
            # no reason for a read to fail
            self.fired = not existed or op['op'] not in READS + ('bad',)
            self.ctx.fired('read-only-' + errno.errorcode[fault['err']])
        if fp is not None and fp.fired:
            self.fired = True
            self.close_failed = fp.mode == 'line' or \
                fp.where.split(' ')[-1] in ('close', '__enter__', '__exit__', '__del__')
            self.ctx.fired('interrupt-%s-%s' % (fault['mode'], fault['exc']))
            self.ctx.count('interrupted at ' + op['op'])
        if fds is None:
            fds = count()
        return out, fds

    def open_ids(self):
        h = self.h5py.h5f
        return h.get_obj_count(h.OBJ_ALL, h.OBJ_FILE)

    def no_writes(self, op):
        for i in range(sd.sim_log_count()):
            r = sd.sim_log_rec(i).contents
            if r.op in (seams.WRITE, seams.TRUNC, seams.CREATE, seams.RENAME, seams.UNLINK) \
                    or (r.op == seams.OPEN and r.flags & os.O_TRUNC):
                if r.res < 0:
                    continue
                self.ctx.fail('read-writes', '%s did a %s of %d bytes on %s' % (
                    describe(op), seams.CLASSNAME[r.op], r.len,
                    os.path.basename(sd.sim_path(r.file))))

    def released(self, op, out, fds, hpath, fired, fault):
        want = 1 if self.h is not None else 0
        if fds > max(want, hpath) and not self.close_failed:
            self.ctx.fail('not-released', 'after %s (%s) %d file(s) are open, not %d' % (
                describe(op), out[0], fds, want))
        now = self.count_open()
        if self.close_failed and fault['mode'] == 'ccall':
            self.ended = True            # the close itself did not happen
        elif now > want:
            self.ctx.fail('not-released', 'long after %s (%s) %d file(s) are open, not %d' % (
                describe(op), out[0], now, want))
        elif fired and sd.sim_open_fds() > want:
            self.stop = True             # HDF5 holds on to it
            self.ctx.probe('HDF5-leaked-a-file')
        if self.h is not None:
            if not self.h.id.valid or now < 1:
                self.ctx.fail('handle-closed', '%s closed the open file it was given' %
                              describe(op))
            try:
                list(self.h.keys())
            except Exception as e:
                if not (fired and fault['t'] in ('disk', 'quota')):
                    self.ctx.fail('handle-broken', 'after %s the open file is unusable: %s' % (
                        describe(op), e))

    def settle(self):
        "Find out which of the allowed outcomes a failed operation had."
        self.verify('after a failed operation')

    def retry(self, op, effects):
        "The failure has passed; the same intent must now succeed."
        ctx = self.ctx
        if not effects:
            return
        if self.policy.get('retry') == 'no':
            return
        for k, v in effects.items():
            if v is None:
                call = lambda: (self.io(0).__delitem__(k) if k in self.io(0) else None)
            elif op['op'] in ('set', 'save'):
                lar = values.make(op['v'])
                call = lambda: self.io(0).__setitem__(k, lar)
            else:
                continue
            out, fds = self.attempt(call, None, op)
            ctx.count('retries')
            ctx.ev('retry', k, out[0])
            if out[0] == 'ok':
                if v is None:
                    self.model.pop(k, None)
                else:
                    self.model[k] = v
            elif self.policy.get('retry') == 'must':
                ctx.fail('retry-failed', 'after the failed %s, trying again raised %s: %s' % (
                    describe(op), out[1], out[2]))
            else:
                self.ended = True

    def verify(self, when):
        "The whole archive against the model; settles the uncertain keys."
        la, ctx, m = self.la, self.ctx, self.model
        f = self.h if self.h is not None else self.path
        unsure = [k for k, v in m.items() if isinstance(v, Maybe)]
        lax = any(m[k].unreadable for k in unsure)
        keys = None
        try:
            keys = la.archive_directory(f)
        except Exception as e:
            if not lax:
                ctx.fail('unreadable', '%s: listing the archive raised %s' % (when, e))
            ctx.probe('unlistable-after-disk-fault')
        if keys is not None:
            bad = [k for k in keys if k not in m]
            if bad:
                ctx.fail('phantom-key', '%s: %r is in the archive' % (when, bad))
        for k, v in sorted(m.items()):
            if keys is not None and k not in keys:
                if isinstance(v, Maybe):
                    if None in v.options or v.unreadable:
                        del m[k]
                        continue
                ctx.fail('lost-key', '%s: %r is not in the archive' % (when, k))
            try:
                got = la.load(f, k)
            except Exception as e:
                if isinstance(v, Maybe) and (v.unreadable or (keys is None and None in v.options)):
                    ctx.probe('unreadable-after-disk-fault')
                    self.ended = True
                    del m[k]
                    continue
                ctx.fail('unreadable', '%s: loading %r raised %s: %s' % (
                    when, k, type(e).__name__, str(e)[:150]))
            for w in opts(v):
                if w is not None and w.matches(got):
                    m[k] = w
                    break
            else:
                ctx.fail('wrong-value', '%s: %r holds %s, should be %s' % (
                    when, k, values.show(got),
                    ' or '.join(repr(w)[:160] for w in opts(v))))

    def near_misses(self, when):
        "Keys that look much like those of the archive."
        io = self.io(0)
        keys = sorted(set([o['k'] for o in self.ctx.script['ops'] if 'k' in o] + list(self.model)))
        near = [f(k) for k in keys for f in NEAR]
        for k in random.Random(self.ctx.script.get('reseed', 1)).sample(near, min(6, len(near))):
            want = self.model.get(norm(k))
            if k and not isinstance(want, Maybe) and (k in io) != (want is not None):
                self.ctx.fail('wrong-answer', '%s: %r in io is not %r' % (when, k, want is not None))

    def whole(self):
        "Every object, link and attribute of the archive."
        f = self.h if self.h is not None else self.h5py.File(self.path, 'r')
        try:
            return snapshot(f, self.h5py)
        finally:
            if f is not self.h:
                f.close()

    def foreign_ok(self):
        f = self.h5py.File(self.path, 'r')
        try:
            try:
                have = snapshot(f, self.h5py)
            except (RuntimeError, IOError):
                if not self.ended:
                    raise
                # a larry that a disk error damaged is in the way
                have = snapshot(f, self.h5py, sorted(self.model.foreign))
        finally:
            f.close()
        for q, v in sorted(self.model.foreign.items()):
            if have.get(q) != v:
                self.ctx.fail('foreign-lost', '%r, which is not a larry, was %s and is %s' % (
                    q, v, have.get(q, 'gone')))

    def plant(self, op):
        "Another program stores something of its own in a group of the archive."
        f = self.h
        if f is None:
            if not os.path.exists(self.path):
                return
            f = self.h5py.File(self.path, 'r+')
        try:
            g = norm(op['k'])
            if op['up']:
                g = g.rpartition('/')[0]
            if g in f and isinstance(f[g], self.h5py.Group):
                q = g + '/' + op['name']
                up = q.rpartition('/')[0]
                keys = [norm(o['k']) for o in self.ctx.script['ops'] if 'k' in o]
                if any((k + '/').startswith(q + '/') for k in keys):
                    return               # the place of a larry to come
                if q not in f and (up not in f or isinstance(f[up], self.h5py.Group)):
                    f[q] = np.arange(op['n'])
                    self.model.foreign[q] = ('ds', '<i8', repr(range(op['n'])), []) + kept(f[q])
                    self.ctx.count('planted')
            f.flush()
        finally:
            if f is not self.h:
                f.close()


def kept(ds):
    "How a dataset is kept."
    return (ds.maxshape, ds.chunks, ds.compression, repr(ds.fillvalue))


def snapshot(f, h5py, names=None):
    "Every object in the file, or those of the names."
    out = {'/': sorted((str(k), repr(v)) for k, v in f.attrs.items())}

    def visit(name, obj):
        at = sorted((str(k), repr(v)) for k, v in obj.attrs.items())
        if not isinstance(obj, h5py.Dataset):
            links(str(name.encode('utf-8')) + '/', obj)
        if isinstance(obj, h5py.Dataset):
            out[str(name.encode('utf-8'))] = ('ds', obj.dtype.str, repr(obj[()].tolist()), at) + kept(obj)
        else:
            out[str(name.encode('utf-8'))] = ('group', at)

    def links(name, group):
        for k in group.keys():
            k = k.encode('utf-8')
            # h5py.SoftLink does not take every path
            if group.id.links.get_info(k).type != h5py.h5l.TYPE_HARD:
                out[name + str(k)] = ('link', group.id.links.get_val(k))
    links('', f)
    if names is None:
        f.visititems(visit)
    for name in names or ():
        if name not in out and name in f:
            visit(name.decode('utf-8'), f[name])
    return out


def describe(op):
    d = dict((k, v) for k, v in op.items() if k not in ('v', 'f', 'retry'))
    s = d.pop('op')
    return '%s(%s)' % (s, ', '.join('%s=%r' % kv for kv in sorted(d.items())))


# ---- one run ----------------------------------------------------------------

POLICY = {
    'A01': {},
    'A02': {'unchanged': 1, 'whole': 1, 'retry': 'must'},
    'A03': {'retry': 'may'},
    'A05': {'reads': 1},
    'A06': {'unchanged': 1},
    'A08': {'release': 1, 'retry': 'may'},
    'A09': {'kill': 1},
}


def make_foreign(path):
    "A file with objects that are not larrys, and look much like them."
    import h5py
    f = h5py.File(path, 'w')
    f['fd'] = np.array([3, 1, 4])
    f['fd'].attrs['larry'] = True
    f['fg/ds'] = np.array([1.5, 9.25])
    f['fg'].attrs['note'] = 7
    f.create_group('fg/empty/er')
    f['fg/deep/ds'] = np.array(['text', 'more'])
    f.create_group('fl').attrs['larry'] = True      # nearly a larry
    f['fx/x'] = np.array([[1, 2]])
    f['fx/0'] = np.array([1])
    f['fx'].attrs['larry'] = True
    f['fn/x'] = np.array([1, 2])
    f['fn/0'] = np.array([1, 2])
    f['fn'].attrs['larry'] = False
    f['fm/x'] = np.array([1, 2])
    f['fm/0'] = np.array([1, 2])
    f['fo/2'] = np.array([1.5, 2])
    f['fp/1'] = np.array([4, 2])
    f['fq/0/x'] = np.array(['a', 'b'])
    f['fs'] = h5py.SoftLink('/fd')
    f['fg/dangling'] = h5py.SoftLink('/nowhere')
    f['fg/soft'] = h5py.SoftLink('/fg/ds')
    f['fg/deep/rel'] = h5py.SoftLink('ds')
    f['fg/deep'].attrs['unit'] = 'm'
    f['fg/ext'] = h5py.ExternalLink('no_such_file.h5', '/q')
    f.create_dataset('fg/zip', data=np.arange(60).reshape(6, 10), maxshape=(None, 10),
                     chunks=(2, 5), compression='gzip', fillvalue=-1)
    f.create_dataset('fz', (4,), 'f4', maxshape=(None,), chunks=(2,))
    f['fscalar'] = 2.5
    f['fe'] = h5py.ExternalLink('no_such_file.h5', '/q')
    f.attrs['owner'] = 'me'
    for i in range(9):
        f.attrs['z%d' % i] = i
    f.attrs['n'] = np.arange(3)
    f.attrs['fixed'] = np.string_('abc')
    out = snapshot(f, h5py)
    f.close()
    return out


def execute(script, ctx):
    prop = script['prop']
    policy = POLICY[prop]
    model = Model()
    if script.get('link'):
        make_link(ctx.root, script['link'])
        ctx.fired('the archive has a symbolic link')
    if script.get('foreign'):
        def foreign(emit):
            emit(make_foreign(ctx.root + NAME))
        model.foreign = ctx.process(foreign)[1][0][0]
    ops = script['ops']
    i = 0
    ended = False
    while not ended:
        j = i
        while j < len(ops) and ops[j]['op'] not in ('reopen', 'kill'):
            j += 1

        def seg(emit):
            p = Proc(ctx, model, emit, policy)
            for n in range(i, j):
                p.step(n, ops[n])
                if p.ended or p.stop:
                    break
                if 'kill' in policy:
                    emit('model', p.model, p.ended, n)
            if 'kill' in policy:
                if j < len(ops) and ops[j]['op'] == 'kill':
                    ctx.fired('killed with the archive open' if p.h is not None else 'killed')
                    raise core.Killed
            if p.h is not None:
                try:
                    p.h.close()
                except Exception:
                    if not p.stop:
                        raise
            emit('model', p.model, p.ended)
        status, out = ctx.segment(seg)
        if status == 'crashed' and 'kill' in policy:
            # what had been acknowledged; the rest of this process is skipped
            out = [o for o in out if o[0] == 'model']
            if j >= len(ops) or ops[j]['op'] != 'kill' or not out or out[-1][3] != j - 1:
                ctx.fired('killed during a read')
            out = out or [('model', model, False)]
        elif status != 'done':
            if status.startswith('signal') and any(
                    (o.get('f') or {}).get('t') in ('disk', 'quota') for o in ops[i:j]):
                # HDF5 1.8 follows wild pointers when the disk fails in places
                ctx.probe('process-died-under-disk-fault')
                return
            ctx.fail('died', 'the process ended with %s' % status)
        model, ended = out[-1][1], out[-1][2]

        def check(emit):
            if not os.path.exists(ctx.root + NAME):
                if [k for k, v in model.items() if None not in opts(v)]:
                    ctx.fail('lost-file', 'the archive file is gone')
                return
            p = Proc(ctx, model, emit, policy)
            p.verify('in a new process')
            if prop == 'A01':
                p.near_misses('in a new process')
            if model.foreign:
                p.foreign_ok()
            left = sorted(os.listdir(ctx.root))
            if script.get('link'):
                left += [f for f in os.listdir(os.path.dirname(link(ctx.root))) if f not in (NAME, MID)]
            if left != [NAME] and not ended and not any(
                    o['op'] == 'repack' and (o.get('f') or {}).get('t') == 'fp' for o in ops):
                ctx.fail('stray-file', 'files left behind: %r' % left)
            emit('model', p.model, p.ended)
        if not ended:
            status, out = ctx.segment(check)
            if status != 'done':
                ctx.fail('died', 'verifying ended with %s' % status)
            if out:
                model, ended = out[-1][1], out[-1][2]
        ctx.probe('processes')
        i = j + 1
        if i > len(ops):
            break
    if not any(o.get('f') for o in ops):
        ctx.nontrivial = len(ops) > 1


# ---- generation ---------------------------------------------------------------

def alike(rng, old, new, prop):
    "The spec of a larry that differs from the old one only here and there."
    how = rng.randrange(6) if prop != 'A06' or rng.random() < .3 else 0
    v = dict(old)
    if how in (0, 1):                    # as large, but with other labels
        v['off'] = [rng.randrange(9) for _ in v['sh']]
    if how in (0, 2):
        v['tag'] = new['tag']
    if how == 3:
        v['dt'] = new['dt']
    if how == 4 and v['sh']:
        ax = rng.randrange(len(v['sh']))
        v['lab'] = [rng.choice(values.AKINDS) if i == ax else z for i, z in enumerate(v['lab'])]
    if how == 5 and v['sh']:
        ax = rng.randrange(len(v['sh']))
        v['sh'] = [n if i != ax else max(0, n + rng.choice([-1, 1])) for i, n in enumerate(v['sh'])]
    return v


def gen_op(rng, keys, weights):
    name = pick(rng, weights)
    op = {'op': name}
    if name in ('set', 'save', 'load', 'get', 'del', 'fdel', 'has', 'haskey', 'isarc', 'hold'):
        op['k'] = rng.choice(keys)
        if rng.random() < .05:
            op['k'] = rng.choice(['/%s', '/%s', '//%s', '%s/']) % norm(op['k'])
        elif rng.random() < .05:
            op['k'] = op['k'].replace('/', '//')
        if name in ('get', 'has', 'haskey', 'isarc') and rng.random() < .06:
            op['u'] = 1
    if name in ('set', 'save'):
        op['v'] = values.spec(rng, kinds=values.AKINDS, many=dims(keys))
    if name in ('save', 'load', 'fdel', 'isarc', 'dir'):
        op['via'] = rng.choice('pph')
    if name == 'repack':
        op['via'] = rng.choice(['io', 'p', 'h'])
    if name in ('set', 'get', 'del', 'keys', 'iter', 'iterkeys', 'len', 'has', 'haskey', 'values',
                'itervalues', 'items', 'iteritems', 'clear', 'repr', 'space', 'freespace', 'hold'):
        op['c'] = rng.randrange(2)
    if name == 'hlabel':
        op['n'], op['ax'] = rng.randrange(70), rng.choice([0, 0, 0, 1, 1, 2])
    if name in ('hold', 'hget', 'hset', 'attrs', 'hlabel'):
        op['s'] = rng.randrange(3)
    if name in ('hget', 'hset'):
        op['i'] = gen_index(rng)
    if name == 'hset' and rng.random() < .15:
        op['i'] = ['L', rng.randrange(30), rng.choice([0, 1, 2, 2])]
    if name == 'hset':
        op['w'] = {'kind': rng.choice(['scalar', 'array', 'array', 'larry', 'misaligned']),
                   'tag': rng.randrange(30, 60)}
    if name == 'walk':
        op.update(c=rng.randrange(2), n=rng.randrange(256),
                  how=rng.choice(['iterkeys', '__iter__', 'iteritems', 'keys']))
    if name == 'hopen' and rng.random() < .3:
        op['o'] = {'libver': 'latest'}
    if name == 'plant':
        gen_plant(rng, keys, op)
    if name == 'bad':
        op.update(gen_bad(rng, keys))
    return op


def gen_plant(rng, keys, op):
    op.update(k=rng.choice(keys), up=rng.randrange(2), n=rng.randrange(3),
              name=rng.choice(['raw', 'raw', 'raw/two', '7up', 'y', 'larry']))
    return op


BADS = ['mixed', 'mixeddate', 'mixed2', 'object', 'unicode', 'ulabel', 'nonelabel', 'objlabel',
        'dt64', 'tuples', 'nested', 'nul', 'delta', 'huge', 'notlarry', 'badkey', 'oddkey', 'oddkey',
        'oddkey', 'missing', 'missing', 'inside', 'badfile', 'index', 'index',
        'shape', 'foreign', 'foreign']


def gen_bad(rng, keys):
    b = {'what': rng.choice(BADS), 'k': rng.choice(keys), 'c': rng.randrange(2),
         'n': rng.randrange(98), 'via': rng.choice('pph'), 's': rng.randrange(3)}
    if rng.random() < .3:
        b['fn'] = rng.randrange(1, 4)
    if rng.random() < .4:
        b['set'] = 1
    return b


def gen_index(rng):
    def one(allow=True):
        r = rng.random()
        if r < .3:
            return ['i', rng.randrange(-3, 4)]
        if r < .75 or not allow:
            a = rng.choice([None, None, 0, 1, 2, -1, -2, 5])
            b = rng.choice([None, None, 1, 2, 3, 4, -1, 7])
            c = rng.choice([None, None, None, 1, 2, 3, -1])
            return ['s', a, b, c]
        if r < .9:
            k = rng.randrange(1, 4)
            l = rng.sample(range(4), k)
            if rng.random() < .8:
                l.sort()
            return ['l', l]
        return ['m', [rng.randrange(2) for _ in range(rng.randrange(1, 5))]]
    if rng.random() < .35:
        return one(rng.random() < .3)
    n = rng.choice([1, 2, 2, 3])
    per, fancy = [], 0
    for _ in range(n):
        p = one(fancy == 0 or rng.random() < .15)
        fancy += p[0] in 'lm'
        per.append(p)
    return ['t', per]


def pick(rng, weights):
    tot = sum(weights.values())
    r = rng.random() * tot
    for k in sorted(weights):
        r -= weights[k]
        if r < 0:
            return k
    return sorted(weights)[-1]


W_ALL = dict(set=10, save=4, load=5, get=4, fdel=2, keys=1, iter=.5, iterkeys=.5, dir=1, len=1,
             has=2, haskey=.5, isarc=1, values=.7, itervalues=.4, items=.7, iteritems=.4,
             clear=.5, repr=1, space=.5, freespace=.5, repack=1.2, hold=1.5, hget=2, hset=1,
             attrs=.5, hlabel=.6, walk=.7, hopen=1, hclose=1, reopen=1, plant=1.5)
W_ALL['del'] = 2
EFAULTS = [errno.EIO, errno.ENOSPC, errno.EDQUOT]


def swarm(rng, weights):
    "Each run uses a random subset of the operations."
    w = {}
    for k, v in weights.items():
        if rng.random() < .75 or k in ('set', 'hold'):
            w[k] = v * rng.choice([.5, 1, 1, 2, 4])
    return w


def disk_fault(rng, write):
    r = rng.random()
    if write:
        if r < .3:
            return {'t': 'quota', 'n': rng.choice([0, 0, 100, 600, rng.randrange(0, 9000),
                                                   rng.randrange(0, 20000)])}
        if r < .62:
            return disk(seams.WRITE, rng.randrange(1, 16), seams.ERR, rng.choice(EFAULTS))
        if r < .68:
            return disk(seams.WRITE, rng.randrange(1, 10), seams.SHORT, rng.randrange(1, 40))
        if r < .72:
            return disk(seams.WRITE, rng.randrange(1, 10), seams.ERR, errno.EINTR)
        if r < .76:
            return disk(seams.TRUNC, 1, seams.ERR, errno.EIO)
    if r < .86:
        return disk(seams.READ, rng.randrange(1, 25), seams.ERR, rng.choice([errno.EIO, errno.EIO, errno.EINTR]))
    if r < .93:
        return disk(seams.READ, rng.randrange(1, 25), seams.SHORT, rng.randrange(1, 40))
    return disk(seams.OPEN, rng.randrange(1, 5), seams.ERR,
                rng.choice([errno.EIO, errno.EMFILE, errno.EACCES, errno.ENFILE]))


def disk(cls, nth, act, arg):
    return {'t': 'disk', 'cls': cls, 'nth': nth, 'act': act, 'arg': arg}


def read_only(rng):
    return {'t': 'ro', 'err': rng.choice([errno.EACCES, errno.EROFS])}


def fail_fault(rng, lines=True):
    mode = rng.choice(['line', 'line', 'call', 'ccall'] if lines else ['call', 'ccall'])
    hi = rng.choice([8, 30, 120] if mode == 'line' else [6, 25])
    return {'t': 'fp', 'mode': mode, 'nth': rng.randrange(1, hi),
            'exc': rng.choice(['mem', 'int'] if lines else ['mem', 'io', 'int'])}


def generate(rng, prop, tier):
    keys = some_keys(rng, 2, 6)
    w = dict(W_ALL)
    n = rng.randrange(4, 22)
    script = {'foreign': int(rng.random() < .3)}
    if prop == 'A01':
        w = swarm(rng, w)
    elif prop == 'A02':
        w = swarm(rng, w)
        w['bad'] = sum(w.values()) * rng.choice([0, .3, .6])
        script['foreign'] = 1
    elif prop == 'A03':
        w = swarm(rng, w)
        w.pop('plant', None)
        n = rng.randrange(3, 12)
    elif prop == 'A05':
        w = swarm(rng, w)
        for k in READS:
            if k in w:
                w[k] *= 4
        w['bad'] = 8
        script['foreign'] = 1
    elif prop == 'A06':
        w = dict(set=6, hold=5, hget=16, hset=8, attrs=1, hlabel=3, save=1, load=1, repack=.5, reopen=.3,
                 hopen=.3, hclose=.5)
        w['del'] = .7
        keys = keys[:2]
    elif prop == 'A09':
        w = swarm(rng, w)
        w['hopen'] = w.get('hopen', 0) + 2
        w['kill'] = sum(w.values()) * rng.choice([.1, .2, .4])
        w.pop('reopen', None)
        w.pop('hclose', None)
        if rng.random() < .3:
            w['bad'] = sum(w.values()) * .3
            script['foreign'] = 1
    elif prop == 'A08':
        w = swarm(rng, w)
        w.pop('plant', None)
        w['bad'] = sum(w.values()) * rng.choice([.2, .6])
        script['foreign'] = int(rng.random() < .6)
    if prop in ('A01', 'A06', 'A08') and rng.random() < .2:
        script['link'] = rng.choice([1, 2, 3])
        w.pop('hopen', None)         # one handle has one name in HDF5
    if script['foreign'] and prop in ('A01', 'A02', 'A05', 'A09') and rng.random() < .3:
        # larrys in groups that are someone else's
        keys = keys + [rng.choice(['fg/empty/er/k', 'fg/empty/k', 'fg/deep/k', 'fg/k', 'fl/k',
                                   'fm/k/j', 'fn/k', 'fo/q/k'])]
    ops = []
    if w.get('hget') or w.get('hset') or w.get('attrs') or 'bad' in w:
        ops.append({'op': 'set', 'c': 0, 'k': keys[0], 'v': values.spec(rng, zero=0, kinds=values.AKINDS, many=dims(keys))})
        ops.append({'op': 'hold', 'c': 0, 'k': keys[0], 's': rng.randrange(3)})
    while len(ops) < n:
        op = gen_op(rng, keys, w)
        if script.get('link') and rng.random() < .4:
            op['ln'] = 1
        if op['op'] in ('set', 'save') and rng.random() < .35:
            # much like one it replaces, or like another in the archive
            old = [o for o in ops if o['op'] in ('set', 'save')]
            old = [o for o in old if norm(o['k']) == norm(op['k'])] or old
            if old:
                op['v'] = alike(rng, old[-1]['v'], op['v'], prop)
        if prop == 'A05' and op['op'] == 'bad' and rng.random() < .4:
            op['what'] = 'foreign'
        if op.get('what') == 'foreign' and not script['foreign']:
            continue
        f = None
        if prop in ('A01', 'A02', 'A05', 'A06', 'A09') and op['op'] in ALONE and rng.random() < .12:
            op['other'] = 1
            ops.append(op)
            continue
        if prop == 'A02' and op['op'] not in ('hopen', 'hclose', 'reopen', 'bad', 'plant') and \
                rng.random() < .3:
            f = fail_fault(rng)
        elif prop == 'A03' and op['op'] not in ('hopen', 'hclose', 'reopen'):
            r = rng.random()
            if r < .35:
                f = disk_fault(rng, op['op'] not in READS)
            elif r < .4:
                f = read_only(rng)
        elif prop == 'A05' and rng.random() < .15 and op['op'] in READS:
            f = fail_fault(rng) if rng.random() < .5 else disk_fault(rng, False)
        elif prop in ('A01', 'A02', 'A05', 'A09') and rng.random() < .06 and \
                op['op'] not in ('hopen', 'hclose', 'reopen', 'plant'):
            f = read_only(rng)
        elif prop == 'A09' and op['op'] in READS and rng.random() < .15:
            f = disk(rng.choice([seams.OPEN, seams.READ, seams.READ, seams.READ, seams.CLOSE]),
                     rng.randrange(1, 16), seams.CRASH, 0)
        elif prop == 'A08' and op['op'] not in ('hopen', 'hclose', 'reopen'):
            r = rng.random()
            if r < .2:
                f = fail_fault(rng, lines=False)
            elif r < .35:
                f = disk_fault(rng, op['op'] not in READS)
            elif r < .4:
                f = read_only(rng)
        if f:
            op['f'] = f
            if rng.random() < .6 and prop != 'A09':
                op['retry'] = 1
        ops.append(op)
    script['ops'] = ops
    return script


ALONE = ('set', 'save', 'del', 'fdel', 'clear', 'repack', 'keys', 'get', 'load')


def valid(script):
    return True


def simpler(script):
    "Variants with smaller values, simpler keys, fewer decorations."
    for k in ('foreign', 'link'):
        if script.get(k):
            t = dict(script)
            t[k] = 0
            yield t
    for i, op in enumerate(script.get('ops') or []):
        for change in simpler_op(op):
            t = dict(script)
            t['ops'] = script['ops'][:i] + [change] + script['ops'][i + 1:]
            yield t


PLAIN = {'sh': [1], 'dt': 'f8', 'lab': ['int'], 'tag': 1}


def simpler_op(op):
    if op.get('retry'):
        yield dict((k, v) for k, v in op.items() if k != 'retry')
    if op.get('f'):
        yield dict((k, v) for k, v in op.items() if k not in ('f', 'retry'))
        if op['f'].get('nth', 1) > 1:
            yield dict(op, f=dict(op['f'], nth=op['f']['nth'] - 1))
    v = op.get('v')
    if v and v != PLAIN:
        yield dict(op, v=PLAIN)
        if v['sh'] != [2]:
            yield dict(op, v=dict(PLAIN, sh=[2], tag=v['tag'], lab=v['lab'][:1]))
        for drop in ('off', 'nan', 'ord'):
            if drop in v:
                yield dict(op, v=dict((a, b) for a, b in v.items() if a != drop))
        if v['dt'] != 'f8':
            yield dict(op, v=dict(v, dt='f8'))
        for ax in range(len(v['lab'])):
            if v['lab'][ax] != 'int':
                yield dict(op, v=dict(v, lab=v['lab'][:ax] + ['int'] + v['lab'][ax + 1:]))
    if op.get('via') == 'h':
        yield dict(op, via='p')
    if op.get('c'):
        yield dict(op, c=0)
    if op.get('other'):
        yield dict((k, v) for k, v in op.items() if k != 'other')


def warm(prop):
    import la
    import h5py


# ---- reporting -----------------------------------------------------------------

def rule(prop):
    return {
        'A09': 'a random history by path and by open file in processes that are killed between two '
               'operations, with or without the archive open, or at a system call of a read; '
               'non-trivial: a process was killed',
        'A01': 'a random history of archive operations by two dictionary clients, function '
               'calls by path and by open file, and held partial readers, over random larrys, '
               'with reopening in new processes; non-trivial: more than one operation ran',
    }.get(prop, 'a random history of archive operations with injected faults; non-trivial: '
                'at least one fault fired, or (no fault planned) more than one operation ran')


def state_measure(prop):
    return 'distinct (operation, outcome, fault fired, keys and shapes in the archive) tuples'


def components(prop):
    return {'real': ['la (from /repo)', 'la.cflabel extension', 'h5py 2.7.1', 'HDF5 1.8.18', 'numpy'],
            'simulated': ['file system calls below the run directory (fault plan, disk full)',
                          'wall clock', 'uuid4', 'random, numpy.random seeds', 'process crash and restart',
                          'fsync (a no-op on the host; its effect is modelled)'],
            'stub': []}


def assumptions(prop):
    return ['HDF5 1.8 has no journal: what a process killed in the middle of a save leaves in the '
            'file is outside what la promises (except for repack)']


def unreached(prop, results, merge):
    return []
