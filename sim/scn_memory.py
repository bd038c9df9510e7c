"""M01-M04: operands, threads, copies and in-place changes, over the catalogue
of public operations."""
import warnings

import numpy as np

import catalog as C
import core
import failpoint
import sched
import seams
import values
from seams import sd

INJECTED = (MemoryError, KeyboardInterrupt)


class Alloc(object):
    "The nth allocation of at least `min` bytes fails."

    def __init__(self, f):
        self.min, self.nth, self.fired = f['min'], f['n'], 0

    def __enter__(self):
        sd.sim_alloc_arm(self.min, self.nth)

    def __exit__(self, *a):
        sd.sim_alloc_off()
        self.fired = sd.sim_alloc_fired()
        return False


def injector(f):
    if not f:
        return None
    if f['mode'] == 'alloc':
        return Alloc(f)
    return failpoint.FailPoint(f['mode'], f['n'], f['exc'])


def call(ctx, fn, e, p, f):
    "Returns (result, exception or None, injected)."
    inj = injector(f)
    try:
        if inj is None:
            r = fn(e, p)
        elif isinstance(inj, Alloc):
            with inj:
                r = fn(e, p)
        else:
            r = failpoint.run(inj, lambda: fn(e, p))
        err = None
    except (core.Violation, core.Harness):
        raise
    except KeyboardInterrupt as x:
        if inj is None or not inj.fired:
            raise
        r, err = None, x
    except Exception as x:
        r, err = None, x
    hit = bool(inj is not None and inj.fired)
    if hit:
        ctx.fired({'alloc': 'allocation fails', 'line': 'failure at a line',
                   'ccall': 'failure at a C call', 'call': 'failure at a library call'}[f['mode']])
    return r, err, hit


def settings():
    s = np.random.get_state()
    return (repr(sorted(np.geterr().items())), np.geterrcall(), s[1].tolist(), s[2],
            repr(sorted((k, repr(v)) for k, v in np.get_printoptions().items())))


def outcome(r, err):
    return ('raised', type(err).__name__) if err is not None else ('returned', C.canon(r))


def short(v):
    s = repr(v)
    return s if len(s) < 220 else s[:220] + '...'


def larrys(r):
    from la import larry
    if isinstance(r, larry):
        return [r]
    if isinstance(r, (tuple, list)) and len(r) < 10:
        return [v for v in r if isinstance(v, larry)]
    return []


def ill_formed(y):
    "None, or what is wrong with the larry."
    if type(y.label) not in (list, tuple):
        return 'label is %s' % type(y.label)
    if not isinstance(y.x, np.ndarray):
        return 'data is %s' % type(y.x)
    if len(y.label) != y.x.ndim:
        return '%d label lists for %d dimensions' % (len(y.label), y.x.ndim)
    for ax, l in enumerate(y.label):
        if type(l) != list:
            return 'label of axis %d is %s' % (ax, type(l))
        if len(l) != y.x.shape[ax]:
            return '%d labels for %d elements along axis %d' % (len(l), y.x.shape[ax], ax)
        if len(set(l)) != len(l):
            return 'labels of axis %d are not unique: %s' % (ax, short(l))
    return None


# ---- M01 -------------------------------------------------------------------------
def marked(v):
    "canon(v), and whether its owner may still write into it."
    x = getattr(v, 'x', v)
    return C.canon(v), x.flags.writeable if isinstance(x, np.ndarray) else None


def execute_m01(script, ctx):
    e = C.make_env(script['env'])
    np.random.seed(script['reseed'])
    snap = dict((k, marked(v)) for k, v in C.operands(e))
    before = settings()
    for o in script['ops']:
        name, p, f = o['name'], o['p'], o.get('fail')
        fn, flags = C.OPS[name]
        r, err, hit = call(ctx, fn, e, p, f)
        ctx.count('raised' if err is not None else 'returned')
        out = ('injected',) if hit and err is not None else outcome(r, err)
        ctx.ev(name, out)
        ctx.state((name, f and f['mode'], hit, out[0], e.y.shape))
        del r
        for k, v in C.operands(e):
            if k == 'y' and 'mut' in flags:
                snap[k] = marked(v)
                continue
            now = marked(v)
            if now != snap[k]:
                ctx.fail('operand-changed', '%s %s changed %s from %s to %s' %
                         (name, p, k, short(snap[k]), short(now)) +
                         (' (%s)' % type(err).__name__ if err is not None else ''))
        if name in ('!shuffle', '!shufflelabel'):
            before = settings()
        elif settings() != before:
            ctx.fail('settings-changed', '%s %s changed the settings of numpy or its random state%s'
                     % (name, p, ' (%s)' % type(err).__name__ if err is not None else ''))
        del err


def turned(e, o):
    "The operands as the operation sees them: the other larry first, if it says so."
    if not o.get('turn'):
        return e
    t = C.Env()
    t.__dict__.update(e.__dict__)
    t.y, t.z = e.z, e.y
    return t


# ---- M02 -------------------------------------------------------------------------
def execute_m02(script, ctx):
    def solo(emit):
        for th, ops in enumerate(script['threads']):
            for i, o in enumerate(ops):
                e = C.make_env(script['env'])
                r, err, _ = call(ctx, C.OPS[o['name']][0], turned(e, o), o['p'], None)
                emit(th, i, outcome(r, err))
    status, out = ctx.process(solo)
    if status != 'done':
        ctx.fail('died', 'an operation run alone ended with ' + status)
    want = dict(((th, i), v) for th, i, v in out)

    def bodies():
        e = C.make_env(script['env'])
        share.append(e)

        def body(ops):
            got = []
            for o in ops:
                r, err, _ = call(ctx, C.OPS[o['name']][0], turned(e, o), o['p'], None)
                got.append(outcome(r, err))
                del r, err
            return got
        return [lambda ops=ops: body(ops) for ops in script['threads']]
    share = []
    counts, total = sched.count(ctx, bodies)
    del share[:]
    bs = bodies()
    snap = dict((k, C.canon(v)) for k, v in C.operands(share[0]))
    s = sched.Scheduler(bs, script['sched'], total)
    outs = s.run()
    ctx.count('steps', s.steps)
    ctx.fired('preemption', len(s.switches))
    ctx.state(s.switches)
    for sw in s.switches:
        ctx.ev('switch', *sw)
    for th, o in enumerate(outs):
        if o[0] == 'viol':
            ctx.fail(o[1].cls, 'thread %d: %s' % (th, o[1].msg))
        if o[0] == 'exc':
            raise core.Harness('thread %d: %s' % (th, o[3]))
        for i, got in enumerate(o[1]):
            ctx.ev(th, i, got)
            op = script['threads'][th][i]
            if got != want[th, i]:
                ctx.fail('differs', '%s %s gave %s next to other threads, %s alone' %
                         (op['name'], op['p'], short(got), short(want[th, i])))
    for k, v in C.operands(share[0]):
        if C.canon(v) != snap[k]:
            ctx.fail('operand-changed', 'the shared operand %s changed to %s' % (k, short(v)))


# ---- M03 -------------------------------------------------------------------------
class Pool(object):
    def __init__(self, ctx, e):
        self.ctx, self.e, self.n = ctx, e, 0
        self.items = []                    # [name, object, data ids, label ids, snapshot]
        for k in ('y', 'z'):
            self.add(k, getattr(e, k), None, None)
        self.add('lab', e.lab, None, None)
        self.add('label lists', e.labels, None, None)

    def fresh(self):
        self.n += 1
        return frozenset([self.n])

    def add(self, name, v, d, l):
        self.items.append([name, v, d or self.fresh(), l or self.fresh(), C.canon(v)])
        if len(self.items) > 12:
            self.items.pop(0)

    def larry(self, i):
        from la import larry
        ls = [it for it in self.items if isinstance(it[1], larry) and it[1].ndim > 0]
        return ls[i % len(ls)] if ls else None

    def check(self, what, d=frozenset(), l=frozenset()):
        for it in self.items:
            now = C.canon(it[1])
            if now == it[4]:
                continue
            if not (it[2] & d or it[3] & l):
                self.ctx.fail('shared-storage', '%s changed %s from %s to %s' %
                              (what, it[0], short(it[4]), short(now)))
            it[4] = now


def mutate_plain(v, k):
    "An owner changes an array or list of his in place; False if he cannot."
    if isinstance(v, np.ndarray):
        if v.size and v.dtype.kind in 'fiuc':
            v[...] = -(5 + k)
            return True
        return False
    if isinstance(v, list) and v:
        if isinstance(v[0], list):
            return mutate_plain(v[k % len(v)], k)
        if k % 3 == 0:
            v.append(('owner', k))
        elif k % 3 == 1:
            v[0] = ('owner', k)
        else:
            v.reverse()
        return True
    return False


def poke(v, k):
    """The owner changes an array or a list of his in place; returns a function that
    takes the change back, or None if he cannot change it."""
    if isinstance(v, np.ndarray):
        if not v.size or not v.flags.writeable:
            return None
        old = v.copy()
        if v.dtype.kind == 'b':
            v[...] = ~old
        elif v.dtype.kind == 'S':
            v[...] = '?'
        elif v.dtype.kind == 'O':
            v[...] = 'owner'
        else:
            v[...] = 77 + k

        def undo():
            v[...] = old
        return undo
    if isinstance(v, list):
        old = list(v)
        if k % 2 and v:
            v[k % len(v)] = ('owner', k)
        else:
            v.append(('owner', k))

        def undo():
            v[:] = old
        return undo


def parts_of(v):
    "What the owner of v can change in place, and whether it is data or a label."
    from la import larry
    if isinstance(v, larry):
        return [('the data', v.x, 'd')] + [('the labels of axis %d' % i, l, 'l')
                                           for i, l in enumerate(v.label)]
    if isinstance(v, list) and v and isinstance(v[0], list):
        return [('the list', v, 'l')] + [('list %d' % i, l, 'l') for i, l in enumerate(v)]
    return [('all', v, 'd' if isinstance(v, np.ndarray) else 'l')]


def probe(ctx, pool, what, it, k):
    """The owner of a new result changes each part of it in place, one after the other,
    looks whether anything else changed, and takes the change back."""
    parts = parts_of(it[1])
    for i, (which, v, kind) in enumerate(parts):
        if isinstance(v, list) and v and isinstance(v[0], list):
            rest = []
        else:
            rest = [(n, C.canon(u)) for j, (n, u, _) in enumerate(parts) if j != i and
                    not (isinstance(u, list) and u and isinstance(u[0], list))]
        undo = poke(v, k)
        if undo is None:
            continue
        try:
            after = dict((n, C.canon(u)) for j, (n, u, _) in enumerate(parts) if j != i)
            for n, was in rest:
                if after[n] != was:
                    ctx.fail('shared-storage', 'changing %s of the result of %s changed %s of it '
                             'from %s to %s' % (which, what, n, short(was), short(after[n])))
            for q in pool.items:
                if q is it or (it[2] & q[2] if kind == 'd' else it[3] & q[3]):
                    continue
                now = C.canon(q[1])
                if now != q[4]:
                    ctx.fail('shared-storage', 'changing %s of the result of %s changed %s from %s '
                             'to %s' % (which, what, q[0], short(q[4]), short(now)))
        finally:
            undo()
    ctx.fired('owner tries every part of a result')


def execute_m03(script, ctx):
    e = C.make_env(script['env'])
    np.random.seed(script['reseed'])
    pool = Pool(ctx, e)
    for o in script['ops']:
        name, p = o['name'], o['p']
        fn, flags = C.OPS[name]
        if o['do'] == 'plain':
            it = pool.items[o['i'] % len(pool.items)]
            from la import larry
            if not isinstance(it[1], larry) and mutate_plain(it[1], p['k']):
                ctx.fired('owner changes an array or list')
                pool.check('the owner of %s, changing it,' % it[0], it[2], it[3])
            continue
        it, jt = pool.larry(o['i']), pool.larry(o['j'])
        if it is None:
            continue
        e.y, e.z = it[1], jt[1]
        try:
            C.ax(e, p)
            r, err, hit = call(ctx, fn, e, p, o.get('fail'))
        except (ZeroDivisionError, IndexError):
            continue
        what = '%s %s on %s' % (name, p, it[0])
        ctx.ev(name, outcome(r, err))
        ctx.count(o['do'])
        if 'mut' in flags:
            if err is None:
                ctx.fired('in-place change')
            pool.check(what, it[2], it[3])
            ctx.state((name, it[0].split('/')[-1], len(pool.items)))
            continue
        pool.check(what)
        if err is not None or not flags:
            continue
        # what the documentation says is a view belongs to its operand
        d = it[2] if 'view' in flags else None
        l = it[3] if 'vlab' in flags else None
        parts = list(r) if isinstance(r, tuple) else [r]
        for v in parts:
            from la import larry
            if isinstance(v, (larry, np.ndarray, list)):
                if isinstance(v, larry) and any(v is q[1] for q in pool.items):
                    ctx.fail('shared-storage', '%s returned its operand itself' % what) \
                        if 'view' not in flags else None
                    continue
                pool.add(it[0] + '/' + name, v, d, l)
                if o.get('probe'):
                    probe(ctx, pool, what, pool.items[-1], p['k'])
                ctx.state((name, 'made', it[0].split('/')[-1]))


# ---- M04 -------------------------------------------------------------------------
def pairs(y):
    "label tuple -> value"
    out = {}
    for idx in np.ndindex(*y.x.shape):
        out[tuple(y.label[ax][i] for ax, i in enumerate(idx))] = repr(y.x[idx])
    return out


def execute_m04(script, ctx):
    e = C.make_env(script['env'])
    np.random.seed(script['reseed'])
    y = e.y
    for o in script['ops']:
        name, p = o['name'], o['p']
        fn, flags = C.OPS[name]
        mut = 'mut' in flags
        old = C.canon(y)
        oldx, oldl = y.x.copy(), y.copylabel()
        oldpairs = pairs(y)
        twin = None
        if mut and name in ('!flipaxis', '!maplabel', '!maplabelone'):
            te = C.Env()
            te.__dict__.update(e.__dict__)
            te.y = y.copy()
            twin = te
        r, err, hit = call(ctx, fn, e, p, o.get('fail'))
        ctx.count('raised' if err is not None else 'returned')
        what = '%s %s%s' % (name, p, ' (%s)' % (err if not hit else 'interrupted',)
                            if err is not None else '')
        bad = ill_formed(y)
        if bad:
            ctx.fail('ill-formed', '%s left %s' % (what, bad))
        if err is None and name != 'alignskip':
            for v in larrys(r):
                if v.x.ndim == 0 and v.x.dtype.kind == 'O' and v.x[()] is NotImplemented:
                    continue           # numpy's answer to arithmetic on text
                bad = ill_formed(v)
                if bad:
                    ctx.fail('ill-formed', '%s returned a larry with %s' % (what, bad))
        now = C.canon(y)
        if err is not None and not hit:
            ctx.fired('rejected or failing operation')
            # an index list with an index out of range is numpy's to reject, and
            # numpy assigns the elements before it; never anything else
            ok = now == old or name == '!setlist' and type(err) is IndexError and \
                values.same_label(oldl, y.label) and y.x.shape == oldx.shape and \
                all(repr(a) == repr(b) or b == np.array([-27]).astype(y.x.dtype)[0]
                    for a, b in zip(oldx.ravel(), y.x.ravel()))
            if not ok:
                ctx.fail('half-done', '%s changed %s to %s' % (what, short(old), short(now)))
        if not mut and now != old:
            ctx.fail('half-done', '%s changed its operand' % what)
        if 'lab' not in flags and not values.same_label(oldl, y.label):
            ctx.fail('labels-changed', '%s changed the labels from %s to %s' %
                     (what, short(oldl), short(y.label)))
        if name.startswith(('!maplabel', '!shufflelabel')) and \
                (not values.same_array(oldx, y.x)):
            ctx.fail('data-changed', '%s changed the data' % what)
        if name.startswith('!flipaxis') and pairs(y) != oldpairs:
            ctx.fail('label-mixup', '%s separated values from their labels: %s' % (what, short(now)))
        if name in ('!shuffle', '!shufflebad') and \
                sorted(map(repr, oldx.ravel().tolist())) != sorted(map(repr, y.x.ravel().tolist())):
            ctx.fail('data-changed', '%s lost data' % what)
        if err is None and twin is not None and not hit:
            want = C.OPS[name[1:]][0]
            p2 = dict(p)
            if name == '!flipaxis':
                t = twin.y.flipaxis(C.axn(twin, p2))
                if C.canon(t) != now:
                    ctx.fail('differs', '%s differs from the copying form' % what)
            if C.canon(r) != now:
                ctx.fail('differs', '%s returned something else than it left' % what)
        ctx.ev(name, outcome(r, err) if not hit else 'injected', now)
        ctx.state((name, hit, err is not None and type(err).__name__, y.shape))
        if o.get('keep') and err is None and len(larrys(r)) == 1 and name != 'alignskip':
            v = larrys(r)[0]
            if v.ndim and v.size < 200 and 'view' not in flags:
                e.y = y = v
                e.a = values.data(y.shape, 'f8', 5)
        del r, err


# ---- M05 -------------------------------------------------------------------------
def freeze(v):
    "What v is now, down to the memory layout of arrays."
    from la import larry
    if isinstance(v, larry):
        return ('L', freeze(v.x), freeze(v.label))
    if isinstance(v, np.ndarray):
        return ('A', v.dtype.str, v.shape, v.strides, v.ravel().tolist() if v.dtype.kind == 'O'
                else v.tostring())
    if isinstance(v, (list, tuple)):
        return (type(v).__name__, [freeze(u) for u in v])
    if isinstance(v, dict):
        return ('dict', [(freeze(k), freeze(u)) for k, u in sorted(v.items())])
    return ('V', v)


def thaw(f):
    from la import larry
    k = f[0]
    if k == 'L':
        return larry(thaw(f[1]), thaw(f[2]), validate=False)
    if k == 'A':
        dt, shape, strides, raw = f[1:]
        dt = np.dtype(dt)
        if dt.kind == 'O':
            x = np.empty(shape, object)
            x.ravel()[...] = raw
            return x
        low = sum(min(s, 0) * (n - 1) for s, n in zip(strides, shape) if n > 1)
        high = sum(max(s, 0) * (n - 1) for s, n in zip(strides, shape) if n > 1)
        buf = np.zeros(high - low + dt.itemsize, 'u1')
        x = np.ndarray(shape, dt, buf, -low, strides) if 0 not in shape else np.empty(shape, dt)
        if x.size:
            x[...] = np.fromstring(raw, dt).reshape(shape)
        return x
    if k == 'V':
        return f[1]
    if k == 'dict':
        return dict((thaw(a), thaw(b)) for a, b in f[1])
    return {'list': list, 'tuple': tuple}[k](thaw(u) for u in f[1])


def owner(e, p):
    "The owner of an operand changes or replaces it."
    from la import larry
    k = p.get('own', p['s'] % 12)
    if k == 0:
        e.y, e.z = e.z, e.y
    elif k == 12 and e.g.x.size > 1:
        e.g.x[:] = e.g.x.tolist()[1:] + e.g.x.tolist()[:1]
    elif k == 13:
        e.g.label[0].reverse()
    elif k == 14 and e.z.x.size and e.z.x.dtype.kind == 'f':
        e.z.x.flat[p['k'] % e.z.x.size] = 77.
    elif k == 15:
        l = e.z.label[p['ax'] % e.z.ndim]
        l[:] = l[1:] + l[:1]
    elif k == 16 and e.g.x.size > 1:
        x, lab = e.g.x.tolist()[::-1], [list(e.g.label[0])]
        e.g = None
        e.g = larry(np.array(x, dtype=object), lab)
    elif k == 17:
        e.mask.x[p['k'] % max(e.mask.x.size, 1):][:1] ^= True
    elif k == 18 and e.idx:
        e.idx.append(e.idx.pop(0))
    elif k == 19 and len(e.lab) > 1:
        e.lab[0], e.lab[-1] = e.lab[-1], e.lab[0]
    elif k == 20:
        e.join[0] = ['inner', 'outer', 'left', 'right'][p['k'] % 4]
    elif k == 25 and e.y.shape[0] > 1:
        e.y.x = e.y.x[:-1].copy()
        e.y.label[0] = e.y.label[0][:-1]
    elif k == 26:
        for l in e.y.label:
            if len(l) > 1:
                j = 1 + p['s'] % (len(l) - 1)
                l[j] = l[j] * 7 if type(l[j]) in (int, float, str) else ('owner', l[j])
    elif k == 23:
        e.picks[p['ax'] % len(e.picks)].reverse()
    elif k == 24:
        e.lrows.reverse()
        e.lrows[0][-1] = 9.5
    elif k == 21 and e.y.x.size > 1:
        e.y.x[...] = e.y.x.ravel()[::-1].reshape(e.y.x.shape).copy()
    elif k == 22:
        l = e.y.label[p['ax'] % e.y.ndim]
        l[:] = l[1:] + l[:1]
    elif k == 1:
        e.lab.reverse()
    elif k == 2 and e.lab:
        e.lab[0] = ('owner', p['k'], e.lab[0])
    elif k == 3 and e.g.x.size:
        e.g.x[p['k'] % e.g.x.size] = 'g0'
    elif k == 4:
        e.idx[:] = e.idx[1:]
    elif k == 5:
        # very likely at the address of the one it replaces
        sh, dt, lab = e.z.x.shape, e.z.x.dtype, [list(l)[::-1] for l in e.z.label]
        e.z = None
        e.z = larry(values.data(sh, 'f8', 100 + p['k']), lab)
    elif k == 6:
        sh, lab = e.y.x.shape, [list(l)[1:] + list(l)[:1] for l in e.y.label]
        e.y = None
        e.y = larry(values.data(sh, 'f8', 110 + p['k']), lab)
    elif k == 7 and e.a.size and e.a.dtype.kind == 'f':
        e.a.flat[p['k'] % e.a.size] = -1e3
    elif k == 8 and e.y.x.size and e.y.x.dtype.kind == 'f':
        e.y.x.flat[p['k'] % e.y.x.size] = np.nan
    elif k == 9:
        e.y.x = values.data(e.y.x.shape, ['f8', 'i8', 'S3', 'b1', 'f4', 'c16'][p['k'] % 6], 3)
    elif k == 10:
        e.y.label = [list(l)[::-1] for l in e.y.label]
    elif k == 11:
        e.y.x = e.y.x[::-1]
        e.y.label[0] = e.y.label[0][::-1]


OWNERS = {'y': [0, 6, 8, 9, 10, 11, 21, 22, 22, 25, 26], 'z': [0, 5, 14, 15], 'g': [3, 12, 13, 16],
          'a': [7], 'lab': [1, 2, 19], 'idx': [4, 18], 'mask': [17], 'join': [20],
          'picks': [23], 'lrows': [24]}


def uses(f, depth=3):
    "The operands an operation uses."
    code = getattr(f, '__code__', None)
    if code is None:
        return frozenset()
    out = frozenset(n for n in code.co_names if n in OWNERS)
    if depth:
        for c in f.__closure__ or ():
            out |= uses(c.cell_contents, depth - 1)
        for n in code.co_names:
            g = f.__globals__.get(n)
            if getattr(g, '__module__', None) == C.__name__:
                out |= uses(g, depth - 1)
    return out


def gen_owner(rng, name):
    "The owner changes something, most likely an operand of the operation."
    p = C.gen_params(rng)
    if rng.random() < .85:
        k = sorted(uses(C.OPS[name][0]))
        k = rng.choice([v for v in k if v != 'y'] or ['y']) if rng.random() < .6 else 'y'
        p['own'] = rng.choice(OWNERS[k])
    else:
        p['own'] = rng.randrange(27)
    return {'name': 'owner', 'p': p}


def m05_step(e, o, reseed):
    np.random.seed(reseed)
    r, err, _ = call(None, C.OPS[o['name']][0], e, o['p'], None)
    return r, err, (outcome(r, err), C.canon(e.y))


def execute_m05(script, ctx):
    def history(emit):
        e = C.make_env(script['env'])
        for i, o in enumerate(script['ops']):
            if o['name'] == 'owner':
                owner(e, o['p'])
                continue
            state = dict((k, freeze(v)) for k, v in C.operands(e))
            r, err, out = m05_step(e, o, script['reseed'] + i)
            emit(i, state, out)
            if o.get('keep') and err is None and type(r).__name__ == 'larry' and r.ndim and \
                    r.size < 300 and C.ordered(r):
                e.y = r
                e.a = values.data(r.shape, 'f8', 5)
    status, hist = ctx.process(history)
    if status != 'done':
        ctx.fail('died', 'the history ended with ' + status)

    def apart(emit, only):
        "Each operation on operands of its own, the last first."
        for i, state, _ in reversed(only):
            e = C.Env()
            for k, v in state.items():
                setattr(e, k, thaw(v))
            emit(i, m05_step(e, script['ops'][i], script['reseed'] + i)[2])
    status, got = ctx.process(lambda emit: apart(emit, hist))
    if status != 'done':
        ctx.fail('died', 'the operations apart ended with ' + status)
    back = dict(got)
    for h in hist:
        i, state, out = h
        o = script['ops'][i]
        ctx.ev(o['name'], out)
        ctx.count('compared')
        past = tuple(q['name'] if q['name'] != 'owner' else ('owner', q['p'].get('own', q['p']['s'] % 12))
                     for q in script['ops'][max(i - 2, 0):i])
        ctx.state((past, o['name'], out[0][0]))
        if i:
            ctx.fired('operation with a past')
        if back[i] == out:
            continue
        # one of the two histories matters: which, a process without a past tells
        status, got = ctx.process(lambda emit: apart(emit, [h]))
        if status != 'done':
            ctx.fail('died', '%s alone ended with %s' % (o['name'], status))
        got = got[0][1]
        which = 'operation %d of the history' % i
        if got == out:
            which, out = 'after the later operations of the history, on their operands', back[i]
        k = 0 if got[0] != out[0] else 1
        ctx.fail('history', '%s %s, %s, %s %s; the same operation in a new process %s' %
                 (o['name'], o['p'], which, ['gave', 'left'][k], short(out[k]), short(got[k])))


def execute(script, ctx):
    warnings.simplefilter('ignore')
    np.seterr(**script.get('seterr', {'all': 'ignore'}))
    {'M01': execute_m01, 'M02': execute_m02, 'M03': execute_m03,
     'M04': execute_m04, 'M05': execute_m05}[script['prop']](script, ctx)
    ctx.simtime += 1


# ---- generation -----------------------------------------------------------------------
NAMES = sorted(C.OPS)
PLAIN = [n for n in NAMES if n[0] != '!']
REORDER = ['!flipaxis', '!shufflelabel', '!rawreverse', '!rawswap', '!rawlabel', '!maplabel']
MUT = [n for n in NAMES if n[0] == '!']
# label lookups, alignments, groupings and moving windows, which M05 names
NAMED = ('group', 'align', 'align_axis', 'lix', 'labelindex', 'morph', 'merge', 'move_', 'move_func',
         'move_median', 'move_ranking', 'movingsum', 'sortaxis', 'get', 'set', 'compare', 'keep_label')
COPIES = [n for n in PLAIN if C.OPS[n][1] & frozenset(['copy', 'new', 'view'])
          and not n.startswith(('align_raw', 'farray', 'from', 'larry', 'listmap', 'list2'))
          and n not in ('ismissing_f', 'nans', 'unique', 'lrange', 'ones', 'zeros', 'emptybad')]


def gen_fail(rng, big):
    r = rng.random()
    if big and r < .6:
        return {'mode': 'alloc', 'min': rng.choice([1500, 4000]), 'n': rng.randrange(1, 8)}
    mode = rng.choice(['line', 'line', 'ccall', 'ccall', 'call'])
    top = rng.choice([6, 15, 40])
    return {'mode': mode, 'n': rng.randrange(1, top), 'exc': rng.choice(['mem', 'int'])}


def generate(rng, prop, tier):
    big = prop == 'M01' and rng.random() < .15
    env = C.gen_env(rng, big)
    s = {'env': env, 'ops': []}
    if prop == 'M01':
        s['seterr'] = dict((k, rng.choice(['ignore', 'warn', 'warn', 'raise']))
                           for k in ('divide', 'invalid', 'over', 'under'))
        for _ in range(rng.randrange(4, 16)):
            o = {'name': C.even(rng, PLAIN if rng.random() < .9 else MUT), 'p': C.gen_params(rng)}
            if rng.random() < .5:
                o['fail'] = gen_fail(rng, big)
            s['ops'].append(o)
    elif prop == 'M02':
        n = rng.choice([2, 2, 3])
        pool = [m for m in PLAIN if 'bad' not in m]
        focus = C.related(rng, pool)
        one = rng.choice(focus)
        s['threads'] = [[{'name': rng.choice([one, one, rng.choice(focus), rng.choice(focus),
                                             rng.choice(pool)]),
                          'p': C.gen_params(rng)} for _ in range(rng.randrange(1, 4))]
                        for _ in range(n)]
        for th in s['threads']:
            for o in th:
                if rng.random() < .35:
                    o['turn'] = 1
        s['sched'] = sched.gen(rng)
    elif prop == 'M03':
        for _ in range(rng.randrange(4, 14)):
            r = rng.random()
            o = {'do': 'op' if r < .5 else 'mut' if r < .88 else 'plain', 'p': C.gen_params(rng),
                 'i': rng.randrange(12), 'j': rng.randrange(12)}
            o['name'] = C.even(rng, COPIES) if o['do'] != 'mut' else rng.choice(MUT)
            if rng.random() < .3:
                o['i'] = 0
            if o['do'] == 'op' and rng.random() < .6:
                o['probe'] = 1
            if o['do'] == 'op' and rng.random() < .1:
                o['fail'] = gen_fail(rng, False)
            s['ops'].append(o)
            if o['do'] == 'op' and rng.random() < .5:
                # what was just made, or what it was made from, changes
                if rng.random() < .5:
                    q = {'do': 'plain', 'i': rng.choice([2, 3, -1]), 'name': o['name']}
                else:
                    q = {'do': 'mut', 'i': rng.choice([o['i'], o['j'], -1]),
                         'name': rng.choice(MUT)}
                q.update(p=C.gen_params(rng), j=o['j'])
                s['ops'].append(q)
    elif prop == 'M05':
        r = rng.random()
        focus = [rng.choice(PLAIN)] if r < .3 else C.related(rng, PLAIN) if r < .6 else \
            C.related(rng, [n for n in PLAIN if C.FAMILY[n] in NAMED])
        if len(focus) > 12:
            focus = rng.sample(focus, 3)
        for _ in range(rng.randrange(3, 12)):
            r = rng.random()
            if r < .15:
                s['ops'].append(gen_owner(rng, rng.choice(focus)))
                continue
            elif r < .4:
                n = rng.choice(MUT if rng.random() < .6 else REORDER)
            else:
                n = rng.choice(focus if rng.random() < .7 else PLAIN)
            o = {'name': n, 'p': C.gen_params(rng)}
            if s['ops'] and rng.random() < .3:
                o['p'] = dict(s['ops'][-1]['p'])
            if rng.random() < .1 and n[0] != '!':
                o['keep'] = 1
            s['ops'].append(o)
            if n[0] != '!' and rng.random() < .5:
                # the same again after a change, or with other parameters
                if rng.random() < .8:
                    m = rng.choice(['owner', 'owner', 'owner', rng.choice(MUT), rng.choice(REORDER)])
                    s['ops'].append(gen_owner(rng, n) if m == 'owner' else
                                    {'name': m, 'p': C.gen_params(rng)})
                    q = dict(o, p=dict(o['p']))
                else:
                    q = dict(o, p=dict(o['p'], **{rng.choice(['ax', 'k', 's', 'neg', 'none']):
                                                  rng.randrange(2)}))
                q.pop('keep', None)
                s['ops'].append(q)
    else:
        for _ in range(rng.randrange(2, 14)):
            r = rng.random()
            o = {'name': C.even(rng, MUT) if r < .7 else C.even(rng, PLAIN), 'p': C.gen_params(rng)}
            if rng.random() < .3:
                o['fail'] = gen_fail(rng, False)
            if rng.random() < .2:
                o['keep'] = 1
            s['ops'].append(o)
    return s


def valid(script):
    return True


def simpler(script):
    for env in C.simpler_env(script['env']):
        yield dict(script, env=env)
    for i, o in enumerate(script['ops']):
        rest = lambda t: dict(script, ops=script['ops'][:i] + [t] + script['ops'][i + 1:])
        if 'fail' in o:
            t = dict(o)
            del t['fail']
            yield rest(t)
        if o['p'].get('neg') or o['p'].get('none'):
            yield rest(dict(o, p=dict(o['p'], neg=0, none=0)))
    ths = script.get('threads')
    if ths:
        for i, th in enumerate(ths):
            if len(ths) > 2:
                yield dict(script, threads=ths[:i] + ths[i + 1:])
            for j in range(len(th)):
                if len(th) > 1:
                    yield dict(script, threads=ths[:i] + [th[:j] + th[j + 1:]] + ths[i + 1:])


def warm(prop):
    import la
    import la.farray
    try:
        import scipy.special
    except ImportError:
        pass


RULES = {
    'M01': 'a sequence of operations on one set of operands (two larrys, group, array, label lists, '
           'rows, dictionary), half of them with an injected failure: interrupt or lack of memory at '
           'the nth line, C call or library call of la, or the nth large allocation refused by the '
           'allocator; non-trivial: at least one failure was injected',
    'M02': 'two or three threads run one to three operations each on the same operands under a seeded '
           'schedule; non-trivial: at least one preemption took place',
    'M03': 'a pool of larrys, arrays and label lists that grows by the results of operations, whose '
           'owners change members in place; non-trivial: at least one in-place change was made',
    'M04': 'a sequence of in-place (and some other) operations on one larry with rejected arguments, '
           'failing user functions and injected failures; non-trivial: at least one operation failed',
    'M05': 'a history of operations, in-place changes and changes by the owners of the operands in one '
           'process; each operation is repeated on operands rebuilt from their value (and memory '
           'layout) in another process, in the opposite order, and where the two differ once more in '
           'a process without a past; non-trivial: an operation had a past',
}


def rule(prop):
    return RULES[prop]


def state_measure(prop):
    return {'M01': 'distinct (operation, failure mode, whether it fired, outcome, shape)',
            'M02': 'distinct sequences of thread switches (from, to, function:line)',
            'M03': 'distinct (operation, history of the larry it was applied to)',
            'M04': 'distinct (operation, injected failure, exception, shape)',
            'M05': 'distinct (two operations before, operation, outcome)'}[prop]


def components(prop):
    return {'real': ['la', 'numpy', 'bottleneck', "la's C extension built from cflabel.pyx"],
            'simulated': {'M01': ['failures inside la', 'allocator (large allocations refused)'],
                          'M02': ['thread schedule'],
                          'M03': ['the owners of larrys and their order', 'failures inside la'],
                          'M04': ['failures inside la', 'user functions'],
                          'M05': ['the owners of the operands and their order']}[prop]}


def assumptions(prop):
    a = ['operations and parameters come from a catalogue of %d public operations' % len(C.OPS)]
    if prop == 'M02':
        a.append('threads switch at lines of la and at C calls from la, not inside numpy or bottleneck')
    if prop in ('M01', 'M04'):
        a.append('failures strike at lines of la, at calls it makes, or at allocations of 1.5 kB and '
                 'more')
    return a


def unreached(prop, results, merge):
    return []
