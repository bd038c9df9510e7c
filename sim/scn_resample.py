"""R01, R02: train/test splits, shuffles and random larrys under chosen random
streams, interleaved consumers, hostile random functions and failures."""
import random

import numpy as np

import core
import failpoint
import sched
import seams
import values

CAP = 4000


class Stop(Exception):
    "raised by a random function that fails"


# ---- random functions the caller may pass ----------------------------------
def shuffle_fn(c):
    kind, rs = c['fn'], np.random.RandomState(c['fs'])
    if kind == 'rs':
        return rs.shuffle
    if kind == 'py':
        return random.Random(c['fs']).shuffle
    if kind == 'id':
        return lambda x: None
    if kind == 'rev':
        return lambda x: x.reverse()
    if kind == 'rot':
        def f(x):
            k = c['fs'] % len(x)
            x[:] = x[k:] + x[:k]
        return f
    if kind == 'fail':
        def f(x):
            x.reverse()
            raise Stop('random function')
        return f
    return None


class RandInt(object):
    "Behaves like numpy.random.randint; the first `perms` draws use every index."

    def __init__(self, c):
        self.c, self.rs, self.calls, self.seen = c, np.random.RandomState(c['fs']), 0, set()

    def one(self, low, high, size):
        k = self.c['fn']
        n = high - low
        if k == 'rs':
            return self.rs.randint(low, high, size)
        cnt = int(np.prod(size)) if size is not None else 1
        if k == 'zero':
            v = np.zeros(cnt, int)
        elif k == 'top':
            v = np.zeros(cnt, int) + n - 1
        elif k == 'perm' and self.calls <= self.c['perms']:
            v = self.rs.permutation(max(n, cnt))[:cnt] % n
        elif k == 'pair':
            v = np.arange(cnt) % max(n - 1, 1)
        else:
            v = self.rs.randint(0, n, cnt)
        v = v + low
        return v.reshape(size) if size is not None else int(v[0])

    def __call__(self, low, high=None, size=None):
        self.calls += 1
        if self.calls > CAP:
            raise core.Violation('no-progress', 'bootstrap called randint %d times for %d samples'
                                 % (self.calls, self.c['m']))
        if self.c['fn'] == 'fail' and self.calls > self.c['perms']:
            raise Stop('random function')
        if high is None:
            low, high = 0, low
        v = self.one(low, high, size)
        self.seen.update(np.ravel(v).tolist())
        return v


def is_index(v, n):
    return isinstance(v, (int, long, np.integer)) and not isinstance(v, bool) and 0 <= v < n


class Consumer(object):
    def __init__(self, ctx, c, i):
        self.ctx, self.c, self.i = ctx, c, i
        self.start()

    def start(self):
        from la.util.resample import cross_validation, bootstrap
        c = self.c
        self.got, self.done, self.excused = [], False, False
        self.held = []                   # the very lists that were yielded
        self.fn = None
        self.gen = None
        kw = {}
        try:
            if c['kind'] == 'cv':
                self.fn = shuffle_fn(c)
                if self.fn is not None:
                    kw['shuffle'] = self.fn
                self.gen = iter(cross_validation(c['n'], c['m'], **kw))
            else:
                if c['fn'] != 'np':
                    self.fn = kw['randint'] = RandInt(c)
                self.gen = iter(bootstrap(c['n'], c['m'], **kw))
        except ValueError:
            self.rejected()

    def bad_args(self):
        c = self.c
        if c['kind'] == 'cv':
            return c['n'] < 2 or c['m'] < 2 or c['m'] > c['n']
        return c['n'] < 2 or c['m'] < 1

    def rejected(self):
        if not self.bad_args():
            self.ctx.fail('rejected', '%s was rejected' % self)
        self.done = True

    def __str__(self):
        c = self.c
        return '%s(%d, %d, %s)' % ({'cv': 'cross_validation', 'boot': 'bootstrap'}[c['kind']],
                                   c['n'], c['m'], c['fn'])

    def next(self, fp=None, abuse=False):
        "One step; returns what was yielded, None at the end."
        if self.done:
            return None
        c, ctx = self.c, self.ctx
        try:
            if fp is not None:
                try:
                    v = failpoint.run(fp, self.gen.next)
                finally:
                    if fp.fired:
                        ctx.fired('failure in a step')
            else:
                v = self.gen.next()
        except StopIteration:
            self.done = True
            if fp is not None and fp.fired:
                ctx.fail('swallowed', '%s: a failure ended the iteration silently' % self)
            self.finish()
            return None
        except (MemoryError, KeyboardInterrupt):
            if fp is None or not fp.fired:
                raise
            self.done = self.excused = True
            self.after_failure()
            return None
        except Stop:
            self.done = self.excused = True
            ctx.fired('failing random function')
            self.after_failure()
            return None
        except ValueError:
            self.rejected()
            return None
        if self.bad_args():
            ctx.fail('not-rejected', '%s was accepted' % self)
        self.check(v)
        if not abuse:
            self.held.append((v, self.got[-1]))
        if abuse:
            for lst in v:
                lst.reverse()
                lst.append(0)
                del lst[:2]
            ctx.fired('consumer changes the lists it was given')
        return v

    def after_failure(self):
        "A generator that failed must not go on with wrong folds."
        try:
            v = self.gen.next()
        except (StopIteration, Stop):
            return
        self.check(v)

    def check(self, v):
        c, ctx, n = self.c, self.ctx, self.c['n']
        try:
            train, test = v
        except Exception:
            ctx.fail('shape', '%s yielded %r' % (self, v))
        if type(train) != list or type(test) != list:
            ctx.fail('shape', '%s yielded %s, %s' % (self, type(train), type(test)))
        for w in train + test:
            if not is_index(w, n):
                ctx.fail('shape', '%s yielded %r' % (self, w))
        a, b = set(train), set(test)
        if len(b) != len(test) or not test:
            ctx.fail('test-set', '%s: test indices %r' % (self, test))
        if a & b:
            ctx.fail('overlap', '%s: %r are in training and test set' % (self, sorted(a & b)))
        if a | b != set(range(n)):
            ctx.fail('not-covered', '%s: %r are in neither set' %
                     (self, sorted(set(range(n)) - a - b)))
        self.got.append((list(train), list(test)))
        if len(self.got) > c['m']:
            ctx.fail('count', '%s yielded more than %d times' % (self, c['m']))
        if c['kind'] == 'cv':
            if len(a) != len(train):
                ctx.fail('train-set', '%s: training indices %r' % (self, train))
            if len(test) < n // c['m']:
                ctx.fail('fold-size', '%s: a test set of %d' % (self, len(test)))
            for _, t in self.got[:-1]:
                if set(t) & b:
                    ctx.fail('overlap', '%s: %r are in two test sets' % (self, sorted(set(t) & b)))
        else:
            if len(train) != n:
                ctx.fail('train-set', '%s: %d training indices' % (self, len(train)))
            if self.fn is not None and not a <= self.fn.seen:
                ctx.fail('train-set', '%s: %r were never drawn' % (self, sorted(a - self.fn.seen)))
        ctx.count(c['kind'] + '-step')

    def finish(self):
        c = self.c
        for v, was in self.held:
            if (v[0], v[1]) != was:
                self.ctx.fail('changed-later', '%s: a fold that was %r is %r at the end' %
                              (self, was, v))
        if self.bad_args():
            self.ctx.fail('not-rejected', '%s was accepted' % self)
        if len(self.got) != c['m'] and not self.excused:
            self.ctx.fail('count', '%s yielded %d times' % (self, len(self.got)))
        if c['kind'] == 'cv':
            seen = set()
            for _, t in self.got:
                seen |= set(t)
            if seen != set(range(c['n'])):
                self.ctx.fail('not-covered', '%s: %r are in no test set' %
                              (self, sorted(set(range(c['n'])) - seen)))


def use_split(ctx, c, v):
    "split() of an array and a larry by the indices of one step."
    from la import larry
    from la.util.resample import split
    n, axis = c['n'], c['fs'] % 2
    sh = (n, 2) if axis == 0 else (2, n)
    x = np.arange(2 * n).reshape(sh) * 1.5
    lab = [['a%d' % i for i in range(sh[0])], [10 + i for i in range(sh[1])]]
    y = larry(x.copy(), [list(l) for l in lab])
    train, test = v
    t = list(train), list(test)
    for ax in (axis, axis - 2):
        for got, want in zip(split(x, train, test, ax), t):
            if not values.same_array(got, x.take(want, axis)):
                ctx.fail('split', 'split of an array by %r gave %s' % (t, values.show(got)))
    if c['kind'] == 'cv':
        for got, want in zip(split(y, train, test, axis), t):
            wl = list(lab)
            wl[axis] = [lab[axis][i] for i in want]
            if not values.same(got, larry(x.take(want, axis), wl)):
                ctx.fail('split', 'split of a larry by %r gave %s' % (t, values.show(got)))
    if not values.same(y, larry(x, lab)) or (train, test) != t:
        ctx.fail('split', 'split changed its arguments')
    ctx.count('split')


def fp_of(op):
    f = op.get('fail')
    return failpoint.FailPoint(f['mode'], f['n'], f['exc']) if f else None


def noise(k):
    np.random.rand(k % 3 + 1)
    random.random()


def run_consumers(ctx, script, quiet=False):
    "The schedule of steps, then everybody to the end; returns what each got."
    np.random.seed(script['reseed'])
    random.seed(script['reseed'] + (7 if quiet else 0))
    cs = [Consumer(ctx, c, i) for i, c in enumerate(script['cons'])]
    for op in script['ops']:
        k = op['op']
        if k == 'noise':
            noise(op['k'])
            continue
        c = cs[op['i'] % len(cs)]
        if k == 'next':
            v = c.next(fp_of(op), op.get('abuse'))
            if v is not None and op.get('split') and not op.get('abuse'):
                use_split(ctx, c.c, v)
        elif k == 'restart':
            c.start()
        elif k == 'drop':
            c.gen, c.done = None, True
    for c in cs:
        while not c.done:
            c.next()
    if not quiet:
        for c in cs:
            ctx.ev(c.i, c.got)
            ctx.state((c.c['kind'], c.c['n'], c.c['m'], c.c['fn'], [sorted(t) for _, t in c.got]))
    return [c.got for c in cs]


def execute_r01(script, ctx):
    form = script['form']
    if form == 'spread':
        return spread(script, ctx)
    if form == 'threads':
        return threads(script, ctx, lambda: r01_bodies(script, ctx))
    before = None
    got = run_consumers(ctx, script)
    ctx.fired('interleaving of consumers', len(script['cons']) > 1 and len(script['ops']) > 1)
    if run_consumers(ctx, script, True) != got:
        ctx.fail('not-repeatable', 'the same seed and the same calls gave other folds')
    # a consumer with a random function of its own is on its own
    for i, c in enumerate(script['cons']):
        if c['fn'] in ('np', 'fail'):
            continue
        mine = [o for o in script['ops'] if o['op'] != 'noise' and o['i'] % len(script['cons']) == i]
        np.random.seed(script['reseed'] + 1)
        s0 = np.random.get_state()[1].tolist(), np.random.get_state()[2]
        k = Consumer(ctx, c, i)
        for o in mine:
            if o['op'] == 'next':
                k.next(fp_of(o), o.get('abuse'))
            elif o['op'] == 'restart':
                k.start()
            elif o['op'] == 'drop':
                k.gen, k.done = None, True
        while not k.done:
            k.next()
        if k.got != got[i]:
            ctx.fail('not-own', '%s gave other folds next to other consumers' % k)
        if (np.random.get_state()[1].tolist(), np.random.get_state()[2]) != s0:
            ctx.fail('not-own', '%s drew from the global random source' % k)
    ctx.simtime += 1


def r01_bodies(script, ctx):
    np.random.seed(script['reseed'])

    def body(c, i):
        k = Consumer(ctx, c, i)
        while not k.done:
            k.next()
        return k.got
    return [lambda c=c, i=i: body(c, i) for i, c in enumerate(script['cons'])]


def threads(script, ctx, bodies_of):
    counts, total = sched.count(ctx, bodies_of)
    bs = bodies_of()
    s = sched.Scheduler(bs, script['sched'], total)
    outs = s.run()
    ctx.fired('preemption', len(s.switches))
    for sw in s.switches:
        ctx.ev('switch', *sw)
    ctx.state(s.switches)
    for th, o in enumerate(outs):
        if o[0] == 'viol':
            ctx.fail(o[1].cls, 'thread %d: %s' % (th, o[1].msg))
        if o[0] == 'exc':
            ctx.fail('failed', 'thread %d: %s: %s' % (th, o[1], o[2]))
        ctx.ev(th, repr(o[1]))
    ctx.simtime += 1


def wide(script, ctx):
    """With many elements: each can be in every place; the chance of missing one
    by bad luck is below 1e-15."""
    from la.util.resample import cross_validation, bootstrap
    from la import larry
    from la.farray import shuffle
    what, n, k = script['what'], script['n'], script['k']
    seen = set()
    N = 40 * n
    for j in range(N):
        seed = (script['reseed'] * 1000 + j) % 2 ** 32
        np.random.seed(seed)
        rs = np.random.RandomState(seed)
        if what in ('cv', 'cvrs'):
            m = 2 + k % (n - 1)
            f = k % m
            test = list(cross_validation(n, m, *([rs.shuffle] if what == 'cvrs' else [])))[f][1]
            seen.update(test)
        elif what in ('boot', 'bootrs'):
            train = list(bootstrap(n, 1, *([rs.randint] if what == 'bootrs' else [])))[0][0]
            seen.add(train[k % n])
        else:
            y = larry(np.arange(n))
            if what == 'shuffle':
                y.shuffle()
                seen.add(y.x[k % n])
            elif what == 'shufflelabel':
                y.shufflelabel(0)
                seen.add(y.label[0][k % n])
            else:
                shuffle(y.x, 0)
                seen.add(y.x[k % n])
    ctx.ev(what, n, sorted(seen))
    ctx.state((what, n))
    ctx.count('wide')
    ctx.simtime += N
    ctx.nontrivial = True
    if seen != set(range(n)):
        ctx.fail('not-random', '%s of %d: %r never took a certain place in %d draws'
                 % (what, n, sorted(set(range(n)) - seen)[:5], N))


def joint(script, ctx):
    "The orders along two axes shuffled at once are independent."
    from la import larry
    seen = {}
    N, n = 1400, script['n']
    for j in range(N):
        np.random.seed((script['reseed'] * 1000 + j) % 2 ** 32)
        y = larry(np.arange(3 * n).reshape(3, n))
        if script['what'] == 'shuffle':
            y.shuffle(None)
            v = tuple((y.x[:, 0] / n).tolist()), tuple((y.x[0] % n).tolist())
        else:
            y.shufflelabel(None)
            v = tuple(y.label[0]), tuple(y.label[1])
        seen[v] = seen.get(v, 0) + 1
    ctx.ev(sorted(seen.items()))
    ctx.state((script['what'], n, len(seen)))
    ctx.count('joint')
    ctx.simtime += N
    ctx.nontrivial = True
    if len(seen) < (36 if n == 3 else 12):
        ctx.fail('not-random', '%s along both axes: only %d orders occurred in %d draws'
                 % (script['what'], len(seen), N))


def spread(script, ctx):
    if script.get('size') == 'wide':
        return wide(script, ctx)
    if script.get('size') == 'joint':
        return joint(script, ctx)
    return narrow(script, ctx)


def narrow(script, ctx):
    """Every division must be reachable; the chance of missing one by bad luck
    is below 1e-12."""
    from la.util.resample import cross_validation, bootstrap
    from la import larry
    from la.farray import shuffle
    what = script['what']
    seen = {}
    N = 700
    for j in range(N):
        np.random.seed((script['reseed'] * 1000 + j) % 2 ** 32)
        rs = np.random.RandomState((script['reseed'] * 1000 + j) % 2 ** 32)
        if what == 'cv':
            v = tuple(sorted(list(cross_validation(4, 2))[script['k'] % 2][1]))
            want = 6
        elif what == 'cvrs':
            v = tuple(sorted(list(cross_validation(5, 5, rs.shuffle))[script['k'] % 5][1]))
            want = 5
        elif what == 'boot':
            v = tuple(list(bootstrap(3, 1 + script['k'] % 2))[-1][0])
            want = 21
        elif what == 'bootrs':
            v = tuple(list(bootstrap(3, 1, rs.randint))[-1][0])
            want = 21
        elif what in ('shuffle', 'shufflelabel', 'array'):
            # the order along axis `ax` of an array of `nd` dimensions
            nd, ax, n = script['nd'], script['ax'], script['n']
            sh = [2 + (i + script['k']) % 2 for i in range(nd)]
            sh[ax] = n
            want = 6 if n == 3 else 24
            x = np.arange(int(np.prod(sh))).reshape(sh)
            arg = None if script['none'] else ax - nd if script['k'] % 2 else ax
            if what == 'array':
                if script['k'] % 3 == 2:
                    big = np.empty([2 * m for m in sh], int)
                    big[[slice(0, None, 2)] * nd] = x
                    x = big[[slice(0, None, 2)] * nd]
                shuffle(x, ax if arg is None else arg)
            else:
                y = larry(x)
                if what == 'shuffle':
                    y.shuffle(arg)
                    x = y.x
                else:
                    y.shufflelabel(arg)
                    x = None
            if x is None:
                v = tuple(y.label[ax])
            else:
                line = np.rollaxis(x, ax).reshape(n, -1)[:, 0]
                v = tuple((line / int(np.prod(sh[ax + 1:])) % n).tolist())
        seen[v] = seen.get(v, 0) + 1
    ctx.ev(what, sorted(seen.items()))
    ctx.state((what, script['k'] % 2, len(seen)))
    ctx.count('spread')
    ctx.simtime += N
    ctx.nontrivial = True
    if len(seen) < want:
        ctx.fail('not-random', '%s: only %d of %d possible outcomes occurred in %d draws'
                 % (what, len(seen), want, N))
    if what in ('cv', 'cvrs', 'shuffle', 'shufflelabel', 'array'):
        p = 1. / want
        dev = 8 * (N * p * (1 - p)) ** .5
        for v, m in seen.items():
            if abs(m - N * p) > dev:
                ctx.fail('not-random', '%s: outcome %r occurred %d times in %d draws'
                         % (what, v, m, N))


# ---- R02 ---------------------------------------------------------------------
def explained(x0, x1, axes):
    """x1 arises from x0 by permutations of whole slices along axes.  Values of
    x0 are distinct unless the dtype cannot hold enough of them."""
    if x0.dtype != x1.dtype or x0.shape != x1.shape:
        return False
    if not x0.size:
        return True
    flat = [repr(v) for v in x0.ravel().tolist()]
    out = [repr(v) for v in x1.ravel().tolist()]
    if sorted(flat) != sorted(out):
        return False
    if len(set(flat)) < len(flat):
        for ax in range(x0.ndim):
            if ax not in axes and len(axes) == 1:
                # whole slices along the one axis
                a, b = np.rollaxis(x0, axes[0]), np.rollaxis(x1, axes[0])
                return sorted(repr(s.tolist()) for s in a) == sorted(repr(s.tolist()) for s in b)
        return True
    pos = dict((v, i) for i, v in enumerate(flat))
    idx = np.array(np.unravel_index([pos[v] for v in out], x0.shape)).reshape((x0.ndim,) + x0.shape)
    for ax in range(x0.ndim):
        mv = np.rollaxis(idx[ax], ax).reshape(x0.shape[ax], -1)
        if not (mv == mv[:, :1]).all():
            return False
        p = mv[:, 0].tolist()
        if sorted(p) != range(x0.shape[ax]):
            return False
        if ax not in axes and p != range(x0.shape[ax]):
            return False
    return True


def make_r02(spec):
    from la import larry
    if spec.get('dt') == 'O':
        y = values.make(dict(spec, dt='i8'))
        x = y.x.astype(object)
        x.flat = ['v%d' % v for v in y.x.ravel().tolist()]
        return larry(x, y.label)
    y = values.make(spec)
    return y


def step_r02(ctx, y, op, check=True):
    "Apply one operation to the larry, checking it; returns the larry."
    from la.farray import shuffle
    x0, l0 = y.x.copy(), [list(l) for l in y.label]
    k, axis = op['op'], op.get('axis')
    nd = y.ndim
    good = (axis is None and k != 'array') or (axis is not None and -nd <= axis < nd)
    fp = fp_of(op)
    target, whole = y.x, None
    if k == 'array' and op.get('view'):
        whole = np.empty(tuple(2 * n + 1 for n in y.shape), y.x.dtype)
        whole.fill('' if y.x.dtype.kind in 'SO' else 0)
        target = whole[tuple(slice(1, 2 * n + 1, 2) for n in y.shape)]
        target[...] = y.x
    if k == 'shuffle':
        call = lambda: y.shuffle(axis) if op.get('pos') else y.shuffle(axis=axis)
    elif k == 'shufflelabel':
        call = lambda: y.shufflelabel(axis)
    elif k == 'default':
        call, axis, k = (lambda: y.shuffle()), 0, 'shuffle'
        good = nd > 0
    elif k == 'array':
        call = lambda: shuffle(target, axis)
    err = None
    try:
        r = failpoint.run(fp, call) if fp else call()
    except (MemoryError, KeyboardInterrupt):
        if fp is None or not fp.fired:
            raise
        err = 'injected'
    except Exception as e:
        err = e
    if fp is not None and fp.fired:
        ctx.fired('failure in a shuffle')
    x1 = y.x
    if err is None and r is not None:
        ctx.fail('returned', '%s returned %s' % (op, values.show(r)))
    if k == 'array' and whole is not None:
        x1 = np.array(target)
        mask = np.ones(whole.shape, bool)
        mask[tuple(slice(1, 2 * n + 1, 2) for n in y.shape)] = False
        if err is None and any(v not in ('', 0, False) for v in whole[mask].tolist()):
            ctx.fail('outside', 'shuffling a view changed elements outside it')
        if not values.same_array(x0, y.x):
            ctx.fail('outside', 'shuffling another array changed the larry')
    axes = list(range(nd)) if axis is None else [axis % nd] if good else []
    if not good:
        ctx.fired('bad axis')
        if err is None:
            ctx.fail('not-rejected', '%s on %d dimensions was accepted' % (op, nd))
        if not values.same_array(x0, y.x) or not values.same_label(l0, y.label):
            ctx.fail('damaged', '%s was rejected but changed the larry' % op)
    else:
        if err is not None and err != 'injected' and 0 not in y.shape:
            ctx.fail('rejected', '%s: %s: %s' % (op, type(err).__name__, err))
        if k == 'shufflelabel':
            if not values.same_array(x0, y.x):
                ctx.fail('data-changed', '%s changed the data' % op)
            if type(y.label) != list or len(y.label) != nd:
                ctx.fail('not-a-permutation', '%s: label is %r' % (op, y.label))
            for ax in range(nd):
                a, b = l0[ax], y.label[ax]
                ok = type(b) == list and len(a) == len(b) and \
                    sorted(map(repr, a)) == sorted(map(repr, b))
                if not ok or (ax not in axes and a != b):
                    ctx.fail('not-a-permutation', '%s: label %d was %r, is %r' % (op, ax, a, b))
        else:
            if not values.same_label(l0, y.label):
                ctx.fail('label-changed', '%s changed the labels' % op)
            if not explained(x0, x1, axes):
                ctx.fail('not-a-permutation', '%s: %s became %s'
                         % (op, x0.tolist(), x1.tolist()))
    ctx.count(k)
    ctx.ev(op['op'], axis, repr(x1.tolist()), repr(y.label), err and str(err))
    ctx.state((k, axis, y.shape, x1.dtype.str, fp is not None and fp.fired, repr(x1.tolist())))
    return y


def random_larry(ctx, op):
    import la
    f = la.rand if op['which'] == 'rand' else la.randn
    key = op['which']
    sh = tuple(op['sh'])
    kw, args = {}, ()
    lab = None
    rs = np.random.RandomState(op['fs'])
    calls = []
    if op.get('own'):
        def own(*a):
            v = getattr(rs, key)(*a)
            calls.append(v)
            return v
        kw[key] = own
    if op.get('label'):
        lab = [values.label('str', n) for n in sh]
        kw['label'] = [list(l) for l in lab]
        if op.get('pos'):
            args = sh
    else:
        args = sh
    s0 = np.random.get_state()[2]
    y = f(*args, **kw)
    if op.get('own') and np.random.get_state()[2] != s0:
        ctx.fail('not-own', '%s drew from the global random source' % op)
    if not isinstance(y, la.larry):
        ctx.fail('shape', '%s gave %s' % (op, values.show(y)))
    want = lab or [range(n) for n in sh]
    if y.shape != sh or not values.same_label(y.label, want) or y.dtype != np.dtype('f8'):
        ctx.fail('shape', '%s gave %s' % (op, values.show(y)))
    if calls and not values.same_array(y.x, calls[-1]):
        ctx.fail('not-own', '%s does not hold what the function returned' % op)
    if op.get('own') and not calls:
        ctx.fail('not-own', '%s did not use the function' % op)
    x = y.x.ravel()
    if key == 'rand' and ((x < 0) | (x >= 1)).any():
        ctx.fail('range', '%s gave %s' % (op, values.show(y)))
    if len(set(x.tolist())) < x.size:
        ctx.fail('range', '%s gave equal elements' % op)
    ctx.count(key)
    return y


def history_r02(ctx, script):
    np.random.seed(script['reseed'])
    y = make_r02(script['v'])
    keep = y.copy()
    k0 = keep.x.copy(), [list(l) for l in keep.label]
    out = []
    for op in script['ops']:
        if op['op'] == 'noise':
            noise(op['k'])
        elif op['op'] == 'random':
            r = random_larry(ctx, op)
            out.append((repr(r.x.tolist()), repr(r.label)))
        else:
            step_r02(ctx, y, op)
            out.append((repr(y.x.tolist()), repr(y.label)))
    if not values.same_array(keep.x, k0[0]) or not values.same_label(keep.label, k0[1]):
        ctx.fail('copy-changed', 'shuffling a larry changed a copy of it')
    return out


def execute_r02(script, ctx):
    form = script['form']
    if form == 'spread':
        return spread(script, ctx)
    if form == 'threads':
        def bodies():
            np.random.seed(script['reseed'])

            def body(th):
                y = make_r02(script['v'])
                for op in script['ops']:
                    if op['op'] not in ('noise', 'random') and op.get('th', 0) % 2 == th:
                        step_r02(ctx, y, dict(op, fail=None))
                return repr(y.x.tolist()), repr(y.label)
            return [lambda: body(0), lambda: body(1)]
        return threads(script, ctx, bodies)
    random.seed(1)
    a = history_r02(ctx, script)
    random.seed(2)
    b = history_r02(ctx, script)
    ctx.fired('history repeated with the same seed')
    if a != b:
        ctx.fail('not-repeatable', 'the same seed and the same calls gave another result')
    ctx.simtime += 1


def execute(script, ctx):
    if script['prop'] == 'R01':
        execute_r01(script, ctx)
    else:
        execute_r02(script, ctx)


# ---- generation ------------------------------------------------------------------
def gen_fail(rng):
    mode = rng.choice(['line', 'line', 'ccall', 'call'])
    return {'mode': mode, 'n': rng.randrange(1, 14), 'exc': rng.choice(['mem', 'int'])}


def gen_consumer(rng):
    kind = rng.choice(['cv', 'cv', 'boot'])
    r = rng.random()
    c = {'kind': kind, 'fs': rng.randrange(1, 10 ** 6)}
    if kind == 'cv':
        c['n'] = rng.choice([2, 3, 4, 5, 7, 10, 11, rng.randrange(2, 40), rng.randrange(2, 130)])
        c['m'] = rng.choice([2, 3, c['n'], rng.randrange(2, c['n'] + 1)])
        c['m'] = min(c['m'], c['n'])
        if r < .06:
            c['n'], c['m'] = rng.choice([(1, 1), (0, 2), (3, 1), (2, 3), (5, 6), (3, 0), (-1, 2)])
        c['fn'] = rng.choice(['np', 'np', 'rs', 'rs', 'py', 'id', 'rev', 'rot', 'fail'])
    else:
        c['n'] = rng.choice([2, 2, 3, 4, 5, 8, rng.randrange(2, 40)])
        c['m'] = rng.choice([1, 1, 2, 3, 5, 8, rng.randrange(1, 20)])
        if r < .06:
            c['n'], c['m'] = rng.choice([(1, 1), (0, 2), (3, 0), (2, -1)])
        c['fn'] = rng.choice(['np', 'np', 'rs', 'rs', 'zero', 'top', 'perm', 'pair', 'fail'])
        c['perms'] = rng.randrange(0, 6)
    return c


def generate(rng, prop, tier):
    r = rng.random()
    if prop == 'R01':
        if r < .015:
            return {'form': 'spread', 'what': rng.choice(['cv', 'cvrs', 'boot', 'bootrs']),
                    'size': 'wide', 'n': rng.choice([2, 6, 9, 13, rng.randrange(2, 41)]),
                    'k': rng.randrange(1000), 'ops': []}
        if r < .03:
            return {'form': 'spread', 'what': rng.choice(['cv', 'cvrs', 'boot', 'bootrs']),
                    'k': rng.randrange(10), 'ops': []}
        cons = [gen_consumer(rng) for _ in range(rng.choice([1, 2, 2, 3, 4]))]
        if r < .2:
            for c in cons:
                c['n'] = min(c['n'], 12)
                c['m'] = min(c['m'], 12)
                if c['fn'] == 'fail':
                    c['fn'] = 'np'
            cons.append(gen_consumer(rng))
            cons[-1].update(n=5, m=3, fn='rs')
            return {'form': 'threads', 'cons': cons, 'ops': [], 'sched': sched.gen(rng)}
        ops = []
        for _ in range(rng.randrange(0, 14)):
            o = {'op': rng.choice(['next'] * 8 + ['noise', 'noise', 'restart', 'drop']),
                 'i': rng.randrange(len(cons)), 'k': rng.randrange(5)}
            if o['op'] == 'next':
                if rng.random() < .2:
                    o['abuse'] = 1
                if rng.random() < .3:
                    o['split'] = 1
                if rng.random() < .12:
                    o['fail'] = gen_fail(rng)
            ops.append(o)
        return {'form': 'steps', 'cons': cons, 'ops': ops}
    if r < .02:
        size = rng.choice(['wide', 'joint'])
        return {'form': 'spread', 'size': size, 'ops': [], 'k': rng.randrange(1000),
                'n': rng.choice([2, 3]) if size == 'joint' else rng.choice([6, 9, rng.randrange(2, 41)]),
                'what': rng.choice(['shuffle', 'shufflelabel'] + ['array'] * (size == 'wide'))}
    if r < .05:
        nd = rng.choice([1, 2, 2, 3, 3, 4])
        return {'form': 'spread', 'k': rng.randrange(6), 'ops': [], 'nd': nd,
                'ax': rng.randrange(nd), 'n': rng.choice([3, 3, 4]), 'none': rng.random() < .25,
                'what': rng.choice(['shuffle', 'shuffle', 'shufflelabel', 'array'])}
    v = values.spec(rng, ndims=(1, 1, 2, 2, 3, 4), maxn=5,
                    dts=['f8', 'f8', 'i8', 'f4', 'i4', 'S3', 'c16', '>f8', 'b1', 'O', 'O'])
    v.pop('nan', None)
    nd = len(v['sh'])
    if v['dt'] == 'O':
        v.pop('ord', None)
    ops = []
    for _ in range(rng.randrange(1, 7)):
        k = rng.choice(['shuffle'] * 5 + ['shufflelabel'] * 4 + ['default', 'array', 'array',
                                                                'noise', 'random'])
        o = {'op': k, 'th': rng.randrange(2)}
        if k in ('shuffle', 'shufflelabel', 'array'):
            o['axis'] = rng.choice([None, 0, nd - 1, rng.randrange(-nd, nd), rng.randrange(nd)])
            if k == 'array' and o['axis'] is None:
                o['axis'] = 0
            if rng.random() < .1:
                o['axis'] = rng.choice([nd, nd + 3, -nd - 1, -nd - 7])
            elif rng.random() < .15:
                o['fail'] = gen_fail(rng)
            if rng.random() < .5:
                o['pos'] = o['view'] = 1
        elif k == 'noise':
            o['k'] = rng.randrange(5)
        elif k == 'random':
            o.update(which=rng.choice(['rand', 'randn']), fs=rng.randrange(10 ** 6),
                     sh=[rng.randrange(1, 4) for _ in range(rng.randrange(1, 4))])
            for f in ('own', 'label', 'pos'):
                if rng.random() < .5:
                    o[f] = 1
        ops.append(o)
    s = {'form': 'history', 'v': v, 'ops': ops}
    if r < .15:
        s.update(form='threads', sched=sched.gen(rng))
    return s


def valid(script):
    return True


def simpler(script):
    for i, o in enumerate(script.get('ops') or []):
        for f in ('fail', 'abuse', 'split', 'view', 'pos'):
            if f in o:
                t = dict(o)
                del t[f]
                yield dict(script, ops=script['ops'][:i] + [t] + script['ops'][i + 1:])
    cons = script.get('cons') or []
    for i, c in enumerate(cons):
        if len(cons) > 1:
            yield dict(script, cons=cons[:i] + cons[i + 1:])
        for n, m in ((4, 2), (5, 2), (5, 3)):
            if c['n'] > n:
                yield dict(script, cons=cons[:i] + [dict(c, n=n, m=min(m, c['m']))] + cons[i + 1:])
    v = script.get('v')
    if v and (v.get('off') or v.get('ord') or v['dt'] != 'i8'):
        yield dict(script, v={'sh': v['sh'], 'lab': v['lab'], 'dt': 'i8', 'tag': 1})


def warm(prop):
    import la
    import la.util.resample


def rule(prop):
    if prop == 'R01':
        return ('one to five consumers of cross_validation and bootstrap, interleaved step by step '
                'or as threads under a seeded schedule, over seeded random streams and hostile random '
                'functions, with failures inside a step; non-trivial: an interleaving, failure or '
                'hostile act took place')
    return ('a history of shuffles and random larrys on one larry, run twice from the same seed, or '
            'as threads; with bad axes and failures inside; non-trivial: a history of at least one '
            'operation was repeated, or threads were preempted')


def state_measure(prop):
    if prop == 'R01':
        return 'distinct (kind, n, k, random function, test sets) and distinct thread switch sequences'
    return 'distinct (operation, axis, shape, dtype, failure, resulting data)'


def components(prop):
    return {'real': ['la', 'numpy'],
            'simulated': ['the random stream (seeded, or chosen by hostile functions)',
                          'thread schedule', 'failures at lines and calls of la']}


def assumptions(prop):
    return ["the random stream is numpy's generator under many seeds, plus functions the caller "
            'passes; hostile values cannot be fed to the global numpy source itself',
            'threads switch at lines of la and at C calls from la']


def unreached(prop, results, merge):
    return []
