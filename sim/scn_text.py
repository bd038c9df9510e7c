"""T01, T02: exporting to and importing from text files on a simulated disk."""
import csv
import errno
import os
import StringIO

import numpy as np

import core
import failpoint
import seams
import values
from seams import sd

FILES = ['one.csv', 'two.txt']
ODD = ['a,b', '"q"', 'x\ny', '', ' lead', 'tab\tz', 'c\rd', "it's", '#n', '\xc3\xa9', 'a;b', 'plain']
NUMERIC = ['f8', 'f8', 'f8', 'i8', 'f4', 'i4', 'u1', 'f2', '>f8']


def make(spec):
    l = values.make(spec)
    for ax, k in enumerate(spec['lab']):
        if k == 'odd2':
            n = len(l.label[ax])
            o = (spec.get('odd') or 0)
            l.label[ax] = [ODD[(o + i) % len(ODD)] for i in range(n)]
    return l


def text(v):
    return repr(v) if isinstance(v, float) else str(v)


def rows_of(l):
    "What a complete csv export holds: one row for each element, in order."
    out = []
    x = l.x
    for idx in np.ndindex(*x.shape):
        out.append([text(l.label[ax][i]) for ax, i in enumerate(idx)] + [x[idx]])
    return out


def from_rows(rows):
    "The larry that a csv file with these rows holds: (array, labels)."
    nd = len(rows[0]) - 1
    lab = [sorted(set(r[ax] for r in rows)) for ax in range(nd)]
    x = np.empty([len(z) for z in lab])
    x.fill(np.nan)
    for r in rows:
        x[tuple(lab[ax].index(r[ax]) for ax in range(nd))] = float(r[-1])
    return x, lab


def same_value(s, v):
    if isinstance(v, (bool, np.bool_)) or isinstance(v, str):
        return s == str(v)
    if isinstance(v, (int, long, np.integer)) and s.lstrip('-').isdigit():
        return int(s) == int(v)
    try:
        f = float(s)
    except ValueError:
        return False
    if isinstance(v, (int, long, np.integer)):
        return f == int(v) and abs(f) < 2 ** 53
    if f != f:
        return v != v
    return f == float(v)


def raw_text(l, delim):
    "What a complete tofile dump holds."
    if l.ndim == 1:
        return ''.join(str(a) + delim + str(b) + '\n' for a, b in zip(l.label[0], l.x))
    out = delim + delim.join(str(c) for c in l.label[1]) + '\n'
    for i in range(l.shape[0]):
        out += delim.join([str(l.label[0][i])] + [str(l.x[i, j]) for j in range(l.shape[1])]) + '\n'
    return out


class Client(object):
    def __init__(self, ctx, state, prop):
        self.ctx, self.state, self.prop = ctx, state, prop
        sd.sim_enable(1)

    def attempt(self, call, fault):
        self.fired = self.close_failed = False
        fi = fp = None
        t = (fault or {}).get('t')
        if t in ('disk', 'crash'):
            fi = sd.sim_fault(fault['cls'], fault['nth'], fault['act'], fault['arg'],
                              fault.get('sticky', 0), '')
        elif t == 'quota':
            sd.sim_quota(fault['n'])
        elif t == 'fp':
            fp = failpoint.FailPoint(fault['mode'], fault['nth'], fault['exc'], '')
        try:
            try:
                out = ('ok', failpoint.run(fp, call) if fp else call())
                fds = sd.sim_open_fds()
            except (Exception, KeyboardInterrupt) as e:
                fds = sd.sim_open_fds()
                out = ('exc', type(e).__name__, str(e)[:200])
        finally:
            denied = sd.sim_quota_denied() if t == 'quota' else 0
            nf = sd.sim_fault_fired(fi) if fi is not None else 0
            sd.sim_faults_clear()
        sys_exc_clear()
        if nf:
            self.fired = True
            self.ctx.fired('%s-%s%s' % (seams.CLASSNAME[fault['cls']], seams.ACTIONNAME[fault['act']],
                                        '-' + errno.errorcode.get(fault['arg'], '')
                                        if fault['act'] == seams.ERR else ''), nf)
        if denied:
            self.fired = True
            self.ctx.fired('disk-full')
        if fp is not None and fp.fired:
            self.fired = True
            self.close_failed = fp.where.split(' ')[-1] in ('close', '__enter__', '__exit__')
            self.ctx.fired('interrupt-%s-%s' % (fault['mode'], fault['exc']))
        return out, fds

    def step(self, n, op):
        import la
        ctx, name = self.ctx, op['op']
        path = ctx.root + FILES[op['file']]
        f = op.get('f')
        quiet = (f or {}).get('act') == seams.SHORT or (f or {}).get('arg') == errno.EINTR
        delim = op.get('d', ',')
        if name == 'damage':
            return self.damage(op)
        if name in ('tocsv', 'tofile', 'handle'):
            l = make(op['v'])
            keep = l.copy()
            held = {}
            self.state[FILES[op['file']]] = None
            if name == 'tocsv':
                call = lambda: l.tocsv(path, delimiter=delim)
            elif name == 'tofile':
                call = lambda: l.tofile(path, delimiter=delim)
            else:
                def call():
                    held['h'] = open(path, 'w')
                    held['h'].write('# head\n')
                    l.tofile(held['h'], delimiter=delim)
                    if held['h'].closed:
                        ctx.fail('handle-closed', 'tofile closed the open file it was given')
                    held['h'].close()
            reject = name != 'tocsv' and l.ndim > 2
            out, fds = self.attempt(call, f)
            ctx.count(name)
            ctx.ev(n, name, out[0], out[1] if out[0] == 'exc' else '', self.fired)
            if 'h' in held:
                try:
                    held['h'].close()
                except Exception:
                    pass
            elif fds and not self.close_failed:
                ctx.fail('not-released', '%s left %d file(s) open (%s)' % (name, fds, out[0]))
            if not values.same(l, keep):
                ctx.fail('changed', '%s changed the larry' % name)
            if out[0] == 'ok':
                if reject:
                    ctx.fail('not-rejected', '%s of %d dimensions was accepted' % (name, l.ndim))
                self.complete(name, path, l, delim)
                if name == 'tocsv':
                    self.state[FILES[op['file']]] = (op['v'], delim)
            elif not self.fired and not reject:
                ctx.fail('op-failed', '%s raised %s: %s' % (name, out[1], out[2]))
        elif name == 'fromcsv':
            st = self.state.get(FILES[op['file']])
            if st is None or not os.path.exists(path):
                return
            v, delim = st[:2]
            rows = rows_of(make(v))
            data = open(path, 'rb').read()
            skip = op.get('skip', 0) if op.get('skip', 0) < len(rows) else 0
            call = lambda: la.larry.fromcsv(path, delimiter=delim, skiprows=skip)
            out, fds = self.attempt(call, f)
            ctx.count('fromcsv' if len(st) == 2 else 'fromcsv-torn')
            ctx.ev(n, 'fromcsv', out[0], out[1] if out[0] == 'exc' else '', self.fired)
            if fds and not self.close_failed:
                ctx.fail('not-released', 'fromcsv left %d file(s) open (%s)' % (fds, out[0]))
            if open(path, 'rb').read() != data:
                ctx.fail('read-modifies', 'fromcsv changed the file')
            if len(st) == 3:
                self.judge(out, data, v, delim, skip)
            elif out[0] == 'ok':
                self.right(out[1], rows[skip:], v)
            elif not self.fired and len(st) == 2 and rows and v['dt'] in NUMERIC:
                ctx.fail('op-failed', 'fromcsv raised %s: %s' % (out[1], out[2]))
        ctx.state((name, out[0], self.fired, (f or {}).get('t'), (f or {}).get('nth')))

    def judge(self, out, data, v, delim, skip):
        "fromcsv of a file that was cut or damaged: what is there, all of it, or an exception."
        try:
            rows = list(csv.reader(StringIO.StringIO(data), delimiter=delim))[skip:]
            xs = [float(r[-1]) for r in rows]
            good = len(set(len(r) for r in rows)) < 2 and all(len(r) > 1 for r in rows)
        except (csv.Error, ValueError, IndexError):
            good = False
        if not good:
            self.ctx.probe('damage-to-be-noticed')
            if out[0] == 'ok' and not self.fired:
                self.ctx.fail('damage-accepted', 'fromcsv of a damaged file, %r..., gave %s' % (
                    data[-60:], values.show(out[1])))
            return
        if not rows or len(set(tuple(r[:-1]) for r in rows)) < len(rows):
            return
        if out[0] == 'ok':
            self.right(out[1], rows, dict(v, dt='f8'))
        elif not self.fired:
            self.ctx.fail('op-failed', 'fromcsv raised %s: %s' % (out[1], out[2]))

    def damage(self, op):
        "Something outside la cuts or damages the file."
        name = FILES[op['file']]
        path = self.ctx.root + name
        st = self.state.get(name)
        if st is None or not os.path.exists(path):
            return
        sd.sim_enable(0)
        data = open(path, 'rb').read()
        how, delim = op['how'], st[1]
        at = len(data) * op['at'] // 1000
        if how == 'cut':
            data = data[:at]
        elif how == 'cut-value':          # the file ends right after a label
            i = data.rfind(delim, 0, at + 1)
            data = data[:i] if i > 0 else data
        elif how == 'lose':               # a piece in the middle is gone
            data = data[:at] + data[at + op['n']:]
        elif how == 'junk':
            data = data[:at] + op['by'] + data[at + op['n'] % 3:]
        elif how == 'line':
            i = data.rfind('\n', 0, at + 1) + 1
            data = data[:i] + op['by'] + '\n' + data[i:]
        open(path, 'wb').write(data)
        sd.sim_enable(1)
        self.state[name] = (st[0], delim, 'damaged')
        self.ctx.fired('file-damaged-' + how)

    def complete(self, name, path, l, delim):
        ctx = self.ctx
        sd.sim_enable(0)
        data = open(path, 'rb').read()
        sd.sim_enable(1)
        if name != 'tocsv':
            want = ('# head\n' if name == 'handle' else '') + raw_text(l, delim)
            if data != want:
                ctx.fail('incomplete', '%s returned but the file has %d bytes, %r..., not %d' % (
                    name, len(data), data[-40:], len(want)))
            return
        got = list(csv.reader(data.splitlines(True), delimiter=delim)) if data else []
        want = rows_of(l)
        good = len(got) == len(want) and all(
            len(g) == len(w) and g[:-1] == w[:-1] and same_value(g[-1], w[-1])
            for g, w in zip(got, want))
        if not good:
            for i, (g, w) in enumerate(zip(got, want)):
                if g[:-1] != w[:-1] or not same_value(g[-1], w[-1]):
                    break
            else:
                i = min(len(got), len(want))
            ctx.fail('incomplete', 'tocsv returned but the file has %d rows of %d; row %d is %r, '
                     'not %r' % (len(got), len(want), i, got[i:i + 1], want[i:i + 1]))

    def right(self, got, rows, v):
        import la
        ctx = self.ctx
        if v['dt'] not in NUMERIC:
            return
        if not isinstance(got, la.larry):
            ctx.fail('wrong-value', 'fromcsv gave %r' % (got,))
        if not rows:
            if got.size:
                ctx.fail('wrong-value', 'fromcsv of an empty file gave %s' % values.show(got))
            return
        x, lab = from_rows(rows)
        if not values.same_array(got.x, x) or not values.same_label(got.label, lab):
            ctx.fail('wrong-value', 'fromcsv gave %s, the file holds %s %s' % (
                values.show(got), x.tolist(), lab))


def sys_exc_clear():
    import sys
    sys.exc_clear()


def execute(script, ctx):
    state = {}
    ops = script['ops']
    i = 0
    while i < len(ops):
        def seg(emit, i=i):
            c = Client(ctx, state, script['prop'])
            for n in range(i, len(ops)):
                emit('at', n)
                c.step(n, ops[n])
                emit('state', c.state)
        status, out = ctx.segment(seg)
        for o in out:
            if o[0] == 'state':
                state = o[1]
            elif o[0] == 'at':
                i = o[1]
        if status == 'crashed':
            # a crash in the middle of an export: what is in the file is torn
            op = ops[i]
            ctx.fired('crash-' + seams.ACTIONNAME[op['f']['act']])
            state[FILES[op['file']]] = None
            if op['op'] == 'tocsv' and os.path.exists(ctx.root + FILES[op['file']]):
                state[FILES[op['file']]] = (op['v'], op.get('d', ','), 'torn')
        elif status != 'done':
            ctx.fail('died', 'the process ended with ' + status)
        i += 1
        if status == 'done':
            break


def spec(rng, prop):
    v = values.spec(rng, ndims=(1, 1, 2, 2, 3), maxn=rng.choice([3, 6, 40]), zero=.03,
                    dts=NUMERIC if prop == 'T02' or rng.random() < .7 else NUMERIC + ['b1', 'S3'])
    big = 1
    for n in v['sh']:
        big *= n
    if prop == 'T01' and rng.random() < .04:
        v['sh'] = rng.choice([[2, 100], [1, 300], [2, 3, 70], [300], [70, 2]])
        v['lab'] = [rng.choice(['str', 'int', 'float', 'datetime']) for _ in v['sh']]
        v.pop('off', None)
    elif prop == 'T02' and rng.random() < .02:
        v['sh'] = [rng.randrange(5000, 9000)]
        v['lab'] = [rng.choice(['str', 'int', 'float', 'datetime'])]
        v.pop('off', None)
    elif big > 3000:
        v['sh'] = [min(n, 9) for n in v['sh']]
    for ax in range(len(v['sh'])):
        if rng.random() < .3 and v['sh'][ax] <= len(ODD):
            v['lab'][ax] = 'odd2'
            v['odd'] = rng.randrange(len(ODD))
    return v


def fault(rng, name):
    r = rng.random()
    if r < .12:
        return {'t': 'fp', 'mode': rng.choice(['call', 'ccall']), 'nth': rng.randrange(1, rng.choice([5, 40])),
                'exc': rng.choice(['mem', 'int'])}
    if name == 'fromcsv':
        if r < .6:
            return {'t': 'disk', 'cls': seams.READ, 'nth': rng.randrange(1, rng.choice([3, 3, 12])), 'act': seams.ERR,
                    'arg': rng.choice([errno.EIO, errno.EIO, errno.EINTR]),
                    'sticky': int(rng.random() < .5)}
        if r < .92:
            return {'t': 'disk', 'cls': seams.READ, 'nth': rng.randrange(1, 3), 'act': seams.SHORT,
                    'arg': rng.randrange(1, 50), 'sticky': int(rng.random() < .6)}
        return {'t': 'disk', 'cls': seams.OPEN, 'nth': 1, 'act': seams.ERR, 'arg': errno.EACCES}
    if r < .35:
        return {'t': 'quota', 'n': rng.choice([0, 10, rng.randrange(500), rng.randrange(20000)])}
    if r < .55:
        return {'t': 'disk', 'cls': seams.WRITE, 'nth': rng.randrange(1, rng.choice([2, 3, 6])), 'act': seams.ERR,
                'arg': rng.choice([errno.EIO, errno.ENOSPC, errno.EDQUOT, errno.EINTR]),
                'sticky': int(rng.random() < .4)}
    if r < .7:
        return {'t': 'disk', 'cls': seams.WRITE, 'nth': 1, 'act': seams.SHORT, 'arg': rng.randrange(1, 60),
                'sticky': int(rng.random() < .6)}
    if r < .8:
        return {'t': 'disk', 'cls': rng.choice([seams.CREATE, seams.OPEN, seams.CLOSE]), 'nth': 1, 'act': seams.ERR,
                'arg': rng.choice([errno.EIO, errno.ENOSPC, errno.EDQUOT])}
    return {'t': 'crash', 'cls': rng.choice([seams.WRITE, seams.WRITE, seams.CLOSE]),
            'nth': rng.randrange(1, 3),
            'act': rng.choice([seams.CRASH, seams.TORN, seams.TORN, seams.CRASH_AFTER]),
            'arg': rng.randrange(1, rng.choice([30, 400]))}


def generate(rng, prop, tier):
    ops = []
    for _ in range(rng.randrange(2, 8)):
        w = {'tocsv': 4, 'tofile': 2, 'handle': 2, 'fromcsv': 2} if prop == 'T01' else \
            {'tocsv': 4, 'tofile': .2, 'fromcsv': 5}
        tot = sum(w.values())
        r, name = rng.random() * tot, None
        for k in sorted(w):
            r -= w[k]
            if r < 0:
                name = k
                break
        op = {'op': name or 'tocsv', 'file': rng.randrange(2)}
        if op['op'] != 'fromcsv':
            op['v'] = spec(rng, prop)
            op['d'] = rng.choice([',', ',', '\t', ';', '|'])
        elif rng.random() < .2:
            op['skip'] = rng.randrange(1, 4)
        p = .45 if prop == 'T01' or op['op'] == 'fromcsv' else .25
        if rng.random() < p:
            op['f'] = fault(rng, op['op'])
            if prop == 'T02' and op['op'] != 'fromcsv' and rng.random() < .8:
                op['f'] = {'t': 'crash', 'cls': seams.WRITE, 'nth': rng.randrange(1, 3),
                           'act': seams.TORN, 'arg': rng.randrange(1, rng.choice([30, 400]))}
        ops.append(op)
        if prop == 'T02' and op['op'] == 'tocsv' and rng.random() < .4:
            for _ in range(rng.choice([1, 1, 1, 2])):
                ops.append({'op': 'damage', 'file': op['file'], 'at': rng.choice(
                    [rng.randrange(1000), rng.randrange(900, 1000), 999]),
                    'how': rng.choice(['cut', 'cut-value', 'cut-value', 'lose', 'junk', 'line']),
                    'n': rng.choice([1, 2, 7, rng.randrange(1, 60)]),
                    'by': rng.choice(['x', '', '\0', '"', '\n', 'label', '# a remark', 'a,b,c,d,e', '7'])})
        if op['op'] == 'tocsv' and rng.random() < .5:
            ops.append({'op': 'fromcsv', 'file': op['file']})
    return {'ops': ops}


def simpler(script):
    import scn_archive as A
    for i, op in enumerate(script['ops']):
        for c in A.simpler_op(op):
            yield dict(script, ops=script['ops'][:i] + [c] + script['ops'][i + 1:])


def valid(script):
    return True


def warm(prop):
    import la


def rule(prop):
    return ('a history of exports and imports of random larrys, with odd labels, on a disk that '
            'fails, fills up, transfers less than asked or loses the process in the middle; '
            'non-trivial: at least one fault fired')


def state_measure(prop):
    return 'distinct (operation, outcome, fault fired, fault kind, occurrence) tuples'


def components(prop):
    return {'real': ['la (from /repo)', 'csv module', "Python's file objects and C stdio buffering"],
            'simulated': ['open, read, write, close below the run directory', 'full disk',
                          'process crash and restart'], 'stub': []}


def assumptions(prop):
    return ['an error of close itself is reported by the C library as Python sees it',
            'a csv file cut by a crash at the end of a row or inside its last value cannot be told '
            'from a complete one']


def unreached(prop, results, merge):
    return []
