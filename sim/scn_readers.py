"""A07: threads that read one archive while others use archives of their own."""
import os

import core
import sched
import scn_archive as A
import seams
import values
from seams import sd

SHARED = ('load', 'get', 'keys', 'iter', 'iterkeys', 'dir', 'len', 'has', 'haskey', 'isarc',
          'values', 'itervalues', 'items', 'iteritems', 'repr', 'space', 'freespace', 'hold',
          'hget', 'attrs', 'hget', 'hget', 'get', 'freespace', 'load', 'hlabel')
OWN = ('set', 'get', 'load', 'save', 'del', 'keys', 'dir', 'hold', 'hget', 'hset', 'freespace',
       'items', 'set', 'hset', 'repack', 'clear', 'len', 'hlabel')


def bodies(ctx, script, model):
    shared = A.Proc(ctx, model, None, {})
    for s in script['held']:
        call = shared.plan({'op': 'hold', 'c': s['c'], 'k': s['k'], 's': s['s']})
        if call:
            call[0]()
    out = []
    for th in range(script['threads']):
        own = th in script['own']
        if own:
            p = A.Proc(ctx, {}, None, {})
            p.path = p.link = ctx.root + 'own%d.h5' % th
        elif script['apart'].count(th):
            p = A.Proc(ctx, model, None, {})      # its own IO and lara on the same file
            for s in script['held']:
                call = p.plan({'op': 'hold', 'c': s['c'], 'k': s['k'], 's': s['s']})
                if call:
                    call[0]()
        else:
            p = A.Proc(ctx, model, None, {})
            p.ios, p.held, p.seen = shared.ios, dict(shared.held), dict(shared.seen)
        for c in (0, 1):
            p.io(c)
        out.append(lambda p=p, th=th: body(ctx, p, [o for o in script['ops'] if o['th'] == th]))
    return out


def body(ctx, p, ops):
    for op in ops:
        plan = p.plan(op)
        if plan is None:
            continue
        call, must, check, effects = plan
        try:
            got, exc = call(), None
        except (core.Violation, sched.Deadlock, sched.NoProgress):
            raise
        except Exception as e:
            got, exc = None, e
        if exc is None:
            if must == 'raise':
                ctx.fail('not-rejected', '%s was accepted' % A.describe(op))
            if check:
                check(got)
            for k, v in effects.items():
                if v is None:
                    p.model.pop(k, None)
                else:
                    p.model[k] = v
        elif must == 'ok':
            ctx.fail('op-failed', '%s raised %s: %s' % (A.describe(op), type(exc).__name__,
                                                       str(exc)[:200]))
        del exc, got


def execute(script, ctx):
    model = {}

    def build(emit):
        p = A.Proc(ctx, model, emit, {})
        for op in script['base']:
            p.step(0, op)
        emit('m', p.model)
    status, out = ctx.segment(build)
    model.update(out[-1][1])
    path = ctx.root + A.NAME
    if not os.path.exists(path):
        return
    data = open(path, 'rb').read()
    # the own archives of the counting process must not be there in the real one
    def fresh():
        for f in os.listdir(ctx.root):
            if f.startswith('own'):
                os.remove(ctx.root + f)
    counts, total = sched.count(ctx, lambda: bodies(ctx, script, model))
    fresh()

    def go(emit):
        bs = bodies(ctx, script, model)
        s = sched.Scheduler(bs, script['sched'], total)
        outs = s.run()
        emit('sched', s.steps, s.switches)
        for th, o in enumerate(outs):
            ctx.ev('thread', th, o[0])
        for sw in s.switches:
            ctx.ev('switch', *sw)
        ctx.count('steps', s.steps)
        ctx.fired('preemption', len(s.switches))
        ctx.state(s.switches)
        for th, o in enumerate(outs):
            if o[0] == 'viol':
                ctx.fail(o[1].cls, 'thread %d: %s' % (th, o[1].msg))
            if o[0] == 'exc':
                raise core.Harness('thread %d: %s' % (th, o[3]))
        n = sd.sim_open_fds()
        if n:
            ctx.fail('not-released', 'when all threads have ended %d file(s) are open' % n)
    status, out = ctx.segment(go)
    if status != 'done':
        ctx.fail('died', 'the threads ended with ' + status)
    ctx.simtime += 1
    for op in script['ops']:
        ctx.count(op['op'])
    if open(path, 'rb').read() != data:
        ctx.fail('read-modifies', 'the archive that was only read has changed')


def generate(rng, prop, tier):
    keys = A.some_keys(rng, 1, 4)
    base = [{'op': 'set', 'c': 0, 'k': k, 'v': values.spec(rng)} for k in keys]
    if rng.random() < .5:
        base.append({'op': 'set', 'c': 0, 'k': 'gone', 'v': values.spec(rng, maxn=20)})
        base.append({'op': 'del', 'c': 0, 'k': 'gone'})
    n = rng.choice([2, 2, 2, 3, 4])
    own = [t for t in range(1, n) if rng.random() < .3]
    apart = [t for t in range(n) if t not in own and rng.random() < .25]
    held = [{'s': s, 'k': rng.choice(keys), 'c': rng.randrange(2)} for s in range(2)]
    ops = []
    focus = rng.sample(SHARED, rng.choice([1, 2, 2])) if rng.random() < .85 else None
    if focus and rng.random() < .25:
        # the partial readers, which the threads share
        focus = ['hget', 'hget', 'hlabel', 'attrs']
    for th in range(n):
        for _ in range(rng.randrange(1, 4)):
            w = OWN if th in own else focus if focus and rng.random() < .7 else SHARED
            op = A.gen_op(rng, keys, dict((k, 1) for k in w))
            if op['op'] == 'repack':
                op['via'] = rng.choice(['io', 'p'])
            if 'via' in op and op['via'] == 'h':
                op['via'] = 'p'
            if 's' in op:
                op['s'] = rng.randrange(2)
            op['th'] = th
            ops.append(op)
        if th in own:
            ops.insert(0, {'op': 'hold', 'th': th, 's': 0, 'k': keys[0], 'c': 0})
            ops.insert(0, {'op': 'set', 'th': th, 'k': keys[0], 'c': 0, 'v': values.spec(rng, zero=0)})
    return {'base': base, 'threads': n, 'own': own, 'apart': apart, 'held': held, 'ops': ops,
            'sched': sched.gen(rng)}


def valid(script):
    return True


def simpler(script):
    for t in A.simpler(script):
        yield t
    for i in range(len(script['base'])):
        yield dict(script, base=script['base'][:i] + script['base'][i + 1:])
        v = script['base'][i].get('v')
        if v and v != A.PLAIN:
            b = dict(script['base'][i], v=A.PLAIN)
            yield dict(script, base=script['base'][:i] + [b] + script['base'][i + 1:])
    n = script['threads']
    if n > 2 and not any(o['th'] == n - 1 for o in script['ops']):
        yield dict(script, threads=n - 1)


warm = A.warm


def rule(prop):
    return ('two to four threads reading one archive, through shared or separate objects, or using '
            'archives of their own, under a schedule of preemptions at lines of la and at C calls '
            'inside lines; non-trivial: at least one preemption took place')


def state_measure(prop):
    return 'distinct sequences of thread switches (from, to, function:line)'


components = A.components


def assumptions(prop):
    return ['threads switch at lines of la and at C calls from la, never inside h5py, which has a '
            'lock of its own']


def unreached(prop, results, merge):
    return []
