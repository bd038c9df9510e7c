"""A04: repack.  Crash, power loss or disk error at any point of it; the archive
name always holds a complete archive."""
import errno
import hashlib
import os
import shutil

import numpy as np

import core
import scn_archive as A
import seams
import values
from seams import sd

ALL = 511


def power_image(ctx, snap, plan):
    """The directory after a power failure: a prefix of the directory operations
    survives, of the writes not yet synced any subset, one of them torn."""
    n = sd.sim_log_count()
    cut = plan['cut'] * n // 1000
    names, known = {}, {}        # name -> inode id; inode id -> first contents
    for name in snap:
        names[name] = ('snap', name)
        known[('snap', name)] = snap[name]
    alias = {}                   # the shim's inode number -> inode id
    data, dirops = {}, []
    start = dict(names)
    for i in range(cut):
        r = sd.sim_log_rec(i).contents
        if r.res < 0:
            continue
        path = sd.sim_path(r.file)
        name = path[len(ctx.root):]
        if r.op == seams.CREATE:
            ino = ('new', i)
            alias[r.ino] = ino
            known[ino] = ''
            names[name] = ino
            dirops.append(('create', name, ino))
        elif r.op == seams.OPEN:
            if name not in names:
                continue         # the directory itself
            alias[r.ino] = names[name]
            if r.flags & os.O_TRUNC:
                data.setdefault(names[name], []).append(['t', 0, '', 0])
        elif r.op == seams.WRITE:
            b = seams.ctypes.string_at(sd.sim_log_data(r.data), r.res)
            data.setdefault(alias[r.ino], []).append(['w', r.off, b, 0])
        elif r.op == seams.TRUNC:
            data.setdefault(alias[r.ino], []).append(['t', r.len, '', 0])
        elif r.op == seams.FSYNC:
            for d in data.get(alias.get(r.ino), []):
                d[3] = 1
        elif r.op == seams.RENAME:
            to = sd.sim_path(r.file2)[len(ctx.root):]
            dirops.append(('link' if r.flags & 1 else 'rename', name, to))
            names[to] = names[name]
            if not r.flags & 1:
                del names[name]
        elif r.op == seams.UNLINK:
            dirops.append(('unlink', name))
            names.pop(name, None)
    keep = (len(dirops) + 1) * plan['dirs'] // 1001
    final = start
    for d in dirops[:keep]:
        if d[0] == 'create':
            final[d[1]] = d[2]
        elif d[0] == 'rename':
            final[d[2]] = final.pop(d[1])
        elif d[0] == 'link':
            final[d[2]] = final[d[1]]
        else:
            final.pop(d[1], None)
    lost = torn = 0
    files = {}
    for name, ino in sorted(final.items()):
        x = bytearray(known[ino])
        for j, (kind, off, b, synced) in enumerate(data.get(ino, [])):
            h = ord(hashlib.md5('%d %s %d' % (plan['ks'], name, j)).digest()[0])
            if not synced:
                if h % 8 < plan['bias']:
                    lost += 1
                    continue
                if plan.get('torn') and h % 5 == 0 and kind == 'w':
                    b = b[:len(b) // 2]
                    torn += 1
            if kind == 't':
                del x[off:]
                x.extend('\0' * (off - len(x)))
            else:
                x.extend('\0' * (off - len(x)))
                x[off:off + len(b)] = b
        files[name] = bytes(x)
    ctx.fired('power-loss')
    ctx.fired('lost-writes', lost)
    ctx.fired('torn-writes', torn)
    ctx.fired('lost-directory-operations', len(dirops) - keep)
    ctx.ev('power', cut, keep, len(dirops), lost, torn)
    return files


def execute(script, ctx):
    model = A.Model()
    path = ctx.root + A.NAME
    if script.get('link'):
        A.make_link(ctx.root, script['link'])
        ctx.fired('the archive has a symbolic link')
    for n, op in enumerate(script['ops']):
        before = sorted(os.listdir(ctx.root))
        snap = dict((f, open(ctx.root + f, 'rb').read()) for f in before)
        if op['op'] == 'repack':
            if not os.path.exists(path):
                continue
            full = [everything(ctx, path)]
            outcome = attempt(ctx, op, model, snap, n, full)
        else:
            def edit(emit):
                import h5py
                sd.sim_enable(1)
                if op['op'] == 'deco':
                    decorate(ctx, path, op)
                    f = h5py.File(path, 'r') if os.path.exists(path) else {}
                    if f:
                        now = A.snapshot(f, h5py)
                        f.close()
                        emit('f', dict((q, now[q]) for q in model.foreign))
                    return
                import la
                io = la.IO(path)
                if script.get('foreign') and not os.path.exists(path):
                    emit('f', A.make_foreign(path))
                if op['op'] == 'plant':
                    if os.path.exists(path):
                        q = A.Proc(ctx, model, emit, {})
                        q.plant(op)
                        emit('f', model.foreign)
                    return
                if op['op'] == 'set':
                    try:
                        io[op['k']] = values.make(op['v'])
                    except ValueError:
                        # a dataset of somebody else is in the way
                        k = A.norm(op['k'])
                        if not any((k + '/').startswith(q + '/') and v[0] == 'ds'
                                   for q, v in model.foreign.items()):
                            raise
                        return
                    emit('m', A.norm(op['k']), A.V.of(op['v']))
                elif A.norm(op['k']) in model:
                    del io[op['k']]
                    emit('m', A.norm(op['k']), None)
                ctx.count(op['op'])
            status, out = ctx.segment(edit)
            if status != 'done':
                ctx.fail('died', 'editing the archive ended with ' + status)
            for o in out:
                if o[0] == 'f':
                    model.foreign = o[1]
                elif o[0] != 'm':
                    pass
                elif o[2] is None:
                    model.pop(o[1])
                else:
                    model[o[1]] = o[2]
            continue
        if outcome == 'power':
            continue
        check(ctx, script, model, 'after repack (%s)' % outcome)
        same(ctx, full[0], everything(ctx, path), 'after repack (%s)' % outcome)
        now = sorted(os.listdir(ctx.root))
        extra = [f for f in now if f not in before]
        if script.get('link'):
            if os.path.realpath(A.link(ctx.root)) != os.path.realpath(path):
                ctx.fail('link-replaced', 'after repack (%s) the symbolic link to the archive does '
                         'not lead to the archive' % outcome)
            extra += [q for q in os.listdir(os.path.dirname(A.link(ctx.root)))
                      if q not in (A.NAME, A.MID)]
        f = op.get('f') or {}
        if extra and outcome in ('ok', 'failed') and not (
                f.get('t') == 'disk' and f['cls'] & seams.UNLINK and outcome == 'failed'):
            ctx.fail('stray-file', 'repack (%s) left %r behind' % (outcome, extra))
        ctx.state((outcome, f.get('t'), f.get('cls'), f.get('nth'), len(model), len(now)))


def check(ctx, script, model, when):
    if not os.path.exists(ctx.root + A.NAME):
        ctx.fail('lost-file', '%s there is no archive' % when)

    def verify(emit):
        p = A.Proc(ctx, A.Model(model), emit, {})
        p.model.foreign = model.foreign
        p.verify(when)
        if model.foreign:
            p.foreign_ok()
    status, out = ctx.segment(verify)
    if status != 'done':
        ctx.fail('died', '%s reading the archive ended with %s' % (when, status))


def everything(ctx, path):
    "Every object, link and attribute in the file."
    def look(emit):
        import h5py
        f = h5py.File(path, 'r')
        emit(A.snapshot(f, h5py))
        f.close()
    status, out = ctx.process(look)
    if status != 'done':
        ctx.fail('died', 'looking at every object of the archive ended with ' + status)
    return out[0][0]


def same(ctx, was, now, when):
    for q in sorted(set(was) | set(now)):
        if was.get(q) != now.get(q):
            ctx.fail('object-changed', '%s: %r was %s and is %s' % (
                when, q, was.get(q, 'not there'), now.get(q, 'gone')))


def decorate(ctx, path, op):
    "Another program adds something to the objects of the archive."
    import h5py
    if not os.path.exists(path):
        return
    f = h5py.File(path, 'r+')
    try:
        names = []
        f.visit(lambda q: names.append(q.encode('utf-8')))
        if not names:
            return
        obj = f[names[op['at'] % len(names)]] if op['at'] % 6 else f
        kind = op['kind']
        if kind == 'attr':
            obj.attrs['note%d' % (op['n'] % 3)] = [op['n'], 'text', np.arange(op['n'] % 5)][op['n'] % 3]
        elif isinstance(obj, h5py.Dataset) or 'deco' in obj:
            return
        elif kind == 'soft':
            obj.id.links.create_soft('deco', ['/' + names[0], 'nowhere', '/', names[0]][op['n'] % 4])
        elif kind == 'ext':
            obj.id.links.create_external('deco', 'no_such_file.h5', '/' + names[0])
        else:
            obj.create_dataset('deco', data=np.arange(op['n'] + 1), maxshape=(None,), chunks=(3,),
                               compression=['gzip', None][op['n'] % 2])
        ctx.count('decorated')
    finally:
        f.close()


def attempt(ctx, op, model, snap, n, full):
    path = A.link(ctx.root) if op.get('ln') else ctx.root + A.NAME
    f = op.get('f') or {}

    def rep(emit):
        import la
        import h5py
        sd.sim_enable(1)
        seams.reseed(op['rs'])
        h = None
        was = os.stat(path).st_ino
        if op['mode'] == 'h':
            h = h5py.File(path, 'a')
            if list(h.keys()) is None:
                pass
        call = {'p': lambda: la.repack(path), 'io': lambda: la.IO(path).repack(),
                'h': lambda: la.repack(h)}[op['mode']]
        fi = None
        if f.get('t') in ('disk', 'crash'):
            fi = sd.sim_fault(f['cls'], f['nth'], f['act'], f['arg'], 0, f.get('sub') or '')
        elif f.get('t') == 'quota':
            sd.sim_quota(f['n'])
        elif f.get('t') == 'power':
            sd.sim_log_clear()
            sd.sim_log(1)
            if f.get('fs'):
                fi = sd.sim_fault(seams.FSYNC, 1, seams.ERR, errno.EIO, 0, '')
        emit('started')
        if h is not None and op.get('own') and not f:
            # the user's own, which HDF5 still holds in memory
            h.create_group('own%d' % n).attrs['n'] = n
            h['own%d/ds' % n] = np.arange(n + 2)
            emit('f', A.snapshot(h, h5py))
        try:
            got = call()
            out = 'ok'
        except Exception as e:
            out, why = 'failed', '%s: %s' % (type(e).__name__, str(e)[:150])
        fired = (fi is not None and sd.sim_fault_fired(fi)) or \
            (f.get('t') == 'quota' and sd.sim_quota_denied())
        sd.sim_faults_clear()
        sd.sim_log(0)
        ctx.count('repack-' + op['mode'])
        ctx.ev(n, 'repack', op['mode'], out, bool(fired))
        if fired:
            ctx.fired('disk-full' if f['t'] == 'quota' else 'fsync-error-and-power-loss'
                      if f['t'] == 'power' else '%s-%s' % (
                          seams.CLASSNAME.get(f['cls'], 'any'), seams.ACTIONNAME[f['act']]))
        elif out == 'failed':
            ctx.fail('repack-failed', 'repack raised ' + why)
        if out == 'ok':
            if op['mode'] == 'p' and got is not None:
                ctx.fail('wrong-answer', 'repack of a path returned %r' % (got,))
            if op['mode'] == 'h':
                if h.id.valid:
                    ctx.fail('not-released', 'repack left the file it was given open')
                if not isinstance(got, h5py.File) or not got.id.valid:
                    ctx.fail('wrong-answer', 'repack of an open file returned %r' % (got,))
                got.close()
        elif h is not None:
            if f['t'] in ('disk', 'quota') and not h.id.valid and os.stat(path).st_ino == was and \
                    f.get('cls', seams.WRITE) in (seams.READ, seams.WRITE, seams.CREATE):
                ctx.fail('not-released', 'the failed repack closed the file it was given, although '
                         'the archive is the one it was (%s)' % why)
            try:
                h.close()
            except Exception:
                pass
        if f.get('t') == 'power':
            sd.sim_enable(0)
            files = power_image(ctx, snap, f)
            for name in os.listdir(ctx.root):
                os.remove(ctx.root + name)
            for name, b in files.items():
                with open(ctx.root + name, 'wb') as g:
                    g.write(b)
        emit('out', out)
    status, out = ctx.segment(rep)
    if status == 'crashed':
        ctx.fired('crash-' + seams.ACTIONNAME[f['act']] + '-' +
                  seams.CLASSNAME.get(f['cls'], 'any'))
        return 'crashed'
    if status.startswith('signal') and f.get('t') in ('disk', 'quota'):
        ctx.probe('HDF5-crashed-after-a-disk-error')
        return 'crashed'
    if status != 'done':
        ctx.fail('died', 'repack ended with ' + status)
    for o in out:
        if o[0] == 'f':
            full[0] = o[1]
            model.foreign.update((k, v) for k, v in o[1].items() if k.startswith('own'))
    return 'crashed' if f.get('t') == 'power' else out[-1][1]


def gen_fault(rng):
    r = rng.random()
    if r < .12:
        return None
    if r < .42:
        return {'t': 'power', 'cut': rng.choice([1000, rng.randrange(1001), rng.randrange(900, 1001)]),
                'dirs': rng.randrange(1001), 'ks': rng.randrange(10 ** 6),
                'bias': rng.choice([0, 1, 3, 6, 8]), 'torn': rng.randrange(2),
                'fs': int(rng.random() < .15)}
    if r < .75:
        cls = rng.choice([ALL, ALL, ALL, seams.WRITE, seams.RENAME, seams.UNLINK, seams.FSYNC,
                          seams.CREATE, seams.CLOSE, seams.OPEN, seams.TRUNC])
        hi = {ALL: 150, seams.WRITE: 40, seams.CLOSE: 5, seams.OPEN: 5}.get(cls, 3)
        act = rng.choice([seams.CRASH, seams.CRASH, seams.CRASH_AFTER])
        arg = 0
        if cls == seams.WRITE and rng.random() < .4:
            act, arg = seams.TORN, rng.randrange(1, 300)
        return {'t': 'crash', 'cls': cls, 'nth': rng.randrange(1, hi + 1), 'act': act, 'arg': arg}
    if r < .85:
        return {'t': 'quota', 'n': rng.choice([0, 100, 800, rng.randrange(0, 12000)])}
    cls = rng.choice([seams.WRITE, seams.WRITE, seams.READ, seams.READ, seams.RENAME, seams.UNLINK,
                      seams.FSYNC, seams.CREATE, seams.OPEN, seams.TRUNC])
    hi = {seams.WRITE: 30, seams.READ: 40, seams.OPEN: 4}.get(cls, 2)
    return {'t': 'disk', 'cls': cls, 'nth': rng.randrange(1, hi + 1), 'act': seams.ERR,
            'arg': rng.choice([errno.EIO, errno.EIO, errno.ENOSPC, errno.EACCES])}


def generate(rng, prop, tier):
    keys = A.some_keys(rng, 1, 5)
    ops = []
    for _ in range(rng.randrange(1, 6)):
        k = rng.choice(keys)
        if rng.random() < .75 or not ops:
            ops.append({'op': 'set', 'k': k, 'v': values.spec(rng, maxn=rng.choice([4, 4, 30]))})
        else:
            ops.append({'op': 'del', 'k': k})
        if rng.random() < .35:
            ops.append({'op': 'deco', 'kind': rng.choice(['attr', 'attr', 'soft', 'ext', 'data']),
                        'at': rng.randrange(50), 'n': rng.randrange(9)})
        if rng.random() < .25:
            ops.append(A.gen_plant(rng, keys, {'op': 'plant'}))
    seeds = [rng.randrange(1, 10 ** 6) for _ in range(2)]
    links = rng.choice([1, 2, 3]) if rng.random() < .25 else 0
    for _ in range(rng.choice([1, 1, 2, 3])):
        ops.append({'op': 'repack', 'mode': rng.choice(['p', 'io', 'h']), 'rs': rng.choice(seeds), 'own': rng.randrange(2),
                    'f': gen_fault(rng)})
        if links and rng.random() < .7:
            ops[-1]['ln'] = 1
        if rng.random() < .3:
            ops.append({'op': 'set', 'k': rng.choice(keys), 'v': values.spec(rng)})
    return {'ops': ops, 'foreign': int(rng.random() < .5), 'link': links}


def simpler(script):
    for t in A.simpler(script):
        yield t


def warm(prop):
    import la
    import h5py


def valid(script):
    return True


def rule(prop):
    return ('an archive with a history of saves and deletes, repacked once to three times by path, '
            'by the dictionary interface or by an open file, under a crash at a chosen system call, '
            'a power failure that loses unsynced writes and late directory operations, a disk error, '
            'or a full disk; non-trivial: at least one fault fired')


def state_measure(prop):
    return 'distinct (outcome, fault kind, system call class, occurrence, larrys, files) tuples'


components = A.components


def assumptions(prop):
    return ['power loss keeps some prefix of the directory operations and any subset of the writes '
            'not covered by an fsync, some of them torn in half',
            'the archive was durable before the repack']


def unreached(prop, results, merge):
    return []
