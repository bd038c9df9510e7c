"""The simulator: one run is one script (JSON) executed in a process forked from
a warm copy of the interpreter.  A script holds everything that was decided at
random; executing it draws nothing."""
import errno
import gc
import hashlib
import json
import os
import pickle
import random
import shutil
import signal
import struct
import sys
import time as _time
import traceback

import seams

HANG = 150                      # seconds of real time; a guard, never a verdict
CPU = 40                        # seconds of processor time; runs take a fraction of one


class Violation(Exception):
    def __init__(self, cls, msg, sig=None):
        Exception.__init__(self, msg)
        self.cls, self.msg, self.sig = cls, msg, sig or cls


def raised_by_la():
    "If the exception being handled comes out of la, what it says."
    t, v, tb = sys.exc_info()
    if issubclass(t, Harness):
        return None
    while tb.tb_next is not None:
        tb = tb.tb_next
    f = tb.tb_frame.f_code
    if not f.co_filename.startswith(os.path.join(seams.REPO, 'la') + os.sep):
        return None
    return '%s in %s: %s' % (t.__name__, f.co_name, str(v)[:300])


class Killed(BaseException):
    "The simulated process stops here, cleaning up nothing."


class Harness(Exception):
    "The harness, not la, is at fault."


class Ctx(object):
    "What one run records."

    def __init__(self, script, root):
        self.script, self.root = script, root
        self.counts, self.probes, self.faults = {}, {}, {}
        self.states = set()
        self.h = hashlib.md5()
        self.log = []
        self.keep_log = False
        self.nontrivial = False
        self.simtime = 0

    def count(self, k, n=1):
        self.counts[k] = self.counts.get(k, 0) + n

    def probe(self, k, n=1):
        self.probes[k] = self.probes.get(k, 0) + n

    def fired(self, k, n=1):
        if n:
            self.faults[k] = self.faults.get(k, 0) + n
            self.nontrivial = True

    def ev(self, *items):
        line = repr(items)
        self.h.update(line)
        if self.keep_log:
            self.log.append(line)

    def state(self, obj):
        self.states.add(hashlib.md5(repr(obj)).hexdigest()[:12])

    def fail(self, cls, msg, sig=None):
        raise Violation(cls, msg, sig)

    # one simulated process whose records join this run's ---------------------
    def segment(self, fn):
        """Like process, but ctx.ev/count/probe/fired/state made in the child
        are merged into this ctx.  Returns (status, emitted)."""
        def child(emit):
            base = (self.counts, self.probes, self.faults)
            self.counts, self.probes, self.faults, self.states = {}, {}, {}, set()
            self.nontrivial = False
            self.ev = lambda *items: emit('__ev__', items)

            def flush():
                emit('__ctx__', self.counts, self.probes, self.faults, self.states,
                     self.nontrivial, seams.sd.sim_clock_now())
            try:
                fn(emit)
            finally:
                flush()
        t0 = seams.sd.sim_clock_now()
        viol = None
        try:
            status, out = self.process(child)
        except Violation as e:
            viol, status, out = e, 'violation', e.out
        rest = []
        for o in out:
            if o[0] == '__ev__':
                self.ev(*o[1])
            elif o[0] == '__ctx__':
                for mine, theirs in zip((self.counts, self.probes, self.faults), o[1:4]):
                    for k, v in theirs.items():
                        mine[k] = mine.get(k, 0) + v
                self.states |= o[4]
                self.nontrivial = self.nontrivial or o[5]
                self.simtime += max(o[6] - t0, 0)
                seams.sd.sim_clock_jump(max(o[6] - t0, 0))
            else:
                rest.append(o)
        self.ev('process', status)
        if viol is not None:
            raise viol
        return status, rest

    # one simulated process -------------------------------------------------
    def process(self, fn):
        """Run fn(emit) in a process of its own.  Returns (status, emitted):
        status is 'done', 'crashed' (the simulator stopped it), 'signal N', or
        raises if fn raised (Violation) or hung (Harness)."""
        r, w = os.pipe()
        sys.stdout.flush()
        pid = os.fork()
        if pid == 0:
            code = 1
            try:
                os.close(r)
                guard(HANG)
                hush()

                def emit(*obj):
                    s = pickle.dumps(obj, 2)
                    s = struct.pack('<I', len(s)) + s
                    while s:
                        n = os.write(w, s)
                        s = s[n:]
                try:
                    fn(emit)
                    emit('__end__')
                except Violation as e:
                    emit('__viol__', e.cls, e.msg, e.sig)
                except Killed:
                    os._exit(seams.CRASHED)     # the traceback keeps everything open
                except Exception:
                    what = raised_by_la()
                    if what is not None:
                        emit('__viol__', 'raised', what, 'raised')
                    else:
                        emit('__err__', traceback.format_exc())
                code = 0
            finally:
                os._exit(code)
        os.close(w)
        buf = []
        while True:
            try:
                c = os.read(r, 1 << 16)
            except OSError as e:
                if e.errno == errno.EINTR:
                    continue
                raise
            if not c:
                break
            buf.append(c)
        os.close(r)
        st = waitpid(pid)
        buf = ''.join(buf)
        out, i = [], 0
        while i + 4 <= len(buf):
            n = struct.unpack('<I', buf[i:i + 4])[0]
            if i + 4 + n > len(buf):
                break
            out.append(pickle.loads(buf[i + 4:i + 4 + n]))
            i += 4 + n
        if out and out[-1][0] == '__viol__':
            v = Violation(*out[-1][1:])
            v.out = out[:-1]
            raise v
        if out and out[-1][0] == '__err__':
            raise Harness(out[-1][1])
        if out and out[-1][0] == '__end__':
            return 'done', out[:-1]
        if os.WIFSIGNALED(st):
            if os.WTERMSIG(st) == signal.SIGPROF:
                v = Violation('endless', 'the process was still computing after %d s' % CPU)
                v.out = out
                raise v
            if os.WTERMSIG(st) == signal.SIGALRM:
                raise Harness('a simulated process hung')
            return 'signal %d' % os.WTERMSIG(st), out
        if os.WEXITSTATUS(st) == seams.CRASHED:
            return 'crashed', out
        raise Harness('simulated process exited with %d' % os.WEXITSTATUS(st))


def guard(wall):
    signal.signal(signal.SIGPROF, signal.SIG_DFL)
    signal.setitimer(signal.ITIMER_PROF, CPU)
    signal.alarm(wall)


def hush():
    "HDF5 and h5py complain on stderr when a close fails; drop that."
    if os.environ.get('SIM_STDERR'):
        return
    fd = os.open('/dev/null', os.O_WRONLY)
    os.dup2(fd, 2)
    os.close(fd)


def waitpid(pid):
    while True:
        try:
            return os.waitpid(pid, 0)[1]
        except OSError as e:
            if e.errno != errno.EINTR:
                raise


_scratch = [None]


def scratch():
    if _scratch[0] is None or _scratch[0][1] != os.getpid():
        base = '/dev/shm' if os.access('/dev/shm', os.W_OK) else '/tmp'
        d = os.path.join(base, 'lasim.%07d' % os.getpid())
        shutil.rmtree(d, ignore_errors=True)
        os.mkdir(d, 0o700)
        _scratch[0] = (d, os.getpid())
    return _scratch[0][0]


def scratch_done():
    if _scratch[0] and _scratch[0][1] == os.getpid():
        shutil.rmtree(_scratch[0][0], ignore_errors=True)
        _scratch[0] = None


def run_script(scn, script, keep_log=False):
    "Execute one script in a forked child; returns its result as a dict."
    root = os.path.join(scratch(), 'r')
    shutil.rmtree(root, ignore_errors=True)
    shutil.rmtree(root + '.links', ignore_errors=True)
    os.mkdir(root)
    r, w = os.pipe()
    sys.stdout.flush()
    pid = os.fork()
    if pid == 0:
        code = 1
        try:
            os.close(r)
            guard(HANG + 30)
            os.chdir(root)
            hush()
            ctx = Ctx(script, root + '/')
            ctx.keep_log = keep_log
            seams.reseed(script.get('reseed', 1))
            seams.sd.sim_reset(root + '/')
            seams.sd.sim_enable(0)
            res = {'st': 'ok'}
            try:
                scn.execute(script, ctx)
            except Violation as e:
                res = {'st': 'viol', 'cls': e.cls, 'msg': e.msg, 'sig': e.sig}
                ctx.ev('violation', e.cls)
            except Exception:
                what = raised_by_la()
                res = {'st': 'viol', 'cls': 'raised', 'sig': 'raised', 'msg': what} \
                    if what is not None else {'st': 'harness', 'msg': traceback.format_exc()}
                ctx.ev('raised')
            seams.sd.sim_enable(0)
            res.update(digest=ctx.h.hexdigest(), counts=ctx.counts, probes=ctx.probes,
                       faults=ctx.faults, states=sorted(ctx.states)[:400],
                       nontrivial=ctx.nontrivial, simtime=ctx.simtime)
            if keep_log:
                res['log'] = ctx.log
            s = json.dumps(res)
            while s:
                n = os.write(w, s)
                s = s[n:]
            code = 0
        finally:
            os._exit(code)
    os.close(w)
    buf = []
    while True:
        try:
            c = os.read(r, 1 << 16)
        except OSError as e:
            if e.errno == errno.EINTR:
                continue
            raise
        if not c:
            break
        buf.append(c)
    os.close(r)
    st = waitpid(pid)
    try:
        return to_str(json.loads(''.join(buf)))
    except ValueError:
        pass
    if os.WIFSIGNALED(st) and os.WTERMSIG(st) == signal.SIGPROF:
        return {'st': 'viol', 'cls': 'endless', 'sig': 'endless', 'digest': 'endless',
                'msg': 'the process was still computing after %d s' % CPU}
    if os.WIFSIGNALED(st) and os.WTERMSIG(st) in (signal.SIGSEGV, signal.SIGABRT,
                                                  signal.SIGBUS, signal.SIGFPE):
        return {'st': 'viol', 'cls': 'died', 'sig': 'died', 'digest': 'died',
                'msg': 'the process died with signal %d' % os.WTERMSIG(st)}
    what = 'signal %d' % os.WTERMSIG(st) if os.WIFSIGNALED(st) else \
        'exit %d' % os.WEXITSTATUS(st)
    return {'st': 'harness', 'msg': 'run ended with %s and no result' % what}


def to_str(o):
    "JSON gives unicode; la wants str."
    if isinstance(o, unicode):
        return o.encode('utf-8')
    if isinstance(o, list):
        return [to_str(x) for x in o]
    if isinstance(o, dict):
        return dict((to_str(k), to_str(v)) for k, v in o.iteritems())
    return o


def rng_for(seed, prop, i):
    h = hashlib.sha256('%d/%s/%d' % (seed, prop, i)).digest()
    return random.Random(int(h[:8].encode('hex'), 16))


def make_script(scn, prop, seed, i, tier):
    rng = rng_for(seed, prop, i)
    s = scn.generate(rng, prop, tier)
    s['prop'], s['seed'], s['index'] = prop, seed, i
    s.setdefault('reseed', rng.randrange(1, 10 ** 6))
    return to_str(json.loads(json.dumps(s)))      # exactly what a replay file would hold


# ---- minimisation ---------------------------------------------------------
LISTS = ('ops', 'faults', 'sched')


def minimise(scn, script, cls, budget=300):
    left = [budget if cls != 'endless' else 4]

    def bad(s):
        if left[0] <= 0:
            return False
        left[0] -= 1
        r = run_script(scn, s)
        return r['st'] == 'viol' and r['cls'] == cls

    changed = True
    while changed and left[0] > 0:
        changed = False
        for key in LISTS:
            lst = script.get(key)
            if not lst:
                continue
            n = max(len(lst) // 2, 1)
            while n >= 1:
                i = 0
                while i < len(script[key]):
                    t = dict(script)
                    t[key] = script[key][:i] + script[key][i + n:]
                    if scn.valid(t) and bad(t):
                        script, changed = t, True
                    else:
                        i += n
                n //= 2
        for t in scn.simpler(script):
            if left[0] <= 0:
                break
            if bad(t):
                script, changed = t, True
                break
    return script, budget - max(left[0], 0)
