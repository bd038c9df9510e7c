"""The thread scheduler.  Real threads, of which one runs at a time; every line
of la, and every C call and return inside a line, is a point where the script
may hand over to another thread."""
import imp
import sys
import thread

import core
import seams

MAXSTEPS = 400000


class Deadlock(Exception):
    pass


class NoProgress(Exception):
    pass


class Scheduler(object):
    """sched: [[permille of all steps * 10, k], ...]: at that point hand over to
    the k-th other runnable thread.  Without preemptions the threads run one
    after the other."""

    def __init__(self, bodies, sched, total, order=None, observe=None, maxsteps=MAXSTEPS):
        self.bodies, self.observe, self.maxsteps = bodies, observe, maxsteps
        n = len(bodies)
        self.plan = sorted((int(p) * total // 10000, i, int(k)) for i, (p, k) in enumerate(sched))
        self.alive = list(range(n))
        if order:
            self.alive.sort(key=lambda i: order[i % len(order)] * 100 + i)
        self.baton = [seams.real_allocate() for _ in range(n)]
        for b in self.baton:
            b.acquire()
        self.ended = seams.real_allocate()
        self.ended.acquire()
        self.outcome = [None] * n
        self.steps, self.switches, self.stuck = 0, [], 0
        self.count = [0] * n
        self.ident = {}
        self.current = None
        self.dead = None

    # -- the seams ------------------------------------------------------------
    def mine(self):
        return thread.get_ident() in self.ident

    def blocked(self):
        "The running thread waits for a lock that another one holds."
        me = self.ident[thread.get_ident()]
        self.stuck += 1
        others = [t for t in self.alive if t != me]
        if not others or self.stuck > 4 * len(self.alive) + 4:
            raise Deadlock('every thread waits for a lock')
        i = (self.alive.index(me) + 1) % len(self.alive)
        self.hand_over(me, self.alive[i], 'blocked')

    # -- yield points -----------------------------------------------------------
    def tracer(self, frame, event, arg):
        code = frame.f_code
        if not code.co_filename.startswith(seams.LAROOT) or code.co_name == '<module>':
            return None
        return self.local

    def local(self, frame, event, arg):
        if event == 'line':
            self.step(frame)
        return self.local

    def profiler(self, frame, event, arg):
        if event in ('c_call', 'c_return') and \
                frame.f_code.co_filename.startswith(seams.LAROOT) and \
                frame.f_code.co_name != '<module>':
            self.step(frame)

    def step(self, frame):
        me = self.ident.get(thread.get_ident())
        if me is None or me != self.current:
            return
        self.steps += 1
        self.count[me] += 1
        self.stuck = 0
        if self.steps > self.maxsteps:
            raise NoProgress('%d steps taken' % self.steps)
        if self.observe is not None:
            sys.settrace(None)
            sys.setprofile(None)
            self.observe(me, frame)
            sys.settrace(self.tracer)
            sys.setprofile(self.profiler)
        if not self.plan or self.steps < self.plan[0][0]:
            return
        if len(self.alive) < 2 or imp.lock_held() or in_h5py(frame):
            return
        k = self.plan.pop(0)[2]
        others = [t for t in self.alive if t != me]
        to = others[k % len(others)]
        self.hand_over(me, to, '%s:%d' % (frame.f_code.co_name, frame.f_lineno))

    def hand_over(self, me, to, where):
        self.switches.append((me, to, where))
        self.current = to
        self.baton[to].release()
        self.baton[me].acquire()

    # -- running ------------------------------------------------------------------
    def body(self, me):
        self.baton[me].acquire()
        self.ident[thread.get_ident()] = me
        try:
            sys.settrace(self.tracer)
            sys.setprofile(self.profiler)
            try:
                v = self.bodies[me]()
                out = ('ok', v)
            finally:
                sys.settrace(None)
                sys.setprofile(None)
        except core.Violation as e:
            out = ('viol', e)
        except (Deadlock, NoProgress) as e:
            out = ('viol', core.Violation('no-progress', 'thread %d: %s' % (me, e)))
        except BaseException as e:
            import traceback
            out = ('exc', type(e).__name__, str(e)[:200], traceback.format_exc()[-1500:])
        self.outcome[me] = out
        i = self.alive.index(me)
        self.alive.remove(me)
        del self.ident[thread.get_ident()]
        if self.alive:
            to = self.alive[i % len(self.alive)]
            self.current = to
            self.baton[to].release()
        else:
            self.ended.release()

    def run(self):
        seams.scheduler[0] = self
        try:
            for i in range(len(self.bodies)):
                thread.start_new_thread(self.body, (i,))
            self.current = self.alive[0]
            self.baton[self.current].release()
            self.ended.acquire()
        finally:
            seams.scheduler[0] = None
        return self.outcome


def in_h5py(frame):
    f = frame
    while f is not None:
        if 'h5py' in f.f_code.co_filename:
            return True
        f = f.f_back
    return False


def count(ctx, bodies_of):
    """Steps each thread takes alone, each in a process of its own.  bodies_of()
    makes the bodies."""
    def solo(emit):
        bodies = bodies_of()
        s = Scheduler(bodies, [], 1)
        out = s.run()
        emit('count', s.count, s.steps)
    status, out = ctx.process(solo)
    if status != 'done':
        raise core.Violation('died', 'running the threads one after the other ended with ' + status)
    return out[-1][1], out[-1][2]


def gen(rng, most=8):
    "Few preemptions at chosen points, or now and then many."
    r = rng.random()
    n = rng.randrange(1, most) if r < .8 else rng.randrange(most, 60) if r < .97 else 0
    return [[rng.randrange(10000), rng.randrange(4)] for _ in range(n)]
