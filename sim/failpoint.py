"""Failures at a chosen point inside la: the interpreter runs out of memory, or
the user presses ^C, while a given line of la runs or as la makes a given call."""
import sys
import seams


class FailPoint(object):
    """mode 'line': before the nth line executed in la's frames;
    mode 'call': as the nth call from a la frame into another library's Python
    code starts; mode 'ccall': as the nth call from a la frame of a C function
    starts (so that it has no effect)."""

    def __init__(self, mode, nth, exc, sub=''):
        self.mode, self.nth, self.sub = mode, nth, sub
        self.exc = {'mem': MemoryError, 'int': KeyboardInterrupt, 'io': IOError}[exc]
        self.seen, self.fired, self.armed = 0, 0, False
        self.where = None

    def _in_la(self, code):
        fn = code.co_filename
        return fn.startswith(seams.LAROOT) and self.sub in fn and '/tests/' not in fn

    def _hit(self, frame, what=''):
        self.seen += 1
        if self.seen == self.nth and not self.fired:
            self.fired = 1
            self.where = '%s:%s %s' % (frame.f_code.co_name, frame.f_lineno, what)
            sys.settrace(None)
            sys.setprofile(None)
            raise self.exc('simulated')

    def _trace(self, frame, event, arg):
        if not self._in_la(frame.f_code) or frame.f_code.co_name == '<module>':
            return None
        return self._local

    def _local(self, frame, event, arg):
        if event == 'line':
            self._hit(frame)
        return self._local

    def _profile(self, frame, event, arg):
        if self.mode == 'ccall':
            if event == 'c_call' and self._in_la(frame.f_code) and \
                    frame.f_code.co_name != '<module>':
                name = getattr(arg, '__name__', '')
                if name in ('settrace', 'setprofile'):
                    return
                self._hit(frame, name)
        elif event == 'call':
            b = frame.f_back
            if b is not None and self._in_la(b.f_code) and not self._in_la(frame.f_code) \
                    and b.f_code.co_name != '<module>':
                self._hit(b, frame.f_code.co_name)

    def __enter__(self):
        if self.mode == 'line':
            sys.settrace(self._trace)
        else:
            sys.setprofile(self._profile)
        return self

    def __exit__(self, *a):
        sys.settrace(None)
        sys.setprofile(None)
        return False


def run(fp, fn):
    "Run fn() under fp; sys.settrace only applies to frames entered after it."
    def inner():
        return fn()
    with fp:
        return inner()
