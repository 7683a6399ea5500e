"""
A scheduler for threads of real code.

Threads run one at a time.  Scheduling points are the source lines of the
library (or only the places next to a store), the insides of file library
calls, and locks.  A plan says after how many points the running thread is
preempted; everything else is deterministic, so a plan replays exactly.
"""
import dis
import os
import sys
import threading
import _thread

from mc.core import HarnessError, Violation

STORES = {'STORE_ATTR', 'STORE_SUBSCR', 'DELETE_ATTR', 'DELETE_SUBSCR', 'STORE_GLOBAL', 'DELETE_GLOBAL',
          'STORE_DEREF', 'STORE_SLICE'}
MUTATORS = {'append', 'extend', 'insert', 'pop', 'popitem', 'update', 'setdefault', 'add', 'remove', 'discard',
            'clear', 'move_to_end', 'sort', 'reverse', '__setitem__', '__delitem__', '__setattr__'}
ACTIVE = None       # the scheduler of the schedule being executed
_offsets = {}


class Abort(BaseException):
    """Unwinds a thread of a schedule which is over (deadlock)."""


def source_dir():
    import delayed_image
    return os.path.dirname(delayed_image.__file__) + os.sep


def store_offsets(code):
    got = _offsets.get(code)
    if got is None:
        got = set()
        for ins in dis.get_instructions(code):
            if ins.opname in STORES:
                got.add(ins.offset)
            elif ins.opname in ('LOAD_ATTR', 'LOAD_METHOD', 'LOAD_SUPER_ATTR') and str(ins.argval) in MUTATORS:
                got.add(ins.offset)
            elif ins.opname == 'LOAD_GLOBAL' and ins.argval in ('setattr', 'delattr'):
                got.add(ins.offset)
        _offsets[code] = got
    return got


class Sched:
    """
    thunks: one per thread; first: the thread which starts; plan: numbers of
    points after which the running thread is preempted; mode 'line' or 'store'.
    """

    def __init__(self, thunks, first, plan, mode):
        self.thunks = thunks
        self.plan = list(plan)
        self.mode = mode
        n = len(thunks)
        self.gates = [_thread.allocate_lock() for _ in range(n)]
        for g in self.gates:
            g.acquire()
        self.finished = [False] * n
        self.waiting = [None] * n       # the lock a thread is blocked on
        self.results = [None] * n
        self.points = [0] * n
        self.switches = 0
        self.current = first
        self.left = self.plan.pop(0) if self.plan else None
        self.alldone = _thread.allocate_lock()
        self.alldone.acquire()
        self.problem = None
        self.inside = {}                # dataset -> thread inside a call of it
        self.ids = {}
        self.trail = []
        self.after_store = [False] * n
        self.source = source_dir()

    # ---- threads
    def run(self):
        global ACTIVE
        if ACTIVE is not None:
            raise HarnessError('nested schedules')
        ACTIVE = self
        try:
            for i in range(len(self.thunks)):
                _thread.start_new_thread(self.body, (i,))
            self.gates[self.current].release()
            self.alldone.acquire()
        finally:
            ACTIVE = None
        return self

    def body(self, i):
        self.gates[i].acquire()
        self.ids[_thread.get_ident()] = i
        try:
            if self.problem is None:
                sys.settrace(self.trace)
                try:
                    self.results[i] = ('returns', self.thunks[i]())
                finally:
                    sys.settrace(None)
        except Abort:
            pass
        except BaseException as ex:
            self.results[i] = ('raises', f'{type(ex).__name__}: {ex}')
        self.finished[i] = True
        try:
            others = [k for k, f in enumerate(self.finished) if not f]
            if not others:
                self.alldone.release()
            else:
                nxt = self.runnable(others)
                if nxt is None:
                    self.deadlock()
                    nxt = others[0]
                self.current = nxt
                self.left = None if not self.plan else self.plan.pop(0)
                self.gates[nxt].release()
        except BaseException as ex:    # pragma: no cover
            self.problem = self.problem or f'scheduler: {ex!r}'
            self.alldone.release()

    def me(self):
        return self.ids.get(_thread.get_ident())

    def runnable(self, ids):
        for k in ids:
            if self.waiting[k] is None or self.waiting[k].free_for(k):
                return k
        return None

    def deadlock(self):
        self.problem = self.problem or 'deadlock'

    # ---- points
    def point(self, where=None):
        i = self.me()
        if i is None:
            return
        if self.problem is not None:
            raise Abort()
        self.points[i] += 1
        if self.left is None:
            return
        self.left -= 1
        if self.left > 0:
            return
        self.switch(i, where, forced=False)

    def switch(self, i, where, forced):
        others = [k for k, f in enumerate(self.finished) if not f and k != i]
        nxt = self.runnable(others)
        if nxt is None:
            if forced:
                self.deadlock()
                raise Abort()
            self.left = 1               # try again at the next point
            return
        if not forced:
            self.left = self.plan.pop(0) if self.plan else None
            self.trail.append(where)
        self.switches += 1
        self.current = nxt
        self.gates[nxt].release()
        self.gates[i].acquire()
        if self.problem is not None:
            raise Abort()

    # ---- tracing
    def trace(self, frame, event, arg):
        code = frame.f_code
        if not code.co_filename.startswith(self.source):
            return None
        if self.mode == 'store':
            frame.f_trace_opcodes = True
        return self.local

    def local(self, frame, event, arg):
        if event == 'line':
            if self.mode == 'line':
                self.point((frame.f_code.co_name, frame.f_lineno))
            else:
                i = self.me()
                if i is not None and self.after_store[i]:
                    self.after_store[i] = False
                    self.point((frame.f_code.co_name, frame.f_lineno))
        elif event == 'opcode':
            if frame.f_lasti in store_offsets(frame.f_code):
                self.point((frame.f_code.co_name, frame.f_lineno))
                i = self.me()
                if i is not None:
                    self.after_store[i] = True
        return self.local


# ---------------------------------------------------------------- locks
class Lock:
    """Stands in for threading.Lock and RLock; an ordinary lock outside schedules."""
    reentrant = False

    def __init__(self):
        self._real = _thread.RLock() if self.reentrant else _thread.allocate_lock()
        self._owner = None
        self._count = 0

    def free_for(self, i):
        return self._owner is None or (self.reentrant and self._owner == i)

    def acquire(self, blocking=True, timeout=-1):
        s = ACTIVE
        i = s.me() if s is not None else None
        if i is None:
            return self._real.acquire(blocking, timeout)
        s.point(('lock', 0))
        while not self.free_for(i):
            if not blocking or (timeout is not None and timeout >= 0):
                return False
            s.waiting[i] = self
            s.switch(i, None, forced=True)
            s.waiting[i] = None
        self._owner = i
        self._count += 1
        return True

    def release(self):
        s = ACTIVE
        i = s.me() if s is not None else None
        if i is None or self._owner is None:
            return self._real.release()
        if self.reentrant and self._owner != i:
            raise RuntimeError('cannot release un-acquired lock')
        self._count -= 1
        if self._count <= 0:
            self._owner, self._count = None, 0
        s.point(('unlock', 0))

    def locked(self):
        return self._owner is not None or (not self.reentrant and self._real.locked())

    def __enter__(self):
        return self.acquire()

    def __exit__(self, *a):
        self.release()

    def _is_owned(self):
        s = ACTIVE
        i = s.me() if s is not None else None
        if i is not None:
            return self._owner == i
        return self._real._is_owned()

    def _at_fork_reinit(self):
        self.__init__()


class RLock(Lock):
    reentrant = True


def install_locks():
    """before the library is imported"""
    if 'delayed_image' in sys.modules:
        raise HarnessError('the library is imported already')
    threading.Lock = Lock
    threading.RLock = RLock


# ---------------------------------------------------- file library calls
CALLS = {
    'Dataset': ['GetRasterBand', 'ReadAsArray', 'GetSubDatasets', 'GetMetadata'],
    'Band': ['ReadAsArray', 'GetOverview', 'GetOverviewCount', 'GetNoDataValue', 'GetDataset'],
}
_roots = {}
_keep = []


def _key(obj):
    return int(obj.this)


def _root(obj):
    k = _key(obj)
    return _roots.get(k, k)


class instrument_gdal:
    """Calls on one open dataset must not overlap: GDAL does not allow it."""

    def __enter__(self):
        from osgeo import gdal
        _roots.clear()
        self.saved = []
        for cls, names in CALLS.items():
            own = getattr(gdal, cls)
            for name in names:
                orig = getattr(own, name)
                self.saved.append((own, name, own.__dict__.get(name)))
                setattr(own, name, wrap(name, orig))
        return self

    def __exit__(self, *a):
        for own, name, orig in self.saved:
            if orig is None:
                delattr(own, name)
            else:
                setattr(own, name, orig)


def wrap(name, orig):
    def call(self, *args, **kw):
        s = ACTIVE
        i = s.me() if s is not None else None
        root = _root(self)
        if i is None:
            out = orig(self, *args, **kw)
        else:
            s.point((name, 0))
            held = s.inside.get(root)
            if held is not None and held[0] != i:
                s.problem = s.problem or f'{name} while another thread is inside {held[1]} of the same open dataset'
                raise Abort()
            s.inside[root] = (i, name)
            try:
                s.point((name, 1))
                out = orig(self, *args, **kw)
            finally:
                if held is None:
                    s.inside.pop(root, None)
        if name in ('GetRasterBand', 'GetOverview', 'GetDataset') and out is not None and _key(out) != root:
            _roots[_key(out)] = root
        return out
    return call


def count(thunk, mode):
    """the number of points of a thunk which runs alone"""
    s = Sched([thunk], 0, [], mode).run()
    return s.points[0]


def check_problem(s, where):
    if s.problem is not None:
        if s.problem.startswith('scheduler'):
            raise HarnessError(s.problem)
        raise Violation(f'{where}: {s.problem}')
