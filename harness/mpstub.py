"""Worker processes, shared array and queues replaced by a scheduler whose choices are symbolic.

Every worker runs in a thread of its own, but only one thread runs at any time; whenever a
worker touches the shared array (or is about to end) the scheduler decides which worker goes
on.  A worker may raise or be killed at an evaluation; a large output keeps the worker alive
until its queue is read, as multiprocessing documents ("joining processes that use queues")."""
import multiprocessing
import queue
import threading
import time as _time


class Killed(BaseException):
    """the worker dies without a word"""


class Cancelled(BaseException):
    """the path is over"""


class Proc:
    def __init__(self, k, p):
        self.k, self.p = k, p
        self.go = threading.Semaphore(0)
        self.ready = True
        self.died = False
        self.finished = False
        self.waiting = 0
        self.queues = []


class Sched:
    def __init__(self, ctx, big=False, slow=False, preempt=True):
        self.ctx = ctx
        self.procs = {}
        self.current = None
        self.back = threading.Semaphore(0)
        self.signal = None
        self.cancel = False
        self.big, self.slow = big, slow
        self.nchoice = 0
        self.log = []
        self.preempt = preempt
        self.idle = 0
        self.queues = []
        self.late = None        # called with a worker that is about to hand in its output

    # ------------------------------------------------------------ installation
    def install(self):
        sched, ctx = self, self.ctx
        cls = ctx.m("processes").HyperSearchProcess

        def start(p):
            sched.start(p)

        def join(p, timeout=None):
            sched.join(p, timeout)

        def is_alive(p):
            return sched.is_alive(p)

        def exitcode(p):
            pr = sched.procs.get(id(p))
            if pr is None or sched.alive(pr):
                return None
            return -9 if pr.died else 0

        for name, fn in (("start", start), ("join", join), ("is_alive", is_alive),
                         ("exitcode", property(exitcode)), ("pid", property(lambda p: 1000)),
                         ("terminate", lambda p: sched.kill(p)), ("kill", lambda p: sched.kill(p)),
                         ("close", lambda p: None)):
            ctx.patch(cls, name, fn)

        class FakeTime:
            def __getattr__(self, name):
                return sched.sleep if name == "sleep" else getattr(_time, name)

        ctx.replace_globals([
            (multiprocessing.Queue, lambda *a, **k: FakeQueue(sched)),
            (multiprocessing.SimpleQueue, lambda *a, **k: FakeQueue(sched)),
            (multiprocessing.Array, lambda t, v, **k: FakeArray(sched, v, t)),
            (_time.sleep, self.sleep)])
        return self

    # ------------------------------------------------------------ threads
    def start(self, p):
        if id(p) in self.procs:
            raise AssertionError("cannot start a process twice")
        pr = Proc(len(self.procs), p)
        self.procs[id(p)] = pr
        # what a worker stores in its own process object is not visible to the parent
        twin = object.__new__(type(p))
        twin.__dict__.update(p.__dict__)

        def body():
            pr.go.acquire()
            try:
                if not self.cancel:
                    twin.run()
            except Killed:
                pr.died = True
            except Cancelled:
                pass
            except Exception:
                pr.died = True
            except BaseException as e:
                self.signal = e
            pr.finished = True
            self.back.release()

        pr.thread = threading.Thread(target=body, daemon=True)
        pr.thread.start()

    def step(self, pr):
        """let a worker run up to its next shared access"""
        self.current, keep = pr, self.current
        pr.go.release()
        self.back.acquire()
        self.current = keep
        self.idle = 0
        if self.signal is not None:
            e, self.signal = self.signal, None
            raise e

    def point(self):
        """a worker is about to touch shared state"""
        pr = self.current
        if pr is None:
            self.progress(optional=True)
            return
        if not self.preempt:
            return
        self.back.release()
        pr.go.acquire()
        if self.cancel:
            raise Cancelled()

    def runnable(self):
        return [pr for pr in self.procs.values() if not pr.finished]

    def progress(self, optional=False):
        """one step of a worker the scheduler chooses; False when none is left"""
        rs = self.runnable()
        if not rs:
            return False
        while optional:
            self.nchoice += 1
            if not self.ctx.flag(f"sched{self.nchoice}"):
                return True
            rs = self.runnable()
            if not rs:
                return False
            self.step(rs[0])
        if len(rs) > 1 and self.preempt:
            self.nchoice += 1
            pr = self.ctx.choice(f"sched{self.nchoice}", rs) if len(rs) == 2 else \
                rs[self.ctx.pick(self.ctx.int(f"sched{len(rs)}_{self.nchoice}", 0, len(rs) - 1))]
        else:
            pr = rs[0]
        self.step(pr)
        return True

    def close(self):
        self.cancel = True
        for pr in self.procs.values():
            if not pr.finished:
                pr.go.release()
                pr.thread.join(10)

    # ------------------------------------------------------------ process API
    def alive(self, pr):
        if not pr.finished:
            return True
        return self.big and not pr.died and any(q.items for q in pr.queues)

    def is_alive(self, p):
        pr = self.procs.get(id(p))
        if pr is None:
            return False
        pr.waiting += 1
        if pr.waiting > 3 and not pr.finished:
            pr.waiting = 0
            self.progress()
        elif pr.waiting > 50:
            self.deadlock("polls a worker that cannot end")
        return self.alive(pr)

    def deadlock(self, what):
        self.ctx.check(False, f"the parent waits for ever: {what}")
        self.ctx.stop()

    def join(self, p, timeout=None):
        pr = self.procs.get(id(p))
        if pr is None:
            raise AssertionError("can only join a started process")
        if timeout is not None:
            self.idle += 1
            if not self.progress() and self.idle > 50:
                self.deadlock("joins a worker that cannot end")
            return
        while not pr.finished:
            self.progress()
        if self.alive(pr):
            self.deadlock("joins a worker whose output was not read")

    def kill(self, p):
        pr = self.procs.get(id(p))
        if pr is None or pr.finished:
            return
        self.ctx.check(False, "a running worker is killed")
        self.ctx.stop()

    def sleep(self, t=0):
        self.idle += 1
        if not self.progress() and self.idle > 50:
            self.deadlock("sleeps although no worker is left")


class FakeQueue:
    def __init__(self, sched):
        self.sched, self.items = sched, []
        self.slow = sched.slow
        sched.queues.append(self)

    def put(self, item, block=True, timeout=None):
        pr = self.sched.current
        if pr is not None and self.sched.late is not None:
            self.sched.late(pr)
        self.items.append(item)
        if pr is not None and self not in pr.queues:
            pr.queues.append(self)

    put_nowait = put

    def get(self, block=True, timeout=None):
        s = self.sched
        if not block:
            return self.get_nowait()
        if timeout is not None and self.slow and not self.items:
            self.slow = False
            if s.ctx.flag(f"slow{s.queues.index(self)}"):
                raise queue.Empty
        while not self.items:
            if not s.progress():
                if timeout is not None:
                    s.idle += 1
                    if s.idle < 50:
                        raise queue.Empty
                s.deadlock("reads the queue of a worker that died")
        return self.items.pop(0)

    def get_nowait(self):
        s = self.sched
        if not self.items:
            s.idle += 1
            if not s.progress() and s.idle > 50:
                s.deadlock("polls the queue of a worker that died")
        if not self.items:
            raise queue.Empty
        return self.items.pop(0)

    def empty(self):
        s = self.sched
        if not self.items:
            s.idle += 1
            if not s.progress() and s.idle > 50:
                s.deadlock("polls the queue of a worker that died")
        return not self.items

    def qsize(self):
        return len(self.items)

    def close(self):
        pass

    join_thread = cancel_join_thread = close


class FakeArray:
    def __init__(self, sched, values, code="d"):
        self.sched = sched
        self.code = getattr(code, "_type_", code)
        self.values = [0] * values if isinstance(values, int) else list(values)

    def _point(self, kind, *a):
        self.sched.point()
        cur = self.sched.current
        self.sched.log.append((kind, cur.k if cur else None, *a))

    def __getitem__(self, i):
        self._point("read")
        return self.values[i]

    def __setitem__(self, i, v):
        self._point("write", i, v)
        self.values[i] = self.stored(v)

    def stored(self, v):
        """what an element of this type holds"""
        if self.code == "d":
            return v
        ctx = self.sched.ctx
        if self.code == "f":
            # 24 significant bits
            for e in range(-8, 8):
                if ctx.And(v >= 2.0 ** (e - 1), v < 2.0 ** e):
                    return round(v * 2 ** (24 - e)) / 2 ** (24 - e)
            return v
        return int(v)

    def __len__(self):
        return len(self.values)

    def __iter__(self):
        self._point("read")
        return iter(list(self.values))

    def get_lock(self):
        return self

    def get_obj(self):
        return self

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False
