"""An asyncio event loop on simulated time: the real loop machinery with a selector that blocks in the simulator."""
import asyncio
import selectors
import signal
import threading

from .kernel import current


class SimSelector(selectors.BaseSelector):
    def __init__(self):
        self._map = {}
        self.woken = False
        self.thread = None

    def register(self, fileobj, events, data=None):
        key = selectors.SelectorKey(fileobj, -1, events, data)
        self._map[fileobj] = key
        return key

    def unregister(self, fileobj):
        return self._map.pop(fileobj, None)

    def modify(self, fileobj, events, data=None):
        self.unregister(fileobj)
        return self.register(fileobj, events, data)

    def get_map(self):
        return self._map

    def close(self):
        pass

    def select(self, timeout=None):
        k, me = current()
        if k is None:
            return []
        if self.woken:
            self.woken = False
            k.yield_point("loop")
            return []
        if timeout is not None and timeout <= 0:
            k.yield_point("loop")
            return []
        self.thread = me
        try:
            k.block("select", None if timeout is None else int(timeout * 1e9))
        finally:
            self.thread = None
            self.woken = False
        return []


class SimLoop(asyncio.SelectorEventLoop):
    def __init__(self):
        self._simsel = SimSelector()
        super().__init__(self._simsel)

    def _make_self_pipe(self):
        self._ssock = self._csock = None
        self._internal_fds += 1

    def _close_self_pipe(self):
        self._internal_fds -= 1

    def time(self):
        k, me = current()
        return (k.now_ns - k.start_ns) / 1e9 if k is not None else 0.0

    def _write_to_self(self):
        s = self._simsel
        s.woken = True
        k, me = current()
        if k is not None and s.thread is not None:
            k.wake(s.thread)

    def add_signal_handler(self, sig, callback, *args):
        k, me = current()
        k.handlers[int(sig)] = lambda *a: self.call_soon_threadsafe(callback, *args)

    def remove_signal_handler(self, sig):
        k, me = current()
        return k.handlers.pop(int(sig), None) is not None

    def __del__(self):
        pass


class SimPolicy(asyncio.DefaultEventLoopPolicy):
    class _Local(threading.local):
        _loop = None
        _set_called = False

    def new_event_loop(self):
        if current()[0] is None:
            return super().new_event_loop()
        return SimLoop()

    def get_event_loop(self):
        k, me = current()
        if k is not None and self._local._loop is None and not self._local._set_called and me.is_main:
            self.set_event_loop(self.new_event_loop())
        return super().get_event_loop()


def install():
    asyncio.set_event_loop_policy(SimPolicy())
    real_all = asyncio.tasks.all_tasks

    class TaskList(list):
        """An ordered stand-in for the set of tasks."""

        def add(self, t):
            self.append(t)

        def discard(self, t):
            if t in self:
                self.remove(t)

        def __sub__(self, other):
            return TaskList(t for t in self if t not in other)

    def number(t):
        n = t.get_name()
        try:
            return (0, int(n.split("-")[-1]), n)
        except ValueError:
            return (1, 0, n)

    def all_tasks(loop=None):
        r = real_all(loop)
        if current()[0] is None:
            return r
        return TaskList(sorted(r, key=number))
    asyncio.tasks.all_tasks = all_tasks
    asyncio.all_tasks = all_tasks
