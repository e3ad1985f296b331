"""Stand-in for multiprocess.Process/Manager: real forks without servers, and prescribed timeouts.

SCHEDULE.timeouts = set of call numbers whose process never finishes in time; SCHEDULE.calls counts the processes started."""
import os
import pickle
import signal


class SCHEDULE:
    timeouts = frozenset()
    calls = 0

    @classmethod
    def reset(cls, timeouts=()):
        cls.timeouts = frozenset(timeouts)
        cls.calls = 0


_lists = []


class _List(list):
    pass


class _Manager:
    def list(self, *a):
        l = _List(*a)
        _lists.append(l)
        del _lists[:-64]
        return l

    def dict(self, *a, **k):
        return dict(*a, **k)

    def shutdown(self):
        pass

    def __enter__(self):
        return self

    def __exit__(self, *a):
        pass


class _Process:
    def __init__(self, group=None, target=None, name=None, args=(), kwargs=None, daemon=None):
        self.target, self.args, self.kwargs = target, args, kwargs or {}
        self.pid, self.exitcode, self.rd = None, None, None

    def start(self):
        self.no = SCHEDULE.calls
        SCHEDULE.calls += 1
        if self.no in SCHEDULE.timeouts:
            return
        self.rd, wr = os.pipe()
        live = list(_lists)
        self.pid = os.fork()
        if self.pid == 0:
            code = 1
            try:
                os.close(self.rd)
                before = [len(l) for l in live]
                self.target(*self.args, **self.kwargs)
                with os.fdopen(wr, "wb") as f:
                    pickle.dump([(i, list(l)[b:]) for i, (l, b) in enumerate(zip(live, before)) if len(l) != b], f)
                code = 0
            except BaseException:
                pass
            finally:
                os._exit(code)
        os.close(wr)
        self.live = live

    def join(self, timeout=None):
        if self.no in SCHEDULE.timeouts or self.rd is None:
            return
        with os.fdopen(self.rd, "rb") as f:
            data = f.read()
        self.rd = None
        _, st = os.waitpid(self.pid, 0)
        self.exitcode = os.waitstatus_to_exitcode(st)
        if data and self.exitcode == 0:
            for i, items in pickle.loads(data):
                self.live[i].extend(items)

    def is_alive(self):
        return self.no in SCHEDULE.timeouts and self.exitcode is None

    def terminate(self):
        self.exitcode = -signal.SIGTERM

    kill = terminate

    def close(self):
        pass


def install():
    import multiprocess
    multiprocess.Process = _Process
    multiprocess.Manager = _Manager
