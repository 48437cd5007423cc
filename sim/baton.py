"""Runs several tasks as coroutine-like threads of which exactly one moves at a
time; a seeded schedule decides which."""
import sys
import threading

from .base import HarnessError

_local = threading.local()


class _Output:
    """Standard output of every task on its own."""

    def __init__(self, fallback):
        self.fallback = fallback

    def write(self, text):
        task = getattr(_local, "task", None)
        if task is None:
            return self.fallback.write(text)
        task.output.append(text)
        return len(text)

    def flush(self):
        pass

    def isatty(self):
        return False


class Task:
    def __init__(self, index, function):
        self.index, self.function = index, function
        self.go = threading.Semaphore(0)
        self.output = []
        self.result = self.error = None
        self.finished = False
        self.at = "start"

    def text(self):
        text, self.output = "".join(self.output), []
        return text


class Baton:
    def __init__(self, functions, schedule, run=None):
        self.schedule = list(schedule)
        self.tasks = [Task(k, f) for k, f in enumerate(functions)]
        self.back = threading.Semaphore(0)
        self.order = []
        self.run_record = run

    def pause(self, label):
        """Called by a task wherever another one may go on."""
        task = getattr(_local, "task", None)
        if task is None:
            return
        task.at = label
        self.back.release()
        task.go.acquire()

    def _body(self, task):
        _local.task = task
        task.go.acquire()
        try:
            task.result = task.function(task)
        except BaseException as e:  # noqa
            task.error = e
        task.finished = True
        self.back.release()

    def go(self, limit=200000):
        saved = sys.stdout
        sys.stdout = _Output(saved)
        threads = [threading.Thread(target=self._body, args=(t,), daemon=True) for t in self.tasks]
        try:
            for thread in threads:
                thread.start()
            at = 0
            last = -1
            switches = 0
            while True:
                ready = [t for t in self.tasks if not t.finished]
                if not ready:
                    break
                if at < len(self.schedule):
                    task = ready[self.schedule[at] % len(ready)]
                else:
                    task = ready[0]
                at += 1
                if at > limit:
                    raise HarnessError("schedule does not end")
                switches += task.index != last
                last = task.index
                self.order.append(task.index)
                task.go.release()
                self.back.acquire()
        finally:
            sys.stdout = saved
        for task in self.tasks:
            if task.error is not None:
                raise task.error
        return switches
