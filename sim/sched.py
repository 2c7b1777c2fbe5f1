"""Deterministic threads: exactly one runs; at every yield point the world chooses who is next."""
import threading


class Sched:
    def __init__(self, w):
        self.w = w
        self.tasks = []
        self.current = None
        self.main = threading.Semaphore(0)

    def spawn(self, name, fn):
        t = {"name": name, "sem": threading.Semaphore(0), "done": False, "error": None}

        def body():
            t["sem"].acquire()
            try:
                fn()
            except BaseException as e:  # judged by the property
                t["error"] = e
            t["done"] = True
            self.main.release()

        t["thread"] = threading.Thread(target=body, daemon=True)
        t["thread"].start()
        self.tasks.append(t)
        return t

    def point(self, label=""):
        """Called by a task: another one can run before it continues."""
        t = self.current
        if t is None or threading.current_thread() is not t["thread"]:
            return
        self.main.release()
        t["sem"].acquire()

    def name(self):
        t = self.current
        if t is not None and threading.current_thread() is t["thread"]:
            return t["name"]
        return None

    def run(self):
        while True:
            ready = [t for t in self.tasks if not t["done"]]
            if not ready:
                self.current = None
                return
            self.w.step()
            i = self.w.choose(len(ready), "task")
            t = ready[i]
            if self.current is not None and self.current is not t and not self.current["done"]:
                self.w.nontrivial = True
                self.w.probe("preemption")
            self.current = t
            t["sem"].release()
            self.main.acquire()
