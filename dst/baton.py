"""Real threads, one of which runs at a time; a seeded scheduler decides which, at every switch point."""

import random
import threading


class Baton:
    def __init__(self, seed, p_line=0.0):
        self.rng = random.Random(seed)
        self.p_line = p_line
        self.threads = []
        self.local = threading.local()
        self.main = threading.Event()
        self.trace = []
        self.switches = 0
        self.limit = 200000

    def add(self, name, fn, open=False):
        t = {"name": name, "fn": fn, "go": threading.Event(), "done": False, "open": open, "err": None, "out": None}
        t["thread"] = threading.Thread(target=self._body, args=(t,), daemon=True)
        self.threads.append(t)

    def _body(self, t):
        self.local.me = t
        t["go"].wait()
        t["go"].clear()
        try:
            t["out"] = t["fn"]()
        except BaseException as e:  # handed to the caller
            t["err"] = e
        t["done"] = True
        self.main.set()

    def me(self):
        return getattr(self.local, "me", None)

    def pause(self):
        t = self.me()
        if t is None or not t["open"]:
            return
        self.main.set()
        t["go"].wait()
        t["go"].clear()

    # switch points
    def hook(self, where):
        t = self.me()
        if t is None:
            return
        if where == "eval":
            t["open"] = True
        self.pause()

    def line(self, code, line):
        t = self.me()
        if t is None or not t["open"]:
            return
        if self.rng.random() < self.p_line:
            self.pause()

    def run(self):
        for t in self.threads:
            t["thread"].start()
        last = None
        while True:
            live = [t for t in self.threads if not t["done"]]
            if not live:
                break
            t = live[self.rng.randrange(len(live))]
            if last is not None and last is not t:
                self.switches += 1
            last = t
            if len(self.trace) < 400:
                self.trace.append(t["name"])
            self.limit -= 1
            if self.limit < 0:
                raise RuntimeError("scheduler step bound exceeded")
            self.main.clear()
            t["go"].set()
            self.main.wait()
        for t in self.threads:
            t["thread"].join()
        return self.threads
