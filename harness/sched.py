"""A deterministic scheduler for real threads: only the thread holding the baton runs, and it is
passed on at line (or bytecode) boundaries inside the library, as a schedule word says."""
import json
import os
import sys
import threading

import driver
from common import REPO
from driver import api

PREFIX = os.path.realpath(REPO) + os.sep


class Run:
    def __init__(self, fields, word, grain, opcodes=False):
        self.fields, self.word, self.opcodes = fields, word, opcodes
        # lines each step of the word lasts: one number, or one per step (0: until the thread has finished)
        self.grains = grain if isinstance(grain, (list, tuple)) else [grain] * len(word)
        self.n = len(fields)
        self.batons = [threading.Semaphore(0) for _ in fields]
        self.alive = [True] * self.n
        self.pos = 0
        self.left = self.length()
        self.results = [None] * self.n
        self.switches = 0
        self.ticks = 0
        self.free = False         # no longer scheduled: the library itself makes threads wait for each other
        self.done = threading.Event()

    def length(self):
        return self.grains[self.pos % len(self.word)] or 10 ** 9

    def current(self):
        """The thread whose turn it is: the one the word names, or the next that has not finished."""
        t = self.word[self.pos % len(self.word)] - 1
        for k in range(self.n):
            if self.alive[(t + k) % self.n]:
                return (t + k) % self.n
        return None

    def tick(self, me):
        self.ticks += 1
        if self.free:
            return
        self.left -= 1
        if self.left > 0:
            return
        self.pos += 1
        self.left = self.length()
        nxt = self.current()
        if nxt is not None and nxt != me:
            self.switches += 1
            self.batons[nxt].release()
            self.batons[me].acquire()

    def finish(self, me):
        self.alive[me] = False
        if not any(self.alive):
            self.done.set()
        if self.free:
            return
        if self.grains[self.pos % len(self.word)] == 0:
            self.pos += 1
        nxt = self.current()
        if nxt is not None:
            self.left = self.length()
            self.batons[nxt].release()

    def thread(self, me, body):
        def local(frame, event, arg):
            if event == "line" or event == "opcode":
                self.tick(me)
            return local

        def tracer(frame, event, arg):
            if not frame.f_code.co_filename.startswith(PREFIX):
                return None
            if self.opcodes:
                frame.f_trace_opcodes = True
            self.tick(me)
            return local
        self.batons[me].acquire()
        try:
            sys.settrace(tracer)
            try:
                self.results[me] = body(me)
            except Exception as ex:
                self.results[me] = driver.failed(type(ex).__name__)
            finally:
                sys.settrace(None)
        finally:
            self.finish(me)

    def go(self, timeout=30):
        a = api()
        parser = a.Parser()

        def body(me):
            t = a.Tokenize()
            t.set_string_to_tokenize(self.fields[me])
            t.set_whitespace(driver.WS)
            t.tokenize()
            ers = a.Ers()
            ret = parser.parse_f15(ers, t.get_tokens())
            return driver.Keep(ers, ret)
        threads = [threading.Thread(target=self.thread, args=(i, body), daemon=True) for i in range(self.n)]
        for t in threads:
            t.start()
        first = self.current()
        self.batons[first].release()
        last, waited = -1, 0
        while not self.done.wait(.5) and waited < timeout:
            if self.ticks == last:        # the thread whose turn it is waits for another one: let all run
                self.free = True
                for b in self.batons:
                    b.release()
            last, waited = self.ticks, waited + .5
        if not self.done.is_set():
            return [driver.failed("Timeout")] * self.n
        for t in threads:
            t.join(5)
        # results are read after all threads have finished
        return [r if isinstance(r, dict) else driver.project(r.ers, r.ret) for r in self.results]


_solo = {}


def observe(job):
    """job: (fields, word, grain, opcodes)"""
    fields, word, grain, opcodes = job
    from hist import in_fresh_process

    def together():
        run = Run(fields, word, grain, opcodes)
        return [run.go(), run.switches]
    for f in fields:
        if f not in _solo:
            _solo[f] = in_fresh_process(lambda f=f: driver.parse(f))
    solo = [_solo[f] for f in fields]
    r = in_fresh_process(together)
    res, switches = (r[0], r[1]) if not (r and r[0] == "died") else ([driver.failed("died")] * len(fields), 0)
    return {"fields": fields, "word": list(word), "grain": grain, "opcodes": opcodes, "switches": switches,
            "tk": [driver.split(f) for f in fields], "alone": solo, "together": res}
