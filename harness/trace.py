"""Conformance: hands recorded observations to a Trace_* specification and collects its verdicts."""
import concurrent.futures
import os
import re
import tempfile

from common import CORES, Machinery, Tlc, esc, write_json

CFG = "SPECIFICATION Spec\nCONSTANT Field <- FieldOfCase\nCHECK_DEADLOCK TRUE\n"


class Verdicts:
    def __init__(self):
        self.fails, self.states, self.transitions, self.cases, self.wall = [], 0, 0, 0, 0.0

    def add(self, base, res, n, prop):
        if res is None:
            self.cases += n
            self.fails.append((base, [prop + ".outside-every-bound"]))
            return
        res.require_ok()
        if res.initial != n:
            raise Machinery("%s judged %d of %d cases" % (res.module, res.initial, n))
        self.states += res.states
        self.transitions += res.transitions
        self.cases += n
        self.wall = max(self.wall, res.wall)
        for line in res.prints("F"):
            m = re.match(r"(\d+) \{(.*)\}$", line)
            if not m:
                raise Machinery("unreadable verdict: " + line)
            self.fails.append((base + int(m.group(1)) - 1, sorted(x.strip('" ') for x in m.group(2).split('", "'))))


def pack(observed):
    """The TRACE object of a list of observe_field() results."""
    texts, index, cases = [], {}, []
    for ob in observed:
        tk = []
        for t, s, e in ob["tk"]:
            if t not in index:
                index[t] = len(texts) + 1
                texts.append([esc(t), [ord(c) for c in t]])
            tk.append([index[t], s, e])
        cases.append({"tk": tk, "o": ob["o"], "p": ob["p"], "g": ob["g"]})
    return {"texts": texts or [["", []]], "cases": cases}


def run_chunk(args):
    """[(index of the first case, TLC result, number of cases)].  A recording for which the specification's
    formulas have no value (a number beyond every bound, say) is not one of its behaviours: it is told
    apart by halving, and rejected."""
    module, cfg, prop, packer, part, base, workers = args
    fd, path = tempfile.mkstemp(prefix="f15trace.", suffix=".json")
    os.close(fd)
    try:
        write_json(path, packer(part))
        res = Tlc(module, cfg, env={"TRACE": path, "PROP": prop}, workers=workers, heap="3g").run()
    finally:
        os.unlink(path)
    if res.finished or not res.no_value:
        return [(base, res, len(part))]
    if len(part) == 1:
        return [(base, None, 1)]
    h = len(part) // 2
    return run_chunk((module, cfg, prop, packer, part[:h], base, workers)) + run_chunk((module, cfg, prop, packer, part[h:], base + h, workers))


def judge(prop, observed, module="Trace_Parser", cfg=CFG, packer=pack, chunk=2500, workers=1):
    """[(index, clauses)] for the observations the specification rejects."""
    v = Verdicts()
    n = len(observed)
    if n == 0:
        return v
    parts = max(1, min(CORES, (n + 399) // 400))
    size = min(chunk, (n + parts - 1) // parts)
    jobs = []
    for b in range(0, n, size):
        jobs.append((module, cfg, prop, packer, observed[b:b + size], b, workers))
    with concurrent.futures.ThreadPoolExecutor(CORES) as ex:
        for results in ex.map(run_chunk, jobs):
            for base, res, k in results:
                v.add(base, res, k, prop)
    v.fails.sort()
    return v
