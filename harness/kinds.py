"""What is run, recorded and judged for each property: one class per way of observing the code."""
import collections
import json
import random

import corpus
import driver
import hist
import sched
import trace
from common import Machinery, SEED, esc

PLAIN = "SPECIFICATION Spec\nCHECK_DEADLOCK TRUE\n"


class None_:
    states = transitions = 0


class Kind:
    module, cfg = None, PLAIN
    assumptions = ["CPython, geographiclib and expat behave as documented", "TLC and the harness are trusted"]
    canaries_rejected = 0

    # ---- to be provided
    def jobs(self, prop, tier):
        """(what to run, TLC result of generating it)"""
        raise NotImplementedError

    def run(self, job):
        raise NotImplementedError

    def pack(self, observed):
        raise NotImplementedError

    def corrupt(self, r, prop, ob):
        """A recording that must be rejected, or None when this one does not lend itself to it."""
        raise NotImplementedError

    # ---- common
    def observe(self, jobs):
        out = driver.pmap(self.run, jobs, chunk=self.chunk)
        return [x for x in out if x is not None]
    chunk = 64

    def judge(self, prop, observed):
        return trace.judge(prop, observed, module=self.module, cfg=self.cfg, packer=self.pack)

    def canaries(self, prop, observed):
        """Corrupted recordings are rejected, every one."""
        r = random.Random("canary-%s-%d" % (prop, SEED))
        bad, order = [], list(range(len(observed)))
        r.shuffle(order)
        for i in order:
            c = self.corrupt(r, prop, json.loads(json.dumps(observed[i])))
            if c is not None:
                bad.append(c)
                if len(bad) == 24:
                    break
        if len(bad) < 5:
            raise Machinery("%s: only %d recordings could be corrupted" % (prop, len(bad)))
        v = self.judge(prop, bad)
        missed = sorted(set(range(len(bad))) - {i for i, _ in v.fails})
        if missed:
            raise Machinery("%s: a corrupted recording was accepted: %s" % (prop, self.brief(bad[missed[0]])))
        self.canaries_rejected = len(bad)

    def listed(self, ob, findings):
        return False

    def still_fails(self, finding):
        return False

    def statistics(self, observed):
        return {}

    def samples(self, observed):
        r = random.Random(SEED)
        return [self.describe(observed[i], brief=True) for i in sorted(r.sample(range(len(observed)), min(4, len(observed))))]

    def size(self, ob):
        return len(json.dumps(ob))

    def shrink(self, prop, ob, clauses):
        return ob, clauses

    def describe(self, ob, brief=False):
        return ob

    def brief(self, ob):
        return json.dumps(self.describe(ob, brief=True))[:400]

    def again(self, case):
        """Re-runs a described case."""
        raise NotImplementedError

    def smaller(self, prop, ob, clauses, variants, rounds=8):
        """Greedy reduction: the first of the variants of a failing job that also fails."""
        for _ in range(rounds):
            jobs = list(variants(ob))[:200]
            if not jobs:
                break
            obs = [self.run(j) for j in jobs]
            obs = [o for o in obs if o is not None]
            v = self.judge(prop, obs)
            if not v.fails:
                break
            i, clauses = min(v.fails, key=lambda x: self.size(obs[x[0]]))
            if self.size(obs[i]) >= self.size(ob):
                break
            ob = obs[i]
        return ob, clauses


# --------------------------------------------------------------- single parses --
ANGLE = "value must be 0 to"      # in the messages about angles
VALUES = {"sp": 5, "spsi": 6, "al": 7, "alsi": 8, "rules": 9, "bt": 10, "stay": 11, "ct": 12, "ctsi": 13, "lat": 14, "lon": 15, "valid": 16, "brg": 17, "dist": 18}


class Fields(Kind):
    module, cfg = "Trace_Parser", trace.CFG
    assumptions = Kind.assumptions + ["WGS84 geodesics are those of geographiclib", "fields of at most 180 elements", "reference tokenization of driver.split (itself checked against F15Lex by C01)"]

    def jobs(self, prop, tier):
        situations, res = corpus.cover(7)
        fs = corpus.fields(prop, tier, situations)
        if prop == "C03":
            fs += [f["input"] for f in FINDINGS if f["property"] == "C03"]
        self.situations = len(situations)
        self.reached = sorted({n for _, n in situations})
        return fs, res

    def run(self, field):
        return driver.observe_field(field)

    def pack(self, observed):
        return trace.pack(observed)

    def corrupt(self, r, prop, ob):
        o = ob["o"]
        if o["x"]:
            return None
        ers, errs, inner = o["ers"], o["errs"], range(1, len(o["ers"]) - 1)

        def poke(where, col, value):
            """Changes one value of one of the records."""
            if not where:
                return None
            j = r.choice(list(where))
            ers[j][col] = value(ers[j][col]) if callable(value) else value
            return ob

        def drop_error(pred):
            xs = [i for i, e in enumerate(errs) if pred(e)]
            if not xs:
                return None
            del errs[r.choice(xs)]
            o["ret"] = "T" if not errs else "F"
            return ob
        if prop == "C03":
            x = r.randrange(4)
            if x == 0:
                o["x"] = "ValueError"
            elif x == 1:
                del ers[-1]
            elif x == 2:
                ers[0][0] = "ADES"
            else:
                ers[-1][2] = 4
            return ob
        if prop == "C04":
            x = r.randrange(3)
            if x == 0:
                o["ret"] = "F" if o["ret"] == "T" else "T"
                return ob
            if not errs:
                return None
            e = r.choice(errs)
            if x == 1:
                e[1], e[2] = e[1] + 1000, e[2] + 1000
            else:
                e[5] += " "
            return ob
        if prop == "C05":
            if r.random() < .5:
                return drop_error(lambda e: ANGLE not in e[5])
            if not errs:
                return None
            errs.append(list(errs[-1]))
            return ob if ANGLE not in errs[-1][5] else None
        if prop == "C06":
            if len(ers) < 4:
                return None
            x = r.randrange(3)
            if x == 0:
                del ers[r.choice(list(inner))]
            elif x == 1:
                j = r.choice(list(inner)[:-1])
                ers[j], ers[j + 1] = ers[j + 1], ers[j]
            else:
                j = r.choice(list(inner))
                ers.insert(j, list(ers[j]))
            return ob
        if prop == "C07":
            if len(ers) < 3:
                return None
            j = r.choice(list(inner))
            named = {(e[1], e[2]) for e in errs}
            if (ers[j][1], ers[j][2]) in named or any(ers[i][1:3] == ers[j][1:3] for i in inner if i != j):
                return None
            if ers[j][0] == "C" or ers[j][10]:
                return None
            del ers[j]
            return ob
        if prop == "C08":
            return poke([j for j in range(len(ers) - 1) if ers[j][5]], r.choice((5, 7)), lambda v: v[:-1] + ("8" if v[-1:] != "8" else "7"))
        if prop == "C09":
            col = r.choice((6, 8))
            return poke([j for j in range(len(ers)) if ers[j][col] > 0], col, lambda v: v + 300)
        if prop == "C10":
            return poke(range(len(ers) - 1), 9, lambda v: "VFR" if v != "VFR" else "IFR") if ob["tk"] else None
        if prop == "C11":
            o["der"] = r.choice([x for x in ("I", "V", "Y", "Z", "") if x != o["der"]])
            return ob
        if prop == "C12":
            if r.random() < .4:
                return drop_error(lambda e: ANGLE in e[5])
            loc = [j for j in inner if ers[j][16] == "Y" and len(ers[j][0]) in (7, 11)]
            return poke(loc, r.choice((14, 15)), lambda v: v + 2000) if r.random() < .6 else poke(loc, 16, "N")
        if prop == "C13":
            if r.random() < .5:
                return poke([j for j in inner if ers[j][18] > 0], 18, lambda v: v + 10)
            return poke([j for j in inner if ers[j][18] == 0], 18, 500)
        if prop == "C14":
            return poke([j for j in inner if ers[j][12]], r.choice((12, 13, 7)), lambda v: (v + 100) if isinstance(v, int) else v + "0")
        if prop == "C15":
            return poke([j for j in inner if ers[j][11] > 0], 11, lambda v: v - 1) if r.random() < .7 else poke(inner, 11, lambda v: v + 1)
        if prop == "C16":
            return poke([j for j in inner if ers[j][3] in ("SID", "STAR", "SID_STAR") and ob["tk"]], 3, lambda v: "STAR" if v == "SID" else "SID")
        if prop == "C24":
            return poke([j for j in inner if ers[j][10]], 10, lambda v: v + " X")
        if prop == "C25":
            loc = [j for j in inner if ers[j][16] == "Y" and len(ers[j][0]) in (13, 17) and abs(ers[j][14]) < 8900000]
            return poke(loc, r.choice((14, 15)), lambda v: v + 100)
        raise Machinery("no canary for " + prop)

    def listed(self, ob, findings):
        return any(f["input"] == ob["f"] and f["fails_with"] == ob["o"]["x"] for f in findings)

    def still_fails(self, f):
        return driver.parse(f["input"])["x"] == f["fails_with"]

    def statistics(self, observed):
        kinds = {}
        for ob in observed:
            for r in ob["o"]["ers"]:
                kinds[r[3]] = kinds.get(r[3], 0) + 1
        return {"fields": len(observed), "distinct_texts": len({t for ob in observed for t, _, _ in ob["tk"]}), "longest_field": max(len(ob["tk"]) for ob in observed),
                "fields_with_errors": sum(1 for ob in observed if ob["o"]["errs"]), "records_by_kind": kinds,
                "parser_situations_generated": self.situations, "grammar_nodes_reached": self.reached}

    def size(self, ob):
        return len(ob["tk"]) * 1000 + len(ob["f"])

    def shrink(self, prop, ob, clauses):
        def variants(o):
            ts = [t for t, _, _ in o["tk"]]
            if len(ts) > 60:
                for k in (len(ts) // 2, len(ts) // 4, 8):
                    for a in range(0, len(ts), k):
                        yield corpus.plain(ts[:a] + ts[a + k:])
            for i in range(len(ts)):
                yield corpus.plain(ts[:i] + ts[i + 1:])
            for i in range(1, len(ts)):
                yield corpus.plain(ts[:i])
            for i in range(len(ts) - 3):
                yield corpus.plain(ts[:i] + ts[i + 3:])
        try:
            return self.smaller(prop, ob, clauses, variants)
        except Machinery:
            return ob, clauses

    def describe(self, ob, brief=False):
        if brief:
            return {"field": ob["f"][:300], "derived": ob["o"]["der"], "elements": len(ob["o"]["ers"]), "errors": len(ob["o"]["errs"]), **({"raised": ob["o"]["x"]} if ob["o"]["x"] else {})}
        return {"field": ob["f"], "observed": ob["o"]}

    def again(self, case):
        return self.run(case["field"])


# ----------------------------------------------------------------- tokenizer --
class Lex(Kind):
    module = "Trace_Lex"
    chunk = 8

    def jobs(self, prop, tier):
        return corpus.lex_histories(tier)

    def run(self, ops):
        return hist.run_lex([tuple(o) for o in ops])

    def pack(self, observed):
        return {"cases": observed}

    def corrupt(self, r, prop, ob):
        xs = [o for o in ob if o[0] in ("tokens", "again") and o[2]]
        if not xs:
            return None
        t = r.choice(r.choice(xs)[2])
        x = r.randrange(3)
        if x == 0:
            t[1] += 1
        elif x == 1:
            t[2] += 1
        else:
            t[0] = t[0] + [65]
        return ob

    def statistics(self, observed):
        return {"histories": len(observed), "operations": sum(len(o) for o in observed), "tokenizations": sum(x[0] == "tokens" for o in observed for x in o)}

    def ops(self, ob):
        out = []
        for o in ob:
            if o[0] in ("string", "delims"):
                out.append((o[0], "".join(map(chr, o[1]))))
            elif o[0] == "again":
                out.append(("again", o[1]))
            elif o[0] != "raised":
                out.append((o[0],))
        return out

    def describe(self, ob, brief=False):
        ops = self.ops(ob)
        return {"operations": [list(o) for o in ops[:9]]} if brief else {"operations": [list(o) for o in ops], "observed": ob}

    def shrink(self, prop, ob, clauses):
        def variants(o):
            ops = self.ops(o)
            n = len(ops)
            for i in range(1, n):
                if all(x[0] != "again" for x in ops):
                    yield [ops[0]] + ops[i:]
                yield ops[:i]
        try:
            return self.smaller(prop, ob, clauses, variants, 4)
        except Machinery:
            return ob, clauses

    def again(self, case):
        return self.run(case["operations"])


# ------------------------------------------------------------ classification --
class Class(Kind):
    module = "Trace_Class"
    assumptions = Kind.assumptions + ["token kinds are those the token objects carry after a parse"]

    def jobs(self, prop, tier):
        r = random.Random("C02-context-%d" % SEED)
        texts = corpus.token_texts(tier)
        jobs = [[t] for t in texts]
        order = list(texts)
        r.shuffle(order)
        # in the company of others, in front of them and behind them
        jobs += [[r.choice(("N0450F350", "%", "VFR", "PNT"))] + order[i:i + 12] for i in range(0, len(order), 12)]
        return jobs, None_

    def observe(self, jobs):
        out = driver.pmap(hist.classify_all, jobs, chunk=64)
        return [c for part in out for c in part]

    def judge(self, prop, observed):
        return trace.judge(prop, observed, module=self.module, cfg=PLAIN, packer=self.pack, chunk=8000)

    def pack(self, observed):
        return {"cases": [[esc(c[0]), [ord(x) for x in c[0]], c[1], c[2]] for c in observed]}

    def corrupt(self, r, prop, ob):
        if r.random() < .5:
            ob[1] = "ROUTE" if ob[1] != "ROUTE" else "POINT"
        else:
            ob[2] = "UNKNOWN" if ob[2] != "UNKNOWN" else "PRP"
        return ob

    def statistics(self, observed):
        n = {}
        for c in observed:
            n[c[1]] = n.get(c[1], 0) + 1
        return {"classifications": len(observed), "distinct_texts": len({c[0] for c in observed}), "by_kind": n}

    def size(self, ob):
        return len(ob[0]) * 100 + len(ob[3])

    def describe(self, ob, brief=False):
        return {"text": ob[0], "base": ob[1], "subtype": ob[2], "parsed_with": ob[3]}

    def again(self, case):
        return [c for c in hist.classify_all(case["parsed_with"]) if c[0] == case["text"]][0]


# -------------------------------------------------------------------- pairs --
class Pair(Kind):
    module = "Trace_Pair"

    def __init__(self, rel):
        self.rel = rel

    def jobs(self, prop, tier):
        situations, res = corpus.cover(6)
        make = {"garbage": corpus.garbage_pairs, "layout": corpus.layout_pairs, "prefix": corpus.prefix_pairs}[self.rel]
        return [tuple(x) for x in make(tier, situations)], res

    def run(self, job):
        f1, f2, k = job if len(job) == 3 else (job[0], job[1], 0)
        t1, t2 = driver.split(f1), driver.split(f2)
        a, b = [t[0] for t in t1], [t[0] for t in t2]
        if self.rel == "prefix":
            if t1 != t2[:k] or len(t1) != k:
                return None
        elif a != (b if self.rel == "layout" else b[:k - 1] + b[k:]) or (self.rel == "garbage" and len(b) != len(a) + 1):
            return None
        o1, o2 = driver.parse(f1), driver.parse(f2)
        if o1["x"] == "skipped" or o2["x"] == "skipped":
            return None
        return {"rel": self.rel, "f1": f1, "f2": f2, "k": k, "tk1": t1, "tk2": t2, "o1": o1, "o2": o2}

    def pack(self, observed):
        texts, index, cases = [], {}, []

        def tk(ts):
            out = []
            for t, s, e in ts:
                if t not in index:
                    index[t] = len(texts) + 1
                    texts.append([esc(t), [ord(c) for c in t]])
                out.append([index[t], s, e])
            return out
        for ob in observed:
            cases.append({"rel": ob["rel"], "tk1": tk(ob["tk1"]), "tk2": tk(ob["tk2"]), "o1": ob["o1"], "o2": ob["o2"], "k": ob["k"]})
        return {"texts": texts or [["", []]], "cases": cases}

    def judge(self, prop, observed):
        v = trace.judge(prop, observed, module=self.module, cfg=PLAIN, packer=self.pack)
        self.skipped = {i for i, c in v.fails if c == ["skip"]}
        v.fails = [(i, c) for i, c in v.fails if c != ["skip"]]
        v.cases -= len(self.skipped)
        if v.cases < len(observed) // 20:
            raise Machinery("hardly any of the proposed pairs is one")
        return v

    def canaries(self, prop, observed):
        keep = [ob for i, ob in enumerate(observed) if i not in self.skipped]
        skipped = self.skipped
        super().canaries(prop, keep)
        self.skipped = skipped

    def corrupt(self, r, prop, ob):
        o = ob["o2"]
        if o["x"] or not ob["tk2"]:
            return None
        x = r.randrange(4)
        if self.rel == "prefix":
            end = ob["tk2"][ob["k"] - 3][2] if ob["k"] > 2 else 0
            inner = [j for j in range(len(o["ers"]) - 2) if o["ers"][j + 1][2] <= end]
            early = [j for j, e in enumerate(o["errs"]) if 0 < e[2] <= end]
            far = [j for j in inner if j + 2 < len(o["ers"]) - 1 and o["ers"][j + 2][2] <= end]
            if x == 0 and early:
                del o["errs"][r.choice(early)]
            elif x == 1 and len(inner) > 1:
                del o["ers"][r.choice(inner[1:])]
            elif x == 2 and far:
                o["ers"][r.choice(far)][r.choice((VALUES["brg"], VALUES["dist"]))] = "77700"
            elif inner:
                rec = o["ers"][r.choice(inner)]
                rec[r.choice((VALUES["sp"], VALUES["al"], VALUES["rules"]))] += "9"
            else:
                return None
            return ob
        if x == 0:
            o["der"] = "Q"
        elif x == 1 and len(o["ers"]) > 2:
            del o["ers"][1]
        elif x == 2 and o["errs"]:
            del o["errs"][0]
        else:
            rec = r.choice(o["ers"])
            rec[5] = rec[5] + "9"
        return ob

    def statistics(self, observed):
        return {"pairs": len(observed), "pairs_related_by_the_specification": len(observed) - len(self.skipped)}

    def size(self, ob):
        return len(ob["tk1"]) * 1000 + len(ob["f2"])

    def shrink(self, prop, ob, clauses):
        def variants(o):
            a, b = [t[0] for t in o["tk1"]], [t[0] for t in o["tk2"]]
            if self.rel == "prefix":
                for j in range(o["k"], len(b) + 1):          # a shorter second field, a shorter first one, and both without one token
                    yield o["f1"], corpus.plain(b[:j]), o["k"]
                for i in range(len(b)):
                    ts = b[:i] + b[i + 1:]
                    kk = o["k"] - (i < o["k"])
                    f2 = corpus.plain(ts)
                    yield corpus.beginning(f2, kk), f2, kk
                return
            for i in range(len(a)):
                if self.rel == "garbage":
                    k = o["k"]
                    ts, kk = a[:i] + a[i + 1:], k - 1 if i < k - 1 else k
                    if 2 <= kk <= len(ts):
                        yield (corpus.plain(ts), corpus.plain(ts[:kk - 1] + [b[k - 1]] + ts[kk - 1:]), kk)
            if self.rel == "layout":
                for i in range(len(o["f2"])):
                    yield (o["f1"], o["f2"][:i] + o["f2"][i + 1:])
                s1, s2 = o["tk1"], o["tk2"]
                for i in range(len(a)):
                    yield (o["f1"][:s1[i][1]] + " " + o["f1"][s1[i][2]:], o["f2"][:s2[i][1]] + " " + o["f2"][s2[i][2]:])
        try:
            return self.smaller(prop, ob, clauses, variants, 6)
        except Machinery:
            return ob, clauses

    def describe(self, ob, brief=False):
        out = {"field": ob["f1"], "other": ob["f2"], "k": ob["k"]}
        return out if brief else {**out, "observed": ob["o1"], "observed_other": ob["o2"]}

    def again(self, case):
        return self.run((case["field"], case["other"], case["k"]))


# ------------------------------------------------------- histories of objects --
class Ops(Kind):
    """Histories of operations on one object; recorded as the operations with their results."""

    def pack(self, observed):
        return {"cases": observed}

    def statistics(self, observed):
        n = {}
        for ob in observed:
            for o in ob:
                n[o[self.name]] = n.get(o[self.name], 0) + 1
        return {"histories": len(observed), "operations": sum(n.values()), "by_operation": n}

    def describe(self, ob, brief=False):
        return {"operations": [o[:self.args] for o in (ob[:12] if brief else ob)], **({} if brief else {"observed": ob})}

    def shrink(self, prop, ob, clauses):
        def variants(o):
            ops = [x[:self.args] for x in o]
            for w in (len(ops) // 2, len(ops) // 4, 8, 1):
                if w:
                    for i in range(0, len(ops), w):
                        yield ops[:i] + ops[i + w:]
        try:
            return self.smaller(prop, ob, clauses, variants, 12)
        except Machinery:
            return ob, clauses

    def again(self, case):
        return self.run([tuple(o) for o in case["operations"]])


class Cursor(Ops):
    module, name, args = "Trace_Cursor", 0, 3

    def jobs(self, prop, tier):
        return corpus.cursor_histories(tier)

    def run(self, ops):
        return hist.run_cursor([tuple(o) for o in ops])

    def corrupt(self, r, prop, ob):
        xs = [o for o in ob if o[0] not in ("append", "create", "insert", "truncate", "list")]
        if not xs:
            return None
        r.choice(xs)[3] += 7
        return ob


class Store(Ops):
    module, name, args = "Trace_Store", 1, 4

    def jobs(self, prop, tier):
        return corpus.store_histories(tier)

    def run(self, ops):
        return hist.run_store([tuple(o) for o in ops])

    def pack(self, observed):
        return {"cases": [[[c, n, x, esc(t), v, e] for c, n, x, t, v, e in ob] for ob in observed]}

    def corrupt(self, r, prop, ob):
        xs = [o for o in ob if o[1] in ("at", "first", "last", "before", "count", "errors")]
        if not xs:
            return None
        r.choice(xs)[4] += 7
        return ob


class Record(Ops):
    module, name, args = "Trace_Record", 1, 4

    def jobs(self, prop, tier):
        return corpus.record_histories(tier)

    def run(self, ops):
        return hist.run_record([tuple(o) for o in ops])

    def pack(self, observed):
        return {"cases": [[[o, w, n, esc(t), got, x] for o, w, n, t, got, x in ob] for ob in observed]}

    def corrupt(self, r, prop, ob):
        o = r.choice([x for x in ob if x[1] == "read"])
        o[4][r.randrange(len(o[4]))] += "7"
        return ob


class Session(Kind):
    module = "Trace_Session"
    chunk = 4

    def jobs(self, prop, tier):
        return corpus.sessions(tier)

    def run(self, job):
        ob = hist.observe_session(job)
        if any(not isinstance(o, list) for o in ob["ops"]):
            ob["ops"] = [list(o) + ["died"] for o in job[1]]
        return ob

    def pack(self, observed):
        ids = {}

        def num(x):
            return 0 if x == 0 else ids.setdefault(x, len(ids) + 1)
        return {"cases": [{"meaning": [num(x) for x in ob["meaning"]], "content": [num(x) for x in ob["content"]],
                           "ops": [[o[0], o[1], o[2], num(o[3])] for o in ob["ops"]]} for ob in observed]}

    def corrupt(self, r, prop, ob):
        xs = [o for o in ob["ops"] if o[0] in ("parse", "read", "tokens", "lex", "edit", "export")]
        if not xs:
            return None
        r.choice(xs)[3] = "corrupt"
        return ob

    def statistics(self, observed):
        n = {}
        for ob in observed:
            for o in ob["ops"]:
                n[o[0]] = n.get(o[0], 0) + 1
        return {"histories": len(observed), "by_operation": n, "distinct_fields": len({f for ob in observed for f in ob["fields"]})}

    def size(self, ob):
        return len(ob["ops"]) * 1000 + sum(map(len, ob["fields"]))

    def describe(self, ob, brief=False):
        return {"fields": ob["fields"], "operations": [o[:3] for o in ob["ops"]], **({} if brief else {"observed": ob})}

    def shrink(self, prop, ob, clauses):
        """Histories over many fields: is one earlier field enough?"""
        def variants(o):
            fs = o["fields"]
            if len(fs) < 4:
                return
            lists, wrong = [], []
            edits = any(op[0] == "edit" for op in o["ops"])
            for name, n, x, got in o["ops"]:
                if name == "lex":
                    lists.append(x)
                if name == "edit":
                    lists[n - 1] = x
                if name == "parse" and got != o["meaning"][lists[x - 1] - 1]:
                    wrong.append(lists[x - 1])
            for k in wrong[:4]:
                for i in range(1, len(fs) + 1):
                    second = [("edit", 1, 2), ("parse", 1, 1)] if edits else [("lex", 1, 2), ("parse", 1, 2)]
                    yield ([fs[i - 1], fs[k - 1]], [("lex", 1, 1), ("parse", 1, 1)] + second + [("read", 1, 0), ("read", 2, 0)])
        try:
            return self.smaller(prop, ob, clauses, variants, 2)
        except Machinery:
            return ob, clauses

    def again(self, case):
        return self.run((case["fields"], [tuple(o) for o in case["operations"]]))


class Threads(Kind):
    module = "Trace_Threads"
    chunk = 2
    assumptions = Kind.assumptions + ["threads are switched at line or bytecode boundaries of the library's own code"]

    def jobs(self, prop, tier):
        return corpus.schedules(tier)

    def run(self, job):
        return sched.observe(job)

    def pack(self, observed):
        texts, index, cases, ids = [], {}, [], {}

        def tk(ts):
            out = []
            for t, s, e in ts:
                if t not in index:
                    index[t] = len(texts) + 1
                    texts.append([esc(t), [ord(c) for c in t]])
                out.append([index[t], s, e])
            return out

        def num(x):
            return ids.setdefault(json.dumps(x, sort_keys=True), len(ids) + 1)
        for ob in observed:
            grains = ob["grain"] if isinstance(ob["grain"], (list, tuple)) else [ob["grain"]] * len(ob["word"])
            cases.append({"word": list(ob["word"]), "whole": [int(g == 0) for g in grains], "tk": [tk(t) for t in ob["tk"]], "alone": [num(x) for x in ob["alone"]], "together": [num(x) for x in ob["together"]]})
        return {"texts": texts or [["", []]], "cases": cases}

    def corrupt(self, r, prop, ob):
        ob["together"][r.randrange(len(ob["together"]))]["der"] = "Q"
        return ob

    def statistics(self, observed):
        return {"schedules": len(observed), "with_preemption_at_regular_lines": sum(isinstance(ob["grain"], tuple) for ob in observed), "context_switches": sum(ob["switches"] for ob in observed), "by_threads": {n: k for n, k in sorted(collections.Counter(len(ob["fields"]) for ob in observed).items())},
                "at_bytecode_boundaries": sum(ob["opcodes"] for ob in observed)}

    def size(self, ob):
        return sum(map(len, ob["fields"]))

    def describe(self, ob, brief=False):
        out = {"fields": ob["fields"], "word": list(ob["word"]), "grain": ob["grain"], "opcodes": ob["opcodes"], "switches": ob["switches"]}
        return out if brief else {**out, "alone": ob["alone"], "together": ob["together"]}

    def again(self, case):
        return self.run((case["fields"], tuple(case["word"]), case["grain"], case["opcodes"]))


# -------------------------------------------------------------------- output --
class Output(Kind):
    def __init__(self, prop):
        self.prop = prop
        self.module = "Trace_Xml" if prop == "C22" else "Trace_Listing"

    def jobs(self, prop, tier):
        situations, res = corpus.cover(6)
        fs = corpus.output_fields(prop, tier, situations)
        if prop == "C22":
            return [(f, e) for f, e in corpus.completed(prop, tier, [f for f in fs if xml_can_say(f)]) if all(xml_can_say(x[2]) for x in e)], res
        return [("ers", f, e) for f, e in corpus.completed(prop, tier, fs)] + [(("tokens", "parsed", "shown")[i % 3], f, []) for i, f in enumerate(fs)], res

    def run(self, job):
        return hist.observe_xml(job) if self.prop == "C22" else hist.observe_listing(job)

    def pack(self, observed):
        return {"cases": [{k: v for k, v in ob.items() if k not in ("f", "what", "edits")} for ob in observed]}

    def corrupt(self, r, prop, ob):
        if prop == "C22":
            xs = [e for e in ob["evs"] if e[0] == "start" and e[2]]
            ys = [e for e in ob["evs"] if e[0] == "text"]
            if r.random() < .7 and xs:
                a = r.choice(r.choice(xs)[2])
                a[1] += "1"
            elif ys:
                r.choice(ys)[1] += "x"
            else:
                return None
        else:
            x = r.randrange(4)
            if x == 0 and len(ob["recs"]) > 2:
                ob["recs"][1][0] += "Q"
            elif x == 3 and len(ob["recs"]) > 2:
                cols = ob["recs"][1][3]
                cols[r.randrange(len(cols))] += "7"
            elif x == 1:
                ob["after"] = "other"
            else:
                del ob["lines"][-1]
        return ob

    def statistics(self, observed):
        return {"sequences": len(observed), "events" if self.prop == "C22" else "lines": sum(len(ob.get("evs", ob.get("lines", []))) for ob in observed),
                "with_errors": sum(1 for ob in observed if ob["errs"])}

    def shrink(self, prop, ob, clauses):
        def variants(o):
            ts = [t for t, _, _ in driver.split(o["f"])]
            for i in range(len(ts)):
                f = corpus.plain(ts[:i] + ts[i + 1:])
                yield (f, o["edits"]) if prop == "C22" else (o["what"], f, o["edits"])
            for i in range(len(o["edits"])):
                e = o["edits"][:i] + o["edits"][i + 1:]
                yield (o["f"], e) if prop == "C22" else (o["what"], o["f"], e)
        try:
            return self.smaller(prop, ob, clauses, variants, 6)
        except Machinery:
            return ob, clauses

    def size(self, ob):
        return len(ob["f"]) + 30 * len(ob["edits"])

    def describe(self, ob, brief=False):
        if brief:
            return {**({"printed": ob["what"]} if "what" in ob else {}), **({"completed_with": ob["edits"]} if ob["edits"] else {}), "field": ob["f"][:300], "elements": len(ob["recs"]), "errors": len(ob["errs"])}
        return {"field": ob["f"], "observed": ob}

    def again(self, case):
        ob = case["observed"]
        return self.run((ob["f"], ob["edits"]) if self.prop == "C22" else (ob["what"], ob["f"], ob["edits"]))


def xml_can_say(text):
    """Only characters of XML 1.0; white space within elements cannot occur."""
    return all(c in "\t\n\r" or "\x20" <= c <= "\ud7ff" or "\ue000" <= c <= "\ufffd" or c >= "\U00010000" for c in text)


FINDINGS = []


def of(prop):
    import os
    from common import VERIF
    with open(os.path.join(VERIF, "known-findings.json")) as f:
        FINDINGS[:] = json.load(f)["findings"]
    if prop in corpus.SPECIFIC:
        return Fields()
    return {"C01": Lex, "C02": Class, "C17": lambda: Pair("garbage"), "C18": Session, "C28": lambda: Pair("prefix"), "C19": Threads, "C20": Cursor, "C21": Store, "C27": Record, "C22": lambda: Output("C22"),
            "C23": lambda: Pair("layout"), "C26": lambda: Output("C26")}[prop]()
