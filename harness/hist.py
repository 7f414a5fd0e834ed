"""Executes histories of operations on the library's objects and records what each returns.

Operations are the tuples of the F15Lex, F15Cursor, F15Store and F15Session specifications."""
import contextlib
import hashlib
import io
import json
import os
import sys
import xml.parsers.expat

import driver
from common import BAD, esc
from driver import api, guarded, limit

ODD = -99


# ------------------------------------------------------------------ tokenizer (C01) --
def lex_tokens(tokens):
    return [[[ord(c) for c in t.get_token_string()], driver.num(t.get_token_start_index()),
             driver.num(t.get_token_end_index())] for t in tokens.get_tokens()]


def run_lex(ops):
    """ops: ("string", s) ("delims", s) ("tokenize",) ("tokens",) ("again", n) ("text",)"""
    out = []

    def go():
        t = api().Tokenize()
        lists = [t.get_tokens()]
        for op in ops:
            if op[0] == "string":
                t.set_string_to_tokenize(op[1])
                out.append(["string", [ord(c) for c in op[1]], 0])
            elif op[0] == "delims":
                t.set_whitespace(op[1])
                out.append(["delims", [ord(c) for c in op[1]], 0])
            elif op[0] == "tokenize":
                t.tokenize()
                lists.append(t.get_tokens())
                out.append(["tokenize", [], 0])
            elif op[0] == "tokens":
                out.append(["tokens", [], lex_tokens(t.get_tokens())])
            elif op[0] == "again":
                out.append(["again", op[1], lex_tokens(lists[op[1] - 1])])
            elif op[0] == "text":
                out.append(["text", [], [ord(c) for c in t.get_string_to_tokenize()]])
    bad = guarded(go)
    if bad is not None:
        out.append(["raised", [], bad["x"]])
    return out


# ------------------------------------------------------------------- classification --
def classify_all(texts):
    """[text, base, subtype, texts] for each text of one token list, as the parser leaves the tokens."""
    def go():
        a = api()
        tokens = a.Tokens()
        for i, t in enumerate(texts):
            tokens.create_append_token(t, 100 * i, 100 * i + len(t))
        a.Parser().parse_f15(a.Ers(), tokens)
        return [[t, driver.base(x.get_token_base_type()), driver.sub(x.get_token_sub_type()), texts] for t, x in zip(texts, tokens.get_tokens())]
    r = guarded(go)
    if not isinstance(r, list):
        return [[t, "raised-" + r["x"], "", texts] for t in texts]
    return r + [[t, "missing", "", texts] for t in texts[len(r):]]


# ------------------------------------------------------------------ token list (C20) --
def run_cursor(ops):
    a = api()
    tokens = a.Tokens()
    out, made = [], {}  # a token given again is the same object

    alike = ("PNT", "PNT", "/", "", "T", " ", "N0450F350", "VFR", "\u00c4")
    numbers = {}

    def token(i):
        """Text, start and end of token number i: texts repeat, and the places do not follow the numbers."""
        start = i * 37 % 101 if i < 101 else i
        numbers[start] = i
        text = alike[i // 2 % len(alike)] if i % 2 else str(i)
        return text, start, start + (len(text) if i % 3 else 2)

    def ident(t):
        if t is None:
            return 0
        try:
            i = numbers[t.get_token_start_index()]
            return i if (t.get_token_string(), t.get_token_start_index(), t.get_token_end_index()) == token(i) else ODD
        except Exception:
            return ODD

    def make(i):
        if i not in made:
            made[i] = a.Token(*token(i))
            if i % 4 == 2:
                made[i].set_token_base_type(a.Base.F15_POINT)
                made[i].set_token_sub_type(a.Sub.F15_SB_PRP)
        return made[i]
    calls = {
        "append": lambda x, y: tokens.append_token(make(x)),
        "create": lambda x, y: tokens.create_append_token(*token(x)),
        "insert": lambda x, y: tokens.insert_token(make(x), y),
        "truncate": lambda x, y: tokens.remove_tokens_from_end_of_list(x),
        "first": lambda x, y: ident(tokens.get_first_token()),
        "last": lambda x, y: ident(tokens.get_last_token()),
        "next": lambda x, y: ident(tokens.get_next_token()),
        "prev": lambda x, y: ident(tokens.get_previous_token()),
        "current": lambda x, y: ident(tokens.get_current_token()),
        "peekNext": lambda x, y: ident(tokens.peek_next_token(x) if x != 1 else tokens.peek_next_token()),
        "peekPrev": lambda x, y: ident(tokens.peek_previous_token(x) if x != 1 else tokens.peek_previous_token()),
        "at": lambda x, y: ident(tokens.get_token_at(x)),
        "count": lambda x, y: driver.num(tokens.get_number_of_tokens()),
        "list": lambda x, y: [ident(t) for t in tokens.get_tokens()],
    }
    for name, x, y in ops:
        try:
            with limit(10):
                r = calls[name](x, y)
            out.append([name, x, y, 0 if name in ("append", "create", "insert", "truncate") else r, ""])
        except driver.Timeout:
            out.append([name, x, y, ODD, "Timeout"])
        except Exception as ex:
            out.append([name, x, y, ODD, type(ex).__name__])
    return out


# ------------------------------------------------------------------- container (C21) --
TEMPLATES = ["no placeholder", "one '!' here", "! and again ! twice", "!"]


def run_store(ops):
    a = api()
    sts = {1: a.Ers(), 2: a.Ers()}
    out, made = [], {}  # a record appended again is the same object
    B, U = a.Base.F15_POINT, a.Sub.F15_SB_PRP

    places = [(5, "POINT", "PRP"), (0, "UNKNOWN", "UNKNOWN"), (40, "ROUTE", "ATS"), (17, "POINT", "PRP"), (5, "DCT", "DCT"), (3, "TOO_LONG", "UNKNOWN")]   # Places of F15Store
    kinds = [(B, U), (a.Base.F15_ROUTE, U), (a.Base.F15_DCT, U), (a.Base.F15_BREAK_START, a.Sub.F15_SB_VFR), (a.Base.F15_SID, a.Sub.F15_SB_SID)]

    def record(i):
        """Where and what the element of number i is; the order of the places is not that of the numbers."""
        return (str(i), i * 37 % 101, i * 37 % 101 + 2) + kinds[i % 5]

    def ident(r):
        if r is None:
            return 0
        try:
            n = r.get_name()
            if n in ("ADEP", "ADES"):
                ok = r.get_start_index() == 0 and r.get_end_index() == 0 and r.get_base_type() == a.Base.F15_POINT
                return (-1 if n == "ADEP" else -2) if ok else ODD
            i = int(n)
            ok = (n, r.get_start_index(), r.get_end_index(), r.get_base_type(), r.get_sub_type()) == record(i)
            return i if ok else ODD
        except Exception:
            return ODD

    def error(c, n, t):
        start, base, sub = places[n // 10]
        sts[c].add_error(t, start, start + len(t), a.Base["F15_" + base], a.Sub["F15_SB_" + sub], TEMPLATES[n % 10 - 1])
        return 0

    def err(r):
        ok = r.get_end_index() == r.get_start_index() + len(r.get_name())
        return [esc(r.get_name()) if ok else "?", esc(r.get_error_text()), driver.num(r.get_start_index()), driver.base(r.get_base_type()), driver.sub(r.get_sub_type())]

    def derived(c, t):
        sts[c].set_derived_flight_rules(t)
        return 0

    def renew(c):
        sts[c] = a.Ers()
        return 0
    calls = {
        "append": lambda c, x, t: ident(sts[c].append_element(made.setdefault(x, a.Rec(*record(x))))),
        "create": lambda c, x, t: ident(sts[c].create_append_element(*record(x))),
        "ades": lambda c, x, t: ident(sts[c].add_dummy_ades()),
        "error": lambda c, x, t: error(c, x, t),
        "derived": lambda c, x, t: derived(c, t),
        "renew": lambda c, x, t: renew(c),
        "at": lambda c, x, t: ident(sts[c].get_element_at(x)),
        "first": lambda c, x, t: ident(sts[c].get_first_element()),
        "last": lambda c, x, t: ident(sts[c].get_last_element()),
        "before": lambda c, x, t: ident(sts[c].get_previous_to_last_element()),
        "count": lambda c, x, t: driver.num(sts[c].get_number_of_elements()),
        "errors": lambda c, x, t: driver.num(sts[c].get_number_of_errors()),
        "all": lambda c, x, t: [ident(r) for r in sts[c].get_all_elements()],
        "allErr": lambda c, x, t: [err(r) for r in sts[c].get_all_errors()],
        "rules": lambda c, x, t: esc(sts[c].get_derived_flight_rules()),
    }
    for c, name, x, t in ops:
        try:
            with limit(10):
                out.append([c, name, x, t, calls[name](c, x, t), ""])
        except driver.Timeout:
            out.append([c, name, x, t, 0, "Timeout"])
        except Exception as ex:
            out.append([c, name, x, t, 0, type(ex).__name__])
    return out


# ------------------------------------------------------- records and tokens (C27) --
RECORD = ("name", "start", "end", "base", "sub", "speed", "speedSI", "level", "levelSI", "rules", "break", "error", "stay", "target", "targetSI", "lat", "lon", "valid", "bearing", "distance")
SETTER = {"name": "set_name", "start": "set_start_index", "end": "set_end_index", "base": "set_base_type", "sub": "set_sub_type", "speed": "set_speed", "speedSI": "set_speed_si",
          "level": "set_altitude", "levelSI": "set_altitude_si", "rules": "set_flight_rules", "break": "set_break_text", "error": "set_error_text", "stay": "set_stay_time",
          "target": "set_altitude_cruise_to", "targetSI": "set_altitude_cruise_to_si", "lat": "set_latitude", "lon": "set_longitude", "valid": "set_lat_long_valid",
          "bearing": "set_bearing", "distance": "set_distance"}
PLACES = {"name": (10, 20, "POINT", "PRP"), "origin": (0, 0, "SID", "SID_LITERAL"), "back": (4, 0, "UNKNOWN", "UNKNOWN"), "far": (5000, 5003, "TOO_LONG", "UNKNOWN")}     # Places of F15Record
TOKEN = {"name": "token_string", "start": "token_start_index", "end": "token_end_index", "base": "token_base_type", "sub": "token_sub_type"}


def shown(name, x):
    """A value as text; numbers exactly."""
    if name == "base":
        return driver.base(x)
    if name == "sub":
        return driver.sub(x)
    if name == "valid":
        return "Y" if x is True else "N" if x is False else "?"
    if isinstance(x, str):
        return esc(x)
    if isinstance(x, (int, float)) and not isinstance(x, bool):
        return str(int(x)) if x == int(x) else repr(x)
    return "?" + esc(str(x))


def given(name, text):
    """The value a text of a history stands for."""
    a = api()
    if name == "base":
        return a.Base["F15_" + text]
    if name == "sub":
        return a.Sub["F15_SB_" + text]
    if name == "valid":
        return text == "Y"
    if name in ("speedSI", "levelSI", "targetSI", "lat", "lon", "bearing", "distance", "start", "end"):
        return float(text) if "." in text else int(text)
    return text


def run_record(ops):
    a = api()
    out = []

    def make(o, place, text):
        start, end, base, sub = PLACES[place]
        return a.Rec(text, start, end, a.Base["F15_" + base], a.Sub["F15_SB_" + sub]) if o <= 2 else a.Token(text, start, end)
    objects = {o: make(o, "name", "") for o in (1, 2, 3, 4)}

    def setter(o, name):
        return getattr(objects[o], SETTER[name] if o <= 2 else "set_" + TOKEN[name])

    def read(o):
        x = objects[o]
        if o <= 2:
            return [shown(n, x.is_lat_long_valid() if n == "valid" else getattr(x, SETTER[n].replace("set_", "get_", 1))()) for n in RECORD]
        return [shown(n, getattr(x, "get_" + TOKEN[n])()) for n in TOKEN]
    for o, what, name, text in ops:
        got, bad = [], ""
        try:
            with limit(10):
                if what == "make":
                    objects[o] = make(o, name, text)
                elif what == "set":
                    setter(o, name)(given(name, text))
                elif what == "append":
                    (objects[o].append_break_text if name == "break" else objects[o].append_error_text)(text)
                else:
                    got = read(o)
        except driver.Timeout:
            bad = "Timeout"
        except Exception as ex:
            bad = type(ex).__name__
        out.append([o, what, name, text, got, bad])
    return out


# ------------------------------------------------------------------------ XML (C22) --
def triple(x):
    """<<negative?, whole, millionths>> of a number."""
    try:
        if isinstance(x, bool) or x != x or abs(x) >= 2e9:
            return [0, BAD, 0]
        m = round(abs(float(x)) * 1000000)
        return [1 if x < 0 else 0, m // 1000000, m % 1000000]
    except Exception:
        return [0, BAD, 0]


def xml_record(r, text):
    return [esc(r.get_name()), str(r.get_start_index()), str(r.get_end_index()), esc(str(r.get_base_type())),
            esc(str(r.get_sub_type())), esc(r.get_speed()), triple(r.get_speed_si()), esc(r.get_altitude()),
            triple(r.get_altitude_si()), triple(r.get_bearing()), triple(r.get_distance()), esc(r.get_flight_rules()),
            str(r.get_stay_time()), esc(r.get_altitude_cruise_to()), triple(r.get_altitude_cruise_to_si()),
            triple(r.get_latitude()), triple(r.get_longitude()), esc(text)]


def xml_events(doc):
    evs, texts, tags = [], {"derived_flight_rules", "ers_record", "error_record"}, []

    def start(tag, attrs):
        evs.append(["start", esc(tag), [[esc(attrs[i]), esc(attrs[i + 1])] for i in range(0, len(attrs), 2)]])
        tags.append(tag)

    def end(tag):
        evs.append(["end", esc(tag)])
        tags.pop()

    def data(text):
        if tags and (tags[-1] in texts or text.strip(" \t\r\n")):
            if evs and evs[-1][0] == "text":
                evs[-1][1] += esc(text)
            else:
                evs.append(["text", esc(text)])
    p = xml.parsers.expat.ParserCreate("UTF-8")
    p.ordered_attributes, p.buffer_text = True, True
    p.StartElementHandler, p.EndElementHandler, p.CharacterDataHandler = start, end, data
    p.Parse(doc.encode("utf-8", "surrogatepass"), True)
    return evs


def parsed(field):
    """A parsed sequence, or None when tokenizing or parsing raises (not the concern here)."""
    a = api()
    ers = a.Ers()
    try:
        with limit(20), contextlib.redirect_stdout(io.StringIO()):
            a.Parser().parse_f15(ers, driver.tokenize(field))
    except (driver.Timeout, Exception):
        return None
    return ers


def complete(ers, edits):
    """What a caller does with a parsed sequence: ADEP, ADES (0, -1) and other records get values, elements and errors are added."""
    a = api()
    for i, what, text in edits:
        if what == "element":
            ers.create_append_element(text, i, i + len(text), a.Base.F15_POINT, a.Sub.F15_SB_PRP)
        elif what == "failure":
            ers.add_error(text, i, i + len(text), a.Base.F15_POINT, a.Sub.F15_SB_PRP, "The element '!' was refused by ! <somebody> & \"others\"")
        elif what == "derived":
            ers.set_derived_flight_rules(text)
        elif what == "shown":           # exported and printed in between, which must leave no trace
            with limit(20), contextlib.redirect_stdout(io.StringIO()), contextlib.suppress(Exception):
                ers.as_xml()
                ers.print_ers()
        else:
            els = ers.get_all_elements()
            r = els[i] if -len(els) <= i < len(els) else els[0]
            if what == "more":
                r.append_break_text(text)
            else:
                getattr(r, SETTER[what])(given(what, text))


def observe_xml(job):
    field, edits = job
    ers = parsed(field)
    if ers is None:
        return None
    try:
        complete(ers, edits)
    except Exception:
        return None
    case = {"f": field, "edits": edits, "x": "", "der": "", "recs": [], "errs": [], "evs": []}

    def go():
        case["der"] = esc(ers.get_derived_flight_rules())
        case["recs"] = [xml_record(r, r.get_break_text()) for r in ers.get_all_elements()]
        case["errs"] = [xml_record(r, r.get_error_text()) for r in ers.get_all_errors()]
        doc = ers.as_xml()
        if ers.as_xml() != doc:
            case["x"] = "second-export-differs"
        try:
            case["evs"] = xml_events(doc)
        except xml.parsers.expat.ExpatError:
            case["x"] = "not-well-formed"
        again = [xml_record(r, r.get_break_text()) for r in ers.get_all_elements()]
        if again != case["recs"]:
            case["x"] = "export-changed-the-sequence"
    bad = guarded(go)
    if bad is not None:
        case["x"] = "raised-" + bad["x"]
    return case


# -------------------------------------------------------------------- listing (C26) --
def words(text):
    return [esc(w) for w in text.split(" ") if w != ""]


def list_record(r, text):
    two = "{0:.2f}".format
    return [esc(r.get_name()), str(r.get_start_index()), str(r.get_end_index()),
            [esc(x.replace(" ", "")) for x in (
                str(int(r.get_base_type())), str(int(r.get_sub_type())), r.get_speed(), str(r.get_speed_si()), r.get_altitude(),
                str(r.get_altitude_si()), two(r.get_bearing()), two(r.get_distance()), r.get_flight_rules(), str(r.get_stay_time()),
                r.get_altitude_cruise_to(), str(r.get_altitude_cruise_to_si()), two(r.get_latitude()), two(r.get_longitude()))],
            words(text)]


def token_record(t):
    return [esc(t.get_token_string()), str(t.get_token_start_index()), str(t.get_token_end_index()),
            [str(int(t.get_token_base_type())), str(int(t.get_token_sub_type()))], []]


def printed(call):
    sink = io.StringIO()
    with contextlib.redirect_stdout(sink):
        call()
    lines = sink.getvalue().split("\n")
    if lines and lines[-1] == "":
        lines.pop()
    return [words(x) for x in lines]


def observe_listing(job):
    """What is printed of a parsed sequence ("ers"), of its tokens before ("tokens") or after ("parsed") parsing."""
    what, field, edits = job
    case = {"f": field, "what": what, "edits": edits, "x": "", "list": "ers" if what == "ers" else "tokens", "recs": [], "errs": [], "lines": [], "before": "", "after": ""}
    ers = api().Ers()
    try:
        with limit(20), contextlib.redirect_stdout(io.StringIO()):
            tokens = driver.tokenize(field)
            if what == "shown":         # the list is printed before it is parsed as well
                tokens.print_tokens()
            if what != "tokens":
                api().Parser().parse_f15(ers, tokens)
            if what == "ers":
                complete(ers, edits)
    except (driver.Timeout, Exception):
        return None

    def state():
        if what == "ers":
            return hashlib.sha1(json.dumps(driver.project(ers, True)).encode()).hexdigest()
        now = tokens.get_current_token()
        return digest([[token_record(t) for t in tokens.get_tokens()], None if now is None else token_record(now)])

    def go():
        if what == "ers":
            case["recs"] = [list_record(r, r.get_break_text()) for r in ers.get_all_elements()]
            case["errs"] = [list_record(r, r.get_error_text()) for r in ers.get_all_errors()]
        else:
            case["recs"] = [token_record(t) for t in tokens.get_tokens()]
        case["before"] = state()
        case["lines"] = printed(ers.print_ers if what == "ers" else tokens.print_tokens)
        if printed(ers.print_ers if what == "ers" else tokens.print_tokens) != case["lines"]:
            case["x"] = "second-listing-differs"
        case["after"] = state()
    bad = guarded(go)
    if bad is not None:
        case["x"] = "raised-" + bad["x"]
    return case


# -------------------------------------------------------------------- session (C18) --
def digest(x):
    return hashlib.sha1(json.dumps(x).encode()).hexdigest()[:16]


def obs_content(tokens):
    return digest([[esc(t.get_token_string()), driver.num(t.get_token_start_index()), driver.num(t.get_token_end_index())]
                   for t in tokens.get_tokens()])


def in_fresh_process(fn, *args):
    """fn(*args) in a forked child, so that it starts from the library as imported."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 1
        try:
            os.close(r)
            data = json.dumps(fn(*args)).encode()
            while data:
                data = data[os.write(w, data):]
            code = 0
        finally:
            os._exit(code)
    os.close(w)
    chunks = []
    while True:
        b = os.read(r, 65536)
        if not b:
            break
        chunks.append(b)
    os.close(r)
    _, status = os.waitpid(pid, 0)
    if status != 0:
        return ["died", "died"]
    return json.loads(b"".join(chunks))


def alone(field):
    """[meaning, content] of a field parsed with fresh objects in a fresh process."""
    def go():
        a = api()
        t = a.Tokenize()
        t.set_whitespace(driver.WS)
        t.set_string_to_tokenize(field)
        t.tokenize()
        content = obs_content(t.get_tokens())
        ers = a.Ers()
        return [digest(driver.project(ers, a.Parser().parse_f15(ers, t.get_tokens()))), content]
    r = guarded(go)
    return r if isinstance(r, list) else ["raised-" + r["x"], "raised-" + r["x"]]


def edit(tokens, field, how):
    """Turns a token list into that of the field: token by token in place, by starting again at the end, or at the front."""
    want = driver.split(field)
    have = tokens.get_number_of_tokens()
    if how == 0:
        for i, (t, s, e) in enumerate(want[:have]):
            tk = tokens.get_token_at(i)
            tk.set_token_string(t)
            tk.set_token_start_index(s)
            tk.set_token_end_index(e)
        tokens.remove_tokens_from_end_of_list(len(want) - 1)
        for t, s, e in want[have:]:
            tokens.create_append_token(t, s, e)
    elif how == 1:
        tokens.remove_tokens_from_end_of_list(-1)
        for t, s, e in want:
            tokens.append_token(driver.api().Token(t, s, e))
    else:
        for i, (t, s, e) in enumerate(want):
            tokens.insert_token(driver.api().Token(t, s, e), i)
        tokens.remove_tokens_from_end_of_list(len(want) - 1)


def session(fields, ops):
    """Executes a history; every parser and tokenizer object lives as long as the history."""
    a = api()
    parsers = {1: a.Parser(), 2: a.Parser()}
    tkz = {}
    for k in (1, 2):
        tkz[k] = a.Tokenize()
        tkz[k].set_whitespace(driver.WS)
    lists, seqs, out = [], [], []

    def look(s):
        return digest(driver.project(s[0], s[1]))

    def do(op):
        name, x, y = op
        if name == "lex":
            tkz[x].set_string_to_tokenize(fields[y - 1])
            tkz[x].tokenize()
            lists.append(tkz[x].get_tokens())
            return obs_content(lists[-1])
        if name == "tokens":
            return obs_content(lists[x - 1])
        if name == "edit":
            edit(lists[x - 1], fields[y - 1], len(out) % 3)
            return obs_content(lists[x - 1])
        if name == "walk":
            while lists[x - 1].get_next_token() is not None:
                pass
            return 0
        if name == "parse":
            ers = a.Ers()
            seqs.append([ers, None])
            seqs[-1][1] = parsers[x].parse_f15(ers, lists[y - 1])
            return look(seqs[-1])
        if name == "read":
            return look(seqs[x - 1])
        if name == "export":
            seqs[x - 1][0].as_xml()
            seqs[x - 1][0].print_ers()
            return look(seqs[x - 1])
        if name == "build":
            ers = a.Ers()
            r = ers.create_append_element("HAND", 1, 5, a.Base.F15_POINT, a.Sub.F15_SB_PRP)
            r.append_break_text("TEXT")
            r.append_error_text("TEXT")
            r.set_speed("N0999")
            r.set_altitude("F999")
            r.set_flight_rules("VFR")
            r.set_stay_time("0101")
            r.set_altitude_cruise_to("F999")
            r.set_latitude(1.0)
            r.set_longitude(1.0)
            r.set_lat_long_valid(True)
            r.set_bearing(1.0)
            ers.add_error("HAND", 1, 5, a.Base.F15_POINT, a.Sub.F15_SB_PRP, "hand made ! error")
            ers.set_derived_flight_rules("Z")
            ers.add_dummy_ades()
            return 0
    for op in ops:
        r = guarded(lambda: do(op))
        out.append(list(op) + ["raised-" + r["x"] if isinstance(r, dict) else r])
    return out


_alone = {}


def observe_session(job):
    """job: (fields, ops); truth and history each in a process of their own."""
    fields, ops = job
    for f in fields:
        if f not in _alone:
            _alone[f] = in_fresh_process(alone, f)
    truth = [_alone[f] for f in fields]
    return {"fields": fields, "meaning": [t[0] for t in truth], "content": [t[1] for t in truth],
            "ops": in_fresh_process(session, fields, ops)}
