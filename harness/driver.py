"""Runs the real code through its public API and projects what it did.

Nothing here knows what the right answer is, except geo(), which evaluates the WGS84
geodesic functions (uninterpreted in the specification) on the points a field contains.
"""
import contextlib
import io
import multiprocessing
import os
import re
import resource
import signal
import sys

sys.dont_write_bytecode = True
from common import BAD, CORES, REPO, esc, num  # noqa: E402

WS = " \n\t\r/"
_api = None


class Timeout(BaseException):
    pass


def _alarm(*_):
    raise Timeout()


class Api:
    def __init__(self):
        if REPO not in sys.path:
            sys.path.insert(0, REPO)
        from F15_Parser.ErrorMessageDefinitions import ErrorMessages
        from F15_Parser.ExtractedRouteRecord import ExtractedRouteRecord
        from F15_Parser.ExtractedRouteSequence import ExtractedRouteSequence
        from F15_Parser.F15Parse import ParseF15
        from F15_Parser.F15TokenSyntaxDescriptions import TokenBaseType, TokenSubType
        from Tokenizer.Token import Token
        from Tokenizer.Tokenize import Tokenize
        from Tokenizer.Tokens import Tokens
        self.Errors, self.Rec, self.Ers, self.Parser = ErrorMessages, ExtractedRouteRecord, ExtractedRouteSequence, ParseF15
        self.Base, self.Sub, self.Token, self.Tokenize, self.Tokens = TokenBaseType, TokenSubType, Token, Tokenize, Tokens


def api():
    global _api
    if _api is None:
        _api = Api()
    return _api


def tname(x, enum, prefix):
    try:
        if isinstance(x, bool):
            return "?" + repr(x)
        n = enum(x).name
        return n[len(prefix):] if n.startswith(prefix) else n
    except Exception:
        return "?" + esc(str(x))


def base(x):
    return tname(x, api().Base, "F15_")


def sub(x):
    n = tname(x, api().Sub, "F15_SB_")
    return n


def rec(r):
    valid = r.is_lat_long_valid()
    return [esc(r.get_name()), num(r.get_start_index()), num(r.get_end_index()), base(r.get_base_type()),
            sub(r.get_sub_type()), esc(r.get_speed()), num(r.get_speed_si(), 100), esc(r.get_altitude()),
            num(r.get_altitude_si(), 100), esc(r.get_flight_rules()), esc(r.get_break_text()),
            num(r.get_stay_time()), esc(r.get_altitude_cruise_to()), num(r.get_altitude_cruise_to_si(), 100),
            num(r.get_latitude(), 100000), num(r.get_longitude(), 100000),
            "Y" if valid is True else "N" if valid is False else "?", num(r.get_bearing(), 100000),
            num(r.get_distance(), 10)]


def err(r):
    return [esc(r.get_name()), num(r.get_start_index()), num(r.get_end_index()), base(r.get_base_type()),
            sub(r.get_sub_type()), esc(r.get_error_text())]


def project(ers, ret):
    return {"x": "", "ret": "T" if ret is True else "F" if ret is False else "?" + esc(repr(ret)),
            "der": esc(ers.get_derived_flight_rules()),
            "ers": [rec(r) for r in ers.get_all_elements()],
            "errs": [err(r) for r in ers.get_all_errors()]}


class Keep:
    """A parse whose values are read later."""

    def __init__(self, ers, ret):
        self.ers, self.ret = ers, ret


def failed(kind):
    return {"x": kind, "ret": "?", "der": "", "ers": [], "errs": []}


@contextlib.contextmanager
def limit(seconds):
    """Ends the body after that much processor time (or, should it sleep, after a long wait)."""
    old = signal.signal(signal.SIGVTALRM, _alarm), signal.signal(signal.SIGALRM, _alarm)
    signal.setitimer(signal.ITIMER_VIRTUAL, seconds)
    signal.setitimer(signal.ITIMER_REAL, seconds * 12)
    try:
        yield
    finally:
        signal.setitimer(signal.ITIMER_VIRTUAL, 0)
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGVTALRM, old[0])
        signal.signal(signal.SIGALRM, old[1])


_timeouts = 0


def guarded(fn, seconds=5):
    """fn() or an observation saying which exception ended it.  A worker that has seen several
    calls that do not return waits for no more than a moment."""
    global _timeouts
    sink = io.StringIO()
    try:
        with limit(seconds if _timeouts < 3 else .2), contextlib.redirect_stdout(sink):
            return fn()
    except Timeout:
        _timeouts += 1
        return failed("Timeout")
    except Exception as ex:
        return failed(type(ex).__name__)


def tokenize(field, ws=WS):
    a = api()
    t = a.Tokenize()
    t.set_string_to_tokenize(field)
    t.set_whitespace(ws)
    t.tokenize()
    return t.get_tokens()


def parse(field, ws=WS):
    a = api()

    def go():
        tokens = tokenize(field, ws)
        ers = a.Ers()
        ret = a.Parser().parse_f15(ers, tokens)
        return project(ers, ret)
    return guarded(go)


# ---------------------------------------------------------------- geodesic oracle --
LL = re.compile(r"(?:(\d\d)([NS])(\d{3})([EW])|(\d\d)(\d\d)([NS])(\d{3})(\d\d)([EW]))(\d{3})?(\d{3})?\Z", re.A)


def locate(text):
    """(lat, lon) a text denotes, or None; angles out of range give None."""
    m = LL.match(text)
    if not m or (m.group(11) is not None) != (m.group(12) is not None):
        return None
    if m.group(1) is not None:
        lat, ns, lon, ew = int(m.group(1)) * 60, m.group(2), int(m.group(3)) * 60, m.group(4)
    else:
        if int(m.group(6)) > 59 or int(m.group(9)) > 59:
            return None
        lat, ns = int(m.group(5)) * 60 + int(m.group(6)), m.group(7)
        lon, ew = int(m.group(8)) * 60 + int(m.group(9)), m.group(10)
    if lat > 90 * 60 or lon > 180 * 60:
        return None
    lat, lon = lat / 60.0 * (-1 if ns == "S" else 1), lon / 60.0 * (-1 if ew == "W" else 1)
    if m.group(11) is not None:
        if int(m.group(11)) > 360:
            return None
        from geographiclib.geodesic import Geodesic
        d = Geodesic.WGS84.Direct(lat, lon, float(m.group(11)), int(m.group(12)) * 1852.0)
        lat, lon = d["lat2"], d["lon2"]
    return lat, lon


_pairs = {}


def inverse(p, q):
    """[azimuth*1e5, distance*10, stable?] of the geodesic from p to q."""
    key = (p, q)
    if key not in _pairs:
        from geographiclib.geodesic import Geodesic
        inv = Geodesic.WGS84.Inverse

        def one(dp, dq):
            r = inv(max(-90.0, min(90.0, p[0] + dp)), p[1] + dq, q[0], q[1])
            return r["azi1"], r["s12"]
        a0, d0 = one(0, 0)
        stable = all(abs((a - a0 + 180) % 360 - 180) < 2e-6 for a, _ in (one(1e-10, 0), one(-1e-10, 0), one(0, 1e-10), one(0, -1e-10)))
        if len(_pairs) > 200000:
            _pairs.clear()
        _pairs[key] = [num(a0, 100000), num(d0, 10), 1 if stable else 0]
    return _pairs[key]


def geo(texts):
    """Oracle table for one field: located tokens and the geodesics between them."""
    loc = [(i + 1, locate(t)) for i, t in enumerate(texts)]
    loc = [(i, p) for i, p in loc if p is not None]
    pts = [[i, num(p[0], 100000), num(p[1], 100000)] for i, p in loc]
    pairs = []
    for a in range(len(loc)):
        for b in range(a + 1, len(loc)):
            pairs.append([loc[a][0], loc[b][0]] + inverse(loc[a][1], loc[b][1]))
    return pts, pairs


def split(field, ws=WS):
    """The reference tokenization of a field (checked against the F15Lex specification in C01)."""
    out, text, start = [], "", 0
    for i, c in enumerate(field):
        if c in ws:
            if text:
                out.append((text, start, i))
            if c == "/":
                out.append((c, i, i + 1))
            text = ""
        else:
            if not text:
                start = i
            text += c
    if text:
        out.append((text, start, len(field)))
    return out


def observe_field(field):
    toks = split(field)
    o = parse(field)
    pts, pairs = geo([t for t, _, _ in toks])
    return {"f": field, "tk": toks, "o": o, "p": pts, "g": pairs}


def _init():
    sys.setrecursionlimit(1000)
    resource.setrlimit(resource.RLIMIT_AS, (3 << 30, resource.RLIM_INFINITY))
    api()


def pmap(fn, items, chunk=64):
    """fn over items in worker processes, order kept."""
    items = list(items)
    if len(items) < 50:
        api()
        return [fn(x) for x in items]
    with multiprocessing.get_context("fork").Pool(CORES, initializer=_init) as pool:
        return pool.map(fn, items, chunksize=chunk)
