"""Field generators: representative tokens of every kind, random values, grammar based fields,
mutations and layouts.  Every random choice comes from the random.Random passed in."""
import string

UP = string.ascii_uppercase
DG = string.digits

# Representatives: every base kind, every subtype, and the values at which behaviour changes.
REP = {
    "SLASH": ["/"],
    "BREAK_START": ["VFR", "OAT", "IFPSTOP"],
    "BREAK_END": ["IFR", "GAT", "IFPSTART"],
    "SPEED_VFR": ["N0120VFR", "K0250VFR", "M030VFR"],
    "DCT": ["DCT"],
    "STAY": ["STAY1"],
    "STAY_TIME": ["0130", "2359", "0000"],
    "TRUNCATE": ["T"],
    "C": ["C"],
    "SID": ["SID"],
    "STAR": ["STAR"],
    "ROUTE": ["B9", "UL607", "NATA", "PTS1", "ABC12", "ABC123", "ABCD1"],
    "SID_STAR": ["DET2A", "ABCDE12", "ABCDE1A"],
    "PRP": ["PNT", "AB", "ABCDE"],
    "PRP_AERO": ["EGLL"],
    "PRP_BD": ["PNT090040", "ABC361040"],
    "LL": ["02N003E", "10S170W", "91N003E", "02N181E", "95S190W"],
    "LLM": ["0230N00315E", "4500S17959W", "4560N00315E", "9001N18001E"],
    "LLBD": ["02N003E090040", "0230N00315E180010", "02N003E361040", "91N181E361001"],
    "SPEED_ALTITUDE": ["N0450F350", "M082F350", "K0800S1130", "N0300A045", "N0250M0840", "N0450F352"],
    "SAA": ["N0450F350F370", "M082F350F400", "K0800S1130S1200", "N0300A045F100", "M080M0840A100", "N0450F352F361"],
    "SAP": ["N0450F350PLUS", "M082S1130PLUS", "K0800A100PLUS"],
    "UNKNOWN": ["%", "123456", "abc", "N045F350"],
    "TOO_LONG": ["A" * 26],
}
ALPHA = [t for v in REP.values() for t in v]
ONE = {k: v[0] for k, v in REP.items()}


def digits(r, n):
    return "".join(r.choice(DG) for _ in range(n))


def letters(r, a, b=None):
    return "".join(r.choice(UP) for _ in range(r.randint(a, b or a)))


def level(r, unit=None):
    u = unit or r.choice("FFFASM")
    if u == "F":
        return "F%03d" % (r.randrange(0, 200) * 5 if r.random() < .93 else r.randrange(1000))
    if u == "A":
        return "A%03d" % r.randrange(1000)
    return u + "%04d" % r.randrange(0, 10000 if r.random() < .2 else 1600)


def speed(r, unit=None):
    u = unit or r.choice("NNNKM")
    if u == "M":
        return "M%03d" % r.randrange(0, 1000 if r.random() < .2 else 200)
    return u + "%04d" % r.randrange(0, 10000 if r.random() < .2 else 1200)


RESERVED = {"VFR", "IFR", "DCT", "OAT", "GAT", "SID", "STAR", "T", "C"}


def prp(r):
    if r.random() < .08:
        return r.choice(NAMES)
    while True:
        t = letters(r, r.choice((1, 2, 3, 3, 4, 5, 5)))
        if t not in RESERVED and not (len(t) == 4 and t[:3] in ("NAT", "PTS")):
            return t


def ang(r, top, width):
    v = r.choice((r.randrange(top), r.randrange(top), r.randrange(top), top, top - 1, 0))
    return ("%0" + str(width) + "d") % v


def ll(r, bad=.08):
    deg = r.random() < .5
    b = r.random() < bad
    if deg:
        la, lo = ang(r, 90, 2), ang(r, 180, 3)
        if b:
            la, lo = r.choice(((digits(r, 2), lo), (la, digits(r, 3)), (digits(r, 2), digits(r, 3))))
        return la + r.choice("NS") + lo + r.choice("EW")
    la, lo = r.randrange(90 * 60 + 1), r.randrange(180 * 60 + 1)
    sla, slo = "%02d%02d" % divmod(la, 60), "%03d%02d" % divmod(lo, 60)
    if b:
        sla, slo = r.choice(((digits(r, 4), slo), (sla, digits(r, 5)), ("90%02d" % r.randrange(60), slo), (sla, "180%02d" % r.randrange(60))))
    return sla + r.choice("NS") + slo + r.choice("EW")


def bd(r, bad=.1):
    return "%03d%03d" % (r.randrange(361) if r.random() > bad else r.choice((360, 361, 999, r.randrange(1000))), r.choice((0, 1, r.randrange(1000))))


def point(r, bad=.08):
    x = r.random()
    if x < .5:
        return prp(r)
    if x < .6:
        return prp(r)[:5] + bd(r, bad)
    if x < .85:
        return ll(r, bad)
    return ll(r, bad) + bd(r, bad)


def plain_point(r):
    return prp(r)


def route(r):
    if r.random() < .08:
        return r.choice(ROUTES)
    x = r.random()
    if x < .15:
        return r.choice(("NATA", "NATZ1", "PTS3", "PTSK"))
    return r.choice((letters(r, 1, 2) + digits(r, 1), letters(r, 1) + digits(r, r.randint(1, 3)) + letters(r, 1),
                     letters(r, 1) + digits(r, r.randint(2, 3)), letters(r, 2) + digits(r, r.randint(2, 3)),
                     letters(r, 2) + digits(r, r.randint(1, 3)) + letters(r, 1), letters(r, 3) + digits(r, r.randint(1, 3)),
                     letters(r, 4) + digits(r, r.randint(1, 2))))


# names that begin, end or look like keywords and units
NAMES = ["VFRA", "IFRX", "DCTAB", "TC", "CT", "CC", "TT", "SIDE", "SIDS", "STARS", "STARX", "OATS", "OATX", "GATE", "IFPS", "IFP", "STAY", "STAYX", "NAT", "PTS", "NATAB", "PLUS", "ADEP", "ADES", "NULL", "XVFR", "XIFR", "ADCT", "N", "S", "K",
         "M", "F", "A", "E", "W", "V", "I", "AT", "STA", "SI"]
ROUTES = ["SID1", "STAR1", "VFR1", "IFR12", "DCT123", "STAY12", "T1", "C1", "C12", "T123", "N1", "N450", "K830", "M82", "F350", "NAT12", "PTS123", "GAT123", "VFR123"]
PROCEDURES = ["STARS1A", "STARO1A", "SIDAB1A", "SIDS1A", "STAR1A", "SID1A", "VFR1A", "IFR12A", "DCT1A", "OATAB12", "GATES1", "SIDAB12", "STARX12", "STAYS1A", "NATAB1", "PTS1A", "IFPSTO1A", "STARAB1A", "SIDABC1A", "VFRAB12A"]


def sidstar(r):
    if r.random() < .12:
        return r.choice(PROCEDURES)
    return r.choice((letters(r, 3) + digits(r, r.randint(1, 2)) + letters(r, 1), letters(r, 5) + digits(r, r.randint(1, 2)),
                     letters(r, 4, 6) + digits(r, 1) + letters(r, 1), letters(r, 5) + digits(r, 2) + letters(r, 1)))


def hhmm(r):
    return "%02d%02d" % (r.randrange(24), r.randrange(60))


ODD = "\x00\x01\x08\x1b\x1f\x7f\x85\u00a0\u200b\u2028\ufeff\U0001F600" + "\\\\\\{}[]()$^%&<>\"'`~#;:,.?!*+-=_|@" + "az09AZ"


def odd(r):
    """Text that is special to something: control characters, escapes, patterns, templates."""
    if r.random() < .5:
        return r.choice(("-", "\\", "\\1", "\\g<0>", "\\n", "A\\B", "{}", "{0}", "{A}", "%s", "%d", "%(A)s", "$1", "${A}", "^A$", "A|B", "[A]", "(A", "A)", "*", "?", "A+", ".", "A-B", ";", ":", "#A", "A=B", "\x00",
                         "A\x00B", "\"A\"", "'A'", "(FPL", "-N0450F350", "N0450F350)", "A,B", "\\u0041", "&#65;", "None", "null", "nan", "-1", "0", "1E5", "0x1F", "+1", "1_0", "T.", "C:", "vfr", "Ifr", "dct"))
    while True:
        t = "".join(r.choice(ODD) for _ in range(r.choice((1, 1, 2, 3, 5, 12, 25))))
        if not t.isalnum() or not t.isascii():      # that might mean something
            return t


def garbage(r):
    if r.random() < .15:
        return odd(r)
    return r.choice((letters(r, 6, 25) + r.choice("%$#"), digits(r, r.choice((1, 2, 3, 5, 6))), letters(r, 1, 5).lower(), "%", "*A*",
                     letters(r, 26, 40), "N045F350", "F350", letters(r, 7, 9), "+-", "<A>&\"'", "\u00c4\u20ac", "A.B", "!"))


def random_token(r):
    k = r.choice(list(REP))
    x = r.random()
    if x < .5:
        return r.choice(REP[k])
    return {"SPEED_VFR": lambda: speed(r) + "VFR", "STAY": lambda: "STAY" + digits(r, 1), "STAY_TIME": lambda: hhmm(r),
            "ROUTE": lambda: route(r), "SID_STAR": lambda: sidstar(r), "PRP": lambda: prp(r), "PRP_BD": lambda: prp(r) + bd(r),
            "LL": lambda: ll(r, .3), "LLM": lambda: ll(r, .3), "LLBD": lambda: ll(r, .2) + bd(r, .3),
            "SPEED_ALTITUDE": lambda: speed(r) + level(r), "SAA": lambda: speed(r) + level(r) + level(r),
            "SAP": lambda: speed(r) + level(r) + "PLUS", "UNKNOWN": lambda: garbage(r), "TOO_LONG": lambda: letters(r, 26, 60),
            }.get(k, lambda: r.choice(REP[k]))()


def random_field(r, n):
    head = r.random()
    ts = [] if head < .15 else [speed(r) + "VFR"] if head < .3 else [speed(r) + level(r)]
    return ts + [random_token(r) for _ in range(n)]


def valid_field(r, legs=None, pt=None, breaks=True, level_changes=True):
    """A random field that is correct by the grammar (values may still be out of range)."""
    pt = pt or (lambda: point(r, .0))
    legs = legs if legs is not None else r.randint(1, 6)
    ts = []
    vfr = breaks and r.random() < .15
    if vfr:
        ts += [speed(r) + "VFR"]
        ts += words(r)
        if r.random() < .3:
            return ts
        ts += ["IFR", pt(), "/", speed(r) + level(r)]
    else:
        ts += [speed(r) + level(r)]
        x = r.random()
        if x < .25:
            ts += [r.choice((sidstar(r), "SID"))]
        elif x < .5:
            ts += ["DCT"]
        ts += [pt()]
    for _ in range(legs):
        x = r.random()
        if x < .28:
            last_ll = any(c.isdigit() for c in ts[-1]) or ts[-1] == "/" or len(ts) > 1 and ts[-2] == "/"
            p = plain_point(r)
            if last_ll:
                ts += ["DCT", plain_point(r)]
            ts += [route(r), p]
        elif x < .45:
            ts += ["DCT", pt()]
        elif x < .6:
            ts += [pt()]
        elif x < .72 and level_changes:
            ts += [pt(), "/", speed(r) + level(r)]
        elif x < .78:
            ts += [pt(), "STAY" + digits(r, 1), "/", hhmm(r)]
        elif x < .85 and level_changes:
            ts += ["C", "/", pt(), "/", speed(r) + level(r) + (level(r) if r.random() < .7 else "PLUS")]
        elif x < .88:
            ts += ["C"]
        elif breaks:
            y = r.random()
            if y < .35:
                ts += [pt(), "/", speed(r) + "VFR"] + words(r) + ["IFR", pt(), "/", speed(r) + level(r)]
            elif y < .6:
                ts += [pt(), "VFR"] + words(r) + ["IFR", pt(), "/", speed(r) + level(r)]
            elif y < .8:
                ts += [pt(), "OAT"] + words(r) + ["GAT", pt()]
            elif y < .93:
                ts += [pt(), "IFPSTOP"] + words(r) + ["IFPSTART", pt()]
            else:
                ts += [pt(), "VFR"] + words(r) + ["IFR", pt(), "/", speed(r) + "VFR"] + words(r) + ["IFR", pt(), "/", speed(r) + level(r)]
        else:
            ts += [pt()]
    x = r.random()
    if x < .1:
        ts += ["T"]
    elif x < .3:
        ts += [r.choice((sidstar(r), "STAR"))]
    elif x < .4 and breaks:
        ts += [r.choice(("VFR", "OAT", "IFPSTOP"))] + words(r)
    elif x < .48 and breaks:
        ts += ["/", speed(r) + "VFR"] + words(r) if ts[-1] != "/" and ts[-2] != "/" else []
    return ts


def words(r):
    """Free text inside a break section, including keywords that must not end it."""
    pool = ["FREE", "TEXT", "B9", "DCT", "/", "N0450F350", "%", "02N003E", "0130", "T", "C", "abc", "STAR", "N0100VFR", "VFR", "OAT"]
    ts = [r.choice(pool) for _ in range(r.choice((0, 1, 1, 2, 3, 5)))]
    if r.random() < .15:
        ts += [r.choice(("GAT", "IFPSTART")), "DCT"]
    if r.random() < .1:
        ts += ["IFR", r.choice(("DCT", "B9", "PNT"))]
    if r.random() < .1:
        ts += [near(r, r.choice(KEYWORDS[:6]))]
    return ts


KEYWORDS = ("VFR", "IFR", "OAT", "GAT", "IFPSTOP", "IFPSTART", "DCT", "SID", "STAR", "C", "T", "/", "STAY1", "NATA", "PTS1")


def near(r, t):
    """A text much like t: other case, one character more or less or another one, doubled, wide characters."""
    k = r.randrange(len(t))
    return r.choice((t.lower(), t.lower(), t.capitalize(), t.swapcase(), t + r.choice("S1X.-"), r.choice("XA1-") + t, t[:-1] or "-", t[1:] or "-", t * 2, t[:k] + t[k + 1:] or "-",
                     t[:k] + r.choice("AEIOXZ019") + t[k + 1:], "".join(chr(ord(c) + 0xfee0) if "!" <= c <= "~" else c for c in t), t[::-1], t + "\u200b", t[:k] + "\u00a0" + t[k:]))


def mutate(r, ts, n=1):
    ts = list(ts)
    for _ in range(n):
        i = r.randrange(len(ts) + 1)
        x = r.random()
        if x < .35:
            ts.insert(i, random_token(r))
        elif x < .55 and ts:
            del ts[min(i, len(ts) - 1)]
        elif x < .8 and ts:
            ts[min(i, len(ts) - 1)] = random_token(r)
        elif x < .9 and len(ts) > 1:
            j = r.randrange(len(ts) - 1)
            ts[j], ts[j + 1] = ts[j + 1], ts[j]
        elif ts:
            ts.insert(i, ts[r.randrange(len(ts))])
    return ts


def layout(r, ts, plain=False):
    """A field string of the tokens.  '/' needs no separator."""
    out = "" if plain or r.random() < .8 else r.choice((" ", "\n", "  "))
    for i, t in enumerate(ts):
        if i:
            tight = "/" in (t, ts[i - 1])
            if plain:
                sep = "" if tight else " "
            else:
                sep = r.choice(("", "", "", " ")) if tight else r.choice((" ",) * 8 + ("  ", "\n", "\t", " \r\n ")) if r.random() < .997 else r.choice((" ", "\n", " \t")) * r.choice((40, 90, 150, 600))
            out += sep
        out += t
    if not plain and r.random() < .1:
        out += r.choice((" ", "\n", "\t "))
    return out


KIND_OF = {t: k for k, v in REP.items() for t in v}


def of_kind(r, k):
    """A random token of the named representative group."""
    f = {"SPEED_VFR": lambda: speed(r) + "VFR", "STAY": lambda: "STAY" + digits(r, 1), "STAY_TIME": lambda: hhmm(r),
         "ROUTE": lambda: route(r), "SID_STAR": lambda: sidstar(r), "PRP": lambda: prp(r), "PRP_AERO": lambda: letters(r, 4),
         "PRP_BD": lambda: prp(r) + bd(r), "LL": lambda: ll(r, .3), "LLM": lambda: ll(r, .3), "LLBD": lambda: ll(r, .2) + bd(r, .3),
         "SPEED_ALTITUDE": lambda: speed(r) + level(r), "SAA": lambda: speed(r) + level(r) + level(r),
         "SAP": lambda: speed(r) + level(r) + "PLUS", "UNKNOWN": lambda: garbage(r), "TOO_LONG": lambda: letters(r, 26, 60)}
    return f[k]() if k in f else r.choice(REP[k])


def vary(r, ts, p=.35):
    """The same kinds of tokens with other values."""
    return [of_kind(r, KIND_OF[t]) if t in KIND_OF and r.random() < p else t for t in ts]
