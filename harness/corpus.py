"""Fields, token texts, pairs and histories handed to the implementation, per property.

Sources: behaviours TLC generates from the specifications (MC_Cover, MC_Cursor, MC_Store, MC_Session,
MC_Threads), exhaustive sequences over small alphabets, value sweeps, and seeded random fields.
Nothing here says what the result must be."""
import itertools
import random
import re

import gen
from common import Machinery, SEED, Tlc

THOROUGH_COVER = 100000

COVER_ALPHABET = ["/", "VFR", "OAT", "IFPSTOP", "IFR", "GAT", "IFPSTART", "N0120VFR", "DCT", "STAY1", "0130", "T", "C",
                  "SID", "STAR", "B9", "DET2A", "PNT", "EGLL", "PNT090040", "02N003E", "0230N00315E", "95S190W",
                  "02N003E090040", "N0450F350", "N0450F350F370", "M082S1130PLUS", "%%"]
gen.KIND_OF.update({"95S190W": "LL", "%%": "UNKNOWN"})

SUFFIXES = [[], ["PNT"], ["/", "N0100A010", "ABC"], ["IFR", "PNT", "/", "N0200F100", "ABC"], ["GAT", "PNT", "B9"],
            ["IFPSTART", "PNT"], ["12N013E"], ["C", "/", "XYZ", "/", "K0200S0100M0200", "B9", "ABC"],
            ["STAY3", "/", "0245"], ["%%"], ["STAR"], ["T"], ["B9", "ABC", "DCT", "13S014W"], ["OAT", "WORD", "GAT", "PNT"],
            ["/", "N0100VFR", "WORD", "IFR", "15N015E", "/", "M080F350"], ["A" * 30, "PNT", "PNT"], ["DET2A"], ["/"], ["DCT"],
            ["IFR"], ["15N015E", "16N016E"], ["IFR", "17N017W", "/", "N0150VFR", "END"]]


def tla_set(ts):
    return "{" + ", ".join('"%s"' % t for t in ts) + "}"


def cover(maxlen=7, alphabet=None, timeout=600):
    """[(shortest field, node)] for every situation of the specified parser."""
    alphabet = alphabet or COVER_ALPHABET
    cfg = ("SPECIFICATION Spec\nCONSTANTS Alphabet = %s MaxLen = %d Emit = TRUE\nVIEW View\nINVARIANT Emitted\n"
           "PROPERTY Grows\nCHECK_DEADLOCK FALSE\n" % (tla_set(alphabet), maxlen))
    res = Tlc("MC_Cover", cfg, workers=1, timeout=timeout).run().require_ok()
    out = []
    for line in res.prints("H"):
        m = re.match(r'<<<<(.*)>>, "(\w+)">>$', line)
        if not m:
            raise Machinery("unreadable situation " + line)
        body = m.group(1).strip()
        out.append(([t.strip().strip('"') for t in body.split(",")] if body else [], m.group(2)))
    return out, res


def plain(ts):
    return gen.layout(None, ts, plain=True)


def from_cover(r, n, situations, alphabet=None):
    """n fields: a situation, one more token, and a continuation.  Every situation and every
    node x token pair occurs; the rest is a random sample of the transitions."""
    alphabet = alphabet or COVER_ALPHABET
    trans = [(i, t) for i in range(len(situations)) for t in alphabet]
    seen, must = set(), []
    order = list(trans)
    r.shuffle(order)
    for i, t in order:
        f, node = situations[i]
        key = (node, f[-1] if f else "", t)
        if key not in seen:
            seen.add(key)
            must.append((i, t))
    if n >= len(trans):
        chosen = trans
    else:
        rest = [x for x in order]
        chosen = must[:n] + rest[:max(0, n - len(must))]
    out = []
    for i, t in chosen:
        ts = list(situations[i][0]) + [t] + r.choice(SUFFIXES)
        if r.random() < .5:
            ts = gen.vary(r, ts)
        out.append(gen.layout(r, ts, plain=r.random() < .6))
    return out


def randoms(r, n, longest=9):
    out = []
    for i in range(n):
        x = i % 4
        if x == 0:
            ts = gen.random_field(r, r.randint(0, longest))
        elif x == 1:
            ts = gen.valid_field(r)
        elif x == 2:
            ts = gen.mutate(r, gen.valid_field(r), r.choice((1, 1, 2)))
        else:
            ts = gen.mutate(r, gen.valid_field(r, legs=r.randint(4, 14)), r.choice((0, 0, 1, 2, 3)))
        if len(ts) > 150:
            ts = ts[:150]
        out.append(gen.layout(r, ts))
    return out


def longs(r, n):
    """Long fields (up to 150 tokens), long in every way: legs, break text, errors, repetitions, sections, modifiers."""
    word = lambda: r.choice(("FREE", "TEXT", "B9", "DCT", "/", "N0450F350", "%", "02N003E", "0130", "T", "C", "PNT", "STAR", "VFR", "W" * 25))  # noqa: E731
    level = lambda: gen.speed(r) + gen.level(r)  # noqa: E731
    out = []
    for i in range(n):
        x = i % 8
        if x < 2:
            ts = gen.valid_field(r, legs=r.randint(20, 60))
            if x:
                ts = gen.mutate(r, ts, r.randint(1, 4))
        elif x == 2:      # one long section
            begin, end = r.choice((("VFR", "IFR"), ("OAT", "GAT"), ("IFPSTOP", "IFPSTART"), ("/", "IFR")))
            ts = [level(), "PNT"] + (["/", gen.speed(r) + "VFR"] if begin == "/" else [begin]) + [word() for _ in range(r.randint(30, 110))]
            if r.random() < .5:      # of one keyword or element all through
                ts += [r.choice(gen.ALPHA)] * r.randint(40, 130)
            ts += r.choice(([], [end, "ABC"], [end, "ABC", "/", level(), "DCT", gen.point(r), gen.point(r)], [end], ["A" * 26, "PNT", end]))
        elif x == 3:      # many errors
            ts = gen.valid_field(r, legs=r.randint(8, 25))
            for _ in range(r.randint(20, 60)):
                ts.insert(r.randint(0, len(ts)), r.choice((gen.garbage(r), "%%", LONG, "/", "N0450F350", "IFR", "B9")))
        elif x == 4:      # the same again and again
            unit = r.choice((["PNT"], ["PNT", "DCT"], ["C"], ["PNT", "B9"], ["PNT", "/", "N0300F300"], ["02N003E"], ["02N003E", "DCT"], ["PNT", "STAY1", "/", "0130"], ["C", "/", "PNT", "/", "N0450F350F370"],
                             ["%%"], ["/"], ["PNT", "VFR", "W", "IFR"], ["PNT", "OAT", "GAT"], ["STAR"], ["T"], ["PNT", "/", "N0120VFR", "IFR"], gen.random_field(r, 4), gen.random_field(r, 7)))
            ts = [level()] + r.choice(([], ["PNT"], ["PNT", r.choice(("VFR", "OAT", "IFPSTOP"))], [gen.sidstar(r)])) + unit * r.randint(8, 130 // len(unit))
        elif x == 5:
            ts = gen.random_field(r, r.randint(40, 140))
        elif x == 6:      # many modifiers
            ts = [level(), "PNT"]
            for _ in range(r.randint(10, 25)):
                ts += r.choice(([gen.point(r), "/", level()], ["C", "/", gen.point(r), "/", level() + gen.level(r)], [gen.point(r), "STAY1", "/", gen.hhmm(r)], ["C", "/", "PNT", "/", level() + "PLUS"], [gen.point(r)], ["DCT", gen.point(r)]))
        else:             # many sections
            ts = [level(), "PNT"]
            for _ in range(r.randint(6, 14)):
                ts += r.choice((["VFR", word(), "IFR", "ABC", "/", level()], ["OAT", word(), "GAT", gen.point(r)], ["IFPSTOP", word(), word(), "IFPSTART", "PNT"], ["/", gen.speed(r) + "VFR", word(), "IFR", "PNT", "/", level()],
                                ["DCT", gen.point(r)], [gen.point(r)]))
        out.append(gen.layout(r, [t for t in ts if t][:150]))
    # every unit once more, hundreds of elements long
    for unit in UNITS if n >= 8 else ():
        k = r.randint(200, 300)
        ts = [level()] + r.choice(([], ["PNT"], [gen.sidstar(r)], ["PNT", r.choice(("VFR", "OAT", "IFPSTOP"))])) + unit * (k // len(unit)) + r.choice(([], ["PNT"], ["ABC", "STAY1", "/", "0130", "STAR"]))
        out.append(gen.layout(r, ts))
    return out


UNITS = [["PNT"], ["PNT", "DCT"], ["DCT", "PNT"], ["PNT", "B9"], ["02N003E"], ["02N003E", "DCT"], ["02N003E", "0230N00315E", "PNT"], ["C"], ["%%"], ["ABCDE", "%%"], ["PNT", "/", "N0300F300"],
         ["PNT", "/", "M080F300", "DCT", "ABC", "/", "K0700S0900"], ["PNT", "STAY1", "/", "0130"], ["C", "/", "PNT", "/", "N0450F350F370"], ["PNT", "VFR", "W", "IFR", "ABC", "/", "N0200F200"],
         ["PNT", "OAT", "W", "GAT"], ["PNT", "IFPSTOP", "IFPSTART"], ["PNT", "/", "N0120VFR", "IFR"], ["B9"], ["STAR"], ["DET2A"], ["T"], ["/"], ["IFR"], ["N0450F351"], ["95N003E"], ["0130"]]


def sequences(r, prefixes, alphabet, depth, n, suffixes=([],), vary=.25):
    """All (or n random) sequences of at most depth tokens behind each prefix."""
    total = len(prefixes) * sum(len(alphabet) ** k for k in range(depth + 1)) * len(suffixes)
    out = []
    if total <= n:
        for p in prefixes:
            for k in range(depth + 1):
                for ts in itertools.product(alphabet, repeat=k):
                    for s in suffixes:
                        out.append(list(p) + list(ts) + list(s))
    else:
        for p in prefixes:
            for k in range(depth):
                if len(prefixes) * len(alphabet) ** k * 3 <= n:
                    out += [list(p) + list(ts) + list(r.choice(suffixes)) for ts in itertools.product(alphabet, repeat=k)]
        while len(out) < n:
            k = r.choice((depth, depth, depth, max(1, depth - 1), depth + 1))
            out.append(list(r.choice(prefixes)) + [r.choice(alphabet) for _ in range(k)] + list(r.choice(suffixes)))
        r.shuffle(out)
        out = out[:n]
    flat = []
    for ts in out:
        ts = [t for part in ts for t in (part if isinstance(part, (list, tuple)) else [part])]
        flat.append(plain(gen.vary(r, ts, vary) if r.random() < .5 else ts))
    return flat


# ----------------------------------------------------------------- per property --
LONG = "A" * 26
ADEP = [["N0450F350"]]
P1 = [["N0450F350", "PNT"]]
ANY = [["N0450F350"], ["N0120VFR"], ["N0450F350", "PNT"], []]


def p_c03(r, n, thorough):
    out = ["", " ", "\n", "\t\r\n ", "/", "//", "/" * 60, " / / "]
    for c in list(range(0, 256)) + [0x0660, 0x0661, 0xFF10, 0xFF21, 0x2028, 0x3000, 0x1F600, 0xFEFF, 0xD800, 0xDFFF, 0x10FFFF]:
        ch = chr(c)
        out += [ch, "N0450F350 " + ch, "N0450F350 PNT" + ch + "PNT", "N045" + ch + "F350 PNT"]
    for size in (24, 25, 26, 27, 100, 5000, 100000):
        out += ["A" * size, "N0450F350 " + "A" * size + " PNT", "N0450F350 PNT VFR " + "9" * size + " X"]
    for t in gen.ALPHA:
        out += [plain([t] * k) for k in (1, 2, 3, 7, 40, 120)]
        out += [plain(["N0450F350"] + [t] * k) for k in (1, 2, 5, 60)]
        out += [plain(["N0450F350", "PNT"] + [t, "/"] * k) for k in (1, 3, 40)]
        out += [plain(["N0450F350", "PNT", b] + [t] * 150) for b in ("VFR", "OAT", "IFPSTOP")]
    # digits of other scripts in every place a digit is expected
    for t in ("N0450F350", "M082F350", "N0450VFR", "02N003E", "0230N00315E", "02N003E090040", "PNT090040", "STAY1", "0130",
              "B9", "DET2A", "N0450F350F370", "N0450F350PLUS", "NATA1"):
        for i, ch in enumerate(t):
            if ch.isdigit():
                for z in (0x0660, 0x0966, 0xFF10):
                    u = t[:i] + chr(z + int(ch)) + t[i + 1:]
                    out += [u, "N0450F350 PNT/" + u, "N0450F350 " + u + " PNT", "N0450F350 C/PNT/" + u, "N0450F350 PNT STAY1/" + u]
    m = n - len(out)
    chars = "N0450F3MKSAVRC/ \n\tTIPLUSOGD19E%W"
    for i in range(max(0, m // 3)):
        out.append("".join(r.choice(chars) for _ in range(r.choice((3, 6, 10, 20, 40)))))
    out += randoms(r, max(0, m - m // 3))
    return out


def p_c04(r, n, thorough):
    bad = ["A!B", "!", "!!", "<!>", "%", LONG, "abc", "12", "N045F350", "95N190E", "9999N99999E", "PNT361001", "95N190E999999", "F350",
           "N0450F351", "IFR", "GAT", "IFPSTART", "STAR", "SID", "0130", "STAY1", "N0450F351F352", "B9", "/", "T", "ABCDEFGHIJ!KLMNOPQRSTUVWX"]
    out = sequences(r, ADEP + P1 + [[]], bad + ["PNT", "DCT", "C"], 3, n // 2, vary=.1)
    for _ in range(n // 8):      # the same text many times: the error must name the right one
        b = r.choice(bad)
        out.append(gen.layout(r, ["N0450F350"] + [r.choice((b, b, "PNT", "DCT")) for _ in range(r.randint(2, 12))]))
    return out + randoms(r, n - len(out))


def p_c05(r, n, thorough):
    # every kind after every kind, directly and before the end
    ks = [v[0] for v in gen.REP.values()]
    out = sequences(r, ANY + [["N0450F350", "DCT"], ["N0450F350", "PNT", "OAT", "X", "GAT", "PNT"]], ks, 2, n, suffixes=([], ["PNT"]))
    return out[:n]


def p_c06(r, n, thorough):
    al = ["PNT", "02N003E", "B9", "DCT", "VFR", "OAT", ("GAT", "PNT"), ("IFR", "PNT", "/", "N0450F350"), "C", "DET2A", "SID", ("/", "N0100VFR"),
          ("C", "/", "PNT", "/", "N0450F350F370"), "/", "%%", "STAR", "PNT", ("STAY1", "/", "0130"), "T", "PNT090040"]
    return sequences(r, ADEP + [["N0120VFR"], ["N0450F350", "PNT"]], al, 4, n // 2) + longs(r, n // 40) + randoms(r, n // 2 - n // 40)


def mods(r):
    """Every combination of speed and level units, and PLUS."""
    out = []
    for v in "NKM":
        for a in "FASM":
            out.append(gen.speed(r, v) + gen.level(r, a))
            out.append(gen.speed(r, v) + gen.level(r, a) + "PLUS")
            for b in "FASM":
                out.append(gen.speed(r, v) + gen.level(r, a) + gen.level(r, b))
        out.append(gen.speed(r, v) + "VFR")
    return out


def p_c08(r, n, thorough):
    out = []
    while len(out) < n // 3:
        ms = mods(r)
        r.shuffle(ms)
        ts = [gen.speed(r) + (gen.level(r) if r.random() < .8 else "VFR")]
        if ts[0].endswith("VFR"):
            ts += ["X", "IFR", "PNT", "/", gen.speed(r) + gen.level(r)]
        for m in ms[:r.randint(2, 14)]:
            p = gen.point(r, .05)
            if m.endswith("VFR"):
                ts += [p, "/", m] + gen.words(r) + ["IFR", gen.point(r, 0), "/", r.choice((gen.speed(r) + gen.level(r),) * 4 + (m,))]
                if ts[-1].endswith("VFR"):
                    ts += ["Y", "IFR", "PNT", "/", "N0111F110"]
            elif len(m) in (8, 9):
                ts += [p, "/", m]
            else:
                ts += ["C", "/", p, "/", m]
            x = r.random()
            if x < .2:
                ts += ["DCT", gen.prp(r)]
            elif x < .4:
                ts += ["PNT", gen.route(r), gen.prp(r)]
            elif x < .5:
                ts += ["PNT", "OAT", "WORD", "GAT", gen.prp(r)]
            elif x < .6:
                ts += ["PNT", "STAY1", "/", gen.hhmm(r)]
            elif x < .7:
                ts += [gen.garbage(r), "PNT"]
        out.append(gen.layout(r, ts[:150]))
    al = ["PNT", "B9", "DCT", ("/", "N0100A010"), ("/", "K0200S0200"), ("C", "/", "XYZ", "/", "M080F350F370"), ("/", "N0120VFR"),
          ("IFR", "PNT", "/", "N0300F300"), ("IFR", "PNT", "/", "N0301VFR"), "OAT", ("GAT", "PNT"), "VFR", "%%", "/", "N0222F222", "N0223F223F224", "STAR"]
    return out + sequences(r, ADEP + [["N0120VFR"], ["N0450F350", "PNT"]], al, 4, n // 3) + randoms(r, n - n // 3 - len(out))


def p_c09(r, n, thorough):
    """Packed sweeps: each field has about 60 speed/level pairs."""
    vals = []
    lev = ["F%03d" % i for i in range(1000)] + ["A%03d" % i for i in range(1000)] + ["S%04d" % i for i in range(0, 10000)] + ["M%04d" % i for i in range(0, 10000)]
    spd = ["N%04d" % i for i in range(10000)] + ["K%04d" % i for i in range(10000)] + ["M%03d" % i for i in range(1000)]
    pool = max(len(lev), len(spd))
    for i in range(pool):
        vals.append(spd[i % len(spd)] + lev[(i * 7 + 3) % len(lev)])
    for i in range(0, len(lev), 1 if thorough else 7):
        vals.append(r.choice(("M%03d" % r.randrange(1, 1000), r.choice(spd))) + lev[i])
    # Mach numbers at the levels where the temperature formula changes, and at ordinary ones
    for m in range(0, 1000, 1 if thorough else 3):
        for a in r.sample(["F000", "A000", "S0000", "F001", "F005", "F100", "A180", "F360", "F361", "F365", "A361", "S1100", "S1101", "M1099",
                           "F410", "F999", "S0001", "M1130", "F350", "A050"], 4 if not thorough else 10):
            vals.append("M%03d" % m + a)
    # every Mach number at level zero and where the formula changes; round numbers beside round numbers
    for m in range(1000):
        vals += ["M%03d" % m + a for a in ("F000", "A000", "S0000", "M0000", "S1099", "M1100", "S1101")]
    for m in [1, 5, 50, 75] + list(range(10, 400, 10)) + [500, 900, 999]:
        vals += ["M%03d" % m + a for a in ["F%03d" % x for x in range(20, 640, 40)] + ["A001", "A100", "S0100", "S1000", "M0500", "M1000", "S9999", "M9999", "A999"]]
    out = []
    r.shuffle(vals)
    chunk = 45
    for i in range(0, len(vals), chunk):
        ts = ["N0450F350"]
        for v in vals[i:i + chunk]:
            ts += ["PNT", "/", v]
        out.append(plain(ts))
    cr = [gen.speed(r) + gen.level(r) + (gen.level(r) if i % 5 else "PLUS") for i in range(4000 if thorough else 1200)]
    cr += mods(r)
    for i in range(0, len(cr), 24):
        ts = ["M080F350"]
        for v in cr[i:i + 24]:
            if len(v) in (8, 9):
                ts += ["PNT", "/", v]
            else:
                ts += ["C", "/", "PNT", "/", v]
        out.append(plain(ts))
    sv = spd[::1 if thorough else 29]
    for i in range(0, len(sv), 15):
        ts = ["M080F350"]
        for v in sv[i:i + 15]:
            ts += ["PNT", "/", v + "VFR", "W", "IFR", "PNT", "/", "M080" + r.choice(lev)]
        out.append(plain(ts))
    ms = mods(r)
    for a in ms:
        for b in r.sample(ms, 6):
            ts = ["M080F350"]
            for m in (a, b):
                ts += ["PNT", "/", m] if len(m) in (8, 9) and not m.endswith("VFR") else \
                      ["PNT", "/", m, "X", "IFR", "PNT", "/", "M070S0500"] if m.endswith("VFR") else ["C", "/", "PNT", "/", m]
                ts += r.choice((["PNT"], ["DCT", "PNT"], ["PNT", "B9", "PNT"], []))
            out.append(plain(ts))
    # the same digits in another unit, the same speed at another level, the same level at another speed
    for _ in range(max(300, n // 4)):
        d, m, x, y = "%04d" % r.randrange(1, 10000), "%03d" % r.randrange(1, 1000), "%03d" % r.randrange(1000), "%04d" % r.randrange(2000)
        spd, lev = ["N" + d, "K" + d, "M" + m, "N0" + m, "K0" + m], ["F" + x, "A" + x, "S" + y, "M" + y, "S0" + x, "M0" + x]
        ts = [r.choice(spd) + r.choice(lev)]
        for _ in range(r.randint(2, 14)):
            a, b = r.choice(spd), r.choice(lev)
            ts += r.choice((["PNT", "/", a + b], ["PNT", "/", a + b], ["C", "/", "PNT", "/", a + b + r.choice(lev + ["PLUS"])], ["/", a + b], ["PNT", "/", a + "VFR", "W", "IFR", "PNT", "/", a + b], [a + b]))
        out.append(plain(ts))
    # SI values of every kind of element, of elements with errors and in the first element
    for m in ms:
        out += [plain([m]), plain([m, "PNT"]), plain([m, "%%", "PNT"]), plain(["PNT", "/", m, "PNT"]), plain([m, "DCT", "PNT", "OAT", "X", "GAT", "PNT", "B9", "ABC", "STAR"])]
    return out + randoms(r, max(300, n // 6))


def p_c10(r, n, thorough):
    al = ["PNT", "02N003E", "B9", "DCT", "VFR", "OAT", "IFPSTOP", "IFR", "GAT", "IFPSTART", ("GAT", "PNT"), ("IFPSTART", "PNT"), ("IFR", "PNT", "/", "N0450F350"),
          ("IFR", "PNT", "/", "N0450VFR"), ("/", "N0100VFR"), ("/", "N0100A010"), ("C", "/", "PNT", "/", "N0450F350F370"), "C", "%%", "STAR",
          ("STAY1", "/", "0130"), "DET2A", "WORD"]
    pre = [["N0450F350"], ["N0120VFR"], ["N0450F350", "PNT"], ["N0450F350", "PNT", "VFR"], ["N0450F350", "PNT", "OAT"], ["N0450F350", "SID"], [], ["%%"], ["VFR"], ["N0120VFR", "IFR", "PNT"]]
    a = sequences(r, pre, al, 3, 2 * n // 3)
    return a + randoms(r, n - len(a))


def p_c12(r, n, thorough):
    """Every degree and minute value, both formats, all hemispheres; boundaries with every neighbour."""
    vals = []
    for la in range(100):
        vals += ["%02d%s%03d%s" % (la, h, r.choice((r.randrange(181), 180, 0)), w) for h in "NS" for w in "EW"]
        vals += ["%02d%02dN%03d%02dE" % (la, r.randrange(60), r.randrange(180), r.randrange(60)), "%02d00S18000W" % la]
    for lo in (range(1000) if thorough else list(range(0, 200)) + [r.randrange(200, 1000) for _ in range(60)] + [999]):
        vals += ["%02d%s%03d%s" % (r.randrange(91), h, lo, w) for h in "NS" for w in "EW"]
        vals += ["%02d%02d%s%03d%02d%s" % (r.randrange(90), r.randrange(60), r.choice("NS"), lo, r.randrange(60), r.choice("EW"))]
    for m in range(100):
        vals += ["%02d%02d%s%03d%02d%s" % (r.randrange(90), m, h, r.randrange(180), r.randrange(60), w) for h in "NS" for w in "EW"]
        vals += ["%02d%02d%s%03d%02d%s" % (r.randrange(90), r.randrange(60), h, r.randrange(180), m, w) for h in "NS" for w in "EW"]
        vals += ["90%02dN%03d%02dE" % (m, r.randrange(180), r.randrange(60)), "%02d%02dN180%02dW" % (r.randrange(90), r.randrange(60), m), "00%02dS000%02dW" % (m, m)]
    for la, lm, lo, om in itertools.product((0, 1, 45, 89, 90, 91, 99), (0, 1, 59, 60, 61, 99), (0, 1, 90, 179, 180, 181, 199, 999), (0, 1, 59, 60, 61, 99)):
        if thorough or r.random() < .35:
            vals.append("%02d%02d%s%03d%02d%s" % (la, lm, r.choice("NS"), lo, om, r.choice("EW")))
    for la, lo in itertools.product((0, 1, 45, 89, 90, 91, 99), (0, 1, 90, 179, 180, 181, 199, 999)):
        vals += ["%02d%s%03d%s" % (la, h, lo, w) for h in "NS" for w in "EW"]
    base = list(vals)
    for b in (0, 1, 90, 180, 359, 360, 361, 362, 400, 999):
        vals += [r.choice(base) + "%03d%03d" % (b, r.choice((0, 1, 40, 999))) for _ in range(25)] + ["PNT%03d%03d" % (b, r.choice((0, 1, 999))), "A%03d001" % b, "ABCDE%03d020" % b]
    r.shuffle(vals)
    out = []
    i = 0
    while i < len(vals):
        k = r.choice((1, 2, 3, 4, 6))
        ts = ["N0450F350"]
        for v in vals[i:i + k]:
            x = r.random()
            if x < .6:
                ts += [v]
            elif x < .7:
                ts += [v, "/", "N0200F200"]
            elif x < .8:
                ts += ["C", "/", v, "/", "N0200F200F300"]
            elif x < .88:
                ts += ["DCT", v]
            elif x < .95:
                ts += ["PNT", "OAT", "GAT", v]
            else:
                ts += ["VFR", "IFR", v, "/", "N0200F200"]
        out.append(plain(ts))
        i += k
    # every latitude and longitude in degrees, and in degrees and minutes
    sweep = ["%02d%02d%s%03d%02d%s" % (x % 100, x // 100 % 100, "NS"[x // 7 % 2], x // 100, x % 100, "EW"[x // 3 % 2]) for x in range(0, 18200)]
    sweep += ["%02d%s%03d%s" % (x % 100, "NS"[x // 100 % 2], x // 2, "EW"[x % 2]) for x in range(2000)]
    sweep += ["%02d%02d%s%03d%02d%s" % (r.randrange(90), r.randrange(60), r.choice("NS"), x, r.randrange(100), r.choice("EW")) for x in range(182, 1000)]
    r.shuffle(sweep)
    out += [plain(["N0450F350"] + sweep[i:i + 60]) for i in range(0, len(sweep), 60)]
    return out[:max(n, len(out))] + randoms(r, max(300, n // 8))


LLS = ["02N003E", "10S170W", "0230N00315E", "4500S17959W", "00N000E", "90N180E", "0001S00001W"]


# poles, equator, dateline, opposite points, points a few metres apart, several texts of one place
PLACES = ["00N000E", "00S000W", "0000N00001E", "0001S00000E", "00N180E", "00S180W", "0000S17959W", "90N000E", "90S180W", "90N090W", "8959N00000E", "8959N00001E", "8959N00100E", "8959S17959E", "02N003E",
          "0200N00300E", "0201N00300E", "02S177W", "02N003E090001", "02N003E360000", "02N003E000001", "0200N00259E", "10N010E", "10S170W", "1000S16959W", "45N179E", "45N179W", "4500N17959E180001", "60N030E", "61N030E",
          "60N150W", "00N120E001999", "90N000E180001", "89N000E000060"]


def p_c13(r, n, thorough):
    al = ["02N003E", "0230N00315E", "10S170W", "95N003E", "0260N00315E", "02N003E361040", "05N006E090040", "PNT", "PNT090040", "DCT",
          ("STAY1", "/", "0130"), ("/", "N0100A010"), ("OAT", "X", "GAT"), ("VFR", "X", "IFR"), "OAT", ("C", "/", "12N013E", "/", "N0450F350F370"),
          ("C", "/", "PNT", "/", "N0450F350F370"), "C", "%%", ("/", "N0100VFR", "X", "IFR"), ("DCT", "PNT", "B9"), "STAR", "B9", "DET2A"]
    out = sequences(r, ADEP + [["N0450F350", "02N003E"], ["N0450F350", "SID"], ["N0120VFR", "X", "IFR", "10N010E", "/", "N0100F100"]], al, 4,
                    2 * n // 3, vary=.5)
    for _ in range(n // 12):
        ts = ["N0450F350"]
        for _ in range(r.randint(2, 25)):
            ts += [gen.ll(r, .06) + (gen.bd(r, .05) if r.random() < .2 else "")] if r.random() < .7 else [r.choice(("DCT", "PNT", "DCT"))]
        out.append(gen.layout(r, ts))
    pairs = [(a, b) for a in PLACES for b in PLACES]
    r.shuffle(pairs)
    for i in range(0, len(pairs), 12):
        ts = ["N0450F350"]
        for a, b in pairs[i:i + 12]:
            ts += [a] + r.choice(([], [], ["DCT"], ["/", "N0200F200"])) + [b] + r.choice((["PNT"], ["DCT", "PNT"], []))
        out.append(plain(ts))
    return out + randoms(r, n - len(out))


def p_c14(r, n, thorough):
    out = []
    for _ in range(3 if not thorough else 30):
        for v in "NKM":
            for a in "FASM":
                for b in ("F", "A", "S", "M", "PLUS"):
                    m = gen.speed(r, v) + gen.level(r, a) + (b if b == "PLUS" else gen.level(r, b))
                    for p in (gen.prp(r), gen.ll(r, .1), "C", gen.prp(r) + gen.bd(r)):
                        out.append(plain(["N0450F350"] + r.choice(([], ["PNT"], ["DCT", "PNT"], ["SID", "PNT"])) + ["PNT", "C", "/", p, "/", m] +
                                         r.choice(([], ["PNT"], ["DCT", "PNT"], ["B9", "ABC"], ["OAT", "X", "GAT", "PNT"], ["C", "/", "XYZ", "/", "N0300F300F310"],
                                                   ["/", "N0300F300"], ["C", "/", "XYZ", "/", "N0300F300PLUS"], ["STAY1", "/", "0130"], ["%%", "PNT"]))))
    al = ["C", "/", "PNT", "02N003E", "95N003E", "N0450F350F370", "N0450F350PLUS", "N0450F350", "N0100VFR", "%%", LONG, "DCT", "T", "VFR", "STAY1", "B9",
          "N0450F351F352", "IFR", "STAR", "SID", "0130", "DET2A", "PNT361001"]
    out += sequences(r, [["N0450F350", "PNT", "C"], ["N0450F350", "PNT", "C", "/"], ["N0450F350", "PNT", "C", "/", "PNT"], ["N0450F350", "PNT", "C", "/", "PNT", "/"],
                         ["N0450F350", "02N003E", "C", "/", "03N004E", "/"], ["N0450F350", "C", "/", "PNT", "/", "N0450F350F370"], ["C"], ["N0120VFR", "C"]],
                     al, 3, 2 * n // 3)
    return out + randoms(r, max(n // 6, n - len(out)))


def p_c15(r, n, thorough):
    out = []
    times = ["%02d%02d" % (h, m) for h in range(0, 26) for m in list(range(0, 62)) + [70, 99]]
    times += ["%02d%02d" % (r.randrange(100), r.randrange(100)) for _ in range(100)] + ["000", "00000", "1", "24", "2400", "9999", "A130"]
    r.shuffle(times)
    i = 0
    while i < len(times):
        k = r.choice((1, 1, 2, 3, 8))
        ts = ["N0450F350"]
        for t in times[i:i + k]:
            ts += [r.choice((gen.prp(r), gen.ll(r, .1), "B9", "02N003E", "C")) if r.random() < .9 else "PNT", "STAY" + gen.digits(r, 1), "/", t]
        out.append(plain(ts))
        i += k
    # every four digits
    times = ["%04d" % x for x in range(10000)]
    r.shuffle(times)
    for i in range(0, 10000, 40):
        out.append(plain(["N0450F350"] + [x for t in times[i:i + 40] for x in ("PNT", "STAY" + gen.digits(r, 1), "/", t)]))
    al = ["PNT", "02N003E", "STAY1", "STAY9", "/", "0130", "0000", "2359", "2360", "DCT", "B9", "C", "VFR", "N0450F350", "T", "STAR", "%%", LONG, ("GAT", "PNT"), "OAT",
          ("STAY2", "/", "0245"), ("/", "N0100A010"), ("C", "/", "PNT", "/", "N0450F350F370"), "DET2A", "SID", "IFR", "N0100VFR", "N0450F350F370", "PNT"]
    out += sequences(r, [["N0450F350", "PNT"], ["N0450F350", "PNT", "STAY1"], ["N0450F350", "PNT", "STAY1", "/"], ["N0450F350", "PNT", "STAY1", "/", "0130"],
                         ["N0450F350", "B9"], ["N0450F350"], ["N0450F350", "DCT"], ["N0450F350", "%%"], ["N0120VFR", "STAY1"]], al, 3, n // 2)
    return out + randoms(r, max(n // 6, n - len(out)))


def p_c16(r, n, thorough):
    al = ["SID", "STAR", "DET2A", "ABCDE12", "ABC1A", "PNT", "DCT", "B9", "T", "02N003E", "C", "/", "%%", "VFR", ("OAT", "X", "GAT", "PNT"), ("/", "N0100A010"),
          ("STAY1", "/", "0130"), "ABCDE1A", ("C", "/", "PNT", "/", "N0450F350F370"), "IFR", "N0450F350", "SIDS", "STA", LONG]
    out = sequences(r, ADEP + [["N0450F350", "DET2A"], ["N0450F350", "PNT"], ["N0120VFR", "X", "IFR", "PNT", "/", "N0100F100"], ["N0450F350", "PNT", "B9", "ABC"], [], ["N0120VFR"],
                               ["N0450F350", "DCT", "PNT"]], al, 3, 2 * n // 3, vary=.35)
    return out + randoms(r, n - len(out))


def p_c24(r, n, thorough):
    al = ["VFR", "OAT", "IFPSTOP", "IFR", "GAT", "IFPSTART", "PNT", "/", "N0450F350", "N0100VFR", "WORD", LONG, "02N003E", "%%", "DCT", "B9", "C", "T", "STAR", "95N003E", "SID",
          "N0450F350F370", "STAY1", "0130", ("IFR", "PNT", "/"), ("IFR", "PNT", "/", "N0450F350"), "A" * 25]
    out = sequences(r, [["N0450F350", "PNT", "VFR"], ["N0450F350", "PNT", "OAT"], ["N0450F350", "PNT", "IFPSTOP"], ["N0120VFR"], ["N0450F350", "PNT", "/", "N0120VFR"],
                        ["N0450F350", "PNT", "VFR", "W", "IFR"], ["N0450F350", "PNT", "VFR", "IFR", "PNT"], ["N0120VFR", "W", "IFR", "PNT", "/"],
                        ["N0450F350", "PNT", "OAT", "W", "GAT"], ["N0450F350", "%%", "VFR"], ["VFR"]], al, 3, 3 * n // 4, suffixes=([], [], ["IFR", "PNT", "/", "N0450F350", "ABC"], ["GAT", "PNT", "DCT", "ABC"],
                                                                                            ["IFPSTART", "PNT", "B9", "ABC"]), vary=.2)
    for _ in range(n // 12):
        ts = ["N0450F350", "PNT", r.choice(("VFR", "OAT", "IFPSTOP"))] + [r.choice(("WORD", "/", "%", gen.garbage(r)[:25], gen.random_token(r)[:25])) for _ in range(r.randint(1, 40))]
        ts += r.choice((["IFR", "PNT", "/", "N0450F350", "ABC"], ["GAT", "PNT"], ["IFPSTART", "PNT"]))
        out.append(gen.layout(r, ts))
    return out + randoms(r, n - len(out))


def p_c25(r, n, thorough):
    out = []
    for _ in range(n // 3):
        ts = ["N0450F350"]
        for _ in range(r.choice((1, 2, 3, 5))):
            x = r.random()
            ts += [gen.ll(r, .04) + gen.bd(r, .06)] if x < .6 else [gen.prp(r) + gen.bd(r)] if x < .75 else [gen.ll(r, .03)]
            if r.random() < .2:
                ts += ["DCT"]
        out.append(plain(ts))
    for b in range(0, 1000):
        if b <= 365 or b % 37 == 0 or thorough:
            p = r.choice((gen.ll(r, 0), gen.ll(r, 0), gen.prp(r)))
            out.append(plain(["N0450F350", p + "%03d%03d" % (b, r.randrange(1000)), "05N006E"]))
    # every bearing and every distance
    sweep = [gen.ll(r, 0) + "%03d%03d" % (b, r.randrange(1000)) for b in range(1000)] + [gen.ll(r, 0) + "%03d%03d" % (r.randrange(361), d) for d in range(1000)]
    sweep += [gen.prp(r) + "%03d%03d" % (b, r.randrange(1000)) for b in range(1000)]
    r.shuffle(sweep)
    out += [plain(["N0450F350"] + sweep[i:i + 25]) for i in range(0, len(sweep), 25)]
    al = ["02N003E090040", "0230N00315E180010", "02N003E361040", "91N181E361001", "PNT090040", "PNT361040", "02N003E", "PNT", "DCT", "9060N00315E090040",
          ("OAT", "X", "GAT"), ("/", "N0100A010"), "B9", "%%", "C", ("C", "/", "03N004E045100", "/", "N0450F350F370"), ("VFR", "IFR", "03N004E045100", "/", "N0450F350")]
    out += sequences(r, ADEP + [["N0450F350", "02N003E090040"]], al, 3, n // 2, vary=.5)
    return out + randoms(r, max(n // 8, n - len(out)))


# ------------------------------------------------------- every context, every value --
def level_of(r):
    return gen.speed(r) + gen.level(r)


def block(r, pt):
    """One step of a route: the contexts in which a property's own tokens are placed."""
    x = r.randrange(22)
    if x < 3:
        return [gen.route(r), gen.prp(r)]
    if x < 6:
        return ["DCT", pt()]
    if x < 8:
        return [pt()]
    if x < 10:
        return [pt(), "/", level_of(r)]
    if x == 10:
        return [pt(), "STAY" + gen.digits(r, 1), "/", gen.hhmm(r)]
    if x == 11:
        return ["C", "/", pt(), "/", level_of(r) + (gen.level(r) if r.random() < .7 else "PLUS")]
    if x == 12:
        return [pt(), "/", gen.speed(r) + "VFR"] + gen.words(r) + ["IFR", pt(), "/", level_of(r)]
    if x == 13:
        return [pt(), "VFR"] + gen.words(r) + ["IFR", pt(), "/", r.choice((level_of(r), level_of(r), gen.speed(r) + "VFR"))]
    if x == 14:
        return [pt(), "OAT"] + gen.words(r) + ["GAT", pt()]
    if x == 15:
        return [pt(), "IFPSTOP"] + gen.words(r) + ["IFPSTART", pt()]
    if x == 16:
        return [gen.garbage(r)]
    if x == 17:
        return ["C"]
    if x == 18:
        return [gen.ll(r, .5) + (gen.bd(r, .5) if r.random() < .3 else "")]
    if x == 19:
        return [gen.letters(r, 4), gen.prp(r) + gen.bd(r)]
    if x == 20:
        return ["DCT"]
    return [gen.random_token(r)]


def happening(r, p, q):
    """Something that happens at point p; q is another point."""
    return r.choice((lambda: [p], lambda: [p, "/", level_of(r)], lambda: ["C", "/", p, "/", level_of(r) + gen.level(r)], lambda: ["C", "/", p, "/", level_of(r) + "PLUS"],
                     lambda: [p, "STAY" + gen.digits(r, 1), "/", gen.hhmm(r)], lambda: [p, "/", gen.speed(r) + "VFR"] + gen.words(r) + ["IFR", q, "/", level_of(r)],
                     lambda: [q, "VFR"] + gen.words(r) + ["IFR", p, "/", level_of(r)], lambda: [p, "VFR"] + gen.words(r) + ["IFR", p, "/", gen.speed(r) + "VFR"] + gen.words(r) + ["IFR", q, "/", level_of(r)],
                     lambda: [p, "OAT"] + gen.words(r) + ["GAT", q], lambda: [p, "IFPSTOP"] + gen.words(r) + ["IFPSTART", p], lambda: [p, gen.garbage(r)], lambda: [p, "DCT", q], lambda: [p, "B9", q],
                     lambda: [p, "STAY1", "/", gen.hhmm(r), "DCT", q], lambda: [p, "/", level_of(r), "STAY2", "/", gen.hhmm(r)], lambda: [p, "IFR"], lambda: [p, level_of(r)], lambda: [p, p],
                     lambda: [p, gen.sidstar(r)], lambda: [gen.sidstar(r), p], lambda: [p, "C"], lambda: ["DCT", p], lambda: [p, "DCT", gen.ll(r)], lambda: [p, "9999N99999E"]))()


def revisits(r, n):
    """One point visited two or three times, each time with something else - or the same with other values - happening there."""
    out = []
    for i in range(n):
        p, q = r.choice((gen.prp(r), gen.prp(r), gen.ll(r, 0), gen.prp(r) + gen.bd(r, 0))), r.choice((gen.prp(r), gen.ll(r, 0)))
        level, pick = [level_of(r)], r.randrange(1 << 30)
        a = happening(random.Random(pick) if r.random() < .4 else r, p, q)
        b = happening(random.Random(pick) if r.random() < .4 else r, p, q)
        if a == b and r.random() < .8:
            b = gen.vary(r, b, 1) if r.random() < .5 else happening(r, p, q)
        ts = level + ([gen.prp(r)] if i % 2 else []) + a + [x for _ in range(r.choice((0, 1, 2, 4))) for x in block(r, lambda: gen.point(r))] + b
        if r.random() < .3:
            ts += happening(r, p, q)
        out.append(gen.layout(r, (ts + r.choice(([], ["PNT"], ["ABC", "DEF"])))[:150], plain=r.random() < .7))
    return out


FOCUS = {
    "C05": list(gen.REP), "C06": ["DCT", "BREAK_START", "C", "ROUTE", "SID_STAR", "TRUNCATE", "STAR", "SID"], "C04": ["UNKNOWN", "TOO_LONG", "LL", "LLBD", "PRP_BD", "SLASH", "BREAK_END", "STAY", "SPEED_ALTITUDE", "SAA", "STAR"],
    "C08": ["SPEED_ALTITUDE", "SAA", "SAP", "SPEED_VFR", "SLASH"], "C10": ["BREAK_START", "BREAK_END", "SPEED_VFR", "SLASH"], "C12": ["LL", "LLM", "LLBD", "PRP_BD"],
    "C13": ["LL", "LLM", "LLBD", "DCT", "PRP", "STAY"], "C14": ["C", "SLASH", "SAA", "SAP", "SPEED_ALTITUDE"], "C15": ["STAY", "SLASH", "STAY_TIME", "ROUTE", "PRP"],
    "C16": ["SID", "STAR", "SID_STAR", "ROUTE", "TRUNCATE"], "C24": ["BREAK_START", "BREAK_END", "SPEED_VFR", "SLASH", "UNKNOWN", "TOO_LONG"], "C25": ["LLBD", "PRP_BD", "LL", "LLM"], "C03": list(gen.REP),
}
FOCUS.update({"C07": FOCUS["C06"], "C09": FOCUS["C08"], "C11": FOCUS["C10"]})


def rich(r, prop, n):
    """Fields with the property's own tokens amid every context: long or short, after sections,
    modifiers, errors and repetitions, with names and values of every shape."""
    kinds = FOCUS.get(prop, list(gen.REP))
    out = []
    for _ in range(n):
        bad = r.choice((0, 0, .1))
        pt = r.choice((lambda: gen.point(r, bad), lambda: gen.prp(r), lambda: gen.ll(r, bad)))
        x = r.random()
        if x < .14:
            ts = [gen.speed(r) + "VFR"] + gen.words(r)
            if x < .1:
                ts += ["IFR", pt(), "/", level_of(r)]
        elif x < .2:
            ts = [gen.garbage(r)]
        else:
            ts = [level_of(r)]
            y = r.random()
            ts += ["SID"] if y < .12 else [gen.sidstar(r)] if y < .25 else ["DCT"] if y < .35 else []
            ts += [pt()] if y < .9 else []

        def focus():
            t = [gen.of_kind(r, r.choice(kinds)) for _ in range(r.choice((1, 1, 1, 2, 2, 3)))]
            return t if r.random() < .8 else [pt()] + t if r.random() < .5 else t + [gen.random_token(r)]
        for _ in range(r.choice((0, 1, 2, 3, 5, 11))):
            ts += block(r, pt)
        ts += focus()
        for _ in range(r.choice((0, 0, 1, 2, 4))):
            ts += block(r, pt)
        if r.random() < .6:
            ts += focus()
        y = r.random()
        if y < .15:
            ts += [r.choice((gen.sidstar(r), "STAR", "T", "/", "DCT", gen.route(r), "/", "C"))]
        elif y < .25:
            ts += block(r, pt)
        # a token again; garbage before everything; the same twice in a row
        y = r.random()
        if y < .18 and len(ts) > 2:
            i = r.randrange(len(ts))
            ts.insert(r.randrange(len(ts) + 1), ts[i])
        elif y < .3:
            for _ in range(r.choice((1, 3, 4))):
                ts.insert(r.randrange(1, len(ts) + 1), gen.garbage(r))
        elif y < .36:
            i, j = sorted((r.randrange(len(ts)), r.randrange(len(ts))))
            ts += ts[i:j + 1]
        out.append(gen.layout(r, ts[:150], plain=r.random() < .7))
    return out


def nested(r, n, situations):
    """Every situation and transition of the specified parser again, now behind an eventful route
    and with other values: the same step with a history."""
    trans = [(i, t) for i in range(len(situations)) for t in COVER_ALPHABET]
    out = []
    for i, t in (trans if n >= len(trans) else r.sample(trans, n)):
        bad = r.choice((0, 0, 0, .1))
        pt = r.choice((lambda: gen.point(r, bad), lambda: gen.prp(r), lambda: gen.ll(r, bad)))
        ts = gen.vary(r, list(situations[i][0]) + [t]) + (r.choice(SUFFIXES) if r.random() < .6 else block(r, pt))
        before = []
        for _ in range(r.choice((1, 1, 2, 3, 5, 10))):
            before += block(r, pt)
        head = ts[:1] if r.random() < .8 else [level_of(r)]
        ts = head + before + ts[1:]
        out.append(gen.layout(r, ts[:150], plain=r.random() < .7))
    return out


def nears(r, fs, n):
    """Fields in which a keyword (or another element) is replaced by a text much like it."""
    out = []
    for f in r.sample(fs, min(len(fs), 2 * n)):
        ts = [t for t, _, _ in split_plain(f)]
        keys = [i for i, t in enumerate(ts) if t in gen.KEYWORDS and t != "/"]
        if 1 < len(ts) < 60 and len(out) < n and (keys or r.random() < .3):
            i = r.choice(keys) if keys and r.random() < .8 else r.randrange(len(ts))
            ts[i] = gen.near(r, ts[i])
            out.append(plain(ts))
    return out


SPECIFIC = {"C03": p_c03, "C04": p_c04, "C05": p_c05, "C06": p_c06, "C07": p_c06, "C08": p_c08, "C09": p_c09, "C10": p_c10, "C11": p_c10,
            "C12": p_c12, "C13": p_c13, "C14": p_c14, "C15": p_c15, "C16": p_c16, "C24": p_c24, "C25": p_c25}
# how many fields of each source: (cover, specific, random)
SIZES = {"quick": (4500, 6000, 2000), "thorough": (THOROUGH_COVER, 60000, 40000)}
FEW = {"C09": (300, 600, 300), "C25": (1000, 5000, 1000), "C13": (2000, 7000, 1500), "C12": (1500, 4000, 1000)}


def fields(prop, tier, situations):
    r = random.Random("%s-%s-%d" % (prop, tier, SEED))
    thorough = tier == "thorough"
    a, b, c = SIZES[tier]
    if prop in FEW and not thorough:
        a, b, c = FEW[prop]
    out = from_cover(r, a, situations) + SPECIFIC[prop](r, b, thorough) + randoms(r, c) + longs(r, c // 20) + revisits(r, c // 2) + rich(r, prop, a + b // 2) + nested(r, (a + b) // 3, situations)
    out += nears(r, out, b // 4)
    seen, uniq = set(), []
    for f in out:
        if f not in seen and (len(f) < 400 or f.count(" ") + 2 * f.count("/") <= 340):
            seen.add(f)
            uniq.append(f)
    return uniq


# --------------------------------------------------------------- C01: tokenizer --
def lex_histories(tier):
    r = random.Random("C01-%s-%d" % (tier, SEED))
    thorough = tier == "thorough"
    cases = []

    def block(strings, delims):
        ops = [("delims", delims)]
        for s in strings:
            ops += [("string", s), ("tokenize",), ("tokens",)]
            if r.random() < .1:
                ops.append(("text",))
        return ops
    chars = "AB /\n"
    small = ["".join(p) for k in range((7 if thorough else 6)) for p in itertools.product(chars, repeat=k)]
    sets = ["", " ", "/", "\n", " /", "/ ", " \n", "/\n", " /\n", " \n\t\r/", "A", "A/", "AB", " A/\n"]
    r.shuffle(small)
    for i in range(0, len(small), 25):
        for d in sets if thorough else r.sample(sets, 5):
            cases.append(block(small[i:i + 25], d))
    pool = "ABC019 /\n\t\r%<&.,;-\x00\x1b\\[]^$*\ufeff\u00a0\u0660\u3000\u2028\x0b\x0c\x1c\x85\U0001F600" + "PNT/N0450F350"
    for _ in range(2000 if thorough else 700):
        d = r.choice((" \n\t\r/", " \n\t\r/", " /", " ", "/", "", "".join(r.sample(pool, r.randint(0, 8))), "".join(r.sample(pool, 3)) + "/", "//  "))
        ops = [("delims", d)] if r.random() < .8 else []
        lists = 1
        for _ in range(r.randint(1, 7)):
            x = r.random()
            s = "".join(r.choice(pool) for _ in range(r.choice((0, 1, 2, 5, 9, 20, 60)))) if r.random() < .6 else r.choice(
                (lambda: gen.layout(r, gen.random_field(r, r.randint(0, 8))), lambda: gen.layout(r, gen.valid_field(r)), lambda: " " * r.randrange(4) + "/" * r.randrange(4),
                 lambda: "A" * r.choice((24, 25, 26, 300)) + "/B", lambda: "A" + r.choice((" ", "\n", " /")) * r.choice((70, 130, 300, 2000)) + "B", lambda: longs(r, 8)[r.randrange(8)]))()
            ops.append(("string", s))
            if x < .15:
                ops.append(("delims", "".join(r.sample(pool, r.randint(0, 5)))))
            if x > .1:
                ops.append(("tokenize",))
                lists += 1
            if x > .9:
                ops.append(("tokenize",))
                lists += 1
            ops.append(("tokens",))
            if r.random() < .4:
                ops.append(("again", r.randint(1, lists)))
            if r.random() < .3:
                ops.append(("text",))
        for k in range(1, lists + 1):
            ops.append(("again", k))
        cases.append(ops)
    for size in (5000, 70000):      # far positions
        cases.append(block(["A" * size + " B/C", " " * size + "AB C", "/" * 40 + "\n" * size + "AB/C", "AB /" * (size // 20)], " \n\t\r/"))
    used, res = lex_uses(r, thorough)
    return cases + used, res


LEX_USE = """---- MODULE W ----
EXTENDS MC_LexUse
S == << <<65, 45, 66, 32, 65>>, <<66, 47, 65>> >>
D == << <<32, 45>>, <<32, 47>> >>
===="""


def lex_uses(r, thorough):
    """Every history of string, delimiters and tokenize calls of the specification, with varying
    strings and delimiters; the lists handed out are read again at the end."""
    rows, res = emitted("W", "Strings <- S Delims <- D MaxOps = %d Emit = TRUE" % (6 if thorough else 5), modules=[("W", LEX_USE)], workers=1)
    pairs = [("A-B A", "B/A"), ("AB-CD EF/GH", "AB-CD EF"), ("N0450F350 PNT/N0100F100", " N0450F350  PNT\n"), ("A/B", "A/B/"), ("", "A"), ("A B", "A B C"), ("/", " / "), ("PNT", "PNT "), ("AB", "ABAB")]
    delims = [(" -", " /"), ("", " /"), (" \n\t\r/", " \n\t\r"), (" ", "/ "), ("A", "B"), (" /", "/ -"), ("/", "")]
    out = []
    for row in rows:
        h = parse_tuples(row)
        if not any(o[0] == "tokenize" for o in h):
            continue
        ss, ds = r.choice(pairs), r.choice(delims)
        if r.random() < .5:
            ss = ss[::-1]
        ops, lists = [], 1
        for name, x in h:
            ops.append((name, ss[x - 1]) if name == "string" else (name, ds[x - 1]) if name == "delims" else (name,))
            if name == "tokenize":
                lists += 1
                ops.append(("tokens",))
        out.append(ops + [("again", k) for k in range(1, lists + 1)] + [("text",), ("tokens",)])
    return out, res


# ---------------------------------------------------------- C02: classification --
def token_texts(tier):
    r = random.Random("C02-%s-%d" % (tier, SEED))
    thorough = tier == "thorough"
    out = []
    levels = {"F": "F350", "A": "A045", "S": "S1130", "M": "M0840"}
    speeds = {"N": "N0450", "K": "K0830", "M": "M082"}
    shapes = ["/", "VFR", "IFR", "DCT", "OAT", "GAT", "IFPSTOP", "IFPSTART", "STAY1", "0130", "1959", "2359", "2400", "2360", "0060", "T", "C", "SID", "STAR",
              "NATA", "NATA1", "PTS1", "PTSA", "NAT1", "PTSA1", "NATAA", "NAMA", "PTSAA", "NATAB1", "A", "AB", "ABC", "ABCD", "ABCDE", "ABCDEF", "A090040", "AB090040",
              "ABC090040", "ABCD090040", "ABCDE090040", "ABCDEF090040", "ABC09004", "ABC0900401", "02N003E", "0230N00315E", "02S003W", "0230S00315W", "02N003E090040", "0230N00315E090040",
              "0230S00315W360999", "A1", "AB1", "A1A", "A12A", "A123A", "A12", "A123", "A1234", "ABC123", "ABC1", "ABC12", "AB1A", "AB12", "AB123", "ABCD1", "ABCD12", "ABCD123", "AB12A", "AB123A",
              "ABC1A", "ABC12A", "ABC123A", "ABCDE1", "ABCDE12", "ABCDE123", "ABCD1A", "ABCDE1A", "ABCDEF1A", "ABCDE12A", "ABCD12A", "ABCDEF12A", "ABCDEFG1A", "AB1234", "A1B2", "1ABC", "A1BC"]
    for s in speeds.values():
        shapes.append(s + "VFR")
        for a in levels.values():
            shapes += [s + a, s + a + "PLUS"]
            shapes += [s + a + b for b in levels.values()]
    shapes += ["F350N0450", "N0450", "F350", "N0450F350F370F390", "N0450IFR", "N450F350", "N0450F35", "M0820F350", "M82F350", "N0450S113", "N0450A0450", "K0830M084", "N0450PLUS", "PLUS", "N0450VFRPLUS"]
    out += shapes

    def renew(t):
        return "".join(r.choice(gen.DG) if c.isdigit() else r.choice(gen.UP) if r.random() < .5 else c for c in t)

    def renew_digits(t):
        return "".join(r.choice(gen.DG) if c.isdigit() else c for c in t)
    odd = "az\u0660\u0967\uff11\uff21\u00c4\u0130\u017f\u212a% \n\t.-+_*!\x00\x0b\x1c\x85\u00a0<&\u2028" + "'\"\\"
    for t in shapes:
        for _ in range(6 if thorough else 2):
            out += [renew_digits(t), renew(t)]
        for i in range(len(t)):
            out.append(t[:i] + t[i + 1:])
            out.append(t[:i] + t[i] + t[i:])
            for c in ([r.choice(gen.UP), r.choice(gen.DG), t[i].lower(), r.choice(odd), "0", "9", "A", "Z", "/"] if not thorough else
                      list(gen.UP + gen.DG + odd + "/") + [t[i].lower()]):
                out.append(t[:i] + c + t[i + 1:])
            if i + 1 < len(t):
                out.append(t[:i] + t[i + 1] + t[i] + t[i + 2:])
            if t[i].isdigit():
                for z in (0x0660, 0x0966, 0xFF10, 0x1D7CE):
                    out.append(t[:i] + chr(z + int(t[i])) + t[i + 1:])
        for c in ["A", "0", "/", "\n", " ", "a", "\u0660", "\r", "$", "PLUS", "VFR", "F350", "090040", "E"]:
            out += [t + c, c + t]
        out += [t.lower(), t.capitalize(), t + t, t * 3, t[::-1]]
    for k in range(1, 9 if thorough else 8):
        for sh in itertools.product("LD", repeat=k):
            for _ in range(4 if thorough else 2):
                out.append("".join(r.choice(gen.UP) if c == "L" else r.choice(gen.DG) for c in sh))
    for k in (9, 10, 11, 12, 13, 17):
        for _ in range(800 if thorough else 150):
            a = r.randint(0, 6)
            out.append("".join(r.choice(gen.UP) for _ in range(a)) + "".join(r.choice(gen.DG) for _ in range(k - a)))
    for h in range(30):
        out += ["%02d%02d" % (h, m) for m in range(0, 100, 1 if thorough else 7)] + ["%02d59" % h, "%02d60" % h, "%02d00" % h]
    for u in gen.UP:
        for v in gen.UP:
            out += [u + "0450" + v + "350", u + "082" + v + "350", u + "0450" + v + "0350", u + "0450F350" + v + "370", u + "0450F350" + v + "0370", "02%s003%s" % (u, v),
                    "0230%s00315%s" % (u, v), u + v, u + v + "1"] if thorough or r.random() < .5 else [u + "0450" + v + "350", "02%s003%s" % (u, v), u + v]
        out += ["NAT" + u, "PTS" + u, "NAT" + u + "1", "STAY" + u, u, "NA" + u, "NA" + u + "A", "PT" + u + "A", "PT" + u + "1", "NA" + u + "A1", "SI" + u, "STA" + u, "VF" + u,
                u + "FR", "I" + u + "R", u + "AT", "O" + u + "T", "G" + u + "T", "DC" + u, u + "CT", "IFPSTO" + u, "IFPSTAR" + u, "STA" + u + "1", u + "0450VFR", u + "082VFR", "N0450VF" + u,
                "N0450F350PLU" + u, "N0450F350" + u + "LUS", u + "TAY1"]
    for d in gen.DG:
        out += ["STAY" + d, "STAY" + d + d, "PTS" + d, "PTS" + d + d, "NAT" + d, "NATA" + d, d, d * 2, d * 4, d * 7]
    for n in range(22, 29):
        out += ["A" * n, "1" * n, "%" * n, "N0450F350" + "A" * (n - 9), "\u00c4" * n, "a" * n, "02N003E" + "0" * (n - 7)]
    out += ["A" * 1000, "\U0001F600" * 13, "\U0001F600" * 25, "\U0001F600" * 26, "\ud800", "A\u0301", "N0450F350\n", "PNT\n", "B9\n", "0130\n", "VFR\n", "T\n", "/\n"]
    for _ in range(6000 if thorough else 1500):
        out.append("".join(r.choice("NKMFASCTVRDPLU0123459EWX/") for _ in range(r.randint(1, 18))))
    seen, uniq = set(), []
    for t in out:
        if t and t not in seen:
            seen.add(t)
            uniq.append(t)
    return uniq


# ------------------------------------------------------- C17, C23: related fields --
def join_at(r, ts):
    return plain(ts)


def garbage_pairs(tier, situations):
    """(field 1, field 2, k): field 2 has one element more, its k-th."""
    r = random.Random("C17-%s-%d" % (tier, SEED))
    n = 40000 if tier == "thorough" else 10000
    junk = lambda: r.choice(("%%", LONG, "A" * 60, "123456", "abc", "N045F350", "1F350", gen.garbage(r), gen.odd(r), "ABCDEFG", "A!B", "+", "-"))  # noqa: E731
    out = []

    def ok(g):
        return not any(c in " \n\t\r/" for c in g) and g
    al = ["PNT", "02N003E", "B9", "DCT", "C", ("/", "N0100A010"), ("C", "/", "PNT", "/", "N0450F350F370"), ("STAY1", "/", "0130"), ("OAT", "W", "GAT", "PNT"),
          ("VFR", "W", "IFR", "PNT", "/", "N0300F300"), ("/", "N0100VFR", "W", "IFR", "PNT", "/", "N0300F300"), "STAR", "T", "VFR", "DET2A", "12N013E", ("C", "/", "15N015E", "/", "N0450F350PLUS"),
          ("IFPSTOP", "IFPSTART", "PNT"), ("VFR", "IFR", "PNT", "/", "N0200VFR"), "PNT090040", "10N010E090040"]
    pre = [["N0450F350"], ["N0450F350", "SID"], ["N0450F350", "PNT"], ["N0450F350", "DET2A"], ["N0120VFR", "W", "IFR", "PNT", "/", "N0200F200"], ["N0450F350", "DCT"]]
    while len(out) < n:
        if r.random() < .6:
            ts = list(r.choice(pre))
            for _ in range(r.randint(1, 5)):
                x = r.choice(al)
                ts += list(x) if isinstance(x, tuple) else [x]
            if r.random() < .5:
                ts = gen.vary(r, ts, .3)
        else:
            ts = gen.valid_field(r)
        ts = [t for t in ts if t][:120]
        if r.random() < .01:
            ts = [t for t, _, _ in split_plain(longs(r, 8)[r.randrange(8)])]
        if len(ts) < 2:
            continue
        for _ in range(2):
            k = r.randint(2, len(ts))
            g = junk()
            while not ok(g):
                g = junk()
            out.append((plain(ts), plain(ts[:k - 1] + [g] + ts[k - 1:]), k))
    return out


def beginning(f, k):
    """The field up to the end of its k-th token."""
    ts = split_plain(f)
    return f[:ts[k - 1][2]] if k else ""


def prefix_pairs(tier, situations):
    """(field 1, field 2, k): field 1 is field 2 up to the end of its k-th token."""
    r = random.Random("C28-%s-%d" % (tier, SEED))
    thorough = tier == "thorough"
    n = 60000 if thorough else 12000
    fs = from_cover(r, n // 7, situations) + nested(r, n // 6, situations) + longs(r, n // 120) + rich(r, "C06", n // 10) + rich(r, "C10", n // 20) + randoms(r, n // 10, 14) + revisits(r, n // 6)
    for f in r.sample(fs, n // 8):       # the later part repeats some of the earlier
        ts = [t for t, _, _ in split_plain(f)]
        if 2 < len(ts) < 60:
            a = r.randrange(len(ts))
            again = ts[a:a + r.choice((1, 1, 2, 3, 5))]
            fs.append(plain(ts + r.choice(([], ["PNT"], ["02N003E"], ["PNT", "%%"])) + again + r.choice(([], [], ["PNT"], ["02N003E", "04N004E"]))))
    r.shuffle(fs)
    out = []
    for f in fs:
        ts = split_plain(f)
        if len(ts) < 2 or len(ts) > 150:
            continue
        cuts = {r.randint(1, len(ts) - 1), r.randint(1, len(ts) - 1), len(ts) - 1}
        for i, t in enumerate(ts):       # near what changes the grammar's course
            if t[0] in ("VFR", "IFR", "OAT", "GAT", "C", "STAR", "T", "IFPSTOP", "IFPSTART") and r.random() < .3:
                cuts.add(min(len(ts) - 1, max(1, i + r.randint(0, 4))))
        for k in r.sample(sorted(cuts), min(len(cuts), 3)):
            out.append((f[:ts[k - 1][2]], f, k))
    r.shuffle(out)
    # some fields at every place: each beginning against itself with a little more
    steps = []
    for f in revisits(r, n // 30) + rich(r, "C10", n // 40) + rich(r, "C08", n // 40) + [plain(sections(r)) for _ in range(n // 30)]:
        ts = split_plain(f)
        if 2 < len(ts) <= 40:
            for k in range(1, len(ts)):
                steps.append((f[:ts[k - 1][2]], f[:ts[min(len(ts), k + r.choice((1, 1, 2, 3, 4))) - 1][2]], k))
    r.shuffle(steps)
    return out[:n] + steps[:n // 2]


def sections(r):
    """Sections of every kind, one after the other, ended by points with and without a modifier."""
    ts = [level_of(r), gen.prp(r)]
    for _ in range(r.choice((1, 2, 3))):
        p, q = gen.point(r), gen.point(r)
        begin, end = r.choice((("VFR", "IFR"), ("OAT", "GAT"), ("IFPSTOP", "IFPSTART"), (gen.speed(r) + "VFR", "IFR")))
        ts += ([p] if r.random() < .5 else []) + (["/"] if len(begin) > 7 or begin[0] in "NKM" else []) + [begin] + gen.words(r) + [end, q]
        if end == "IFR" or r.random() < .6:
            ts += ["/", level_of(r)]
        if r.random() < .3:
            ts += ["STAY1", "/", gen.hhmm(r)]
        ts += r.choice(([], ["DCT", gen.point(r)], ["B9", gen.prp(r)], ["C", "/", gen.prp(r), "/", level_of(r) + "PLUS"]))
    return ts + ["PNT"]


def layout_pairs(tier, situations):
    r = random.Random("C23-%s-%d" % (tier, SEED))
    n = 40000 if tier == "thorough" else 6000
    out = []
    base = [t.split() for t in ()]
    fs = []
    for i in range(n):
        x = i % 5
        if x == 0 and situations:
            ts = list(r.choice(situations)[0]) + [r.choice(COVER_ALPHABET)] + r.choice(SUFFIXES)
        elif x == 1:
            ts = gen.random_field(r, r.randint(0, 8))
        elif x == 2:
            ts = gen.valid_field(r)
        else:
            ts = gen.mutate(r, gen.valid_field(r), r.choice((0, 1, 2)))
        ts = [t for t in ts if t][:120]
        if i % 100 == 0:
            ts = [t for t, _, _ in split_plain(longs(r, 8)[r.randrange(8)])]
        out.append((wild(r, ts, 0), wild(r, ts, r.choice((1, 2, 3)))))
    return out + [("", w) for w in (" ", "\n", "\t", "\r", " \r\n\t ")]


def wild(r, ts, how):
    """The tokens with any white space between them: 0 none or single blanks, 1 mixed, 2 many, 3 all newlines or tabs."""
    if how == 0:
        return plain(ts)
    blanks = {1: (" ", "  ", "\n", "\t", "\r\n", " \n"), 2: ("   ", "\n\n", " \t \r\n ", "\r\r", " " * 30, r.choice((" ", "\n", "\t")) * r.choice((66, 130, 300))), 3: (r.choice(("\n", "\t", "\r")),)}[how]
    out = r.choice(("", "", r.choice(blanks)))
    for i, t in enumerate(ts):
        if i:
            tight = "/" in (t, ts[i - 1])
            blank = r.choice(blanks) if r.random() < .5 or how == 3 else "".join(r.choice(" \n\t\r") for _ in range(r.choice((1, 2, 2, 3))))
            out += blank if not tight or r.random() < .6 else ""
        out += t
    return out + r.choice(("", "", r.choice(blanks)))


# ------------------------------------------------------------ histories from TLC --
def parse_tuples(line):
    """'<<<<"a", 1, 0>>, ...>>' as a list of tuples."""
    return [tuple(int(x) if re.fullmatch(r"-?\d+", x.strip()) else x.strip().strip('"') for x in m.split(", "))
            for m in re.findall(r"<<([^<>]*)>>", line)]


def emitted(module, constants, modules=(), simulate=None, depth=None, workers=None, timeout=600):
    cfg = "SPECIFICATION Spec\nCONSTANTS %s\nINVARIANT Emitted\nCHECK_DEADLOCK FALSE\n" % constants
    extra = ["-simulate", "num=%d" % simulate, "-depth", str(depth), "-seed", str(SEED)] if simulate else []
    res = Tlc(module, cfg, workers=1 if simulate else workers, modules=modules, extra=extra, timeout=timeout).run()
    if simulate:
        if res.rc != 0:
            raise Machinery("TLC simulation of %s failed:\n%s" % (module, res.out[-2000:]))
    else:
        res.require_ok()
    return res.prints("H"), res


EDITS = '"append","insert","truncate","first","last","next","prev"'


def by_prefix(rows, keep):
    """One history per distinct history-but-its-last-operations (TLC prints all last steps)."""
    seen, out = set(), []
    for h in rows:
        if tuple(h[:-1]) not in seen:
            seen.add(tuple(h[:-1]))
            out.append(h)
    return out[:keep]


def cursor_histories(tier):
    """Every short history of edits and moves from the specification, long ones by simulation;
    after every operation all reads are made."""
    r = random.Random("C20-%s-%d" % (tier, SEED))
    thorough = tier == "thorough"
    rows, res = emitted("MC_Cursor", "MaxOps = 4 Args = {0,1,2} Names = {%s} Emit = TRUE" % EDITS, workers=1)
    short = [parse_tuples(x) for x in rows]
    rows, _ = emitted("MC_Cursor", "MaxOps = 25 Args = {0,1,2,4} Names = {%s,\"create\"} Emit = TRUE" % EDITS, simulate=3000 if thorough else 250, depth=26)
    long = by_prefix([parse_tuples(x) for x in rows], 100000)
    if not thorough:
        # every pair of consecutive operations in every small state, sampled evenly
        short = r.sample(short, 2500)

    def reads(i):
        out = [("current", 0, 0), ("count", 0, 0), ("peekNext", 1, 0), ("peekPrev", 1, 0)]
        more = [("peekNext", k, 0) for k in (-1, 0, 2, 3, 5)] + [("peekPrev", k, 0) for k in (-1, 0, 2, 3)] + [("at", k, 0) for k in (-3, -2, -1, 0, 1, 2, 3, 4, 6)] + [("list", 0, 0)]
        out += more if i == 0 else r.sample(more, 7)
        r.shuffle(out)
        return out + [("current", 0, 0), ("list", 0, 0)]
    cases = []
    for h in short + long:
        ops, fill = [], r.choice((0, 0, 1, 3, 5))
        # also behind a list that already has tokens
        for k in range(fill):
            ops.append(("create" if k % 2 else "append", 1000 + k, 0))
        for i, op in enumerate(h):
            if op[0] in ("append", "insert") and op[1] > 1 and r.random() < .12:
                op = (op[0], r.randrange(1, op[1]), op[2])  # a token that is, or was, in the list
            ops.append(op if op[0] != "append" or r.random() < .6 else ("create", op[1], 0))
            ops += reads(len(h) - 1 - i)
        cases.append(ops)
    # long lists
    for size in (40, 130, 300):
        for _ in range(30 if thorough else 4):
            ops = [("create" if r.random() < .5 else "append", k + 1, 0) for k in range(size)]
            new = size + 1
            for _ in range(60):
                x = r.random()
                if x < .1:
                    ops.append(("insert", new, r.randrange(size)))
                    new += 1
                elif x < .15:
                    ops.append(("truncate", r.randrange(size), 0))
                elif x < .6:
                    ops += [(r.choice(("next", "next", "prev")), 0, 0)] * r.choice((1, 2, 9, 33))
                elif x < .75:
                    ops.append((r.choice(("first", "last")), 0, 0))
                else:
                    ops += [("peekNext", r.randrange(size), 0), ("peekPrev", r.randrange(size), 0), ("at", r.randrange(size + 3), 0), ("count", 0, 0)]
                ops += [("current", 0, 0), ("peekNext", 1, 0), ("peekPrev", 1, 0)]
            cases.append(ops + [("list", 0, 0)])
    return cases, res


def store_histories(tier):
    r = random.Random("C21-%s-%d" % (tier, SEED))
    thorough = tier == "thorough"
    names = '"append","create","ades","error","derived","renew"'
    w = [("W", "---- MODULE W ----\nEXTENDS MC_Store\nA == {-2,-1,0,1,2,3}\n====\n")]
    rows, res = emitted("W", "MaxOps = 3 Indices <- A Names = {%s} Emit = TRUE" % names, modules=w, workers=1)
    short = [parse_tuples(x) for x in rows]
    rows, _ = emitted("W", "MaxOps = 20 Indices <- A Names = {%s} Emit = TRUE" % names, modules=w, simulate=2000 if thorough else 200, depth=21)
    long = by_prefix([parse_tuples(x) for x in rows], 100000)
    if not thorough:
        short = r.sample(short, min(len(short), 1500))
    texts = ["A!B", "X", "", "!", "!!", "\u00c4\u20ac", "<&>", "PNT", "one '!' here", "1", "2", "3", "ADEP", "ADES"]

    def reads(c):
        out = [(c, o, 0, "") for o in ("first", "last", "before", "count", "errors", "all", "allErr", "rules")]
        out += [(c, "at", k, "") for k in (-3, -2, -1, 0, 1, 2, 3, 4, 5, 7, 30)]
        r.shuffle(out)
        return out
    cases = []
    for h in short + long:
        ops = reads(1) + reads(2) if r.random() < .2 else []
        for i, op in enumerate(h):
            if op[1] == "error":
                op = (op[0], "error", 10 * r.randrange(6) + r.randint(1, 4), r.choice(texts))
            ops.append(op)
            ops += reads(op[0]) if len(h) < 5 or i % 3 == 2 else r.sample(reads(op[0]), 5)
            if r.random() < .35:
                ops += r.sample(reads(3 - op[0]), 6)
        cases.append(ops + reads(1) + reads(2))
    # many elements and errors
    for size in (40, 130, 300):
        for _ in range(20 if thorough else 3):
            ops = []
            for k in range(size):
                ops.append((r.choice((1, 1, 2)), r.choice(("append", "create")), k + 1 if r.random() < .9 else r.randint(1, k + 1), ""))
                if r.random() < .4:
                    ops.append((r.choice((1, 2, 2)), "error", 10 * r.randrange(6) + r.randint(1, 4), r.choice(texts + [str(k), str(k + 1)])))
                if r.random() < .3:
                    ops += r.sample(reads(r.choice((1, 2))), 1)
            ops += [(c, "at", r.randrange(size + 5), "") for c in (1, 2) for _ in range(25)] + [(1, "ades", 0, "")]
            cases.append(ops + reads(1) + reads(2))
    return cases, res


# ---------------------------------------------------- C27: records and tokens --
def record_histories(tier):
    """Histories of the record specification with concrete values; everything is read again and again."""
    r = random.Random("C27-%s-%d" % (tier, SEED))
    thorough = tier == "thorough"
    rows, res = emitted("MC_Record", "MaxOps = 2 Emit = TRUE Few = FALSE", workers=1)
    short = [parse_tuples(x) for x in rows]
    rows, _ = emitted("MC_Record", "MaxOps = 20 Emit = TRUE Few = FALSE", simulate=1500 if thorough else 150, depth=21)
    long = by_prefix([parse_tuples(x) for x in rows], 100000)
    if not thorough:
        short = r.sample(short, min(len(short), 2500))
    texts = ["", "A", "PNT", "N0450", "F350", "FREE TEXT", " ", "<&>", "\u00c4\u20ac", "0", "None", "IFR", "VFR", "I", "PLUS", "x" * 60, "!"]
    kinds = ("POINT", "ROUTE", "DCT", "SID", "STAR", "UNKNOWN", "C", "TOO_LONG", "SPEED_VFR")
    subs = ("PRP", "PRP_AERO", "LL_DEG", "LL_MIN", "VFR", "OAT", "UNKNOWN", "SID_LITERAL", "PRP_BD")

    def value(name):
        if name == "base":
            return r.choice(kinds)
        if name == "sub":
            return r.choice(subs)
        if name == "valid":
            return r.choice("YN")
        if name == "stay":
            return gen.hhmm(r)
        if name in ("start", "end"):
            return str(r.choice((0, 1, 7, 25, 300)))
        if name in ("speedSI", "levelSI", "targetSI"):
            return str(r.choice((0, 1, 232, 10668, 99990)))
        if name in ("lat", "lon", "bearing", "distance"):
            return r.choice(("0", "1", "-1", "90", "-180", "45.5", "-0.25", "0.1", "179.98333333333332", "360", "123456.789"))
        return r.choice(texts)

    def reads():
        out = [(o, "read", "", "") for o in (1, 2, 3, 4)]
        r.shuffle(out)
        return out
    cases = []
    for h in short + long:
        ops = []
        for i, (o, what, name, _) in enumerate(h):
            ops.append((o, what, name, r.choice(texts) if what == "make" else value(name)))
            ops += reads() if i < 2 else r.sample(reads(), 2)
        cases.append(ops + reads())
    # every value given anew, after another one and after all the others
    from hist import RECORD, TOKEN
    for o, names in ((1, RECORD), (3, tuple(TOKEN))):
        for v in names:
            others = [n for n in names if n != v]
            r.shuffle(others)
            cases.append([(o, "set", v, value(v))] + [x for n in others for x in ((o, "set", n, value(n)), (o, "set", v, value(v)), (o, "read", "", ""))] + reads())
            domain = {"base": kinds, "sub": subs, "valid": "YN"}.get(v) or (texts if v in ("name", "speed", "level", "rules", "break", "error", "target") else sorted({value(v) for _ in range(40)}))
            steps = [x for x in domain] * 2
            r.shuffle(steps)
            cases.append([y for x in steps for y in ((o, "set", v, x), (o, "read", "", ""))] + reads())
            all_set = [(o, "set", n, value(n)) for n in others]
            cases.append(all_set + [(o, "set", v, value(v)), (o, "read", "", ""), (o, "set", v, value(v)), (o, "read", "", "")]
                         + all_set[:3] + reads())
    return cases, res


# --------------------------------------------------------------- C18, C19: use --
LEAKY = [
    "N0120VFR TEXT IFR PNT/N0450F350 ABC", "N0120VFR", "N0120VFR A B C", "N0450F350", "N0450F350 PNT", "", " ", "%%", "PNT", "N0450F350 %% PNT 95N003E 9999N99999E",
    "N0450F350 PNT VFR SOME FREE TEXT IFR ABC/N0200F100 XYZ", "N0450F350 PNT OAT WORDS GAT ABC", "N0450F350 PNT IFPSTOP WORDS IFPSTART ABC", "N0450F350 PNT OAT WORDS",
    "N0450F350 PNT STAY1/0130 ABC", "N0450F350 C/PNT/N0450F350F370 ABC", "M082F350 C/02N003E/M080F350PLUS 04N005E", "N0450F350 02N003E 05S006W DCT 10N010E", "N0450F350 02N003E",
    "05N006E", "N0450F350 DET2A PNT B9 ABC DET2A", "N0450F350 SID PNT STAR", "SID", "STAR", "DET2A", "N0450F350 PNT T", "T PNT", "N0450F350 PNT T %%", "N0450F350 PNT/N0120VFR TEXT",
    "N0450F350 02N003E090040 05N006E", "N0450F350 PNT361040 PNT", "N0450F351 PNT", "K0800S1130 PNT/K0700S1000 ABC", "M082F350 PNT/M080A100", "IFR PNT/N0200F100", "VFR TEXT IFR PNT/N0100F100 ABC",
    "OAT", "N0450F350 " + "A" * 30 + " PNT", "N0120VFR " + "A" * 30 + " PNT", "N0450F350 PNT B9", "N0450F350 PNT C", "C/PNT/N0450F350F370", "N0450F350 PNT STAY1", "N0450F350 PNT/",
    "N0450F350 PNT VFR W IFR ABC/", "N0450F350 EGLL DCT 02N003E DCT PNT DCT 04N005E STAY9/2359 B9 XYZ", "N0450F350 C C C PNT", "N0450F350 12N013E VFR X IFR 14N015E/N0100VFR Y IFR 16N017E/N0100F100",
    "/", "/ / /", "N0450F350 PNT GAT IFPSTART IFR PNT", "N0450F350 DCT DCT PNT", "N0450F350 PNT C/XYZ/M080S1130A100 ABC C/DEF/K0100M0100PLUS GHI",
]


def pool_fields(r, n):
    out = list(LEAKY)
    for _ in range(n):
        x = r.random()
        out.append(gen.layout(r, gen.mutate(r, gen.valid_field(r), r.choice((0, 1, 2)))[:60] if x < .7 else gen.random_field(r, r.randint(0, 8))))
    return out


ALIKE = ["N0450F350 PNT B9 ABC/K0830S1130 DCT 02N003E", "M082F350 PNT/M082S1130 ABC/M082A100 C/DEF/M082F350F370", "N0450F350 0230N00315E 02N003E090040 PNT090040 EGLL DCT PNT",
         "N0450F350 SID PNT STAY1/0130 ABC STAR", "N0120VFR TEXT IFR PNT/N0200F200 VFR IFR ABC/N0120VFR", "N0450F350 DET2A ABC A12 PNT OAT W GAT XYZ B9 DEF DET2A", "N0450F350 PNT IFPSTOP W IFPSTART ABC T",
         "N0450F350 C PNT NATA NAMA PTS1 NATX1 VFR", "K0830M0840 95N003E 02N190E 0260N00315E 02N003E361001", "N0450F350 ABCDE ABCDEF ABCD1 ABCDE1 ABC1A AB"]
SWAP = {c: "".join(x for x in g if x != c) for g in ("NKM", "FASM", "NS", "EW", "0123456789", "ABCXYZ", "PQRST") for c in g}


def alike(r, field):
    """A field differing from this one in a single way: one character, case, script, position, order."""
    ts = [t for t, _, _ in split_plain(field)]
    x = r.randrange(12)
    i = r.randrange(len(ts))
    t = ts[i]
    if x < 5:
        k = r.randrange(len(t))
        ts[i] = t[:k] + r.choice(SWAP.get(t[k], "AZ09/")).replace("/", "") + t[k + 1:]
    elif x == 5:
        ts[i] = r.choice((t.lower(), t.capitalize(), t.swapcase()))
    elif x == 6:
        ts[i] = "".join(chr(0x660 + int(c)) if c in "0123456789" else c for c in t)
    elif x == 7:
        ts[i] = r.choice((t + "A", t + "1", t[:-1] or "A", "A" + t, t[1:] or "1", t * 2))
    elif x == 8:
        del ts[i]
    elif x == 9:
        ts.insert(i, t)
    elif x == 10:
        j = r.randrange(len(ts))
        ts[i], ts[j] = ts[j], ts[i]
    else:
        return " " * r.randrange(3) + plain(ts).replace(" ", r.choice(("  ", "\n", " \t ")))
    return plain([t for t in ts if t])


def split_plain(field):
    import driver
    return driver.split(field)


def families(r, jobs, size):
    """Many fields alike one after the other through the same objects; all results are read again."""
    out = []
    for n in range(jobs):
        base = ALIKE[n % len(ALIKE)]
        fs = [base] + [alike(r, base) for _ in range(size)]
        if n % 3 == 0:
            fs = [alike(r, f) for f in fs] + [base]
        r.shuffle(fs)
        ops = []
        for k in range(len(fs)):
            ops += [("lex", 1, k + 1), ("parse", 1, k + 1)]
        if n % 4 == 1:                   # one list, edited again and again
            ops = [("lex", 1, 1), ("parse", 1, 1)]
            for k in range(1, len(fs)):
                ops += [("edit", 1, k + 1), ("parse", r.choice((1, 1, 2)), 1)]
            out.append((fs, ops + [("read", k, 0) for k in range(1, len(fs) + 1)] + [("tokens", 1, 0)]))
            continue
        k = r.randrange(len(fs)) + 1
        ops += [("read", k, 0) for k in range(1, len(fs) + 1)] + [("parse", 2, k), ("parse", 1, k), ("export", k, 0)]
        out.append((fs, ops))
    return out


def long_lives(r, jobs, size):
    """Objects that live long: thousands of different elements go through them, then the first fields come again."""
    def element():
        x = r.randrange(8)
        return (gen.prp(r) if x < 3 else gen.speed(r) + gen.level(r) if x == 3 else gen.ll(r, .05) if x == 4 else gen.route(r) if x == 5 else
                "%s%04d" % (r.choice("ABCDEFGH"), r.randrange(10000)) if x == 6 else gen.random_token(r))
    out = []
    for n in range(jobs):
        first = r.sample(LEAKY, 4)
        fs = first + [plain(["N0450F350"] + [element() for _ in range(200)]) for _ in range(size)] + first
        ops = []
        for k in range(len(fs)):
            ops += [("lex", 1, k + 1), ("parse", 1 + n % 2 * (k % 2), k + 1)]
            if k % 10 == 9:
                ops += [("parse", 1, j) for j in (1, 2, 3, 4)]
        done = sum(o[0] == "parse" for o in ops)
        out.append((fs, ops + [("read", k, 0) for k in (1, 2, 3, 4, done)] + [("parse", 2, 1), ("parse", 1, 5), ("tokens", 1, 0)]))
    return out


def sessions(tier):
    """Histories of the session specification with concrete fields."""
    r = random.Random("C18-%s-%d" % (tier, SEED))
    thorough = tier == "thorough"
    w = [("W", '---- MODULE W ----\nEXTENDS MC_Session\nT == << <<"N0450F350">>, <<"PNT">>, <<>> >>\n====\n')]
    rows, res = emitted("W", "Texts <- T NFields = 2 MaxOps = 4 MaxLists = 2 Emit = TRUE", modules=w, workers=1)
    short = [parse_tuples(x) for x in rows]
    out = []
    for ops, depth, num in ((12, 13, 6000 if thorough else 500), (40, 41, 600 if thorough else 60)):
        rows, _ = emitted("W", "Texts <- T NFields = 3 MaxOps = %d MaxLists = %d Emit = TRUE" % (ops, 9), modules=w, simulate=num, depth=depth)
        out += by_prefix([parse_tuples(x) for x in rows], num)
    useful = [h for h in short if sum(o[0] == "parse" for o in h) >= 1 and any(o[0] == "read" or o[0] == "parse" for o in h[2:])]
    r.shuffle(useful)
    out += useful if thorough else useful[:600]
    fs = pool_fields(r, 2000 if thorough else 120)
    jobs = []
    for h in out:
        pick = [r.choice(LEAKY) if r.random() < .6 else r.choice(fs) for _ in range(3)]
        jobs.append((pick, h))
    # two parses in a row of every pair of leaky fields, same objects, with the earlier result read again
    pairs = [(a, b) for a in LEAKY for b in LEAKY]
    r.shuffle(pairs)
    for a, b in pairs if thorough else pairs[:500]:
        jobs.append(([a, b, a], [("lex", 1, 1), ("parse", 1, 1), ("lex", 1, 2), ("parse", 1, 2), ("read", 1, 0), ("parse", 1, 1), ("read", 2, 0), ("tokens", 1, 0), ("tokens", 2, 0), ("lex", 1, 1), ("parse", 1, 3), ("read", 4, 0), ("read", 1, 0)]))
    for a, b in r.sample(pairs, len(pairs) if thorough else 250):       # the list of one becomes that of the other
        jobs.append(([a, b, a], [("lex", 1, 1)] + [("parse", 1, 1)] * r.choice((0, 1, 1)) + [("edit", 1, 2), ("parse", r.choice((1, 2)), 1), ("tokens", 1, 0), ("edit", 1, 3), ("parse", 1, 1), ("lex", 1, 1), ("parse", 1, 2)]))
    # the same list again and again
    for a in LEAKY:
        jobs.append(([a, a, a], [("build", 0, 0), ("lex", 1, 1), ("walk", 1, 0), ("parse", 1, 1), ("parse", 2, 1), ("export", 1, 0), ("parse", 1, 1), ("read", 1, 0), ("tokens", 1, 0), ("read", 3, 0)]))
    return jobs + families(r, 1000 if thorough else 100, 40) + families(r, 40 if thorough else 6, 300) + long_lives(r, 20 if thorough else 3, 60 if thorough else 30), res


# fields that together use every feature, each with a variant of the same shape and other values
SHAPES = [
    ("N0450F350 SID 02N003E DCT 05S006W B9 ABC/N0300F300 STAY1/0130 STAR", "K0830S1130 DET2A 12N013E DCT 15S016E A12 DEF/M082F250 STAY9/2359 DET3B"),
    ("N0450F350 02N003E090040 0230N00315E PNT090040 95N003E C/XYZ/N0450F350F370 9999N99999E361001", "M082F410 12S013W180100 1230S01315W ABC180100 96N004E C/UVW/K0800S1000M1130 9199N18199E362999"),
    ("N0450F350 PNT VFR SOME TEXT IFR ABC/N0200F200 OAT WORDS GAT DEF/N0120VFR", "N0333F333 AAA VFR OTHER IFR XYZ/N0222F222 IFPSTOP THIS IFPSTART UVW/N0199VFR"),
    ("N0120VFR TEXT IFR PNT/N0200F100 %% DCT C/02N003E/M080F350PLUS STAY2/0245 T", "N0340VFR MORE IFR XYZ/K0700F150 abc B9 C/12N013E/N0300A100PLUS STAY3/1212 T"),
    ("PNT N0450F351 GAT A!B STAY1 DCT DCT ABC IFR DEF/N0300F300 GHI IFR", "N0450F350 STAR ABC IFPSTART 1!2 STAY4/ B9 B9 DEF GAT UVW/N0250F250 JKL T"),
]


def preemptions(r, runs, many, both):
    """Schedules in which one thread is interrupted, every `runs` lines, by others that run from
    beginning to end: over all offsets every line is such a place."""
    out = []
    short = [f for f in LEAKY if f.strip() and len(f) < 60]
    for a, b in SHAPES:
        for x, y in ((a, b), (b, a))[:2 if both else 1]:
            for offset in range(1, runs + 1):
                fields, word, grains = [x], [], []
                for k in range(many):
                    word += [1, k + 2]
                    grains += [offset if k == 0 else runs, 0]
                    fields.append(y if (offset + k) % 3 else r.choice(short))
                out.append((fields, tuple(word), tuple(grains), False))
    return out


def schedules(tier):
    """(fields, word, lines per step, by bytecode?) for the thread scheduler."""
    r = random.Random("C19-%s-%d" % (tier, SEED))
    thorough = tier == "thorough"
    w = [("W", '---- MODULE W ----\nEXTENDS MC_Threads\nX == << <<"N0450F350", "PNT", "PNT", "PNT", "PNT", "PNT">> >>\n====\n')]
    words = []
    for n, k in ((2, 6), (3, 4)):
        rows, res = emitted("W", "Texts <- X NThreads = %d Emit = TRUE EmitLen = %d" % (n, k), modules=w, workers=1)
        ws = sorted({tuple(int(x) for x in re.findall(r"\d+", row)) for row in rows})
        words += [(n, x) for x in ws if len(set(x)) > 1]
    fs = [f for f in LEAKY if f.strip()]
    out = []
    count = 3000 if thorough else 260
    r.shuffle(words)
    i = 0
    while len(out) < count:
        n, word = words[i % len(words)]
        i += 1
        pick = [r.choice(fs) for _ in range(n)]
        out.append((pick, word, r.choice((1, 1, 2, 3, 5, 7, 11, 17, 29, 50, 101)), False))
    # the same shapes side by side, one a little ahead of the other
    for a, b in SHAPES:
        for k in range(200 if thorough else 12):
            out.append(([a, b], (1,) + (2, 1) * 200, [1 + 3 * k] + [r.choice((1, 1, 1, 2, 3))] * 400, False))
    for _ in range(count // 5):
        pick = [r.choice(fs) for _ in range(2)]
        out.append((pick, (1, 2), r.choice((1, 3, 8, 25, 77)), True))
    out += preemptions(r, 100, 32, thorough)
    for _ in range(count // 4):
        n = r.choice((2, 2, 3, 4))
        pick = [r.choice(fs) for _ in range(n)]
        out.append((pick, tuple(r.randint(1, n) for _ in range(60)), r.choice((1, 4, 9, 23, 60)), False))
    return out, res


# ------------------------------------------------------------------ C22, C26: output --
def output_fields(prop, tier, situations):
    r = random.Random("%s-%s-%d" % (prop, tier, SEED))
    thorough = tier == "thorough"
    out = list(LEAKY)
    n = 20000 if thorough else 2500
    out += from_cover(r, n // 2, situations) + randoms(r, n // 3)
    odd = ["<", ">", "&", '"', "'", "&amp;", "<!--", "]]>", "<![CDATA[", "&#10;", "\u00c4\u20ac", "\U0001F600", "%s", "%d", "{}", "{0}", "\\n", "!", "&lt;", "--", "<A B='1'>", "a&b<c>d\"e'f", "\u00e9" * 25, "=", "\\", "%", "%%",
           "\u2028", "\ufffd", "\x7f", "\x85", "\u00a0", "]]", "A;B", "&;", "&#60;", "x=\"1\"", "'''", '"""', "</ers_record>", "\x0b", "\x00", "\ud800", "\uffff", "\x1c"]
    for o in odd:
        out += ["N0450F350 %s PNT" % o, "N0450F350 PNT VFR A%sB %s IFR XYZ/N0450F350" % (o, o), o, "N0120VFR %s" % o, "N0450F350 PNT OAT %s %s GAT PNT" % (o, o[::-1]), "N0450F350 A%s" % o + "B" * 30,
                "N0450F350 02N003E/%s %s" % (o, o)]
    for _ in range(n // 4):
        ts = gen.mutate(r, gen.valid_field(r), r.choice((0, 1, 2)))[:60]
        for _ in range(r.randint(1, 3)):
            ts.insert(r.randint(0, len(ts)), r.choice(odd[:32]) + r.choice(("", "X", r.choice(odd[:32]))))
        out.append(gen.layout(r, ts))
    out += longs(r, n // 30)
    seen, uniq = set(), []
    for f in out:
        if f not in seen:
            seen.add(f)
            uniq.append(f)
    return uniq


def completed(prop, tier, fs):
    """[(field, edits)]: every field as parsed, and some completed by the caller (see hist.complete)."""
    r = random.Random("%s-%s-%d-edits" % (prop, tier, SEED))
    names = ["EGLL", "A", "", "<B>", "R&D", "\"Q\"", "\u00c4\u20ac", "LONG NAME WITH BLANKS", "x" * 40]
    def edit():
        i = r.choice((0, 0, -1, -1, 1, 2, -2, 5))
        what = r.choice(("name", "name", "speed", "speedSI", "level", "levelSI", "rules", "break", "more", "stay", "target", "targetSI", "lat", "lon", "valid", "bearing", "distance",
                         "base", "sub", "start", "end", "element", "failure", "derived"))
        if what in ("name", "break", "more", "element", "failure"):
            t = r.choice(names if what in ("break", "more") else [x for x in names if x and " " not in x])
        elif what in ("lat", "lon", "bearing", "distance"):
            t = r.choice(("0", "1", "-1", "-0.25", "51.477500", "-180", "90", "359.994", "0.125", "-12.3456", "20015086.796"))
        elif what in ("speedSI", "levelSI", "targetSI"):
            t = str(r.choice((0, 1, 99990, 232)))
        else:
            t = {"speed": lambda: gen.speed(r), "level": lambda: gen.level(r), "rules": lambda: r.choice(("IFR", "VFR", "OAT", "IFPS", "")), "stay": lambda: gen.hhmm(r), "target": lambda: r.choice((gen.level(r), "PLUS", "")),
                 "valid": lambda: r.choice("YN"), "base": lambda: r.choice(("POINT", "ROUTE", "DCT", "STAR")), "sub": lambda: r.choice(("PRP", "LL_DEG", "OAT")), "start": lambda: str(r.randrange(400)),
                 "end": lambda: str(r.randrange(400)), "derived": lambda: r.choice("IVYZ")}[what]()
        return [r.randrange(90) if what in ("element", "failure") else i, what, t]
    out = [(f, []) for f in fs]
    for _ in range(len(fs) // 4):
        es = [edit() for _ in range(r.choice((1, 1, 2, 3, 8)))]
        if r.random() < .5:
            es.insert(r.choice((0, 0, r.randint(0, len(es)))), [0, "shown", ""])
        out.append((r.choice(fs), es))
    return out
