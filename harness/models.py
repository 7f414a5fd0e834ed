"""The specification side of each check: which models TLC explores, within which bounds."""
from common import Machinery, Tlc
from corpus import tla_set

LONG = "A" * 26
ALL = ["/", "VFR", "IFR", "OAT", "GAT", "IFPSTOP", "IFPSTART", "DCT", "STAY1", "0130", "T", "C", "SID", "STAR", "PNT", "02N003E", "95N003E", "B9", "ABC1A",
       "N0450F350", "N0100VFR", "K0800S1130A045", "M082F350PLUS", "%", LONG]


def seq(ts):
    return "<<" + ", ".join('"%s"' % t for t in ts) + ">>"


class Model:
    """One TLC run."""

    def __init__(self, module, cfg, wrapper="", note="", workers=None, heap="8g", expect=None, least=2):
        self.module, self.cfg, self.wrapper, self.note, self.workers, self.heap = module, cfg, wrapper, note, workers, heap
        self.expect = expect      # an invariant that must be violated: the situation it denies exists
        self.least = 0 if expect else least

    def run(self, timeout=800):
        mods = [("W", "---- MODULE W ----\nEXTENDS %s\n%s\n====\n" % (self.module, self.wrapper))]
        return Tlc("W", self.cfg, modules=mods, timeout=timeout, workers=self.workers, heap=self.heap).run()


def parser(invs, alphabet, prefix, maxlen, props="Progress", note=""):
    cfg = ("SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nCONSTANTS\n Alphabet = %s\n Prefix <- P0\n MaxLen = %d\n Field <- MkToks\nINVARIANTS Inv_Type %s\n%s\n"
           % (tla_set(alphabet), maxlen, invs, "PROPERTY " + props if props else ""))
    return Model("MC_Parser", cfg, "P0 == %s" % seq(prefix), note or "every field over %d elements of length <= %d behind %s" % (len(alphabet), maxlen, " ".join(prefix) or "nothing"))


# alphabet and prefixes that stress each property: (alphabet, prefix, quick length, thorough length)
TAILORED = {
    "C03": [(ALL, [], 3, 3), (["/", "PNT", "VFR", "IFR", "N0450F350", "C", "%"], ["N0450F350", "PNT"], 4, 6)],
    "C04": [(ALL, [], 2, 3), (["PNT", "%", LONG, "STAR", "/", "02N003E", "95N003E", "IFR", "N0450F350", "T"], ["N0450F350"], 4, 5)],
    "C05": [(ALL, ["N0450F350"], 3, 3), (["PNT", "/", "N0450F350", "DCT", "B9", "C", "N0450F350F370", "STAY1", "0130"], ["N0450F350", "PNT"], 4, 5),
            (["VFR", "IFR", "PNT", "/", "N0450F350", "N0100VFR", "OAT", "GAT"], ["N0450F350", "PNT"], 4, 6), (["SID", "STAR", "ABC1A", "PNT", "02N003E", "B9", "C", "T"], ["N0450F350"], 4, 5)],
    "C06": [(ALL, ["N0450F350"], 3, 3), (["PNT", "B9", "VFR", "IFR", "/", "N0450F350", "N0100VFR", "C", "%", "STAR"], ["N0450F350"], 4, 5)],
    "C07": [(ALL, ["N0450F350"], 3, 3), (["PNT", "C", "VFR", "IFR", "/", "N0450F350", "%", "T", "STAR", LONG], ["N0450F350", "PNT"], 4, 5)],
    "C08": [(ALL, ["N0450F350"], 3, 3), (["PNT", "/", "N0100A010", "K0200S0200F300", "N0100VFR", "IFR", "C", "B9", "%"], ["N0450F350", "PNT"], 4, 6)],
    "C10": [(ALL, ["N0450F350"], 3, 3), (["PNT", "/", "VFR", "IFR", "OAT", "GAT", "N0100VFR", "N0450F350", "DCT", "STAR"], ["N0450F350", "PNT"], 4, 5),
            (["PNT", "/", "IFR", "N0100VFR", "N0450F350", "OAT"], ["N0120VFR"], 5, 6),
            (["C", "/", "PNT", "N0450F350F370", "%", "N0450F350", "DCT", "IFR"], ["N0450F350", "VFR", LONG], 4, 5)],
    "C11": [(ALL, [], 3, 3), (["PNT", "/", "IFR", "N0100VFR", "N0450F350", "OAT", "GAT"], ["N0120VFR"], 5, 6),
            (["PNT", "/", "VFR", "IFR", "N0100VFR", "N0450F350", "OAT"], ["N0450F350"], 4, 6)],
    "C12": [(["02N003E", "0230N00315E", "95N003E", "02N190E", "0260N00315E", "0230N00360E", "02N003E361001", "PNT361001", "9001N18001W", "90S180W", "PNT", "DCT", "/", "C"], ["N0450F350"], 3, 4),
            (ALL, ["N0450F350"], 2, 3)],
    "C13": [(["02N003E", "0230N00315E", "95N003E", "PNT", "DCT", "OAT", "GAT", "C", "B9", "%"], ["N0450F350"], 4, 5),
            (["02N003E", "PNT", "C", "/", "N0450F350F370", "DCT"], ["N0450F350", "02N003E"], 5, 6)],
    "C14": [(["C", "/", "PNT", "02N003E", "N0450F350F370", "N0450F350PLUS", "N0300A100", "%", "STAR", "B9"], ["N0450F350", "PNT"], 4, 5),
            (["C", "/", "PNT", "K0200S0200M0300", "N0300A100", "DCT"], ["N0450F350", "C", "/", "PNT", "/"], 5, 6)],
    "C15": [(["STAY1", "/", "0130", "2359", "PNT", "C", "N0450F350", "%", "B9", "OAT", "GAT"], ["N0450F350", "PNT"], 4, 5), (ALL, ["N0450F350"], 3, 3)],
    "C16": [(["SID", "STAR", "ABC1A", "ABCDE12", "PNT", "DCT", "B9", "T", "%", "C", "/"], ["N0450F350"], 4, 5), (["SID", "STAR", "ABC1A", "PNT", "VFR", "%"], [], 5, 6)],
    "C24": [(["VFR", "IFR", "GAT", "PNT", "/", "N0450F350", "N0100VFR", "%", LONG], ["N0450F350", "PNT"], 4, 5), (["OAT", "GAT", "IFPSTART", "IFPSTOP", "PNT", "%", "IFR"], ["N0450F350", "PNT"], 5, 6),
            (["IFR", "PNT", "/", "N0450F350", "N0100VFR", LONG, "W"], ["N0120VFR"], 5, 6)],
    "C25": [(["02N003E090040", "0230N00315E180010", "02N003E361040", "91N181E361001", "PNT090040", "PNT361040", "02N003E", "DCT", "PNT", "OAT", "GAT"], ["N0450F350"], 4, 5)],
}
INVS = {p: "Inv_" + p for p in TAILORED}
INVS["C25"] = "Inv_C12 Inv_C13"


def models(prop, tier):
    thorough = tier == "thorough"
    if prop in TAILORED:
        out = []
        for al, prefix, q, t in TAILORED[prop]:
            out.append(parser(INVS[prop], al, prefix, t if thorough else q, props={"C03": "Progress Terminates", "C05": "Progress StepAgrees"}.get(prop, "Progress")))
        if thorough:
            out.append(parser(INVS[prop], ALL, ["N0450F350", "PNT"], 4, note="every field over all 25 elements of length <= 4 behind N0450F350 PNT"))
        return out
    if prop == "C01":
        return [Model("MC_Lex", "SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nCONSTANTS\n Chars = {65, 66, 32, 47, 10}\n Delims = {32, 47, 10}\n MaxLen = %d\nINVARIANTS Inv_C01 Inv_Prefix Inv_Cuts\nPROPERTY Terminates\n"
                      % (6 if thorough else 5), note="every string over 5 characters, every delimiter set"),
                Model("MC_LexUse", "SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nCONSTANTS Strings <- S Delims <- D MaxOps = %d Emit = FALSE\nINVARIANTS Inv_Use\nPROPERTY Stable\n" % (6 if thorough else 5),
                      "S == << <<65, 45, 66, 32, 65>>, <<66, 47, 65>> >>\nD == << <<32, 45>>, <<32, 47>> >>", note="every history of one tokenizer object")]
    if prop == "C23":
        return [Model("MC_Lex", "SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nCONSTANTS\n Chars = {65, 66, 32, 47, 10}\n Delims = {32, 47, 10}\n MaxLen = %d\nINVARIANTS Inv_C23\n"
                      % (6 if thorough else 5), note="every string over 5 characters, every delimiter set: squeezing blanks keeps the texts")]
    if prop == "C02":
        cfg = ("SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nCONSTANTS\n Chars = {%s}\n MaxLen = %d\n Heads = {%s}\nINVARIANTS Inv_Total Inv_Odd Inv_Word Inv_Keyword Inv_Point Inv_Time Inv_DigitsOnly Inv_Route Inv_Sid Inv_Bearing Inv_Speed\n")
        out = [Model("MC_Class", cfg % ('"A", "N", "T", "0", "2", "6", "/", "a"', 6 if thorough else 5, '"", "NA", "VF", "STAY", "SI", "IFPSTO", "N045", "PT", "STA"'), note="every string over 8 characters behind 9 beginnings")]
        out.append(Model("MC_Class", cfg % ('"F", "3", "A", "M", "S"', 14 if thorough else 13, '"N0450F350", "M082A045"'), note="speed/level tails") if not thorough else
                   Model("MC_Class", cfg % ('"F", "3", "A", "M", "S", "P", "0"', 14, '"N0450F350", "M082A045", "K0800S11"'), note="speed/level tails"))
        out.append(Model("MC_Class", cfg % ('"N", "S", "E", "W", "0", "9"', 9 if thorough else 8, '"02", "02N0", "PNT09"'), note="lat/long and bearing tails"))
        return out
    if prop == "C09":
        return [Model("MC_Num", "SPECIFICATION Spec\nCHECK_DEADLOCK TRUE\nCONSTANTS MaxValue = %d MachLevels = {%s}\nINVARIANTS Inv_C09 Inv_Close Inv_Monotone\n" % (9998 if thorough else 2500, ", ".join(str(x) for x in ([0, 152, 5486, 10990, 11010, 99990] + ([1, 10, 3048, 10668, 10973, 11000, 15000] + list(range(20, 12000, 487)) if thorough else [])))),
                      note="every value of every unit")]
    if prop == "C17":
        cfg = "SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nCONSTANTS\n Alphabet = %s\n Garbage = {\"%%\", \"%s\"}\n Prefix <- P0\n MaxLen = %d\nINVARIANTS Inv_C17\n"
        al = ["/", "VFR", "IFR", "OAT", "GAT", "DCT", "STAY1", "0130", "T", "C", "SID", "STAR", "PNT", "02N003E", "B9", "ABC1A", "N0450F350", "N0100VFR", "K0800S1130A045"]
        return [Model("MC_Relations", cfg % (tla_set(al), LONG, 5 if thorough else 4), "P0 == " + seq(["N0450F350"])),
                Model("MC_Relations", cfg % (tla_set(["/", "PNT", "C", "N0450F350", "02N003E", "DCT", "K0800S1130A045"]), LONG, 7 if thorough else 6), "P0 == " + seq(["N0450F350"])),
                Model("MC_Relations", cfg % (tla_set(["/", "PNT", "VFR", "IFR", "N0450F350", "STAR", "STAY1", "0130"]), LONG, 8 if thorough else 7), "P0 == " + seq(["N0450F350", "PNT"]))]
    if prop == "C28":
        cfg = "SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nCONSTANTS\n Alphabet = %s\n Garbage = {}\n Prefix <- P0\n MaxLen = %d\nINVARIANTS %s\n"
        n = 1 if thorough else 0
        out = [Model("MC_Relations", cfg % (tla_set(al), len(pre) + q + n, "Inv_C28"), "P0 == " + seq(pre),
                     note="every field over %d elements of length <= %d behind %s, against the same without its last element" % (len(al), q + n, " ".join(pre) or "nothing"))
               for al, pre, q in [(ALL, ["N0450F350"], 3), (ALL, [], 2),
                                  (["/", "PNT", "C", "N0450F350", "K0800S1130A045", "STAY1", "0130"], ["N0450F350"], 6),
                                  (["PNT", "IFR", "/", "N0450F350", "VFR", "N0100VFR", "STAR", "%"], ["N0120VFR", "PNT"], 5),
                                  (["PNT", "02N003E", "OAT", "GAT", "IFPSTOP", "IFPSTART", "DCT", "%"], ["N0450F350", "PNT"], 5)]]
        return out + [Model("MC_Relations", cfg % (tla_set(["PNT", "IFR", "/", "C"]), 6, "Inv_Nearer"), "P0 == " + seq(["N0450F350", "PNT"]),
                            note="a reach of one token would not do", expect="Inv_Nearer")]
    if prop == "C18":
        tx = '<< <<"N0120VFR", "TEXT", "IFR", "PNT", "/", "N0450F350">>, <<"N0450F350", "C", "/", "PNT", "/", "N0450F350F370", "%%">>, <<>> >>'
        return [Model("MC_Session", "SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nCONSTANTS Texts <- X NFields = 3 MaxOps = %d MaxLists = 3 Emit = FALSE\nINVARIANTS Inv_C18\nPROPERTY Stable\n" % (6 if thorough else 5), "X == " + tx)]
    if prop == "C19":
        tx = '<< <<"N0120VFR", "IFR", "PNT", "/", "N0450F350">>, <<"N0450F350", "C", "/", "PNT", "/", "N0450F350F370", "%%">>, <<>>, <<"N0450F350", "PNT", "VFR", "TEXT">> >>'
        return [Model("MC_Threads", "SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nCONSTANTS Texts <- X NThreads = %d Emit = FALSE EmitLen = 8\nINVARIANTS Inv_C19\nPROPERTIES Frame AllFinish\n" % (4 if thorough else 3), "X == " + tx)]
    if prop == "C20":
        names = '"append","create","insert","truncate","first","last","next","prev","current","peekNext","peekPrev","at","count","list"'
        return [Model("MC_Cursor", "SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nCONSTANTS MaxOps = %d Args <- X Names = {%s} Emit = FALSE\nINVARIANTS Inv_Distinct Inv_Cursor Inv_Mirror Inv_PeekIsMove\nPROPERTY Quiet\n" % (5 if thorough else 4, names),
                      "X == {%s}" % ("-1, 0, 1" if thorough else "-1, 0, 1, 2"))]
    if prop == "C21":
        cfg = "SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nCONSTANTS MaxOps = %d Indices <- X Names = {%s} Emit = FALSE\nINVARIANTS Inv_Count Inv_Order Inv_NoSharing Inv_Bounds\nPROPERTY Frame\n"
        return [Model("MC_Store", cfg % (3, '"append","create","ades","error","derived","renew","first","last","before","count","errors","all","allErr","rules","at"'), "X == {-2,-1,0,1,2,3}"),
                Model("MC_Store", cfg % (6 if thorough else 5, '"append","ades","error","renew"'), "X == {-2,-1,0,1,2,3,4,5,6}")]
    if prop == "C27":
        cfg = "SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nCONSTANTS MaxOps = %d Emit = FALSE Few = %s\nINVARIANTS Inv_C27\nPROPERTY Frame\n"
        return [Model("MC_Record", cfg % (2, "FALSE"), note="every pair of operations"), Model("MC_Record", cfg % (4 if thorough else 3, "TRUE"), note="every history over six values")]
    if prop == "C22":
        return [Model("MC_Xml", "SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nINVARIANTS Inv_Good Inv_Bad\n"),
                Model("MC_Escape", "SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nCONSTANTS Chars = {38,60,62,34,39,65,10,13,32,59,35} MaxLen = %d\nINVARIANTS Inv_C22 Inv_Quoted\n" % (5 if thorough else 4))]
    if prop == "C26":
        return [Model("MC_Listing", "SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nINVARIANTS Inv_Good Inv_Bad\n")]
    raise Machinery("no model for " + prop)
