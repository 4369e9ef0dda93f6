"""U02 reading Unicode set notation."""
import itertools, random, unicodedata
import icu
from .. import chars

PID = "U02"
RULE = ("random set expressions (literal and escaped characters in every escape notation, ranges, strings, nested sets, complements, difference and intersection, "
        "white space between any two tokens) are read; the members are compared with those computed while generating and, for single sets, with ICU's reading; "
        "non-trivial = at least one range, string, nested set or operator")
ANCHORS = ["lib/sldr/UnicodeSets.py"]
REQUIRES = {"read": 3000, "range": 500, "string": 500, "nested": 500, "op:-": 200, "op:&": 200, "icu-agrees": 2000, "sequence": 300, "normalised": 300, "flattened": 1500, "with complements": 2000, "complement operand": 700, "icu-agrees on complements": 700,
            "union written out": 500, "with references": 250}

PLAIN = "abcdefghijklmnopqrstuvwxyz"
SYNTAX = "[]{}\\&-|^$:"


def esc(rng, c, instring=False, multi=True):
    """ one way of writing the character """
    o = ord(c)
    forms = []
    hexok = not unicodedata.category(c) == "Cs"
    if c not in SYNTAX + " \t\n\r" and not (0 < o < 32) and o not in (0x85, 0x2028, 0x2029, 0x200e, 0x200f, 0x7f):
        forms += [c] * 6
    elif c not in " \t\n\r" and o >= 32 or c == " ":
        forms += ["\\" + c] * 3
    if o <= 0xFFFF:
        forms += ["\\u%04x" % o, "\\u%04X" % o]
    if o <= 0xFF:
        forms += ["\\x%02x" % o, "\\x{%x}" % o]
    forms += ["\\U%08x" % o, "\\x{%X}" % o]
    if c in "\a\b\t\n\v\f\r":
        forms += ["\\" + "abtnvfr"["\a\b\t\n\v\f\r".index(c)]] * 2
    if multi:
        forms.append("\\u{%x}" % o)
    return rng.choice(forms)


def ws(rng):
    return rng.choice(["", "", "", "", " ", "  ", "\n", "\t", " \n    "])


def one(rng):
    r = rng.random()
    if r < .45:
        return rng.choice(PLAIN)
    if r < .6:
        return rng.choice(SYNTAX + " ")
    if r < .65:
        return rng.choice("\t\n\v\f\r\a\b")
    if r < .72:
        return chars.anychar(rng)
    return chars.char(rng)


def build(rng, depth, ops=True):
    """ -> text, members, features """
    out, members, feats = ["["], set(), []
    first = True
    for _ in range(rng.choice([0, 1, 1, 2, 3, 4, 6])):
        r = rng.random()
        if r < .5:
            c = one(rng)
            if first and c == "^":
                out.append("\\^")
            else:
                out.append(esc(rng, c))
            members.add(c)
        elif r < .65:
            lo = rng.choice([rng.choice(PLAIN), "0", "A", "\u0915", "\u00e0", "\U00010400", "*"])
            hi = chr(ord(lo) + rng.choice([0, 1, 2, 5, 9]))
            out.append(esc(rng, lo) + ws(rng) + "-" + ws(rng) + esc(rng, hi))
            members.update(chr(x) for x in range(ord(lo), ord(hi) + 1))
            feats.append("range")
        elif r < .82 or depth <= 0:
            s = "".join(one(rng) for _ in range(rng.choice([1, 2, 2, 3, 4])))
            out.append("{" + "".join(esc(rng, c, True) for c in s) + "}")
            members.add(s)
            feats.append("string")
        else:
            t, m, f = build(rng, depth - 1)
            out.append(t)
            members |= m
            feats += f + ["nested"]
            while rng.random() < .6:
                op = rng.choice("-&")
                if rng.random() < .6 and members:       # an operand that has something in common
                    sub = rng.sample(sorted(members), rng.randint(1, len(members)))
                    t2, m2 = "[" + "".join(esc(rng, x) if len(x) == 1 else "{" + "".join(esc(rng, y, True) for y in x) + "}" for x in sub) + "]", set(sub)
                else:
                    t2, m2, f2 = build(rng, depth - 1)
                    feats += f2
                out += [op, t2]
                members = members - m2 if op == "-" else members & m2
                feats.append("op:" + op)
        first = False
    if rng.random() < .06:
        out.append("-")     # a final hyphen is itself; but not straight after a set, where it would be an operator
        if len(out) > 1 and out[-2][-1:] == "]" and out[-2][-2:] != "\\]":
            out.pop()
        else:
            members.add("-")
            feats.append("final-hyphen")
    out.append("]")
    t = "".join(x + ws(rng) for x in out[:-1]) + out[-1]
    return t, members, feats


def build_not(rng, depth):
    """ sets of characters, where any set may be everything but what is in it -> text, members, are they the ones left out, features """
    neg = rng.random() < .4
    total, tneg = set(), False
    out, feats = ["[^" if neg else "["], ["complement"] * neg

    def join(a, an, b, bn):
        return (a & b if bn else a - b) if an else (b - a if bn else a | b), an or bn
    first = True
    for _ in range(rng.choice([1, 1, 2, 3, 4])):
        r = rng.random()
        if r < .45 or depth <= 0:
            c = rng.choice("abcdefgh")
            out.append("\\^" if first and c == "^" else esc(rng, c))
            total, tneg = join(total, tneg, {c}, False)
        elif r < .55:
            lo = rng.choice("abcde")
            hi = chr(ord(lo) + rng.choice([0, 1, 3]))
            out.append(lo + ws(rng) + "-" + ws(rng) + hi)
            total, tneg = join(total, tneg, {chr(x) for x in range(ord(lo), ord(hi) + 1)}, False)
        else:
            t, m, n, f = build_not(rng, depth - 1)
            out.append(t)
            feats += f + ["nested"]
            total, tneg = join(total, tneg, m, n)
            while rng.random() < .5:
                op = rng.choice("-&-&-&|")
                t, m, n, f = build_not(rng, depth - 1)
                out += [op, t]
                feats += f + ["op:" + op] + ["complement operand"] * n
                if op == "|":
                    total, tneg = join(total, tneg, m, n)
                    continue
                # a & b is not (not a or not b); a - b is a & not b
                total, tneg = join(total, not tneg, m, n if op == "-" else not n)
                tneg = not tneg
        first = False
    out.append("]")
    return "".join(x + ws(rng) for x in out[:-1]) + out[-1], total, tneg != neg, feats


def gen_not(rng):
    while True:
        t, m, n, f = build_not(rng, rng.choice([1, 2, 2, 3]))
        if "complement" in f and (m or not n):
            return dict(kind="not", text=t, members=sorted(m), negative=n, feats=f, normal=rng.choice([None, None, "NFD"]))


def gen_single(rng):
    t, m, f = build(rng, rng.choice([0, 1, 2, 3]))
    return dict(kind="single", text=t, members=sorted(m), feats=f)


def gen_seq(rng):
    """ a sequence of sets, characters and strings, as in keyboard transforms """
    parts = []
    for _ in range(rng.randint(1, 5)):
        r = rng.random()
        if r < .4:
            t, m, f = build(rng, 1)
            if not m:
                continue
        elif r < .8:
            c = one(rng)
            t, m = esc(rng, c, multi=False), {c}
            if t in "&|-" or c in "()":
                continue
        else:
            s = "".join(one(rng) for _ in range(rng.randint(1, 3)))
            t, m = "{" + "".join(esc(rng, c, True) for c in s) + "}", {s}
        parts.append([t, sorted(m)])
    return dict(kind="seq", parts=parts, text="".join(p[0] + ws(rng) for p in parts), normal=rng.choice([None, None, "NFD", "NFC"]))


def gen_str(rng):
    s = "".join(one(rng) for _ in range(rng.randint(1, 8)))
    if rng.random() < .3:       # with references to what was found before
        groups = [rng.choice(["", "x", "ab", "\\", "\\1", "\U00010400", "7"]) for _ in range(rng.choice([1, 3, 12]))]
        text, want, last = "", "", False
        for c in s:
            if rng.random() < .4:
                n = rng.randint(1, len(groups))
                text += "\\%d" % n
                want += groups[n - 1]
                last = True
            elif not (last and c.isdigit()):
                text += esc(rng, c, True) if c not in "\t\n\r\x0b\x0c " else c
                want += c
                last = False
        return dict(kind="str", text=text, want=want, groups=groups)
    return dict(kind="str", text="".join(esc(rng, c, True) if c not in "\t\n\r\x0b\x0c " else rng.choice([c, esc(rng, c, True)]) for c in s), want=s)


KINDS = {"single": (gen_single, 12000, 300000), "seq": (gen_seq, 3000, 60000), "str": (gen_str, 2000, 30000), "not": (gen_not, 4000, 100000)}


def check(case, mon):
    from sldr import UnicodeSets as us
    if case["kind"] == "single":
        want = set(case["members"])
        mon.event("read")
        for f in case["feats"]:
            mon.event(f)
        if case["feats"]:
            mon.substantive(case["text"])
        mon.state("features", tuple(sorted(set(case["feats"]))), len(want) > 0)
        try:
            got = set(us.us2list(case["text"]))
        except Exception as e:
            mon.violation("crash", "%r reading %r" % (e, case["text"]))
            return
        mon.expect(got == want, "members", lambda: "missing %r extra %r reading %r" % (sorted(want - got)[:5], sorted(got - want)[:5], case["text"]))
        res = us.parse(case["text"])
        mon.expect(len(res) <= 1 and all(not x.negative and x.asSet() == want for x in res) and (len(res) == 1 or not want), "one-set", lambda: "%d sets from %r" % (len(res), case["text"]))
        try:
            ic = set(str(x) for x in icu.UnicodeSet(case["text"]))
        except icu.ICUError:
            mon.event("icu-cannot")         # \\u{...} and the like
            return
        if ic == want:
            mon.event("icu-agrees")
        else:                               # the generator is wrong, not the library
            mon.skip("icu-reads-differently")
    elif case["kind"] == "not":
        mon.event("with complements")
        for f in case["feats"]:
            mon.event(f)
        mon.substantive(case["text"])
        mon.state("complements", tuple(sorted(set(case["feats"]))), case["negative"], len(case["members"]) > 0)
        pool = "abcdefghijkxyz\u00e9\U00010400"
        want = {c for c in pool if (c in case["members"]) != case["negative"]}
        try:
            res = us.parse(case["text"], normal=case["normal"]) if case["normal"] else us.parse(case["text"])
        except Exception as e:
            mon.violation("crash", "%r reading %r" % (e, case["text"]))
            return
        if not mon.expect(len(res) == 1 or len(res) == 0 and not case["members"], "one-set", lambda: "%d sets from %r" % (len(res), case["text"])):
            return
        got = {c for c in pool if any((c in x) != x.negative for x in res)}
        mon.expect(got == want, "complements", lambda: "missing %r extra %r reading %r" % (sorted(want - got)[:5], sorted(got - want)[:5], case["text"]))
        if "op:|" in case["feats"]:         # not an operator to ICU
            mon.event("union written out")
            return
        try:
            ic = icu.UnicodeSet(case["text"])
        except icu.ICUError:
            return
        if {c for c in pool if c in ic} == want:
            mon.event("icu-agrees on complements")
        else:
            mon.skip("icu-reads-differently")
    elif case["kind"] == "seq":
        mon.event("sequence")
        norm = case["normal"]
        try:
            got = us.parse(case["text"], normal=norm) if norm else us.parse(case["text"])
        except Exception as e:
            mon.violation("crash", "%r reading %r" % (e, case["text"]))
            return
        want = [set(p[1]) for p in case["parts"]]
        if norm:
            mon.event("normalised")
            want = [set(unicodedata.normalize(norm, x) for x in w) for w in want]
        if len(want) > 1:
            mon.substantive(case["text"], norm)
        mon.expect([set(x) for x in got] == want, "sequence", lambda: "%r read as %r" % (case["text"], got))
        size = 1
        for w in want:
            size *= len(w)
        if size > 3000 or any(x[:1] == "\\" and x[1:2].isdigit() for w in want for x in w):
            return                          # too many, or what looks like a reference
        mon.event("flattened")
        flat = sorted(us.flatten(case["text"], normal=norm) if norm else us.flatten(case["text"]))
        prod = sorted("".join(x) for x in itertools.product(*want))
        mon.expect(flat == prod, "strings of a sequence", lambda: "%r gives %r, not %r" % (case["text"], flat[:9], prod[:9]))
    else:
        mon.event("string-escapes")
        got = us.struni(case["text"], case["groups"]) if case.get("groups") else us.struni(case["text"])
        if case.get("groups"):
            mon.event("with references")
        mon.expect(got == case["want"], "unescape", lambda: "%r read as %r, not %r" % (case["text"], got, case["want"]))
