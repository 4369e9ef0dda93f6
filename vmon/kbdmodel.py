""" A model of a keyboard working on all the text typed so far.
A rule is dict(src=[[chars]...], before=[[chars]...] or None, after=..., to=str or None, error=bool, codes=[...]) """
import itertools


class Ambiguous(Exception):
    pass


def strings(seq):
    return ["".join(x) for x in itertools.product(*(seq or []))]


class Transform:
    def __init__(self, rules):
        self.table = {}
        for r in rules:
            for f in strings(r["src"]):
                for b in strings(r.get("before")):
                    for a in strings(r.get("after")):
                        self.table.setdefault(f, []).append((b, a, r))
        self.longest = max([len(f) for f in self.table] or [0])
        self.prefixes = {f[:i] for f in self.table for i in range(1, len(f))}

    def at(self, text, pos):
        """ -> the rule with the longest match at the position, its length """
        for n in range(min(self.longest, len(text) - pos), 0, -1):
            found = [(b, a, r) for b, a, r in self.table.get(text[pos:pos + n], ()) if text[:pos].endswith(b) and text.startswith(a, pos + n)]
            inctx = [x for x in found if x[0] or x[1]]
            if len(inctx) > 1 or (not inctx and len(found) > 1):
                raise Ambiguous()
            if found:
                return (inctx or found)[0][2], n
        return None, 0

    def apply(self, text, start=0, hide=False):
        """ -> text replaced or None on error, how many characters are waiting, log """
        out, pos, log = text[:start], start, []
        while pos < len(text):
            if hide and text[pos:] in self.prefixes:
                log.append(("hidden", len(text) - pos))
                break
            r, n = self.at(text, pos)
            if r is None:
                out += text[pos]
                pos += 1
                continue
            if r.get("error"):
                return None, 0, log
            log.append(("context" if r.get("before") or r.get("after") else "rule", n))
            out += r["to"]
            pos += n
        return out, len(text) - pos, log

    def codes(self, text, start=0):
        """ -> (order, tertiary_base, tertiary, prebase) of each character """
        pos, res = start, []
        while pos < len(text):
            r, n = self.at(text, pos)
            if r is None:
                res.append((0, False, 0, False))
                pos += 1
                continue
            for i in range(n):
                res.append(tuple(x[min(i, len(x) - 1)] for x in r["codes"]))
            pos += n
        return res


CIRCLE = "\u25cc"


def reorder(trans, text, start=0):
    """ -> text, log """
    codes = trans.codes(text, start)
    out, log = text[:start], []
    chars = list(zip(text[start:], codes))
    while chars and chars[0][1][0] != 0 and not chars[0][1][3]:
        out += chars.pop(0)[0]
        log.append("stray")
    # runs of prebase* base other*
    runs = []
    for ch, c in chars:
        order, tbase, ter, pre = c
        isbase = not pre and order == 0 and (ter == 0 or not runs)
        if not runs or ((isbase or pre) and runs[-1]["body"]):
            runs.append(dict(items=[], body=False))
        runs[-1]["items"].append((ch, c))
        if not pre:
            runs[-1]["body"] = True
    for r in runs:
        keyed = []
        anchor = (0, -1)
        hasbase = False
        for i, (ch, (order, tbase, ter, pre)) in enumerate(r["items"]):
            if ter and i:
                key = (anchor[0], anchor[1], ter, i)
                log.append("tertiary")
            else:
                key = (order, i, 0, i)
                if order == 0 or tbase:
                    anchor = (order, i)
                hasbase |= order == 0
            keyed.append((key, ch))
        if not hasbase:
            keyed.append(((0, -2, 0, 0), CIRCLE))
            log.append("circle")
        done = [c for k, c in sorted(keyed, key=lambda x: x[0])]
        if done != [c for c, _ in r["items"]]:
            log.append("moved")
        if any(c[3] for _, c in r["items"]):
            log.append("prebase")
        out += "".join(done)
    log += ["runs"] * (len(runs) > 1)
    return out, log


class Model:
    def __init__(self, maps, simple=None, reorders=None, final=None, backspace=None, hide=False):
        self.maps = maps        # {(key, frozenset(modifiers)): text}
        self.simple, self.reorders, self.final = (Transform(x) if x is not None else None for x in (simple, reorders, final))
        self.backspace = Transform([dict(r, src=[[x[::-1] for x in s] for s in r["src"]][::-1]) for r in backspace]) if backspace is not None else None
        self.hide = hide
        self.begin()

    def begin(self):
        self.kept, self.typed, self.shown, self.pending = "", "", "", 0
        self.log = []

    def text(self, typed):
        t, start = self.kept + typed, len(self.kept)
        self.log, self.pending = [], 0
        if self.simple is not None:
            t, self.pending, log = self.simple.apply(t, start, self.hide)
            self.log += log
            if t is None:
                return None
        if self.reorders is not None:
            t, log = reorder(self.reorders, t, start)
            self.log += log
        if self.final is not None:
            t, _, log = self.final.apply(t, start)
            self.log += [("final:" + k, n) for k, n in log]
        return t

    def key(self, k, mods):
        """ -> text shown, was it an error """
        if k == "BKSP":
            rev = self.shown[::-1]
            r, n = self.backspace.at(rev, 0) if self.backspace is not None else (None, 1)
            if r is None:
                left = rev[1:]
                self.log = ["backspace"]
            elif r.get("error"):
                self.log = ["backspace refused"]
                return self.shown, True
            else:
                left = r["to"][::-1] + rev[n:]
                self.log = [("backspace rule", n)]
            self.kept = self.shown = left[::-1]
            self.typed = ""
            return self.shown, False
        typed = self.typed + self.maps.get((k, frozenset(mods)), "")
        t = self.text(typed)
        if t is None:
            self.log = ["refused"]
            return self.shown, True
        self.typed, self.shown = typed, t
        return t, False
