"""C04 sort keys follow the DUCET and order strings consistently."""
import itertools, random
import icu
from .. import collmodel as m, chars

PID = "C04"
RULE = ("the sort keys of random strings over the whole repertoire are compared with an independent reading of the DUCET file and the Unicode Collation Algorithm's "
        "key forming rules (longest match, derived weights, zeros left out), and the comparison, equality, hash, addition and copying of sort keys are checked on "
        "triples of keys; non-trivial = a string of two or more characters of which one is not ASCII")
ANCHORS = ["lib/sldr/collation.py", "lib/sldr/ducet.py"]
REQUIRES = {"keys": 8000, "triples": 8000, "derived": 500, "ignorable": 300, "equal": 500, "contraction": 100, "entries:ducet": 30000, "entries:collation": 8000}

BLOCKS = [(0x20, 0x7F), (0xA0, 0x250), (0x250, 0x2B0), (0x300, 0x370), (0x370, 0x530), (0x5D0, 0x6FF), (0x900, 0xE00), (0xE01, 0xF00), (0x1E00, 0x2000),
          (0x2000, 0x20D0), (0x2C00, 0x2E00), (0x3040, 0x3100), (0x4E00, 0x9FFF), (0x3400, 0x4DB0), (0xA720, 0xA800), (0xE000, 0xE100),
          (0x20000, 0x2A000), (0x1F600, 0x1F640), (0x10400, 0x10450), (0x378, 0x380)]


def rstr(rng):
    d, _ = m.ducet()
    res = ""
    for _ in range(rng.choice([1, 2, 2, 3, 5, 8])):
        r = rng.random()
        if r < .15:
            global _contr
            if _contr is None:
                _contr = sorted(k for k in d if len(k) > 1)
            res += rng.choice(_contr)
        elif r < .3:
            res += rng.choice("abAB´áéz-' ́̈")
        else:
            lo, hi = rng.choice(BLOCKS)
            res += chr(rng.randrange(lo, hi))
    return res


_contr = None


def FIXED():
    return [dict(kind="data")]


def gen(rng):
    base = [rstr(rng) for _ in range(4)]
    # near misses: case, accents, ignorables
    for s in base[:2]:
        base += [s.swapcase(), s + "́", s + "\u200d", s[::-1]]
    return dict(kind="keys", strings=base)


def gen_supp(rng):
    _, clob = m.ducet()
    pool = sorted({c for k in clob for c in k})
    return dict(kind="supplementary", strings=["".join([rng.choice(pool), rng.choice("abc")]) for _ in range(4)])


KINDS = {"keys": (gen, 3000, 60000), "supplementary": (gen_supp, 30, 300)}


def sign(x):
    return (x > 0) - (x < 0)


def judge(s):
    """ Can the key of the string be known in spite of C04's known finding? """
    d, clob = m.ducet()
    bad = {c for k in clob for c in k}
    return not any(c in bad or (ord(c) > 0xFFFF and any(c in k for k in (c,) if c in d)) for c in s)


_coll = None


def check(case, mon):
    global _coll
    from sldr.collation import Collation, readDucet
    from sldr import ducet as du
    if _coll is None:
        _coll = Collation()
    d, clob = m.ducet()
    if case["kind"] == "data":
        # every entry of the file, as read by both readers
        bad = {c for k in clob for c in k}
        for name, got in (("ducet", du.readDucet()), ("collation", readDucet())):
            n = 0
            for k, v in d.items():
                if name == "collation" and any(c in bad or ord(c) > 0xFFFF for c in k):
                    continue
                n += 1
                if [list(x) for x in got.get(k, ())] != [list(x) for x in v]:
                    mon.violation("data:" + name, "%r is read as %r, not %r" % (k, got.get(k), v))
                    return
            mon.event("entries:" + name, n)
        return
    keys = []
    for s in case["strings"]:
        if any(0x17000 <= ord(c) < 0x18B00 or 0xF900 <= ord(c) < 0xFB00 for c in s):
            continue
        k = _coll.getSortKey(s)
        want = m.uca(s)
        ok = judge(s)
        if case["kind"] == "supplementary":
            mon.expect(norm(k) == want, "key:supplementary", lambda: "%r has the key %r, not %r" % (s, k, want))
            continue
        if ok:
            mon.event("keys")
            if any(c not in d for c in s):
                mon.event("derived")
            if any(len(e) > 1 and e in s for e in (s[i:i + 2] for i in range(len(s) - 1)) if e in d):
                mon.event("contraction")
            if not want[0]:
                mon.event("ignorable")
            if len(s) > 1 and not s.isascii():
                mon.substantive(s)
            if not mon.expect(norm(k) == want, "key", lambda: "%r has the key %r, not %r" % (s, k, want)):
                return
        keys.append((s, k))
    # laws of comparison
    for (s, a), (t, b), (u, c) in itertools.islice(itertools.permutations(keys, 3), 60):
        mon.event("triples")
        x = a.cmp(b)
        if not mon.expect(sign(x) == -sign(b.cmp(a)) and abs(x) == abs(b.cmp(a)), "antisymmetric", lambda: "%r, %r: %r and %r" % (s, t, x, b.cmp(a))):
            return
        na, nb = norm(a), norm(b)
        lev = next((n + 1 for n in range(3) if na[n] != nb[n]), 0)
        want = lev * (1 if lev and na[lev - 1] > nb[lev - 1] else -1)
        if not mon.expect(x == want, "level", lambda: "%r against %r is %r, not %r" % (s, t, x, want)):
            return
        ops = ((a < b) == (x < 0), (a > b) == (x > 0), (a <= b) == (x <= 0), (a >= b) == (x >= 0), (a == b) == (x == 0), (a != b) == (x != 0))
        if not mon.expect(all(ops), "operators", lambda: "%r, %r: %r with cmp %r" % (s, t, ops, x)):
            return
        if x == 0:
            mon.event("equal")
            mon.expect(hash(a) == hash(b), "hash", lambda: "equal keys of %r and %r differ in hash" % (s, t))
        if a <= b and b <= c:
            mon.expect(a <= c, "transitive", lambda: "%r <= %r <= %r" % (s, t, u))
    if len(keys) > 1:
        (s, a), (t, b) = keys[0], keys[1]
        before = (norm(a), norm(b), [list(x) for x in a])
        want = [list(x) + list(y) for x, y in zip(a, b)]
        r = a + b
        mon.expect([list(x) for x in r] == want, "add", lambda: "%r + %r is %r" % (a, b, r))
        c = a.copy()
        c += b
        mon.expect(c is not None and [list(x) for x in c] == want, "iadd", lambda: "%r += %r gives %r" % (a, b, c))
        e = a.copy()
        e.append(b)
        mon.expect([list(x) for x in e] == want, "append", lambda: "appending %r to %r gives %r" % (b, a, e))
        for x in (r, c, e):
            for l in (x or []):
                l.append(99)
        mon.expect((norm(a), norm(b), [list(x) for x in a]) == before, "shared", lambda: "changing a sum changes the keys of %r and %r" % (s, t))


def norm(k):
    return [[v for v in l if v != 0] for l in k]
