"""Regular expressions.

On constant text the host's `re` decides.  On abstract text the pattern is run on representatives: each
opaque piece stands for a run of one class of characters (characters no test of the pattern tells apart);
deviations put characters of the other classes at its start, middle and end, or vary its length.  Spans
are mapped back to pieces.  A deviation that moves no span needs no case distinction; the others become
branches, with the facts they rest on (which characters occur, which parts are empty) put into the path
condition."""
import re
import time
from re import _constants as C
from re import _parser as P

from .values import *
from .values import ALLWS
from . import lib, strs

ALPHABET = [chr(i) for i in (list(range(97, 123)) + list(range(65, 91)) + list(range(48, 58)))] + \
    [chr(i) for i in range(1, 128) if not chr(i).isalnum()] + ["\xe9", "\xa0", "\x85", "\u2028", "\u3000"]
NUMS = ("15.25", "1.5", "-1.5", "1.5E-07", "1.5e-07", "7", "+1.5", "-.5", "12345", "1.E+10", "1e5")
FORMS = {}             # characters of a kind of text -> instances of it
MAXOPT = 6
CACHE, ABOUT = {}, {}


def run(eng, name, p, flags, s, a, count, maxsplit):
    from . import ext
    if isinstance(s, Top):
        return Top("re")
    if not isinstance(s, (str, bytes, AStr)):
        eng.raise_("TypeError", "expected string or bytes-like object")
    if a and name not in ("split", "sub", "subn"):
        raise Unsupported("re.%s from a position" % name)
    if name == "split" and a:
        maxsplit = a[0]
    if not isinstance(count, int) or not isinstance(maxsplit, int):
        raise Unsupported("re with an abstract count")
    try:
        c = re.compile(p, flags)
    except re.error as x:
        eng.raise_("re.error", str(x))
    b = isinstance(s, bytes) or (isinstance(s, AStr) and s.b)
    if b != isinstance(p, bytes):
        eng.raise_("TypeError", "cannot use a %s pattern on a %s object" % (("string", "bytes-like") if b else ("bytes", "string")))
    limit = {"match": 1, "fullmatch": 1, "search": 1, "split": maxsplit, "sub": count, "subn": count}.get(name, 0) or None
    if name in ("sub", "subn", "split") and (count if name != "split" else maxsplit) < 0:
        limit = 0
    spans = lambda text: matches(c, name, text, limit)
    if isinstance(s, AStr):
        q = p if isinstance(p, str) else p.decode("latin-1")
        t = P.parse(q, flags) if not flags & re.X else ()
        if len(t) and all(op is C.LITERAL for op, av in t) and not c.flags & re.I:
            # a fixed text
            q = "".join(chr(av) for op, av in t)
            if name == "split" and maxsplit >= 0:
                return eng.mklist(strs.split(eng, s, q, maxsplit or -1))
            if name == "sub" and isinstance(a[0], (str, bytes)) and not (b"\\" if b else "\\") in a[0]:
                return strs.replace(eng, s, q, a[0] if isinstance(a[0], str) else a[0].decode("latin-1"), count or -1)
        ms, cut = abstract(eng, c, name, s, spans, limit)
    else:
        ms = spans(s)
        cut = lambda i, j: s[i:j]
    if name in ("match", "fullmatch", "search"):
        return ext.mkmatch(eng, HostM(c, ms[0], cut, b)) if ms else None
    if name == "finditer":
        return eng.mklist([ext.mkmatch(eng, HostM(c, m, cut, b)) for m in ms])
    g = lambda m, i: cut(*m[i]) if m[i][0] >= 0 else None
    if name == "findall":
        e = b"" if b else ""
        one = lambda m, i: e if m[i][0] < 0 else cut(*m[i])
        return eng.mklist([one(m, 0) if len(m) == 1 else one(m, 1) if len(m) == 2 else Tup([one(m, i) for i in range(1, len(m))]) for m in ms])
    out, at = [], 0
    if name == "split":
        for m in ms:
            out.append(cut(at, m[0][0]))
            out += [g(m, i) for i in range(1, len(m))]
            at = m[0][1]
        return eng.mklist(out + [cut(at, None)])
    if name in ("sub", "subn"):
        repl = eng.force(a[0])
        if isinstance(repl, (str, bytes)):
            t = P.parse_template(repl, c)
            t = t if isinstance(t, list) else list(t)
        elif isinstance(repl, AStr):
            raise Unsupported("re.sub with abstract replacement")
        for m in ms:
            out.append(cut(at, m[0][0]))
            if isinstance(repl, (str, bytes)):
                for x in t:
                    if isinstance(x, int):
                        x = g(m, x)
                    out.append(x if x is not None else b"" if b else "")
            else:
                r = eng.force(eng.call(repl, [ext.mkmatch(eng, HostM(c, m, cut, b))], {}))
                if not isinstance(r, (str, bytes, AStr)):
                    raise Unsupported("re.sub with a function giving %s" % type(r).__name__)
                out.append(r)
            at = m[0][1]
        out.append(cut(at, None))
        segs = []
        for x in out:
            segs.extend(strs.segs_of(x))
        r = strs.mk(segs, b)
        return r if name == "sub" else Tup([r, len(ms)])
    raise Unsupported("re." + name)


def matches(c, name, text, limit):
    if limit == 0:
        return ()
    if name in ("match", "fullmatch", "search"):
        m = getattr(c, name)(text)
        it = [m] if m else []
    else:
        it = c.finditer(text)
    out = []
    for m in it:
        out.append(tuple(m.span(i) for i in range(c.groups + 1)))
        if limit and len(out) >= limit:
            break
    return tuple(out)


class HostM:
    """a match: texts and positions of the groups"""
    __slots__ = ("groups", "names", "spans")

    def __init__(self, c, m, cut, b=False):
        at = lambda i: -1 if i < 0 else strs.length_of(strs.segs_of(cut(0, i)))
        self.groups = tuple(cut(*x) if x[0] >= 0 else None for x in m)
        self.names = {k: self.groups[v] for k, v in c.groupindex.items()}
        self.spans = [(at(x), at(y)) for x, y in m]

    def __eq__(self, o):
        return isinstance(o, HostM) and self.groups == o.groups and self.names == o.names and self.spans == o.spans

    def __hash__(self):
        return hash(repr(self.groups))


# ------------------------------------------------------------------ classes of characters
def leaves(t, out):
    for op, av in t:
        if op in (C.LITERAL, C.NOT_LITERAL):
            out.add((C.LITERAL, av))
        elif op is C.IN:
            for x in av:
                if x[0] is not C.NEGATE:
                    out.add(x)
        elif op is C.ANY:
            out.add((C.LITERAL, 10))
        elif op is C.AT:
            if av in (C.AT_BOUNDARY, C.AT_NON_BOUNDARY):
                out.add((C.CATEGORY, C.CATEGORY_WORD))
            else:
                out.add((C.LITERAL, 10))
        else:
            walk(av, out)
    return out


def walk(x, out):
    if isinstance(x, P.SubPattern):
        leaves(x, out)
    elif isinstance(x, (tuple, list)):
        for y in x:
            walk(y, out)


def inert_free(x):
    """does the pattern accept characters only by naming them (no dot, no complement)"""
    if isinstance(x, P.SubPattern):
        return all(inert_free((op, av)) for op, av in x)
    if isinstance(x, (tuple, list)):
        if any(y in (C.ANY, C.NOT_LITERAL, C.NEGATE, C.CATEGORY_NOT_DIGIT, C.CATEGORY_NOT_SPACE, C.CATEGORY_NOT_WORD, C.ASSERT, C.ASSERT_NOT) for y in x
               if not isinstance(y, (tuple, list, P.SubPattern))):
            return False
        return all(inert_free(y) for y in x)
    return True


def tests(c):
    p = c.pattern if isinstance(c.pattern, str) else c.pattern.decode("latin-1")
    ls = leaves(P.parse(p, c.flags & ~re.UNICODE if isinstance(c.pattern, bytes) else c.flags), set())
    ic = bool(c.flags & re.I)

    def test(l):
        op, av = l
        if op is C.LITERAL:
            return lambda ch: ord(ch) == av or (ic and ch.lower() == chr(av).lower())
        if op is C.RANGE:
            return lambda ch: av[0] <= ord(ch) <= av[1] or (ic and any(av[0] <= ord(x) <= av[1] for x in (ch.lower(), ch.upper()) if len(x) == 1))
        if op is C.CATEGORY:
            if av in (C.CATEGORY_DIGIT, C.CATEGORY_NOT_DIGIT):
                return str.isdigit
            if av in (C.CATEGORY_SPACE, C.CATEGORY_NOT_SPACE):
                return str.isspace
            return lambda ch: ch.isalnum() or ch == "_"
        raise Unsupported("regular expression item %s" % (op,))
    return [test(l) for l in ls], inert_free(P.parse(p, c.flags & ~re.UNICODE if isinstance(c.pattern, bytes) else c.flags))


def sample(t, mode, groups):
    """a text the pattern accepts"""
    out = []
    for op, av in t:
        if op is C.LITERAL:
            out.append(chr(av))
        elif op is C.NOT_LITERAL:
            out.append("x" if av != 120 else "y")
        elif op is C.ANY:
            out.append("x")
        elif op is C.IN:
            neg = av and av[0][0] is C.NEGATE
            hit = lambda ch: any(in_item(x, ch) for x in av if x[0] is not C.NEGATE) != neg
            ch = next((ch for ch in "xA1 " if hit(ch)), None) or next((ch for ch in ALPHABET if hit(ch)), None)
            if ch is None:
                raise LookupError
            out.append(ch)
        elif op in (C.MAX_REPEAT, C.MIN_REPEAT, C.POSSESSIVE_REPEAT):
            lo, hi, s = av
            out.append(sample(s, mode, groups) * (lo if mode == 0 else max(lo, min(hi, mode))))
        elif op is C.SUBPATTERN:
            w = sample(av[-1], mode, groups)
            groups[av[0]] = w
            out.append(w)
        elif op is C.ATOMIC_GROUP:
            out.append(sample(av, mode, groups))
        elif op is C.BRANCH:
            bs = av[1]
            out.append(sample(bs[mode % len(bs)], mode, groups))
        elif op is C.GROUPREF:
            out.append(groups.get(av, ""))
    return "".join(out)


def in_item(x, ch):
    op, av = x
    if op is C.LITERAL:
        return ord(ch) == av
    if op is C.RANGE:
        return av[0] <= ord(ch) <= av[1]
    if op is C.CATEGORY:
        f = {C.CATEGORY_DIGIT: str.isdigit, C.CATEGORY_SPACE: str.isspace, C.CATEGORY_WORD: lambda y: y.isalnum() or y == "_"}
        g = {C.CATEGORY_NOT_DIGIT: str.isdigit, C.CATEGORY_NOT_SPACE: str.isspace, C.CATEGORY_NOT_WORD: lambda y: y.isalnum() or y == "_"}
        return f[av](ch) if av in f else not g[av](ch)
    return False


def about(c):
    k = (c.pattern, c.flags)
    if k not in ABOUT:
        ABOUT[k] = tests(c) + (samples(c),)
    return ABOUT[k]


def samples(c):
    p = c.pattern if isinstance(c.pattern, str) else c.pattern.decode("latin-1")
    t = P.parse(p, c.flags & ~re.UNICODE if isinstance(c.pattern, bytes) else c.flags)
    d = re.compile(p, c.flags & ~re.UNICODE if isinstance(c.pattern, bytes) else c.flags)
    out = []
    for mode in (0, 1, 2):
        try:
            w = sample(t, mode, {})
        except LookupError:
            continue
        if len(w) > 1 and w not in out and d.search(w):
            out.append(w)
    return out


# ------------------------------------------------------------------ representatives
class Shape:
    """pieces: (segment, representative); facts: what must hold for it; chars: characters it shows"""
    __slots__ = ("pieces", "facts", "chars", "text")

    def __init__(self, pieces, facts=(), chars=()):
        self.pieces, self.facts, self.chars = pieces, tuple(facts), frozenset(chars)
        self.text = "".join(h for s, h in pieces)


def parts(s, c):
    """the atom taken apart at the first c, named as in strs"""
    b = Atom(("before", c, s.name), s.only, s.forbid | frozenset(c), 1 if c in s.firstforbid else 0, None, False, s.kind, s.info,
             s.firstforbid | (ALLWS if s.edge else frozenset()))
    a = Atom(("after", c, s.name), s.only, s.forbid, 0, None, False, s.kind, s.info, frozenset(), s.lastforbid | (ALLWS if s.edge else frozenset()))
    strs.ORIGIN[b.name] = s
    return b, a


def members(eng, s):
    """the texts of an enumeration's value"""
    if isinstance(s.info, tuple) and s.info[0] == "enumvalue" and s.name == ("enumvalue", s.info[2]):
        vs = [eng.get(m.a).data["_value_"] for m in eng.get(s.info[1].a).data["#members"]]
        return [v for v in vs if isinstance(v, str)]
    return None


def shapes(s, ts, values=None, named=False, words=()):
    """representatives of an atom; the first is the usual one"""
    fits = lambda h: (not h or (s.mayfirst(h[0]) and s.maylast(h[-1]))) and all(s.may(x) for x in h) \
        and s.minlen <= len(h) and (s.maxlen is None or len(h) <= s.maxlen)
    forms = values or (NUMS if s.kind == "num" else FORMS.get(s.only))
    if forms:
        hs = [h for h in forms if fits(h)]
        if hs:
            return [Shape([(s, h)]) for h in hs] + ([Shape([], [(("empty", s.name), True)])] if s.minlen == 0 else [])
    sig = {}
    for ch in ALPHABET if s.only is None else [x for x in ALPHABET if x in s.only] + sorted(x for x in s.only if x not in ALPHABET):
        if s.may(ch):
            sig.setdefault(tuple(bool(t(ch)) for t in ts), []).append(ch)
    for ch in sorted(ALLWS):
        if s.may(ch):
            l = sig.setdefault(tuple(bool(t(ch)) for t in ts), [])
            if ch not in l:
                l.append(ch)
    gens = list(sig.values())
    if not gens:
        return [Shape([], [(("empty", s.name), True)])]
    n = max(3, s.minlen)
    if s.maxlen is not None:
        n = min(n, s.maxlen)
    edge = lambda c: s.mayfirst(c) and s.maylast(c)
    gens.sort(key=lambda l: not any(edge(c) for c in l))
    g = next((c for c in gens[0] if edge(c)), gens[0][0])
    out = [Shape([(s, g * n)], (), g)] if edge(g) else []
    for k in () if named and not any(t(g) for t in ts) else (1, 2, 6):
        if k != n and fits(g * k):
            out.append(Shape([(s, g * k)], (), g))
    if s.minlen == 0:
        out.append(Shape([], [(("empty", s.name), True)]))
    others = []
    for l in gens:
        cs = [c for c in l if c != g]
        if l is gens[0]:
            continue
        # the plain blank and another, the plain letter and another
        others.append(cs[:1] if len(cs) < 2 or not cs[0].isspace() and " " not in cs else [c for c in (" ", "\t") if c in cs] or cs[:2])
    if len(s.forbid) < 60 and s.maxlen is None:
        for cs in others:
            for c in cs:
                b, a = parts(s, c)
                has = (("contains", s.name, c), True)
                nb, na = (("empty", b.name), False), (("empty", a.name), False)
                eb, ea = (("empty", b.name), True), (("empty", a.name), True)
                gg = g * 2
                if edge(g):
                    out.append(Shape([(b, gg), (c, c), (a, gg)], [has, nb, na], g + c))
                    out.append(Shape([(b, gg), (c, c), (a, c + gg)], [has, nb, na], g + c))
                    out.append(Shape([(b, gg), (c, c), (a, gg + c + gg)], [has, nb, na], g + c))
                    if s.mayfirst(c):
                        out.append(Shape([(c, c), (a, gg)], [has, eb, na], g + c))
                    if s.maylast(c):
                        out.append(Shape([(b, gg), (c, c)], [has, nb, ea], g + c))
                if edge(c) and s.minlen <= 1:
                    out.append(Shape([(c, c)], [has, eb, ea], c))
                if edge(c):
                    out.append(Shape([(c, c), (a, c)], [has, eb, na], c))
                if edge(g):
                    for c2 in [x for l in others for x in l[:1] if x != c]:
                        out.append(Shape([(b, gg), (c, c), (a, gg + c2 + gg)], [has, nb, na], g + c + c2))
                        if s.mayfirst(c) and s.maylast(c2):
                            out.append(Shape([(c, c), (a, gg + c2)], [has, eb, na], g + c + c2))
    if s.maxlen is None:
        # a text the pattern accepts, in the middle of it, alone, or at its end
        for w in words:
            if not all(s.may(x) for x in w):
                continue
            b = Atom(("before", w, s.name), s.only, s.forbid, 0, None, False, s.kind, s.info, s.firstforbid | (ALLWS if s.edge else frozenset()))
            a = Atom(("after", w, s.name), s.only, s.forbid, 0, None, False, s.kind, s.info, frozenset(), s.lastforbid | (ALLWS if s.edge else frozenset()))
            strs.ORIGIN[b.name] = s
            has = (("contains", s.name, w), True)
            fact = lambda x, y: [has, (("empty", b.name), x), (("empty", a.name), y)]
            if edge(g):
                out.append(Shape([(b, g * 2), (w, w), (a, g * 2)], fact(False, False), g + w))
                if s.maylast(w[-1]):
                    out.append(Shape([(b, g * 2), (w, w)], fact(False, True), g + w))
            if s.mayfirst(w[0]) and s.maylast(w[-1]) and s.minlen <= len(w):
                out.append(Shape([(w, w)], fact(True, True), w))
    if not out:
        # any text that fits
        cs = [c for l in gens for c in l]
        x, z = [c for c in cs if s.mayfirst(c)][:1], [c for c in cs if s.maylast(c)][:1]
        if not x or not z:
            return [Shape([], [(("empty", s.name), True)])]
        h = x[0] + g * max(0, n - 2) + z[0] if n > 1 else x[0]
        out = [Shape([(s, h)], (), h)]
    return out


def consistent(eng, n, x):
    """may the atom look like this on the path"""
    for o, w in x.facts:
        if eng.pc.get(o, w) is not w:
            return False
    if not x.text and eng.pc.get(("empty", n)) is False:
        return False
    for o, w in eng.pc.items():
        if w is True and type(o) is tuple and len(o) == 3 and o[0] == "contains" and o[1] == n and len(o[2]) == 1 and o[2] not in x.chars:
            return False
    return True


class Text:
    """a choice of representatives and the way back from positions to pieces"""

    def __init__(self, segs, choice, b):
        self.b = b
        self.rows = []           # start, end, whole segment, pieces [(start, end, seg, host)]
        at = 0
        hs = []
        for s in segs:
            if isinstance(s, str):
                ps = [(at, at + len(s), s, s)]
                hs.append(s)
                self.rows.append((at, at + len(s), None, ps))
                at += len(s)
                continue
            sh = choice[s.name]
            ps, st = [], at
            for x, h in sh.pieces:
                ps.append((at, at + len(h), x, h))
                at += len(h)
            hs.append(sh.text)
            self.rows.append((st, at, s, ps))
        self.text = "".join(hs)

    def cut(self, i, j):
        """the text between two positions"""
        if j is None:
            j = len(self.text)
        out = []
        for st, en, whole, ps in self.rows:
            if en <= i and st < i or st >= j and en > j or en == st and not i < st < j:
                continue
            if st == en:
                continue
            if whole is not None and i <= st and en <= j:
                out.append(whole)
                continue
            for a, b, x, h in ps:
                lo, hi = max(a, i), min(b, j)
                if lo >= hi:
                    continue
                if isinstance(x, str):
                    out.append(x[lo - a:hi - a])
                elif (lo, hi) == (a, b):
                    out.append(x)
                else:
                    t = h[lo - a:hi - a]
                    first = x.firstforbid | (ALLWS if x.edge else frozenset()) if lo == a else frozenset()
                    last = x.lastforbid | (ALLWS if x.edge else frozenset()) if hi == b else frozenset()
                    if not t[0].isspace():
                        first |= ALLWS
                    if not t[-1].isspace():
                        last |= ALLWS
                    fb = x.forbid | (ALLWS if not any(y.isspace() for y in t) else frozenset())
                    out.append(Atom(("repart", h, lo - a, hi - a, x.name), x.only, fb, 1, None, False, "text", x.info, first, last))
        return strs.mk(out, self.b)


def abstract(eng, c, name, v, spans, limit):
    b = isinstance(v, AStr) and v.b
    segs = strs.simple(eng, v, "re." + name)
    if b:
        spans0 = spans
        spans = lambda t: spans0(t.encode("latin-1", "replace"))
    ak = lambda s: s if isinstance(s, str) else (s.name, s.only, s.forbid, s.minlen, s.maxlen, s.edge, s.kind, s.firstforbid, s.lastforbid)
    ck = (c.pattern, c.flags, name, limit, b, tuple(ak(s) for s in segs))
    if ck not in CACHE:
        if len(CACHE) > 4000:
            CACHE.clear()
        CACHE[ck] = study(eng, c, segs, spans, b)
    r0, m0, base, alts, same, names = CACHE[ck]
    if not alts:
        return m0, base.cut
    o = ("regex", c.pattern, c.flags, name, repr(segs))
    if o not in eng.pc:
        opts = {i for i, y in alts.items() if not y[4] and consistent(eng, y[0], y[1])}
        usual_ok = all(any(consistent(eng, n, x) for x in same[n]) for n in names)
        if len(opts) > MAXOPT:
            # some of every piece
            by = {}
            for i in sorted(opts, key=lambda i: (names.index(i[0]), i[1])):
                by.setdefault(i[0], []).append(i)
            pick, k = [], 0
            while len(pick) < MAXOPT:
                for l in by.values():
                    if k < len(l) and len(pick) < MAXOPT:
                        pick.append(l[k])
                k += 1
            opts = pick
        opts = [None] * usual_ok + sorted(opts, key=lambda i: (names.index(i[0]), i[1]))
        if not opts:
            opts = [i for i, y in alts.items() if consistent(eng, y[0], y[1])][:1]
            if not opts:
                raise Unsupported("regular expression %r on text not covered" % (c.pattern,))
        i = opts[0] if len(opts) == 1 else eng.choose(o, tuple(opts))
    else:
        i = eng.pc[o]
    if i is None:
        facts = {}
        for n, x, t, m, _ in alts.values():
            for f, w in x.facts:
                if f[0] == "contains" and f[1] == n and not any(f[2] in y.chars for y in same[n]) or f == ("empty", n):
                    facts.setdefault(f, not w)
        if len(facts) <= 6:
            for f, w in facts.items():
                assume(eng, f, w)
        return m0, base.cut
    n, x, t, m, _ = alts[i]
    for f, w in x.facts:
        assume(eng, f, w)
    return m, t.cut


def study(eng, c, segs, spans, b):
    """the usual outcome and the deviations that have another"""
    ts, named, words = about(c)
    atoms = {}
    for s in segs:
        if isinstance(s, Atom):
            atoms.setdefault(s.name, s)
    sh = {n: shapes(s, ts, members(eng, s), named, words) for n, s in atoms.items()}
    usual = {n: x[0] for n, x in sh.items()}
    base = Text(segs, usual, b)

    def outcome(t):
        ms, at, out = spans(t.text), 0, []
        for m in ms:
            out.append(t.cut(at, m[0][0]))
            out.extend(t.cut(*x) if x[0] >= 0 else None for x in m)
            at = m[0][1]
        return tuple(out) + (t.cut(at, None),), ms
    r0, m0 = outcome(base)
    # texts of very many pieces: one of each sort
    names = list(atoms)
    if len(names) > 24:
        seen, names = set(), []
        for i, s in enumerate(segs):
            if isinstance(s, Atom):
                x, y = segs[i - 1] if i else "", segs[i + 1] if i + 1 < len(segs) else ""
                k = (s.only, s.forbid, s.minlen, s.edge, s.kind, s.firstforbid, s.lastforbid, x[-3:] if isinstance(x, str) else None,
                     y[:3] if isinstance(y, str) else None)
                if k not in seen:
                    seen.add(k)
                    names.append(s.name)
    alts, same = {}, {}
    for n in names:
        got = {r0}
        same[n] = [sh[n][0]]
        for k, x in enumerate(sh[n][1:]):
            if eng.deadline and time.time() > eng.deadline:
                raise Budget("regular expression on a long text")
            t = Text(segs, dict(usual, **{}) | {n: x}, b)
            r, m = outcome(t)
            q0 = r0
            if not x.text:
                drop = lambda q: strs.mk([y for y in strs.segs_of(q) if not (isinstance(y, Atom) and y.name == n)], b) if q is not None else None
                q0 = tuple(drop(q) for q in r0)
            if r == q0:
                same[n].append(x)
            else:
                alts[n, k] = (n, x, t, m, r in got)
                got.add(r)
    return r0, m0, base, alts, same, names


def assume(eng, o, want):
    if o not in eng.pc and eng.choose(o, (False, True)) is not want:
        raise Infeasible()
    if o in eng.pc and eng.pc[o] is not want:
        raise Infeasible()
