"""Tokenise the abstract text produced by the analysed writer and compare it with
reference lines, path by path (optional content is decided by the shared oracles)."""
from pyabs import strs
from pyabs.values import *

from .tree import Dl, L, LAlt, LStar, M, show


class BadText(Exception):
    pass


# ------------------------------------------------------------------ persistent sequences
class Cell:
    __slots__ = ("head", "tail", "_or")

    def __init__(self, head, tail):
        self.head, self.tail = head, tail
        self._or = None


def cells(items, tail=None):
    for x in reversed(list(items)):
        tail = Cell(x, tail)
    return tail


def oracles_in(x, acc):
    """oracles a (reference or actual) item depends on"""
    if isinstance(x, LAlt):
        acc.add(x.o)
        for b in x.br.values():
            for y in b:
                oracles_in(y, acc)
    elif isinstance(x, LStar):
        acc.add(("nonempty", base_tag(x.tag)))
        for y in x.items:
            oracles_in(y, acc)
    elif isinstance(x, (Alt, Choice)):
        acc.add(x.o)
        for b in x.br.values():
            for y in (b if isinstance(b, tuple) else (b,)):
                oracles_in(y, acc)
    elif isinstance(x, Star):
        if x.tag is not None:
            acc.add(("nonempty", base_tag(x.tag)))
        for y in x.items:
            oracles_in(y, acc)
    elif isinstance(x, AStr):
        for s in x.segs:
            oracles_in(s, acc)
    elif isinstance(x, AltSeg):
        acc.add(x.o)
        for b in x.br.values():
            for y in b:
                oracles_in(y, acc)
    elif isinstance(x, JoinSeg):
        for y in x.items:
            oracles_in(y, acc)
    elif isinstance(x, StarSeg):
        for y in x.segs:
            oracles_in(y, acc)
    elif isinstance(x, Atom):
        acc.add(("empty", x.name))
        acc.add(("truthy", x.name))


def orc(c):
    # iterative, cached from the end
    chain = []
    while c is not None and c._or is None:
        chain.append(c)
        c = c.tail
    base = c._or if c is not None else frozenset()
    for x in reversed(chain):
        acc = set()
        oracles_in(x.head, acc)
        base = base | acc if acc - base else base
        x._or = base
    return base


# ------------------------------------------------------------------ splitting text into lines
def text_items(v):
    """writer result -> flat list of line items (str | AStr | Choice | Alt | Star)"""
    if isinstance(v, str):
        return v.split("\n")
    if isinstance(v, Choice):
        return [Alt(v.o, {c: tuple(text_items(b)) for c, b in v.br.items()})]
    if not isinstance(v, AStr):
        raise BadText("result is not text: %r" % (v,))
    out = []
    cur = []      # segments of the current line

    def flush():
        out.append(strs.mk(cur[:]))
        cur.clear()

    for s in v.segs:
        if isinstance(s, str):
            ps = s.split("\n")
            for i, p in enumerate(ps):
                if i:
                    flush()
                if p:
                    cur.append(p)
        elif isinstance(s, JoinSeg):
            if s.sep == "\n":
                its = list(s.items)
                if cur:
                    raise BadText("text glued to a block of lines")
                out.extend(join_items(its))
                out.append(None)   # the join's last line may be continued
                continue
            raise BadText("join with separator %r" % (s.sep,))
        elif isinstance(s, AltSeg):
            sub = {c: strs.mk(b) for c, b in s.br.items()}
            if any(has_newline(x) for x in sub.values()):
                its = {c: tuple(line_block(x)) for c, x in sub.items()}
                if cur:
                    flush()
                out.append(Alt(s.o, its))
                continue
            cur.append(s)
        elif isinstance(s, StarSeg):
            if cur:
                flush()
            out.append(Star(tuple(line_block(strs.mk(s.segs)))))
        else:
            cur.append(s)
    if cur:
        flush()
    return [x for x in out if x is not None]


def has_newline(x):
    return any(nl_seg(s) for s in strs.segs_of(x))


def nl_seg(s):
    if isinstance(s, str):
        return "\n" in s
    if isinstance(s, JoinSeg):
        return "\n" in s.sep or any(nl_item(i) for i in s.items)
    if isinstance(s, StarSeg):
        return True
    if isinstance(s, AltSeg):
        return any(nl_seg(y) for b in s.br.values() for y in b)
    return False


def nl_item(i):
    if isinstance(i, (Alt, Choice)):
        return any(nl_item(y) for b in i.br.values() for y in (b if isinstance(b, tuple) else (b,)))
    if isinstance(i, Star):
        return True
    if isinstance(i, (str, AStr)):
        return has_newline(i)
    return True


def flat_join(js, pc):
    """segments of a one-line join, or ('need', oracle, choices)"""
    its = list(js.items)
    out = []
    while its:
        i = its.pop(0)
        if isinstance(i, (Alt, Choice)):
            if i.o not in pc:
                return ("need", i.o, tuple(i.br))
            b = i.br[pc[i.o]]
            its[0:0] = b if isinstance(i, Alt) else [b]
            continue
        if not isinstance(i, (str, AStr)):
            raise BadText("join of %r" % (i,))
        if out:
            out.append(js.sep)
        out.extend(strs.segs_of(i) or [""])
    return out


def line_block(x):
    return text_items(x)


def join_items(its):
    out = []
    for i in its:
        if isinstance(i, Alt):
            out.append(Alt(i.o, {c: tuple(join_items(b)) for c, b in i.br.items()}))
        elif isinstance(i, Star):
            out.append(Star(tuple(join_items(i.items)), i.tag))
        elif isinstance(i, Choice):
            out.append(Alt(i.o, {c: tuple(join_items([b])) for c, b in i.br.items()}))
        elif isinstance(i, (str, AStr)):
            if has_newline(i):
                out.extend(text_items(i))
            else:
                out.append(i)
        else:
            raise BadText("line is not text: %r" % (i,))
    return out


# ------------------------------------------------------------------ one definite line
def is_ws(s):
    return isinstance(s, Atom) and s.kind == "ws"


def trim(segs):
    segs = list(segs)
    while segs and (is_ws(segs[0]) or isinstance(segs[0], str) and not segs[0].strip(" \t\r")):
        segs.pop(0)
    if segs and isinstance(segs[0], str):
        segs[0] = segs[0].lstrip(" \t\r")
    while segs and (is_ws(segs[-1]) or isinstance(segs[-1], str) and not segs[-1].strip(" \t\r")):
        segs.pop()
    if segs and isinstance(segs[-1], str):
        segs[-1] = segs[-1].rstrip(" \t\r")
    return tuple(segs)


def cut(segs, ch):
    """split at the first literal occurrence of ch"""
    for i, s in enumerate(segs):
        if isinstance(s, str) and ch in s:
            k = s.index(ch)
            return list(segs[:i]) + ([s[:k]] if k else []), ([s[k + 1:]] if s[k + 1:] else []) + list(segs[i + 1:])
    return None


def rcut(segs, ch):
    for i in range(len(segs) - 1, -1, -1):
        s = segs[i]
        if isinstance(s, str) and ch in s:
            k = s.rindex(ch)
            return list(segs[:i]) + ([s[:k]] if k else []), ([s[k + 1:]] if s[k + 1:] else []) + list(segs[i + 1:])
    return None


def columns(segs):
    cols, cur = [], []

    def flush():
        if cur:
            cols.append(strs.segs_of(strs.mk(cur)))
            cur.clear()
    for i, s in enumerate(segs):
        if isinstance(s, str):
            parts = []
            tok = ""
            for chh in s:
                if chh in " \t":
                    if tok:
                        cur.append(tok)
                        tok = ""
                    flush()
                else:
                    tok += chh
            if tok:
                cur.append(tok)
        elif is_ws(s):
            if s.minlen >= 1:
                flush()
            elif cur and i + 1 < len(segs):
                nxt = segs[i + 1]
                if isinstance(nxt, str) and nxt[0] in " \t":
                    flush()
                else:
                    cur.append(s)      # may glue two columns
        else:
            cur.append(s)
    flush()
    return cols


class Parsed:
    """a definite output line, interpretable as any of the reference forms"""

    def __init__(self, v):
        self.v = v
        segs = trim(strs.segs_of(v))
        self.segs = segs
        self.blank = not segs
        self.key = self.val = self.unit = None
        if self.blank:
            return
        if isinstance(segs[0], str) and segs[0].startswith("COMMENT") and not segs[0][7:8].isalnum() \
                and segs[0][7:8] not in ("_",):
            rest = trim((segs[0][7:],) + tuple(segs[1:]))
            if rest and isinstance(rest[0], str) and rest[0].startswith("="):
                rest = trim((rest[0][1:],) + tuple(rest[1:]))
            self.key, self.val = ("COMMENT",), rest
            return
        kv = cut(segs, "=")
        if kv is None:
            return
        self.key = trim(kv[0])
        rest = trim(kv[1])
        self.val = rest
        if rest and isinstance(rest[-1], str) and rest[-1].endswith("]"):
            u = rcut(list(rest[:-1]) + [rest[-1][:-1]], "[")
            if u is not None:
                self.val, self.unit = trim(u[0]), trim(u[1])

    def __repr__(self):
        return show(self.segs)


def unwrap_upper(segs):
    out = []
    for s in segs:
        if isinstance(s, str):
            if out and isinstance(out[-1], str):
                out[-1] += s.upper()
            elif s:
                out.append(s.upper())
            continue
        n = s
        if isinstance(s, Atom) and isinstance(s.name, tuple) and s.name and s.name[0] in ("upper",):
            n = s.name[1]
            out.append(("atom", n))
        elif isinstance(s, Atom):
            out.append(("atom", s.name))
        else:
            out.append(s)
    return out


PATH = [{}]


def gone(x):
    """empty text on this path"""
    if x == "":
        return True
    return isinstance(x, Atom) and x.minlen == 0 and (PATH[0].get(("truthy", x.name)) is False or PATH[0].get(("empty", x.name)) is True)


def eqsegs(a, b):
    a, b = [x for x in a if not gone(x)], [x for x in b if not gone(x)]
    return len(a) == len(b) and all(
        (x == y) if isinstance(x, str) or isinstance(y, str) else
        (isinstance(x, Atom) and isinstance(y, Atom) and x.name == y.name) for x, y in zip(a, b))


def line_diff(exp, act):
    """None or (aspect, text)"""
    if isinstance(exp, M):
        if act.segs != (exp.text,):
            return "marker", "expected %s, found %r" % (exp, act)
        return None
    if isinstance(exp, L):
        if act.key is None or unwrap_upper(act.key) != unwrap_upper(exp.key):
            return "key", "expected line %r, found %r" % (exp, act)
        if any(isinstance(s, str) and s != s.upper() for s in act.key):
            return "key", "keyword not in upper case: %r" % (act,)
        if exp.key == ("COMMENT",):
            v = tuple(act.val)
            if not eqsegs(v, exp.val):
                return "comment", "expected %r, found %r" % (exp, act)
            return None
        if exp.unit is None and act.unit is not None or exp.unit is not None and act.unit is None:
            return "unit", "expected %r, found %r" % (exp, act)
        if exp.unit is not None and not eqsegs(exp.unit, act.unit):
            return "unit", "expected unit [%s] in %r" % (show(exp.unit), act)
        if not eqsegs(exp.val, act.val):
            return "value", "expected value %s in %r" % (show(exp.val), act)
        return None
    if isinstance(exp, Dl):
        if exp.key is not None:
            if act.key is None or unwrap_upper(act.key) != unwrap_upper(exp.key):
                return "key", "expected line %r, found %r" % (exp, act)
            cols = columns(act.val)
        else:
            if act.key is not None:
                return "columns", "expected a data line, found %r" % (act,)
            cols = columns(act.segs)
        if len(cols) != len(exp.cols) or not all(eqsegs(x, y) for x, y in zip(cols, exp.cols)):
            return "columns", "expected columns %s, found %s" % (
                " | ".join(show(c) for c in exp.cols), " | ".join(show(c) for c in cols))
        return None
    raise AssertionError(exp)


# ------------------------------------------------------------------ comparison
class Mismatch(Exception):
    pass


class Enough(Exception):
    """the texts have little in common"""


class Cmp:
    def __init__(self, eng, origin=None, limit=200000):
        self.eng = eng
        self.diffs = []          # (aspect, exp, act, message, origin)
        self.lines = 0
        self.forks = 0
        self.memo = set()
        self.seen = set()
        self.origin = origin or {}
        self.limit = limit
        self.spl = {}
        self.n = 0

    def add(self, aspect, exp, act, msg):
        k = (aspect, repr(exp), repr(act))
        if k in self.seen:
            return
        self.seen.add(k)
        self.diffs.append((aspect, exp, act, msg))
        if len(self.diffs) >= 40:
            raise Enough()

    def splice(self, h, ch, c):
        k = (id(c), ch)
        r = self.spl.get(k)
        if r is None:
            r = self.spl[k] = (cells(h.br[ch] if ch != "#star" else h.items, c.tail if ch != "#star" else None), c)
        return r[0]

    def resolve(self, c, pc):
        """make the head of a chain a definite item, or return ('need', oracle, choices)"""
        while c is not None:
            h = c.head
            if isinstance(h, (LAlt, Alt)):
                if h.o in pc:
                    if pc[h.o] not in h.br:
                        return None
                    c = self.splice(h, pc[h.o], c)
                    continue
                return ("need", h.o, tuple(h.br))
            if isinstance(h, (LStar, Star)):
                if h.tag is not None:
                    k = ("nonempty", base_tag(h.tag))
                    if pc.get(k) is False:
                        c = c.tail
                        continue
                if not h.items:
                    c = c.tail
                    continue
                return c
            if isinstance(h, AStr):
                for s in h.segs:
                    if isinstance(s, AltSeg):
                        if s.o in pc:
                            out = []
                            for t in h.segs:
                                if isinstance(t, AltSeg) and t.o in pc:
                                    out.extend(t.br[pc[t.o]])
                                else:
                                    out.append(t)
                            c = Cell(strs.mk(out), c.tail)
                            break
                        return ("need", s.o, tuple(s.br))
                else:
                    js = [s for s in h.segs if isinstance(s, JoinSeg) and not nl_seg(s)]
                    if js:
                        out = []
                        for s in h.segs:
                            if s is js[0]:
                                f = flat_join(s, pc)
                                if isinstance(f, tuple):
                                    return f
                                out.extend(f)
                            else:
                                out.append(s)
                        c = Cell(strs.mk(out), c.tail)
                        continue
                    if any(isinstance(s, (JoinSeg, StarSeg)) for s in h.segs):
                        raise BadText("unbounded text inside a line: %r" % (h,))
                    p = Parsed(h)
                    if p.blank:
                        c = c.tail
                        continue
                    return Cell(p, c.tail)
                continue
            if isinstance(h, str):
                p = Parsed(h)
                if p.blank:
                    c = c.tail
                    continue
                return Cell(p, c.tail)
            return c
        return None

    def run(self, e, a, pc=None):
        try:
            self._cmp(cells(e), cells(a), dict(pc or {}))
        except Enough:
            pass
        except Budget:
            if not self.diffs:
                raise
        return self.diffs

    def _cmp(self, e, a, pc):
        while True:
            self.n += 1
            if self.n > self.limit:
                raise Budget("comparison budget exhausted")
            key = (id(e), id(a), frozenset((k, v) for k, v in pc.items() if k in (orc(e) | orc(a))))
            if key in self.memo:
                return
            self.memo.add(key)
            self._keep = getattr(self, "_keep", [])
            self._keep.append((e, a))
            e2 = self.resolve(e, pc)
            a2 = self.resolve(a, pc)
            need = None
            if isinstance(e2, tuple):
                need = e2
            elif isinstance(a2, tuple):
                need = a2
            if need is not None:
                # identical optional blocks on both sides compare branch by branch
                for c in need[2]:
                    self.forks += 1
                    self._cmp(e, a, {**pc, need[1]: c})
                return
            e, a = e2, a2
            if e is None and a is None:
                return
            if isinstance(e and e.head, LStar) and isinstance(a and a.head, Star):
                es, as_ = e.head, a.head
                sub = {**pc}
                if es.tag is not None:
                    sub[("nonempty", es.tag)] = True
                if isinstance(as_.tag, Part):
                    nx = self.resolve(a.tail, pc) if a.tail is not None else None
                    if as_.tag.n is not None and isinstance(nx, Cell) and isinstance(nx.head, Star) and isinstance(nx.head.tag, Part) and \
                            nx.head.tag.how.startswith("only from") and nx.head.tag[1:] == as_.tag[1:]:
                        e, a = e.tail, nx.tail
                        continue
                    self.add("missing", es.items, as_.items, "repeated content %r is written %s" % (es.items[:2], as_.tag.how))
                self._cmp(self.splice(es, '#star', e), self.splice(as_, '#star', a), sub)
                e, a = e.tail, a.tail
                continue
            if isinstance(e and e.head, LStar) or isinstance(a and a.head, Star):
                st = e.head if isinstance(e and e.head, LStar) else a.head
                k = ("nonempty", base_tag(st.tag))
                if st.tag is not None and k not in pc:
                    for c in (True, False):
                        self._cmp(e, a, {**pc, k: c})
                    return
                if isinstance(e and e.head, LStar):
                    self.add("missing", st.items, a and a.head, "repeated content %r is not written (found %r)" % (
                        st.items[:2], a and a.head))
                    e = e.tail
                else:
                    self.add("extra", e and e.head, None, "unexpected repeated content %r" % (st.items[:2],))
                    a = a.tail
                continue
            if e is None or a is None:
                x = e or a
                if e is not None:
                    self.add("missing", e.head, None, "line %r is not written" % (e.head,))
                    e = e.tail
                else:
                    self.add("extra", None, a.head, "unexpected line %r" % (a.head,))
                    a = a.tail
                continue
            self.lines += 1
            PATH[0] = pc
            d = line_diff(e.head, a.head)
            if d is None:
                e, a = e.tail, a.tail
                continue
            # resynchronise: does the expected line appear later / is the actual one expected later?
            r = self._resync(e, a, pc)
            if r == "act-extra":
                self.add("extra", e.head, a.head, "unexpected line %r before %r" % (a.head, e.head))
                a = a.tail
            elif r == "exp-missing":
                self.add("missing", e.head, a.head, "line %r is not written (found %r)" % (e.head, a.head))
                e = e.tail
            else:
                self.add(d[0], e.head, a.head, d[1])
                e, a = e.tail, a.tail

    def _resync(self, e, a, pc):
        def first(c, n):
            out = []
            while c is not None and n:
                c = self.resolve(c, pc)
                if c is None or isinstance(c, tuple):
                    break
                out.append(c.head)
                c = c.tail
                n -= 1
            return out
        es, as_ = first(e, 4), first(a, 4)

        def match(x, y):
            if isinstance(x, (LStar, Star)) or isinstance(y, (LStar, Star)):
                return isinstance(x, LStar) and isinstance(y, Star)
            return line_diff(x, y) is None
        for k in (1, 2, 3):
            if k < len(es) and match(es[k], as_[0]):
                return "exp-missing"
            if k < len(as_) and match(es[0], as_[k]):
                return "act-extra"
        if isinstance(es[0], (L, Dl)) and as_[0].key is not None and es[0].key is not None and len(es) > 1 and \
                isinstance(es[1], L) and as_[0].key and unwrap_upper(as_[0].key) == unwrap_upper(es[1].key):
            return "exp-missing"
        return None
