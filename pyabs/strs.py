"""Transfer functions for abstract strings.

A value is a host str/bytes (constant) or AStr(segs).  All functions take the engine
as first argument because undecidable questions are turned into oracles.
"""
import re

from .values import (ALLWS, ALin, AltSeg, AStr, Atom, JoinSeg, StarSeg, Unsupported, AInt,
                     NeedChoice, ws_atom)


def segs_of(v):
    if isinstance(v, str):
        return (v,) if v else ()
    if isinstance(v, bytes):
        t = v.decode("utf-8", "surrogateescape")
        return (t,) if t else ()
    return v.segs


def isb(v):
    return isinstance(v, bytes) or (isinstance(v, AStr) and v.b)


def mk(segs, b=False):
    out = []
    for s in segs:
        if isinstance(s, str):
            if not s:
                continue
            if out and isinstance(out[-1], str):
                out[-1] += s
            else:
                out.append(s)
        else:
            out.append(s)
    if not out:
        return b"" if b else ""
    if len(out) == 1 and isinstance(out[0], str):
        return out[0].encode("utf-8", "surrogateescape") if b else out[0]
    if len(out) > 2:
        i = 0
        while i + 2 < len(out):
            x, m, y = out[i:i + 3]
            if isinstance(x, Atom) and isinstance(y, Atom) and isinstance(m, str) and type(x.name) is tuple and len(x.name) == 3 \
                    and x.name[0] in ("before", "rbefore") and m == x.name[1] \
                    and y.name == ("after" if x.name[0] == "before" else "rafter",) + x.name[1:] and x.name in ORIGIN:
                # a text taken apart and put together again
                out[i:i + 3] = [ORIGIN[x.name]]
                i = max(0, i - 2)
                continue
            i += 1
    return AStr(out, b)


ORIGIN = {}
DIGITS = frozenset("0123456789")


def norm(eng, v):
    """resolve AltSegs / possibly-empty atoms whose oracle is fixed on this path"""
    if isinstance(v, (str, bytes)):
        return list(segs_of(v))
    out = []
    for s in v.segs:
        if isinstance(s, AltSeg):
            c = eng.choose(s.o, s.br)
            out.extend(norm(eng, AStr(s.br[c])))
        elif isinstance(s, Atom) and s.minlen == 0 and eng.pc.get(("empty", s.name)) is True:
            continue
        else:
            out.append(s)
    r = []
    for s in out:
        if isinstance(s, str) and r and isinstance(r[-1], str):
            r[-1] += s
        elif s != "":
            r.append(s)
    return r


def simple(eng, v, what):
    segs = norm(eng, v)
    for s in segs:
        if isinstance(s, (JoinSeg, StarSeg)):
            raise Unsupported("string operation %s on text of unbounded length" % what)
    return segs


def maybe_empty(eng, a):
    """True if atom is empty on this path (decides through an oracle if open)"""
    if a.minlen > 0:
        return False
    return eng.choose(("empty", a.name), (False, True))


# ---------------------------------------------------------------- strip
def strip(eng, v, chars=None, left=True, right=True):
    segs = simple(eng, v, "strip")
    cs = ALLWS if chars is None else frozenset(chars)
    if left:
        segs = _lstrip(eng, segs, cs)
    if right:
        segs = _rstrip(eng, segs, cs)
    return mk(segs, isb(v))


def _lstrip(eng, segs, cs):
    segs = list(segs)
    while segs:
        s = segs[0]
        if isinstance(s, str):
            t = s.lstrip("".join(cs))
            if t:
                segs[0] = t
                return segs
            segs.pop(0)
            continue
        if s.only is not None and (s.only - s.forbid) <= cs:
            segs.pop(0)
            continue
        if not any(s.mayfirst(c) for c in cs):
            if s.minlen == 0:
                rest = _lstrip(eng, segs[1:], cs)
                if rest == segs[1:]:
                    return segs
                if maybe_empty(eng, s):
                    segs.pop(0)
                    continue
            return segs
        # may begin with stripped characters
        n = Atom(("lstrip", "".join(sorted(cs)), s.name), s.only, s.forbid, int(s.kind == "num" and s.minlen > 0 and not cs & DIGITS), s.maxlen, s.edge, s.kind,
                 s.info, s.firstforbid | cs, s.lastforbid)
        segs[0] = n
        if len(segs) > 1 and _lstrip(eng, segs[1:], cs) != segs[1:]:
            if maybe_empty(eng, n):
                segs.pop(0)
                continue
        return segs
    return segs


def _rstrip(eng, segs, cs):
    segs = list(segs)
    while segs:
        s = segs[-1]
        if isinstance(s, str):
            t = s.rstrip("".join(cs))
            if t:
                segs[-1] = t
                return segs
            segs.pop()
            continue
        if s.only is not None and (s.only - s.forbid) <= cs:
            segs.pop()
            continue
        if not any(s.maylast(c) for c in cs):
            if s.minlen == 0:
                rest = _rstrip(eng, segs[:-1], cs)
                if rest == segs[:-1]:
                    return segs
                if maybe_empty(eng, s):
                    segs.pop()
                    continue
            return segs
        n = Atom(("rstrip", "".join(sorted(cs)), s.name), s.only, s.forbid, int(s.kind == "num" and s.minlen > 0 and not cs & DIGITS), s.maxlen, s.edge, s.kind,
                 s.info, s.firstforbid, s.lastforbid | cs)
        segs[-1] = n
        if len(segs) > 1 and _rstrip(eng, segs[:-1], cs) != segs[:-1]:
            if maybe_empty(eng, n):
                segs.pop()
                continue
        return segs
    return segs


# ---------------------------------------------------------------- search
def sub_depth(name, sub):
    """how many occurrences of sub have been cut off in front (behind) of this part of a text;
    99: the part lies before the first (behind the last) occurrence"""
    n = 0
    while isinstance(name, tuple) and name:
        if len(name) > 2 and name[1] == sub:
            if name[0] in ("before", "rafter"):
                return 99
            if name[0] in ("after", "rbefore"):
                n += 1
        name = name[-1]
    return n


MAXOCC = 2


def _occurrences(eng, segs, sub, limit=None, reverse=False):
    """positions (segindex, offset) of non-overlapping occurrences of literal `sub`,
    scanning left to right (or right to left).  Atoms that may contain `sub` are
    split on demand: (segs, positions) is returned with the split segs."""
    segs = list(segs)
    if reverse:
        rs = [s[::-1] if isinstance(s, str) else s for s in reversed(segs)]
        raise Unsupported("reverse occurrences")
    pos = []
    i = 0
    while i < len(segs):
        s = segs[i]
        if isinstance(s, str):
            st = 0
            while True:
                k = s.find(sub, st)
                if k < 0:
                    break
                pos.append((i, k))
                st = k + len(sub)
                if limit is not None and len(pos) >= limit:
                    return segs, pos
            # match spanning into a following atom
            if len(sub) > 1 and i + 1 < len(segs) and isinstance(segs[i + 1], Atom):
                x = segs[i + 1]
                for n in range(len(sub) - 1, 0, -1):
                    t = sub[n:]
                    if s.endswith(sub[:n]) and len(s) - n >= st and x.mayfirst(t[0]) and all(x.may(c) for c in t) \
                            and (x.maxlen is None or x.maxlen >= len(t)) and eng.choose(("starts", x.name, t), (False, True)):
                        tail = Atom(("tail", len(t), x.name), x.only, x.forbid, max(0, x.minlen - len(t)),
                                    None if x.maxlen is None else x.maxlen - len(t), False, x.kind, x.info,
                                    frozenset(), x.lastforbid | (ALLWS if x.edge else frozenset()))
                        segs[i:i + 2] = [s + t, tail]
                        pos.append((i, len(s) - n))
                        if limit is not None and len(pos) >= limit:
                            return segs, pos
                        break
        else:
            if all(s.may(c) for c in sub) and (s.maxlen is None or s.maxlen >= len(sub)) and sub_depth(s.name, sub) < (1 if sub == NEL else MAXOCC):
                if eng.choose(("contains", s.name, sub), (False, True)):
                    b = Atom(("before", sub, s.name), s.only, s.forbid | (frozenset(sub) if len(sub) == 1 else frozenset()),
                             0, None, False, s.kind, s.info, s.firstforbid if not s.edge else s.firstforbid | ALLWS)
                    a = Atom(("after", sub, s.name), s.only, s.forbid, 0, None, False, s.kind, s.info,
                             frozenset(), s.lastforbid if not s.edge else s.lastforbid | ALLWS)
                    if sub in "".join(s.firstforbid):
                        b = Atom(b.name, b.only, b.forbid, 1, None, False, b.kind, b.info, b.firstforbid)
                    ORIGIN[b.name] = s
                    segs[i:i + 1] = [b, sub, a]
                    pos.append((i + 1, 0))
                    if limit is not None and len(pos) >= limit:
                        return segs, pos
                    i += 2
                    continue
            # match spanning from the atom into the literal behind it
            if len(sub) > 1 and isinstance(s, Atom) and i + 1 < len(segs) and isinstance(segs[i + 1], str):
                for n in range(len(sub) - 1, 0, -1):
                    t = sub[:n]
                    if s.maylast(t[-1]) and all(s.may(c) for c in t) and segs[i + 1].startswith(sub[n:]) \
                            and (s.maxlen is None or s.maxlen >= n) and eng.choose(("ends", s.name, t), (False, True)):
                        head = Atom(("butlast", n, s.name), s.only, s.forbid, max(0, s.minlen - n),
                                    None if s.maxlen is None else s.maxlen - n, False, s.kind, s.info,
                                    s.firstforbid | (ALLWS if s.edge else frozenset()))
                        segs[i:i + 2] = [head, t + segs[i + 1]]
                        break
        i += 1
    return segs, pos


def _last_occurrence(eng, segs, sub):
    segs = list(segs)
    for i in range(len(segs) - 1, -1, -1):
        s = segs[i]
        if isinstance(s, str):
            k = s.rfind(sub)
            if k >= 0:
                return segs, (i, k)
        elif all(s.may(c) for c in sub) and (s.maxlen is None or s.maxlen >= len(sub)) and sub_depth(s.name, sub) < 99:
            if eng.choose(("contains", s.name, sub), (False, True)):
                b = Atom(("rbefore", sub, s.name), s.only, s.forbid, 0, None, False, s.kind, s.info,
                         s.firstforbid if not s.edge else s.firstforbid | ALLWS)
                a = Atom(("rafter", sub, s.name), s.only,
                         s.forbid | (frozenset(sub) if len(sub) == 1 else frozenset()), 0, None, False, s.kind, s.info,
                         frozenset(), s.lastforbid if not s.edge else s.lastforbid | ALLWS)
                ORIGIN[b.name] = s
                segs[i:i + 1] = [b, sub, a]
                return segs, (i + 1, 0)
    return segs, None


def _cut(segs, p, n):
    """(before, after) around the n characters at position p=(i,off)"""
    i, k = p
    s = segs[i]
    return segs[:i] + [s[:k]], [s[k + n:]] + segs[i + 1:]


def split(eng, v, sep=None, maxsplit=-1):
    segs = simple(eng, v, "split")
    b = isb(v)
    if sep is None:
        return _wsplit(eng, segs, maxsplit, b)
    if isinstance(sep, bytes):
        sep = sep.decode()
    if not isinstance(sep, str):
        raise Unsupported("split by non-constant")
    if sep == "":
        eng.raise_("ValueError", "empty separator")
    limit = None if maxsplit is None or maxsplit < 0 else maxsplit
    if limit == 0:
        return [mk(segs, b)]
    segs, pos = _occurrences(eng, segs, sep, limit)
    out = []
    cur = list(segs)
    base_i, base_off = 0, 0
    # cut from the left
    rest = list(segs)
    shift_i = 0
    consumed = 0
    for (i, k) in pos:
        li = i - shift_i
        lk = k - (consumed if li == 0 else 0)
        s = rest[li]
        out.append(mk(rest[:li] + [s[:lk]], b))
        rest = [s[lk + len(sep):]] + rest[li + 1:]
        if li == 0:
            consumed += lk + len(sep)
        else:
            consumed = lk + len(sep)
        shift_i = i
    out.append(mk(rest, b))
    return out


def rsplit(eng, v, sep=None, maxsplit=-1):
    if maxsplit is None or maxsplit < 0:
        return split(eng, v, sep, -1)
    if sep is None:
        raise Unsupported("rsplit() by whitespace with maxsplit")
    segs = simple(eng, v, "rsplit")
    b = isb(v)
    out = []
    n = maxsplit
    while n > 0:
        segs, p = _last_occurrence(eng, segs, sep)
        if p is None:
            break
        before, after = _cut(segs, p, len(sep))
        out.insert(0, mk(after, b))
        segs = [s for s in before if s != ""]
        n -= 1
    out.insert(0, mk(segs, b))
    return out


def _wsplit(eng, segs, maxsplit, b):
    if maxsplit is not None and maxsplit >= 0:
        raise_ms = True
    else:
        raise_ms = False
    tokens = []
    cur = []
    rest = list(segs)
    while rest:
        s = rest.pop(0)
        if raise_ms and len(tokens) == maxsplit and not cur:
            # remainder is one token
            rem = _rstrip(eng, _lstrip(eng, [s] + rest, ALLWS), ALLWS)
            if rem:
                tokens.append(mk(rem, b))
            return tokens
        if isinstance(s, str):
            m = re.match(r"\s+", s)
            if m:
                if cur:
                    tokens.append(mk(cur, b))
                    cur = []
                if s[m.end():]:
                    rest.insert(0, s[m.end():])
                continue
            m = re.search(r"\s", s)
            if m:
                cur.append(s[:m.start()])
                rest.insert(0, s[m.start():])
            else:
                cur.append(s)
        else:
            if s.only is not None and (s.only - s.forbid) <= ALLWS:
                if s.minlen == 0 and cur and rest and not _starts_ws(rest):
                    if maybe_empty(eng, s):
                        continue
                if cur:
                    tokens.append(mk(cur, b))
                    cur = []
                continue
            if any(s.may(c) for c in ALLWS):
                form = eng.choose(("hasws", s.name), (False, "inner", "inner2") if s.edge else (False, "inner", "lead", "trail", "blank"))
                if form:
                    rest = _worded(s, form) + rest
                    continue
            if s.minlen == 0 and not cur and not [x for x in rest if not (isinstance(x, Atom) and x.kind == "ws")]:
                if maybe_empty(eng, s):
                    continue
            cur.append(s)
    if cur:
        tokens.append(mk(cur, b))
    return tokens


def _worded(s, form):
    """an atom containing white space as words and gaps (a bounded number of each)"""
    w = lambda i: Atom(("word", i, form, s.name), s.only, s.forbid | ALLWS, 1)
    g = lambda i: Atom(("gap", i, form, s.name), ALLWS if s.only is None else ALLWS & s.only, s.forbid, 1, kind="ws")
    return {"inner": [w(0), g(0), w(1)], "inner2": [w(0), g(0), w(1), g(1), w(2)], "lead": [g(0), w(0)],
            "trail": [w(0), g(0)], "blank": [g(0)]}[form]


def _starts_ws(segs):
    s = segs[0]
    if isinstance(s, str):
        return s[0] in ALLWS
    return s.only is not None and (s.only - s.forbid) <= ALLWS and s.minlen > 0


NEL = "\x85"     # stands for the line separators other than line feed and carriage return


def splitlines(eng, v, keepends=False):
    if isinstance(v, (str, bytes)):
        return v.splitlines(keepends)
    parts = split(eng, v, "\n")
    if parts and parts[-1] == "":
        parts.pop()
        last = True
    else:
        last = False
    out = []
    for i, p in enumerate(parts):
        nl = "\n" if i < len(parts) - 1 or last else ""
        segs = list(segs_of(p))
        if nl and segs and isinstance(segs[-1], str) and segs[-1].endswith("\r"):
            segs[-1] = segs[-1][:-1]
            nl = "\r\n"
        p = mk(segs, isb(v))
        sub = [p]
        if not isb(v) and any(isinstance(x, Atom) and x.may(NEL) or isinstance(x, str) and NEL in x for x in segs):
            sub = split(eng, p, NEL)
        for j, q in enumerate(sub):
            out.append(concat(q, nl if j == len(sub) - 1 else NEL) if keepends else q)
    return out


def partition(eng, v, sep):
    p = split(eng, v, sep, 1)
    b = isb(v)
    e = b"" if b else ""
    if len(p) == 1:
        return [p[0], e, e]
    return [p[0], sep, p[1]]


def rpartition(eng, v, sep):
    p = rsplit(eng, v, sep, 1)
    e = b"" if isb(v) else ""
    if len(p) == 1:
        return [e, e, p[0]]
    return [p[0], sep, p[1]]


def length_of(segs):
    const = 0
    terms = {}
    for s in segs:
        if isinstance(s, str):
            const += len(s)
        elif isinstance(s, Atom):
            if s.maxlen is not None and s.maxlen == s.minlen:
                const += s.minlen
            else:
                terms[s] = terms.get(s, 0) + 1
        else:
            return AInt(0, None)
    if not terms:
        return const
    return ALin(const, terms.items())


def length(eng, v):
    if isinstance(v, (str, bytes)):
        return len(v)
    return length_of(norm(eng, v))


def find(eng, v, sub, reverse=False, start=None):
    segs = simple(eng, v, "find")
    if isinstance(sub, bytes):
        sub = sub.decode()
    if not isinstance(sub, str):
        raise Unsupported("find of non-constant")
    pre = 0
    if start:
        if not isinstance(start, int):
            raise Unsupported("find with abstract start")
        v2 = slice_(eng, v, start, None)
        segs = simple(eng, v2, "find")
        pre = start
    if reverse:
        segs, p = _last_occurrence(eng, segs, sub)
    else:
        segs, pos = _occurrences(eng, segs, sub, 1)
        p = pos[0] if pos else None
    if p is None:
        return -1
    r = length_of(segs[:p[0]])
    return add(add(r, p[1]), pre)


def count(eng, v, sub):
    segs = simple(eng, v, "count")
    segs, pos = _occurrences(eng, segs, sub)
    if any(isinstance(s, Atom) and isinstance(s.name, tuple) and s.name[0] == "after" for s in segs):
        return AInt(len(pos), None)
    return len(pos)


# ---------------------------------------------------------------- linear ints
def lin(v):
    if isinstance(v, bool):
        return ALin(int(v), ())
    if isinstance(v, int):
        return ALin(v, ())
    return v


def add(a, b, sb=1):
    if isinstance(a, int) and isinstance(b, int):
        return a + sb * b
    if isinstance(a, AInt) or isinstance(b, AInt):
        la, ha = (a, a) if isinstance(a, int) else (a.lo(), a.hi())
        lb, hb = (b, b) if isinstance(b, int) else (b.lo(), b.hi())
        if sb == -1:
            lb, hb = (None if hb is None else -hb), (None if lb is None else -lb)
        return AInt(None if la is None or lb is None else la + lb,
                    None if ha is None or hb is None else ha + hb)
    a, b = lin(a), lin(b)
    t = dict(a.terms)
    for k, c in b.terms:
        t[k] = t.get(k, 0) + sb * c
    c = a.const + sb * b.const
    t = {k: x for k, x in t.items() if x}
    if not t:
        return c
    return ALin(c, t.items())


def shorter(eng, s, n):
    """length of the atom if it is below n (decided by choice), None if it has n characters or more"""
    if s.minlen >= n:
        return None
    if s.minlen == 0 and maybe_empty(eng, s):
        return 0
    ch = tuple(range(max(1, s.minlen), n))
    if s.maxlen is not None:
        ch = tuple(c for c in ch if c <= s.maxlen)
    if s.maxlen is None or s.maxlen >= n:
        ch += ("more",)
    k = ch[0] if len(ch) == 1 else eng.choose(("shorter", s.name, n), ch)
    return None if k == "more" else k


def _split_at(eng, segs, n):
    """split segs at position n (int or ALin, >=0) -> (left, right)"""
    left = []
    rest = list(segs)
    remaining = n
    while True:
        if isinstance(remaining, int) and remaining == 0:
            return left, rest
        if not rest:
            return left, rest
        s = rest[0]
        if isinstance(s, str):
            if isinstance(remaining, int):
                if remaining >= len(s):
                    left.append(s)
                    rest.pop(0)
                    remaining -= len(s)
                    continue
                if remaining < 0:
                    raise Unsupported("slice position")
                left.append(s[:remaining])
                rest[0] = s[remaining:]
                return left, rest
            # symbolic: the literal must be consumed entirely if const >= len(s)
            if remaining.lo() is not None and remaining.lo() >= len(s):
                left.append(s)
                rest.pop(0)
                remaining = add(remaining, len(s), -1)
                continue
            raise Unsupported("symbolic slice inside literal")
        # atom
        if isinstance(remaining, int):
            if s.maxlen is not None and s.maxlen == s.minlen and remaining >= s.minlen:
                left.append(s)
                rest.pop(0)
                remaining -= s.minlen
                continue
            if s.maxlen is not None and remaining >= s.maxlen and all(
                    isinstance(x, Atom) and x.maxlen is not None for x in rest):
                left.append(s)
                rest.pop(0)
                continue
            # cut inside an atom
            lo = s.minlen
            if len(rest) > 1:
                k = shorter(eng, s, remaining)
                if k is not None:
                    if k:
                        left.append(s)
                    rest.pop(0)
                    remaining -= k
                    continue
                lo = max(lo, remaining)
            a = Atom(("head", remaining, s.name), s.only, s.forbid, min(lo, remaining), remaining,
                     False, s.kind, s.info, s.firstforbid | (ALLWS if s.edge else frozenset()))
            b = Atom(("tail", remaining, s.name), s.only, s.forbid, max(0, s.minlen - remaining), None,
                     False, s.kind, s.info, frozenset(), s.lastforbid | (ALLWS if s.edge else frozenset()))
            left.append(a)
            rest[0] = b
            return left, rest
        if isinstance(remaining, ALin):
            d = dict(remaining.terms)
            if d.get(s, 0) >= 1:
                left.append(s)
                rest.pop(0)
                remaining = add(remaining, ALin(0, [(s, 1)]), -1)
                continue
            # positions found by a search inside this atom: split it as the search did
            for t, c in remaining.terms:
                n_ = t.name if isinstance(t, Atom) else None
                if isinstance(n_, tuple) and len(n_) == 3 and n_[2] == s.name and c >= 1:
                    if n_[0] == "before":
                        parts, pos = _occurrences(eng, [s], n_[1], 1)
                    elif n_[0] == "rbefore":
                        parts, pos = _last_occurrence(eng, [s], n_[1])
                    else:
                        continue
                    if len(parts) > 1:
                        rest[0:1] = parts
                        break
            else:
                raise Unsupported("symbolic slice of %r at %r" % (segs, n))
            continue
        raise Unsupported("symbolic slice of %r at %r" % (segs, n))


def slice_(eng, v, lo, hi, step=None):
    segs = simple(eng, v, "slice")
    b = isb(v)
    if step not in (None, 1):
        if step == -1 and lo is None and hi is None and isinstance(v, (str, bytes)):
            return v[::-1]
        if isinstance(v, (str, bytes)) and all(x is None or isinstance(x, int) for x in (lo, hi)):
            return v[lo:hi:step]
        raise Unsupported("slice step")
    if isinstance(v, (str, bytes)) and all(x is None or isinstance(x, int) for x in (lo, hi)):
        return v[lo:hi]
    for x in (lo, hi):
        if isinstance(x, AInt):
            raise Unsupported("slice at unknown integer")
    total = length_of(segs)

    def neg(x):
        if isinstance(x, int):
            return x < 0
        h = x.hi()
        if h is not None and h < 0:
            return True
        l = x.lo()
        if l is not None and l >= 0:
            return False
        # like len(a) - 1 with minlen 0
        raise Unsupported("slice position of unknown sign")

    def fromend(segs, n):
        """split so that right part has n chars"""
        rest = list(segs)
        right = []
        while n > 0 and rest:
            s = rest[-1]
            if isinstance(s, str):
                if len(s) <= n:
                    right.insert(0, s)
                    n -= len(s)
                    rest.pop()
                else:
                    right.insert(0, s[len(s) - n:])
                    rest[-1] = s[:len(s) - n]
                    n = 0
            elif s.maxlen is not None and s.maxlen == s.minlen and s.maxlen <= n:
                right.insert(0, s)
                n -= s.minlen
                rest.pop()
            else:
                lo = s.minlen
                if len(rest) > 1:
                    k = shorter(eng, s, n)
                    if k is not None:
                        if k:
                            right.insert(0, s)
                        rest.pop()
                        n -= k
                        continue
                    lo = max(lo, n)
                right.insert(0, Atom(("last", n, s.name), s.only, s.forbid, min(n, lo), n, False, s.kind, s.info,
                                     frozenset(), s.lastforbid | (ALLWS if s.edge else frozenset())))
                rest[-1] = Atom(("butlast", n, s.name), s.only, s.forbid, max(0, s.minlen - n), None, False, s.kind, s.info,
                                s.firstforbid | (ALLWS if s.edge else frozenset()))
                n = 0
        return rest, right

    if lo is not None and hi is not None and not neg(lo) and not neg(hi):
        left, right = _split_at(eng, segs, lo)
        n = add(hi, lo, -1)
        nh = n if isinstance(n, int) else n.hi()
        if nh is not None and nh <= 0:
            return mk([], b)
        l2, _ = _split_at(eng, right, n)
        return mk(l2, b)
    cur = segs
    if hi is not None:
        if neg(hi):
            if not isinstance(hi, int):
                raise Unsupported("symbolic negative slice")
            cur, _ = fromend(cur, -hi)
        else:
            cur, _ = _split_at(eng, cur, hi)
    if lo is not None:
        if neg(lo):
            if not isinstance(lo, int):
                raise Unsupported("symbolic negative slice")
            _, cur = fromend(cur, -lo)
        else:
            _, cur = _split_at(eng, cur, lo)
    return mk(cur, b)


def char_at(eng, v, i):
    if isinstance(v, (str, bytes)):
        try:
            return v[i]
        except IndexError:
            eng.raise_("IndexError", "string index out of range")
    segs = simple(eng, v, "index")
    if not segs:
        eng.raise_("IndexError", "string index out of range")
    if i == -1:
        s = segs[-1]
        if isinstance(s, str):
            return s[-1]
    if isinstance(i, int) and i >= 0:
        total = length_of(segs)
        lo = total if isinstance(total, int) else total.lo()
        if lo is not None and lo <= i:
            if isinstance(total, int) or not eng.choose(("lenge", repr(segs), i + 1), (True, False)):
                eng.raise_("IndexError", "string index out of range")
        _, r = _split_at(eng, segs, i)
        l, _ = _split_at(eng, r, 1)
        return mk(l, isb(v))
    if i == -1:
        s = segs[-1]
        if s.minlen == 0 and maybe_empty(eng, s):
            return char_at(eng, mk(segs[:-1], isb(v)), -1)
        return mk([Atom(("lastchar", s.name), s.only, s.forbid, 1, 1, False, s.kind, s.info,
                        s.lastforbid | (ALLWS if s.edge else frozenset()))], isb(v))
    raise Unsupported("string index %r" % (i,))


# ---------------------------------------------------------------- predicates
def regex_of(segs):
    out = []
    for s in segs:
        if isinstance(s, str):
            out.append(re.escape(s))
        elif isinstance(s, Atom):
            out.append(s.regex())
        else:
            out.append(r"[\s\S]*")
    return "".join(out)


def equals(eng, a, b):
    """equality of two strings (host or AStr)"""
    if isinstance(a, (str, bytes)) and isinstance(b, (str, bytes)):
        return a == b
    if isb(a) != isb(b):
        return False
    sa, sb = norm(eng, a), norm(eng, b)
    # strip common prefix / suffix
    sa, sb = list(sa), list(sb)
    while sa and sb:
        x, y = sa[0], sb[0]
        if isinstance(x, str) and isinstance(y, str):
            n = 0
            while n < len(x) and n < len(y) and x[n] == y[n]:
                n += 1
            if n == 0:
                return False
            sa[0], sb[0] = x[n:], y[n:]
            if not sa[0]:
                sa.pop(0)
            if not sb[0]:
                sb.pop(0)
            if sa and sb and isinstance(sa[0], str) and isinstance(sb[0], str):
                return False if (sa[0] and sb[0] and sa[0][0] != sb[0][0]) else True
            continue
        if x == y:
            sa.pop(0)
            sb.pop(0)
            continue
        break
    if not sa and not sb:
        return True
    if not sa or not sb:
        rest = sa or sb
        if any(isinstance(s, str) for s in rest) or any(isinstance(s, Atom) and s.minlen for s in rest):
            return False
        for s in rest:
            if isinstance(s, Atom):
                if not maybe_empty(eng, s):
                    return False
            else:
                raise Unsupported("compare")
        return True
    la, lb = all(isinstance(s, str) for s in sa), all(isinstance(s, str) for s in sb)
    if la or lb:
        lit = "".join(sa if la else sb)
        pat = sb if la else sa
        if not re.fullmatch(regex_of(pat), lit):
            return False
        if len(pat) == 1 and isinstance(pat[0], Atom):
            return eng.choose(("eq", pat[0].name, lit), (False, True))
        return eng.choose(("eqs", repr(pat), lit), (False, True))
    # two abstract strings: disjoint first characters?
    x, y = sa[0], sb[0]
    if isinstance(x, str) and isinstance(y, Atom) and y.minlen and not y.mayfirst(x[0]):
        return False
    if isinstance(y, str) and isinstance(x, Atom) and x.minlen and not x.mayfirst(y[0]):
        return False
    ka, kb = sorted((repr(sa), repr(sb)))
    return eng.choose(("eqs", ka, kb), (False, True))


def startswith(eng, v, p):
    if isinstance(p, tuple):
        return any(startswith(eng, v, x) for x in p)
    if isinstance(p, bytes):
        p = p.decode("utf-8", "surrogateescape")
    if isinstance(v, (str, bytes)) and isinstance(p, str):
        return segs_of(v)[0].startswith(p) if v else p == ""
    if not isinstance(p, str):
        # abstract prefix: same leading segments?
        sp, sv = norm(eng, p), norm(eng, v)
        if len(sp) <= len(sv) and all(x == y for x, y in zip(sp, sv)):
            return True
        return eng.choose(("sws", repr(sv), repr(sp)), (False, True))
    segs = norm(eng, v)
    for idx, s in enumerate(segs):
        if not p:
            return True
        if isinstance(s, str):
            n = min(len(s), len(p))
            if s[:n] != p[:n]:
                return False
            p = p[n:]
        elif isinstance(s, Atom):
            rest = segs[idx:]
            if not re.match(_prefix_regex(rest, p), p):
                return False
            if s.minlen and not s.mayfirst(p[0]):
                return False
            if len(p) == 1 and s.minlen >= 1 and s.only is not None and s.only - s.forbid == frozenset(p):
                return True
            return eng.choose(("sw", s.name, p), (False, True))
        else:
            raise Unsupported("startswith on unbounded text")
    return p == ""


def _prefix_regex(segs, p):
    """regex accepting p if some string of segs may start with p"""
    # p matches if p is a prefix of a string in L(segs): build nested optional regex
    parts = []
    for s in segs:
        if isinstance(s, str):
            for ch in s:
                parts.append(re.escape(ch))
        elif isinstance(s, Atom):
            cs = s.only - s.forbid if s.only is not None else None
            if cs is not None:
                c = "[" + "".join(re.escape(x) for x in sorted(cs)) + "]" if cs else "(?!)"
            elif s.forbid:
                c = "[^" + "".join(re.escape(x) for x in sorted(s.forbid)) + "]"
            else:
                c = r"[\s\S]"
            parts.append(c + "*")
        else:
            parts.append(r"[\s\S]*")
        if len(parts) > len(p) + 8:
            break
    r = ""
    for x in reversed(parts):
        r = "(?:" + x + r + "|$)"
    return r + "$"


def endswith(eng, v, p):
    if isinstance(p, tuple):
        return any(endswith(eng, v, x) for x in p)
    if isinstance(p, bytes):
        p = p.decode("utf-8", "surrogateescape")
    if not isinstance(p, str):
        raise Unsupported("endswith non-constant")
    if isinstance(v, (str, bytes)):
        return segs_of(v)[0].endswith(p) if v else p == ""
    segs = norm(eng, v)
    for s in reversed(segs):
        if not p:
            return True
        if isinstance(s, str):
            n = min(len(s), len(p))
            if s[-n:] != p[-n:]:
                return False
            p = p[:-n]
        elif isinstance(s, Atom):
            if s.minlen and not s.maylast(p[-1]):
                return False
            if not s.may(p[-1]) and s.minlen == 0:
                if not maybe_empty(eng, s):
                    return False
                continue
            return eng.choose(("ew", s.name, p), (False, True))
        else:
            raise Unsupported("endswith on unbounded text")
    return p == ""


def contains(eng, v, sub):
    if isinstance(v, (str, bytes)) and isinstance(sub, (str, bytes)):
        return sub in v
    if not isinstance(sub, (str, bytes)):
        if not isinstance(sub, AStr):
            raise Unsupported("in")
        ss, sv = norm(eng, sub), norm(eng, v)
        for i in range(len(sv) - len(ss) + 1):
            if sv[i:i + len(ss)] == ss:
                return True
        if all(isinstance(x, str) for x in sv):
            # abstract needle in constant haystack
            return eng.choose(("inconst", repr(ss), "".join(sv)), (False, True))
        return eng.choose(("ins", repr(ss), repr(sv)), (False, True))
    r = find(eng, v, sub if isinstance(sub, str) else sub.decode())
    if isinstance(r, int):
        return r >= 0
    return True


# ---------------------------------------------------------------- transformations
def _map_atom(s, fname, changes):
    if not changes(s):
        return s
    return Atom((fname, s.name), None, frozenset(), s.minlen, s.maxlen, s.edge, s.kind if s.kind == "num" else "text", s.info)


def upper(eng, v, fname="upper"):
    f = {"upper": str.upper, "lower": str.lower, "casefold": str.casefold, "title": str.title,
         "capitalize": str.capitalize, "swapcase": str.swapcase}[fname]
    if isinstance(v, (str, bytes)):
        return getattr(v, fname)()
    out = []
    for s in norm(eng, v):
        if isinstance(s, str):
            out.append(f(s))
        elif isinstance(s, Atom):
            if s.only is not None and all(f(c) == c for c in s.only - s.forbid):
                out.append(s)
            else:
                forb = frozenset(c for c in s.forbid if not c.isalpha())
                out.append(Atom((fname, s.name), None, forb, s.minlen, s.maxlen, s.edge, "text", s.info,
                                frozenset(c for c in s.firstforbid if not c.isalpha()),
                                frozenset(c for c in s.lastforbid if not c.isalpha())))
        else:
            raise Unsupported(fname + " on unbounded text")
    return mk(out, isb(v))


def replace(eng, v, old, new, cnt=-1):
    if isinstance(old, bytes):
        old = old.decode()
    if isinstance(new, bytes):
        new = new.decode()
    if isinstance(v, str) and isinstance(old, str) and isinstance(new, str):
        return v.replace(old, new, -1 if cnt is None else cnt)
    if not isinstance(old, str):
        raise Unsupported("replace of non-constant")
    segs = norm(eng, v)
    newsegs = segs_of(new)
    if cnt is not None and cnt >= 0:
        segs2, pos = _occurrences(eng, segs, old, cnt)
        if not pos:
            return v
        parts = split(eng, mk(segs2, isb(v)), old, cnt)
        out = []
        for i, p in enumerate(parts):
            if i:
                out.extend(newsegs)
            out.extend(segs_of(p))
        return mk(out, isb(v))
    out = []
    if len(old) > 1 and sum(isinstance(s, Atom) for s in segs) <= 8 and all(isinstance(s, (str, Atom)) for s in segs):
        for i, p in enumerate(split(eng, mk(segs, isb(v)), old)):
            if i:
                out.extend(newsegs)
            out.extend(segs_of(p))
        return mk(out, isb(v))
    for s in segs:
        if isinstance(s, str):
            ps = s.split(old) if old else [s]
            for i, p in enumerate(ps):
                if i:
                    out.extend(newsegs)
                out.append(p)
        elif isinstance(s, Atom):
            if old and all(s.may(c) for c in old) and (s.maxlen is None or s.maxlen >= len(old)):
                out.append(Atom(("replace", old, repr(new), s.name), None, frozenset(), 0, None, False, "text", s.info))
            else:
                out.append(s)
        else:
            raise Unsupported("replace on unbounded text")
    return mk(out, isb(v))


def concat(a, b):
    return mk(segs_of(a) + tuple(segs_of(b)), isb(a))


_counter = [0]


def pad(eng, v, width, align, fill=" "):
    """ljust/rjust/center/format width"""
    segs = norm(eng, v)
    n = length_of(segs)
    if isinstance(n, int):
        k = width - n
        if k <= 0:
            return mk(segs, isb(v))
        if align == "<":
            return mk(segs + [fill * k], isb(v))
        if align == ">":
            return mk([fill * k] + segs, isb(v))
        return mk([fill * (k // 2)] + segs + [fill * (k - k // 2)], isb(v))
    lo, hi = n.lo(), n.hi()
    if lo is not None and lo >= width:
        return mk(segs, isb(v))
    minp = 0 if hi is None else max(0, width - hi)
    p = Atom(("pad", width, align, repr(segs)), frozenset(fill), frozenset(), minp, width - (lo or 0),
             False, "ws" if fill == " " else "text")
    if align == "<":
        return mk(segs + [p], isb(v))
    if align == ">":
        return mk([p] + segs, isb(v))
    return mk([Atom(("padl",) + p.name, p.only, p.forbid, 0, p.maxlen, False, p.kind)] + segs + [p], isb(v))


def charclass(eng, v, fname):
    """isupper/isalpha/isdigit/..."""
    if isinstance(v, (str, bytes)):
        return getattr(v, fname)()
    segs = norm(eng, v)
    f = getattr(str, fname)
    if fname in ("isalpha", "isdigit", "isnumeric", "isdecimal", "isalnum", "isspace"):
        unknown = []
        for s in segs:
            if isinstance(s, str):
                if not f(s):
                    return False
            else:
                cs = s.only - s.forbid if s.only is not None else None
                if cs is not None and all(f(c) for c in cs):
                    if s.minlen == 0 and len(segs) == 1:
                        unknown.append(s)
                elif s.kind == "num" and fname in ("isalpha", "isspace"):
                    return False      # a number contains a digit
                elif cs is not None and not any(f(c) for c in cs) and s.minlen:
                    return False
                else:
                    unknown.append(s)
        if not unknown:
            return True
        return eng.choose((fname, repr(segs)), (False, True))
    return eng.choose((fname, repr(segs)), (False, True))


FLOATCH = frozenset("0123456789+-.eE")


def float_like(eng, v):
    """True / False: does float(v) succeed"""
    if isinstance(v, (str, bytes)):
        try:
            float(v)
            return True
        except ValueError:
            return False
    segs = _rstrip(eng, _lstrip(eng, simple(eng, v, "float"), ALLWS), ALLWS)
    if len(segs) == 1 and isinstance(segs[0], Atom) and segs[0].kind == "num":
        return True
    for i, s in enumerate(segs):
        if isinstance(s, str):
            for j, c in enumerate(s):
                if c not in FLOATCH and c not in "_" and c.lower() not in "infatyn":
                    return False
                if c in "+-":
                    prev = s[j - 1] if j else (segs[i - 1] if i else None)
                    if isinstance(prev, str) and prev[-1] not in "eE":
                        return False
                    if isinstance(prev, Atom) and prev.minlen and prev.only is not None and not (
                            {"e", "E"} & (prev.only - prev.forbid)):
                        return False
            if s.upper().startswith("COMMENT"):
                return False
        elif isinstance(s, Atom):
            cs = s.only - s.forbid if s.only is not None else None
            if cs is not None and s.minlen and not (cs & FLOATCH):
                return False
    if not segs:
        return False
    return eng.choose(("isfloat", repr(segs)), (False, True))


def fmt_spec(eng, v, spec, kind):
    """format(v, spec) for string-like v (kind 'str') or number text (kind 'num')"""
    m = re.fullmatch(r"(?:(.)?([<>^=]))?([+\- ])?(#)?(0)?(\d+)?([,_])?(?:\.(\d+))?([a-zA-Z%])?", spec)
    if not m:
        raise Unsupported("format spec %r" % spec)
    fill, align, sign, alt, zero, width, comma, prec, typ = m.groups()
    if kind == "str":
        if prec is not None:
            v = slice_(eng, v, 0, int(prec))
    else:
        if prec is not None or comma or sign in ("+", " ") or (typ and typ not in "s") or zero:
            s = segs_of(v)
            a = s[0]
            v = mk([Atom(("fmt", spec, a.name), None, frozenset(), 1, None, True, "num", a.info)])
    if width:
        v = pad(eng, v, int(width), align or ("<" if kind == "str" else ">"), fill or " ")
    return v


def xml_escape(segs, attr=False):
    out = []
    for s in segs:
        if isinstance(s, str):
            t = s.replace("&", "&amp;").replace("<", "&lt;").replace(">", "&gt;")
            if attr:
                t = t.replace('"', "&quot;")
            out.append(t)
        elif isinstance(s, Atom):
            if any(s.may(c) for c in '&<>"'):
                out.append(Atom(("esc", s.name), None, frozenset('<"') if attr else frozenset('<'), s.minlen, None, s.edge, s.kind, s))
            else:
                out.append(s)
        else:
            raise Unsupported("xml text of unbounded length")
    return out


def expandtabs(eng, v, size=8):
    """tabs become spaces; how many depends on the column, which is unknown after abstract text"""
    if isinstance(v, (str, bytes)):
        return v.expandtabs(size)
    out = []
    for i, s in enumerate(norm(eng, v)):
        if isinstance(s, str):
            for j, part in enumerate(s.split("\t")):
                if j:
                    out.append(Atom(("tabspaces", repr(s), i, j), frozenset(" "), minlen=0 if not size else 1, kind="ws"))
                if part:
                    out.append(part)
        elif isinstance(s, Atom):
            if not s.may("\t"):
                out.append(s)
            elif s.only is not None and s.only - s.forbid <= frozenset(" \t"):
                out.append(Atom(("expandtabs", s.name), frozenset(" "), minlen=s.minlen if size else 0, kind="ws"))
            else:
                out.append(Atom(("expandtabs", s.name), None if s.only is None else s.only - frozenset("\t") | frozenset(" "),
                                s.forbid - frozenset(" ") | frozenset("\t"), s.minlen if size else 0, None, s.edge, "text", None,
                                s.firstforbid, s.lastforbid))
        else:
            raise Unsupported("expandtabs on unbounded text")
    return mk(out, isb(v))
