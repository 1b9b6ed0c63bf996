"""Abstract values.

Concrete constants are represented by the host constants (None, bool, int, str,
bytes, float, Decimal).  Everything whose content is an input of the analysed
program is represented by one of the abstract classes below.
"""
import re
from decimal import Decimal
from typing import NamedTuple


class Sentinel:
    def __init__(self, n):
        self.n = n

    def __repr__(self):
        return self.n

    def __deepcopy__(self, memo):
        return self

    def __reduce__(self):
        return (_sent, (self.n,))


_SENT = {}


def _sent(n):
    if n not in _SENT:
        _SENT[n] = Sentinel(n)
    return _SENT[n]


UNBOUND = _sent("UNBOUND")
ABSENT = _sent("ABSENT")
MISSING = _sent("MISSING")  # dataclasses.MISSING
NOTIMPL = _sent("NOTIMPL")


class Unsupported(Exception):
    """The analysed code uses something the engine has no transfer function for."""


class NeedChoice(Exception):
    """A decision depends on oracle `o`, which is not fixed on the current path."""

    def __init__(self, o, choices, esc=0):
        """esc: 0 not tried yet; 1 tried, branches leave the statement in different ways;
        2 tried, some branch raises (only a try statement or the path level can decide)"""
        self.o = o
        self.choices = tuple(choices)
        self.esc = esc


class Infeasible(Exception):
    pass


class PyRaise(Exception):
    """The analysed program raises `value` (a Ref to an exception instance)."""

    def __init__(self, value, where=""):
        self.value = value
        self.where = where


class Budget(Exception):
    pass


# --------------------------------------------------------------------------- strings
WS = " \t"
NUMCHARS = frozenset("0123456789+-.eE")
ALLWS = frozenset(" \t\n\r\f\v")


class Atom:
    """An opaque piece of text: any string satisfying the constraints.

    only      frozenset of characters or None (any)
    forbid    frozenset of characters that do not occur
    minlen    minimum length
    maxlen    maximum length or None
    edge      True: first and last characters are not whitespace (implies minlen>=1
              only if minlen says so; an empty atom has no edges)
    kind      'text' | 'ws' | 'num' | 'digit' ... (descriptive, 'num' => float() works)
    tr        transformation applied (tuple), e.g. ('upper',)
    """

    __slots__ = ("name", "only", "forbid", "minlen", "maxlen", "edge", "kind", "info",
                 "_h", "firstforbid", "lastforbid")

    def __init__(self, name, only=None, forbid=frozenset(), minlen=0, maxlen=None,
                 edge=False, kind="text", info=None, firstforbid=frozenset(),
                 lastforbid=frozenset()):
        self.name = name
        self.only = only
        self.forbid = frozenset(forbid)
        self.minlen = minlen
        self.maxlen = maxlen
        self.edge = edge
        self.kind = kind
        self.info = info
        self.firstforbid = frozenset(firstforbid)
        self.lastforbid = frozenset(lastforbid)
        self._h = hash((name, kind))

    def __eq__(self, o):
        return (isinstance(o, Atom) and self.name == o.name and self.kind == o.kind
                and self.minlen == o.minlen and self.maxlen == o.maxlen)

    def __hash__(self):
        return self._h

    def __repr__(self):
        return "<%s>" % (self.name if isinstance(self.name, str) else
                         ":".join(str(x) for x in self.name))

    def may(self, ch):
        if self.only is not None and ch not in self.only:
            return False
        return ch not in self.forbid

    def mayfirst(self, ch):
        if not self.may(ch):
            return False
        if self.edge and ch in ALLWS:
            return False
        return ch not in self.firstforbid

    def maylast(self, ch):
        if not self.may(ch):
            return False
        if self.edge and ch in ALLWS:
            return False
        return ch not in self.lastforbid

    def regex(self):
        if self.only is not None:
            cs = "[" + "".join(re.escape(c) for c in sorted(self.only - self.forbid)) + "]"
            if not (self.only - self.forbid):
                return ""
        elif self.forbid:
            cs = "[^" + "".join(re.escape(c) for c in sorted(self.forbid)) + "]"
        else:
            cs = r"[\s\S]"
        body = "%s{%d,%s}" % (cs, self.minlen, "" if self.maxlen is None else self.maxlen)
        ff = set(self.firstforbid) | (set(ALLWS) if self.edge else set())
        lf = set(self.lastforbid) | (set(ALLWS) if self.edge else set())
        pre = "(?![%s])" % "".join(re.escape(c) for c in sorted(ff)) if ff and self.minlen else ""
        post = "(?<![%s])" % "".join(re.escape(c) for c in sorted(lf)) if lf and self.minlen else ""
        return pre + body + post


def ws_atom(name, minlen=0):
    return Atom(name, only=frozenset(WS), minlen=minlen, kind="ws")


class AltSeg:
    __slots__ = ("o", "br")

    def __init__(self, o, br):
        self.o = o
        self.br = br  # dict choice -> tuple of segs

    def __eq__(self, other):
        return isinstance(other, AltSeg) and self.o == other.o and self.br == other.br

    def __hash__(self):
        return hash(self.o)

    def __repr__(self):
        return "Alt[%s]%r" % (oname(self.o), self.br)


class JoinSeg:
    """sep.join(content) with content of unknown length."""

    __slots__ = ("sep", "items")

    def __init__(self, sep, items):
        self.sep = sep
        self.items = items

    def __eq__(self, other):
        return isinstance(other, JoinSeg) and self.sep == other.sep and self.items == other.items

    def __hash__(self):
        return hash(self.sep)

    def __repr__(self):
        return "Join[%r]%r" % (self.sep, self.items)


class StarSeg:
    """any number of repetitions of a piece of text (accumulated in a loop)."""

    __slots__ = ("segs",)

    def __init__(self, segs):
        self.segs = segs

    def __eq__(self, other):
        return isinstance(other, StarSeg) and self.segs == other.segs

    def __hash__(self):
        return hash(self.segs)

    def __repr__(self):
        return "StarSeg%r" % (self.segs,)


class AStr:
    __slots__ = ("segs", "b")

    def __init__(self, segs, b=False):
        self.segs = tuple(segs)
        self.b = b

    def __eq__(self, o):
        return isinstance(o, AStr) and self.b == o.b and self.segs == o.segs

    def __hash__(self):
        return hash((self.segs, self.b))

    def __repr__(self):
        return ("b" if self.b else "") + "S(" + "+".join(repr(s) for s in self.segs) + ")"


class ADec:
    """A Decimal whose value is an input."""

    __slots__ = ("atom",)

    def __init__(self, atom):
        self.atom = atom  # text Atom of kind num

    def __eq__(self, o):
        return isinstance(o, ADec) and self.atom == o.atom

    def __hash__(self):
        return hash(self.atom)

    def __repr__(self):
        return "Dec%r" % (self.atom,)


class AFloat:
    __slots__ = ("src",)

    def __init__(self, src):
        self.src = src

    def __eq__(self, o):
        return isinstance(o, AFloat) and self.src == o.src

    def __hash__(self):
        return hash(("f", self.src))

    def __repr__(self):
        return "Float%r" % (self.src,)


class ALin:
    """integer = const + sum coef*len(atom)"""

    __slots__ = ("const", "terms")

    def __init__(self, const, terms):
        self.const = const
        self.terms = tuple(sorted(((a, c) for a, c in terms if c), key=lambda t: repr(t[0].name)))

    def __eq__(self, o):
        return isinstance(o, ALin) and self.const == o.const and self.terms == o.terms

    def __hash__(self):
        return hash((self.const, self.terms))

    def lo(self):
        r = self.const
        for a, c in self.terms:
            if c > 0:
                r += c * a.minlen
            elif a.maxlen is not None:
                r += c * a.maxlen
            else:
                return None
        return r

    def hi(self):
        r = self.const
        for a, c in self.terms:
            if c < 0:
                r += c * a.minlen
            elif a.maxlen is not None:
                r += c * a.maxlen
            else:
                return None
        return r

    def __repr__(self):
        return "Lin(%d%s)" % (self.const, "".join("%+d*len%r" % (c, a) for a, c in self.terms))


class AInt:
    """unknown integer in [lo, hi] (None = unbounded)"""

    __slots__ = ("lo_", "hi_", "tag")

    def __init__(self, lo=None, hi=None, tag=None):
        self.lo_ = lo
        self.hi_ = hi
        self.tag = tag

    def lo(self):
        return self.lo_

    def hi(self):
        return self.hi_

    def __eq__(self, o):
        return isinstance(o, AInt) and (self.lo_, self.hi_, self.tag) == (o.lo_, o.hi_, o.tag)

    def __hash__(self):
        return hash((self.lo_, self.hi_, self.tag))

    def __repr__(self):
        return "Int[%s,%s]" % (self.lo_, self.hi_)


class AEnum:
    """an arbitrary member of enum class `cls` (Ref), identified by `name`"""

    __slots__ = ("cls", "name")

    def __init__(self, cls, name):
        self.cls = cls
        self.name = name

    def __eq__(self, o):
        return isinstance(o, AEnum) and self.cls == o.cls and self.name == o.name

    def __hash__(self):
        return hash(self.name)

    def __repr__(self):
        return "Enum<%s>" % (self.name,)


# --------------------------------------------------------------------------- references
class Ref:
    __slots__ = ("a",)

    def __init__(self, a):
        self.a = a

    def __eq__(self, o):
        return isinstance(o, Ref) and self.a == o.a

    def __hash__(self):
        return hash(("ref", self.a))

    def __repr__(self):
        return "@%s" % self.a


class H:
    """heap object; treated as immutable, replaced on mutation"""

    __slots__ = ("kind", "cls", "data", "meta")

    def __init__(self, kind, cls, data, meta=None):
        self.kind = kind
        self.cls = cls
        self.data = data
        self.meta = meta

    def with_data(self, data):
        return H(self.kind, self.cls, data, self.meta)

    def __repr__(self):
        return "H(%s,%r,%r)" % (self.kind, self.cls, self.data)


class Tup:
    __slots__ = ("items", "cls")

    def __init__(self, items, cls=None):
        self.items = tuple(items)
        self.cls = cls  # namedtuple class (NT) or None

    def __eq__(self, o):
        return isinstance(o, Tup) and self.items == o.items

    def __hash__(self):
        return hash(self.items)

    def __repr__(self):
        return "T%r" % (self.items,)


class NTClass:
    __slots__ = ("name", "fields", "defaults", "ns")

    def __init__(self, name, fields, defaults=(), ns=None):
        self.name = name
        self.ns = ns or {}
        self.fields = tuple(fields)
        self.defaults = defaults

    def __repr__(self):
        return "NT<%s>" % self.name


class Choice:
    __slots__ = ("o", "br")

    def __init__(self, o, br):
        self.o = o
        self.br = br

    def __eq__(self, other):
        return isinstance(other, Choice) and self.o == other.o and self.br == other.br

    def __hash__(self):
        return hash(self.o)

    def __repr__(self):
        return "Choice[%s]%r" % (oname(self.o), self.br)


class Alt:
    """list content: one of several item sequences, decided by oracle o"""

    __slots__ = ("o", "br")

    def __init__(self, o, br):
        self.o = o
        self.br = br

    def __eq__(self, other):
        return isinstance(other, Alt) and self.o == other.o and self.br == other.br

    def __hash__(self):
        return hash(self.o)

    def __repr__(self):
        return "Alt[%s]%r" % (oname(self.o), self.br)


class Star:
    """list content: any number of repetitions of the item sequence"""

    __slots__ = ("items", "tag")

    def __init__(self, items, tag=None):
        self.items = tuple(items)
        self.tag = tag

    def __eq__(self, other):
        return isinstance(other, Star) and self.items == other.items and \
            (self.tag == other.tag or not isinstance(self.tag, Part) and not isinstance(other.tag, Part))

    def __hash__(self):
        return hash(("star", self.items))

    def __repr__(self):
        return "Star%r" % (self.items,)


class Part(NamedTuple):
    """tag of a repetition that is not the whole of, or not in the order of, the tagged one"""
    how: str
    n: object
    tag: object


def base_tag(t):
    while isinstance(t, Part):
        t = t.tag
    return t


def oname(o):
    if isinstance(o, tuple):
        return ":".join(oname(x) for x in o)
    return str(o)


class Top:
    __slots__ = ("why",)

    def __init__(self, why=""):
        self.why = why

    def __eq__(self, o):
        return isinstance(o, Top)

    def __hash__(self):
        return 7

    def __repr__(self):
        return "Top(%s)" % self.why


# --------------------------------------------------------------------------- callables
class FuncV:
    """interpreted function"""

    __slots__ = ("node", "name", "frame", "module", "defaults", "kwdefaults", "keepframe",
                 "isgen", "locals_", "globals_", "nonlocals_", "qual", "cls", "memo")

    def __repr__(self):
        return "fn<%s>" % self.qual


class Bound:
    __slots__ = ("f", "self_")

    def __init__(self, f, self_):
        self.f = f
        self.self_ = self_

    def __eq__(self, o):
        return isinstance(o, Bound) and self.f is o.f and self.self_ == o.self_

    def __hash__(self):
        return hash(id(self.f))

    def __repr__(self):
        return "bound<%r of %r>" % (self.f, self.self_)


class BF:
    """builtin function / method implemented in the host: fn(eng, args, kwargs)"""

    __slots__ = ("name", "fn", "raw")

    def __init__(self, name, fn, raw=False):
        self.name = name
        self.fn = fn
        self.raw = raw

    def __repr__(self):
        return "bf<%s>" % self.name


class BT:
    """builtin type"""

    __slots__ = ("name", "host")

    def __init__(self, name, host):
        self.name = name
        self.host = host

    def __repr__(self):
        return "type<%s>" % self.name


class XC:
    """external class: modelled in lib.py"""

    __slots__ = ("name", "bases")

    def __init__(self, name, bases=()):
        self.name = name
        self.bases = bases

    def __repr__(self):
        return "xc<%s>" % self.name


class XMod:
    """external module: attributes from lib tables"""

    __slots__ = ("name",)

    def __init__(self, name):
        self.name = name

    def __repr__(self):
        return "xmod<%s>" % self.name


class GAlias:
    __slots__ = ("origin", "args")

    def __init__(self, origin, args):
        self.origin = origin
        self.args = tuple(args)

    def __eq__(self, o):
        return isinstance(o, GAlias) and self.origin == o.origin and self.args == o.args

    def __hash__(self):
        return hash((str(self.origin), self.args))

    def __repr__(self):
        return "%s[%r]" % (self.origin, self.args)


class Wrap:
    """staticmethod / classmethod / property / partial / super wrappers"""

    __slots__ = ("kind", "v", "extra")

    def __init__(self, kind, v, extra=None):
        self.kind = kind
        self.v = v
        self.extra = extra

    def __repr__(self):
        return "%s(%r)" % (self.kind, self.v)


class VarsView:
    """vars(obj) / obj.__dict__: a live view"""

    __slots__ = ("a",)

    def __init__(self, a):
        self.a = a

    def __eq__(self, o):
        return isinstance(o, VarsView) and self.a == o.a

    def __hash__(self):
        return hash(("vv", self.a))

    def __repr__(self):
        return "vars(@%s)" % self.a


class SliceV:
    __slots__ = ("lo", "hi", "step")

    def __init__(self, lo, hi, step):
        self.lo, self.hi, self.step = lo, hi, step


PRIM = (type(None), bool, int, str, bytes, float, Decimal, type(Ellipsis))


def same(a, b):
    """structural identity of two abstract values"""
    if a is b:
        return True
    ta, tb = type(a), type(b)
    if ta is not tb:
        return False
    if ta in (bool, int, str, bytes, float, type(None)):
        return a == b
    if ta is Decimal:
        return a == b and str(a) == str(b)
    if ta is tuple:
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if ta is Tup:
        return a.cls is b.cls and len(a.items) == len(b.items) and all(
            same(x, y) for x, y in zip(a.items, b.items))
    if ta is dict:
        return len(a) == len(b) and list(a) == list(b) and all(same(a[k], b[k]) for k in a)
    if ta in (Choice, Alt):
        return a.o == b.o and set(a.br) == set(b.br) and all(same(a.br[k], b.br[k]) for k in a.br)
    if ta is Star:
        return same(a.items, b.items)
    if ta in (FuncV, BF, XMod, NTClass):
        return False
    if ta in (BT, XC):
        return a.name == b.name
    if ta is Wrap:
        return a.kind == b.kind and same(a.v, b.v)
    if ta is SliceV:
        return same(a.lo, b.lo) and same(a.hi, b.hi) and same(a.step, b.step)
    try:
        return a == b
    except RecursionError:
        return False
