"""Transfer functions for builtins and the standard-library parts the code may use."""
import hashlib
import builtins as hb
import re as hre
from decimal import Decimal

from . import strs
from .values import *
from .values import H, Ref

DECIMAL = XC("decimal.Decimal")
PATH = XC("pathlib.Path")
ENUM = XC("enum.Enum")
ENUMMETA = XC("enum.EnumMeta")
AUTO = XC("enum.auto")
NONETYPE = BT("NoneType", type(None))
FUNCTYPE = XC("types.FunctionType")
MODTYPE = XC("types.ModuleType")
ITERTYPE = XC("types.GeneratorType")
FILE = XC("io.TextIOWrapper")
FIELD = XC("dataclasses.Field")
OBJ = None

_HT = {}


def host_type(eng, h):
    n = h.__name__
    if n in eng.builtins and isinstance(eng.builtins[n], BT):
        return eng.builtins[n]
    return None


# ------------------------------------------------------------------ tables
EXC_NAMES = [n for n in dir(hb) if isinstance(getattr(hb, n), type) and issubclass(getattr(hb, n), BaseException)]


def builtin_table(eng):
    t = {}
    for n in ("str", "int", "float", "bool", "list", "dict", "tuple", "set", "frozenset", "bytes", "bytearray", "type",
              "object", "range", "enumerate", "zip", "map", "filter", "reversed", "slice", "property",
              "staticmethod", "classmethod", "super", "complex", "memoryview"):
        t[n] = BT(n, getattr(hb, n))
    for n in EXC_NAMES:
        t[n] = BT(n, getattr(hb, n))
    for n, f in BUILTINS.items():
        t[n] = BF(n, f)
    import dataclasses
    t["#FrozenInstanceError"] = BT("FrozenInstanceError", dataclasses.FrozenInstanceError)
    t["NotImplemented"] = NOTIMPL
    t["Ellipsis"] = Ellipsis
    t["__debug__"] = True
    return t


def type_name(eng, o):
    c = eng.type_of(o)
    return cls_name(eng, c)


def cls_name(eng, c):
    if isinstance(c, Ref):
        return eng.get(c.a).data.get("#name", "?")
    if isinstance(c, (BT,)):
        return c.name
    if isinstance(c, XC):
        return c.name.split(".")[-1]
    if isinstance(c, NTClass):
        return c.name
    return "?"


# ------------------------------------------------------------------ strings of values
def str_of(eng, v):
    v = eng.force(v)
    if isinstance(v, (str, AStr)):
        if strs.isb(v):
            return AStr([Atom(("bytesrepr", repr(v)), minlen=3)])
        return v
    if v is None or isinstance(v, (bool, int, float, Decimal, bytes)):
        return str(v)
    if isinstance(v, ADec):
        return AStr([v.atom])
    if isinstance(v, AFloat):
        return AStr([Atom(("floatstr", v.src), NUMCHARS, minlen=1, kind="num", edge=True)])
    if isinstance(v, (ALin, AInt)):
        return AStr([Atom(("intstr", repr(v)), frozenset("0123456789-"), minlen=1, kind="num", edge=True, info=v)])
    if isinstance(v, AEnum):
        return AStr([eng.get(v.cls.a).data["#name"] + ".", Atom(("membername", v.name), minlen=1, edge=True, forbid="=[]\n ")])
    if isinstance(v, Ref):
        h = eng.get(v.a)
        if h.kind == "obj":
            f = eng.lookup_class_attr(h.cls, "__str__")
            if isinstance(f, FuncV):
                return eng.call(Bound(f, v), [], {})
            if eng.is_enum_class(h.cls):
                if eng.is_subclass(h.cls, eng.builtins["str"]) and False:
                    pass
                return "%s.%s" % (cls_name(eng, h.cls), h.data["_name_"])
            if isinstance(h.cls, (BT, XC)) and "args" in h.data:
                a = h.data["args"]
                if isinstance(a, Tup) and len(a.items) == 1:
                    return str_of(eng, a.items[0])
                if isinstance(a, Tup) and not a.items:
                    return ""
                if isinstance(a, Tup) and all(isinstance(x, (str, int, type(None))) for x in a.items):
                    return repr(tuple(a.items))
                return AStr([Atom(("excstr", v.a))])
            if isinstance(h.cls, XC) and h.cls.name == PATH.name:
                return h.data["path"] if not isinstance(h.data["path"], Ref) else str_of(eng, h.data["path"])
            return repr_of(eng, v)
        if h.kind == "top":
            return Top("str")
        return AStr([Atom(("str", v.a), minlen=1)])
    if isinstance(v, Top):
        return Top("str of top")
    return AStr([Atom(("str", repr(v)), minlen=1)])


def repr_of(eng, v):
    v = eng.force(v)
    if v is None or isinstance(v, (bool, int, float, str, bytes)):
        return repr(v)
    if isinstance(v, Ref):
        h = eng.get(v.a)
        if h.kind == "obj":
            f = eng.lookup_class_attr(h.cls, "__repr__")
            if isinstance(f, FuncV):
                return eng.call(Bound(f, v), [], {})
            c = eng.force(h.cls)
            if isinstance(c, Ref) and "#dc" in eng.get(c.a).data:
                return AStr([eng.get(c.a).data["#qual"] + "(", Atom(("repr", v.a)), ")"])
            return AStr(["<", Atom(("repr", v.a), minlen=1), ">"])
        if h.kind == "class":
            return AStr(["<class '", Atom(("repr", v.a), minlen=1), "'>"])
    if isinstance(v, ADec):
        return AStr(["Decimal('", v.atom, "')"])
    if isinstance(v, Top):
        return Top("repr")
    return AStr([Atom(("repr", repr(v)), minlen=1)])


def format_of(eng, v, spec):
    v = eng.force(v)
    if not isinstance(spec, str):
        if isinstance(spec, Top):
            return Top("format")
        raise Unsupported("abstract format spec")
    if isinstance(v, (bool, int, float, str, Decimal)) and not isinstance(v, Top):
        try:
            return format(v, spec)
        except (ValueError, TypeError) as ex:
            eng.raise_(type(ex).__name__, str(ex))
    if isinstance(v, Top):
        return Top("format")
    if isinstance(v, AStr):
        return strs.fmt_spec(eng, v, spec, "str") if spec else v
    if isinstance(v, (ADec, AFloat, AInt, ALin)):
        if isinstance(v, ADec) and spec == "f":
            # exact positional notation of the same decimal
            return AStr([v.atom])
        s = str_of(eng, v)
        return strs.fmt_spec(eng, s, spec, "num") if spec else s
    if spec:
        if v is None or isinstance(v, Ref) and eng.get(v.a).kind == "obj" and not eng.is_enum_class(eng.get(v.a).cls):
            eng.raise_("TypeError", "unsupported format string passed to %s.__format__" % type_name(eng, v))
    return format_of(eng, str_of(eng, v), spec)


def percent_format(eng, a, b):
    if not isinstance(a, str):
        return Top("percent format")
    args = list(b.items) if isinstance(b, Tup) else [b]
    out = []
    pos = 0
    for m in hre.finditer(r"%(?:\((\w+)\))?([-+ #0]*)(\d+)?(?:\.(\d+))?([sdrfgexi%])", a):
        out.append(a[pos:m.start()])
        pos = m.end()
        if m.group(5) == "%":
            out.append("%")
            continue
        if m.group(1):
            v = getitem(eng, eng.force(b), m.group(1))
        else:
            if not args:
                eng.raise_("TypeError", "not enough arguments for format string")
            v = args.pop(0)
        if m.group(5) == "r":
            s = repr_of(eng, v)
        elif m.group(5) == "s":
            s = str_of(eng, v)
            if m.group(4):
                s = strs.slice_(eng, s, 0, int(m.group(4)))
        else:
            fv = eng.force(v)
            if isinstance(fv, (int, float, Decimal)):
                out.append(("%" + (m.group(2) or "") + (m.group(3) or "") + ("." + m.group(4) if m.group(4) else "") + m.group(5)) % fv)
                continue
            if isinstance(fv, (str, AStr)) or fv is None:
                eng.raise_("TypeError", "%d format: a number is required")
            s = AStr([Atom(("pct", m.group(0), repr(fv)), None, minlen=1, kind="num", edge=True)])
        if isinstance(s, Top):
            return Top("percent")
        if m.group(3):
            s = strs.pad(eng, s, int(m.group(3)), "<" if "-" in m.group(2) else ">", "0" if "0" in m.group(2) and m.group(5) in "dfgei" else " ")
        out.extend(strs.segs_of(s))
    out.append(a[pos:])
    return strs.mk(out)


# ------------------------------------------------------------------ iteration
ENDLESS = ("count", "repeat", "cycle", "spent")


def iter_items(eng, v, consume=False):
    if isinstance(v, Tup):
        return v.items
    if isinstance(v, str):
        return tuple(v)
    if isinstance(v, bytes):
        return tuple(v)
    if isinstance(v, AStr):
        segs = strs.simple(eng, v, "iterate")
        out = []
        for s in segs:
            if isinstance(s, str):
                out.extend(s)
            else:
                out.append(Star((AStr([Atom(("char", s.name), s.only, s.forbid, 1, 1)]),)))
        return tuple(out)
    if isinstance(v, VarsView):
        return tuple(k for k in dict_keys_items(eng, vars_dict(eng, v)))
    if isinstance(v, Ref):
        h = eng.get(v.a)
        if h.kind == "set" and h.meta is None and eng.setorder < 0:
            return h.data[::-1]      # the order of a set is not specified
        if h.kind in ("list", "set"):
            return h.data
        if h.kind == "iter":
            if h.cls in ENDLESS:
                raise Unsupported("content of an endless iterator (%s)" % h.cls)
            items = h.data
            if consume:
                eng.set(v.a, h.with_data(()))
            return items
        if h.kind == "dict":
            return tuple(dict_keys_items(eng, h.data))
        if h.kind == "class" and "#members" in h.data:
            return tuple(h.data["#members"])
        if h.kind == "obj":
            f = eng.lookup_class_attr(h.cls, "__iter__")
            if isinstance(f, FuncV):
                it = eng.force(eng.call(Bound(f, v), [], {}))
                if isinstance(it, Ref) and eng.get(it.a).kind == "obj":
                    g = eng.lookup_class_attr(eng.get(it.a).cls, "__next__")
                    if isinstance(g, FuncV):
                        out = []
                        while True:
                            try:
                                out.append(eng.call(Bound(g, it), [], {}))
                            except PyRaise as e:
                                if eng.exc_matches(e.value, eng.builtins["StopIteration"]):
                                    return tuple(out)
                                raise
                            if len(out) > 500:
                                raise Unsupported("iterator without an end in sight")
                return eng.iter_items(it, consume)
            if isinstance(h.cls, XC) and h.cls.name == FILE.name:
                from . import ext
                txt = ext.file_content(eng, v)
                parts = strs.split(eng, txt, "\n")
                return tuple(strs.concat(p, "\n") for p in parts[:-1]) + ((parts[-1],) if parts[-1] != "" else ())
            r = ext_iter(eng, v, h)
            if r is not None:
                return r
        if h.kind == "top":
            return (Star((Top("iter"),)),)
    if isinstance(v, Top):
        return (Star((Top("iter"),)),)
    eng.raise_("TypeError", "'%s' object is not iterable" % type_name(eng, v))


def ext_iter(eng, v, h):
    if isinstance(h.cls, XC) and "children" in h.data:
        return eng.get(h.data["children"].a).data
    return None


def dict_keys_items(eng, d):
    for k, v in d.items():
        if isinstance(k, str) and k.startswith("#"):
            continue
        v = eng.res(v)
        if v is UNBOUND:
            continue
        if type(v) is Choice and any(x is UNBOUND for x in v.br.values()):
            yield Alt(v.o, {c: (() if x is UNBOUND else (k,)) for c, x in v.br.items()})
        else:
            yield k


def dict_items(eng, d):
    """[(k, v)] of a definite dict"""
    d = eng.force(d)
    if isinstance(d, VarsView):
        data = vars_dict(eng, d)
    else:
        data = eng.get(d.a).data
    out = []
    for k, v in data.items():
        if isinstance(k, str) and k.startswith("#"):
            continue
        v = eng.res(v)
        if type(v) is Choice and any(x is UNBOUND for x in v.br.values()):
            v = eng.force(v)
        if v is UNBOUND:
            continue
        out.append((k, v))
    return out


def dict_items_content(eng, data, f):
    out = []
    for k, v in data.items():
        if isinstance(k, str) and k.startswith("#"):
            continue
        v = eng.res(v)
        if v is UNBOUND:
            continue
        if type(v) is Choice and any(x is UNBOUND for x in v.br.values()):
            out.append(Alt(v.o, {c: (() if x is UNBOUND else (f(k, x),)) for c, x in v.br.items()}))
        else:
            out.append(f(k, v))
    return tuple(out)


def vars_dict(eng, v):
    h = eng.get(v.a)
    if h.kind == "class":
        return h.data["#ns"]
    if h.kind == "frame":
        return h.data
    return {k: x for k, x in h.data.items() if not (isinstance(k, str) and k.startswith("#"))}


def vars_contains(eng, v, k):
    return dict_lookup_data(eng, vars_dict(eng, v), k) is not ABSENT


def dict_lookup(eng, d, k):
    if isinstance(d, VarsView):
        return dict_lookup_data(eng, vars_dict(eng, d), k)
    h = eng.get(d.a)
    if h.data.get("#top"):
        return Top("dict")
    return dict_lookup_data(eng, h.data, k)


def hashable_const(k):
    return k is None or isinstance(k, (str, bytes, int, float, Decimal, bool, Ref, BT, XC, Tup, FuncV, AEnum, NTClass, BF, GAlias))


def dict_lookup_data(eng, data, k):
    if isinstance(k, Top):
        return Top("dict lookup")
    if isinstance(k, Ref) and eng.get(k.a).kind in ("list", "dict", "set"):
        eng.raise_("TypeError", "unhashable type")
    if isinstance(k, str) and k.startswith("#"):
        return ABSENT
    if hashable_const(k) and k in data:
        v = eng.res(data[k])
        if type(v) is Choice and any(x is UNBOUND for x in v.br.values()):
            v = eng.force(v)
        return ABSENT if v is UNBOUND else v
    # abstract keys
    if isinstance(k, AStr):
        if k in data:
            return eng.res(data[k])
        for kk, v in data.items():
            if isinstance(kk, (str, AStr)) and not (isinstance(kk, str) and kk.startswith("#")):
                if eng.equals(kk, k):
                    return eng.force(v) if type(v) is Choice and any(x is UNBOUND for x in v.br.values()) else v
        return ABSENT
    if isinstance(k, (AEnum, ADec, Tup)):
        for kk, v in data.items():
            if type(kk) in (AEnum, ADec, Tup, Ref) and eng.equals(kk, k):
                return v
        return ABSENT
    if isinstance(k, (str, Ref, Tup)):
        for kk, v in data.items():
            if isinstance(kk, (AStr, AEnum)) or (isinstance(kk, Tup) and isinstance(k, Tup)):
                if eng.equals(kk, k):
                    return v
    return ABSENT


def dict_len_truth(eng, v):
    h = eng.get(v.a)
    if h.data.get("#top"):
        return eng.anon("dicttruth")
    items = tuple(dict_keys_items(eng, h.data))
    return eng.nonempty(items, None)


def dict_update(eng, d, other):
    other = eng.force(other)
    if isinstance(other, Top):
        setd(eng, d, {"#top": True})
        return
    if isinstance(other, VarsView) or (isinstance(other, Ref) and eng.get(other.a).kind == "dict"):
        data = vars_dict(eng, other) if isinstance(other, VarsView) else eng.get(other.a).data
        h = eng.get(d.a)
        nd = dict(h.data)
        for k, v in data.items():
            if isinstance(k, str) and k.startswith("#") and k != "#top":
                continue
            nd[k] = v
        eng.set(d.a, h.with_data(nd))
        return

    def body(p):
        p = eng.definite(eng.iter_items(p))
        eng.setitem(d, p[0], p[1])
        from .engine import NORMAL
        return NORMAL
    eng.loop(eng.iter_items(other, True), body)


def setd(eng, d, data):
    h = eng.get(d.a)
    eng.set(d.a, h.with_data(data))


# ------------------------------------------------------------------ lists
def list_extend(eng, l, v):
    items = eng.iter_items(v, consume=True)
    h = eng.get(l.a)
    eng.set(l.a, h.with_data(h.data + tuple(items)))


def items_len(eng, items):
    items = eng.resolve_items(items)
    lo = hi = 0
    for i in items:
        if type(i) is Alt:
            raise NeedChoice(i.o, i.br.keys())
        if type(i) is Star:
            hi = None
        else:
            lo += 1
            if hi is not None:
                hi += 1
    if hi is not None:
        return lo
    return AInt(lo, None, ("len", repr(items)[:80]))


def item_at(eng, items, i, err="list index out of range"):
    items = eng.resolve_items(items)
    if isinstance(i, (AInt, ALin)):
        cands = flat_items(items)
        if not cands:
            eng.raise_("IndexError", err)
        o = eng.anon_name("idx")
        return cands[eng.choose(o, tuple(range(len(cands))))] if len(cands) > 1 else cands[0]
    if not isinstance(i, int):
        if isinstance(i, Top):
            return Top("index")
        eng.raise_("TypeError", "indices must be integers")
    seq = items if i >= 0 else tuple(reversed(items))
    n = i if i >= 0 else -i - 1
    for x in seq:
        if type(x) is Alt:
            raise NeedChoice(x.o, x.br.keys())
        if type(x) is Star:
            # element n may fall into the repetition
            o = ("nonempty", base_tag(x.tag)) if x.tag is not None else eng.anon_name("nonempty")
            if eng.choose(o, (True, False)):
                inner = eng.resolve_items(x.items)
                if type(inner[0]) is Alt:
                    raise NeedChoice(inner[0].o, inner[0].br.keys())
                return inner[0] if i >= 0 else inner[-1]
            continue
        if n == 0:
            return eng.res(x)
        n -= 1
    eng.raise_("IndexError", err)


def flat_items(items):
    out = []
    for i in items:
        if type(i) is Alt:
            for b in i.br.values():
                out.extend(flat_items(b))
        elif type(i) is Star:
            out.extend(flat_items(i.items))
        else:
            out.append(i)
    return out


def slice_items(eng, items, s):
    items = eng.resolve_items(items)
    items = tuple(i for i in items if type(i) is not Star or i.tag is None or eng.pc.get(("nonempty", base_tag(i.tag))) is not False)
    lo, hi, st = s.lo, s.hi, s.step
    if any(isinstance(x, Top) for x in (lo, hi, st)):
        return (Star((Top("slice"),)),)
    d = eng.definite(items) if not any(type(i) is Star for i in items) else None
    if d is not None and all(x is None or isinstance(x, int) for x in (lo, hi, st)):
        return tuple(d[slice(lo, hi, st)])
    if st in (None, 1) and hi is None and (lo is None or (isinstance(lo, int) and lo >= 0)):
        out = list(items)
        n = lo or 0
        while n > 0 and out:
            if type(out[0]) is Alt:
                raise NeedChoice(out[0].o, out[0].br.keys())
            if type(out[0]) is Star:
                if len(out) == 1 and out[0].tag is not None:
                    if eng.choose(("longer", out[0].tag, n), (True, False)):
                        return (Star(out[0].items, Part("only from [%d:]" % n, n, out[0].tag)),)
                    return ()
                return tuple(out)
            out.pop(0)
            n -= 1
        return tuple(out)
    if st in (None, 1) and lo in (None, 0) and isinstance(hi, int) and hi >= 0:
        out = []
        for x in items:
            if len(out) == hi:
                return tuple(out)
            if type(x) in (Alt, Star):
                break
            out.append(x)
        else:
            return tuple(out)
    if st == -1 and lo is None and hi is None:
        return reverse_items(items)
    if st in (None, 1) and lo in (None, 0) and isinstance(hi, int) and hi < 0:
        out = list(items)
        n = -hi
        while n and out and type(out[-1]) not in (Alt, Star):
            out.pop()
            n -= 1
        if not n or not out:
            return tuple(out)
    if st in (None, 1) and lo in (None, 0) and isinstance(hi, int) and hi and len(items) == 1 and type(items[0]) is Star and items[0].tag is not None:
        if hi < 0 or eng.choose(("longer", items[0].tag, hi), (True, False)):
            return (Star(items[0].items, Part("only up to [:%d]" % hi, hi, items[0].tag)),)
        return items
    if all(x is None or isinstance(x, (int, AInt, ALin)) for x in (lo, hi)) and st in (None, 1):
        fl = flat_items(items)
        if not fl:
            return ()
        if len(fl) == 1:
            return (Star((fl[0],)),)
        o = eng.anon_name("slice")
        return (Star((Alt(o, {i: (x,) for i, x in enumerate(fl)}),)),)
    raise Unsupported("slice of content of unknown length at %s" % eng.where())


def reverse_items(items):
    out = []
    for i in reversed(items):
        if type(i) is Alt:
            out.append(Alt(i.o, {c: reverse_items(b) for c, b in i.br.items()}))
        elif type(i) is Star:
            out.append(Star(reverse_items(i.items), i.tag))
        else:
            out.append(i)
    return tuple(out)


def list_index(eng, items, v, start=0, stop=None):
    items = eng.resolve_items(items)
    d = eng.definite(items)
    if d is None:
        raise Unsupported("index() on content of unknown length")
    if isinstance(start, int) and start < 0:
        start = max(0, len(d) + start)
    if not isinstance(start, int) or not (stop is None or isinstance(stop, int)):
        raise Unsupported("index() with abstract bounds")
    end = len(d) if stop is None else (stop if stop >= 0 else len(d) + stop)
    if isinstance(v, str):
        for i in range(start, min(end, len(d))):
            x = d[i]
            if type(x) is str:
                if x == v:
                    return i
            elif eng.equals(x, v):
                return i
    else:
        for i in range(start, min(end, len(d))):
            if eng.equals(d[i], v):
                return i
    eng.raise_("ValueError", "not in list")


def set_add(eng, s, v):
    v = eng.force(v)
    if isinstance(v, Ref) and eng.get(v.a).kind in ("list", "dict", "set"):
        eng.raise_("TypeError", "unhashable type")
    h = eng.get(s.a)
    mem = set_members(h.data)
    if mem is None:
        if not any(same(i, v) for i in h.data):
            eng.set(s.a, h.with_data(h.data + (v,)))
        return
    if any(same(i, v) for i in mem):
        return
    und = []
    for i in mem:
        try:
            if eng.equals(i, v):
                return
        except NeedChoice as x:
            if x.esc or set(x.choices) != {True, False} or not isinstance(i, AStr) and not isinstance(v, AStr):
                raise
            und.append(x.o)
    item = (v,)
    for o in reversed(und):
        item = (Alt(o, {True: (), False: item}),)
    eng.set(s.a, h.with_data(h.data + item))


def set_members(items):
    """all values possibly in the set, when each is absent only if it equals another one"""
    out = []
    for i in items:
        while type(i) is Alt and set(i.br) == {True, False} and i.br[True] == () and len(i.br[False]) == 1 and _is_eq(i.o):
            i = i.br[False][0]
        if type(i) in (Alt, Star):
            return None
        out.append(i)
    return out


def _is_eq(o):
    return isinstance(o, tuple) and len(o) and isinstance(o[0], str) and (o[0].startswith("eq") or o[0] == "anon" and str(o[1]).startswith("eq"))


def set_len(eng, s):
    """number of members; None if it is to be found in the ordinary way"""
    d = eng.get(s.a).data
    if not any(type(i) is Alt for i in d):
        return None
    mem = set_members(d)
    if mem is None:
        return None
    d = eng.resolve_items(d)
    hi = len(d)
    lo = max(1, len([i for i in d if type(i) is not Alt]))
    return lo if lo == hi else eng.choose(("setlen", hashlib.sha1(repr([_guards(i) for i in d]).encode()).hexdigest()), tuple(range(lo, hi + 1)))


def _guards(item):
    """the equalities a possible member of a set depends on"""
    out = []
    while type(item) is Alt:
        out.append(item.o)
        item = item.br[False][0]
    return out


def set_binop(eng, op, a, b):
    import ast
    if not (isinstance(a, Ref) and isinstance(b, Ref)):
        a2, b2 = a, b
        if isinstance(a, Ref) and eng.get(a.a).kind == "set" and isinstance(b, VarsView):
            pass
        else:
            return None
    ka = eng.get(a.a).kind if isinstance(a, Ref) else "set"
    kb = eng.get(b.a).kind if isinstance(b, Ref) else "set"
    if ka == "dict" and kb == "dict" and isinstance(op, ast.BitOr):
        r = eng.mkdict()
        dict_update(eng, r, a)
        dict_update(eng, r, b)
        return r
    if ka not in ("set",) or kb not in ("set", "dict"):
        return None
    x = eng.definite(eng.iter_items(a))
    y = eng.definite(eng.iter_items(b))
    if x is None or y is None:
        raise Unsupported("set operation on content of unknown size")
    yl = eng.new(H("list", None, tuple(y)))
    xl = eng.new(H("list", None, tuple(x)))
    if isinstance(op, ast.BitOr):
        r = eng.new(H("set", None, tuple(x)))
        for i in y:
            set_add(eng, r, i)
        return r
    if isinstance(op, ast.BitAnd):
        return eng.new(H("set", None, tuple(i for i in x if eng.contains(yl, i))))
    if isinstance(op, ast.Sub):
        return eng.new(H("set", None, tuple(i for i in x if not eng.contains(yl, i))))
    return eng.new(H("set", None, tuple(i for i in x if not eng.contains(yl, i)) + tuple(
        i for i in y if not eng.contains(xl, i))))


def star_within(eng, items, chars):
    """are all characters among the items (single characters of texts) in the set"""
    for i in eng.resolve_items(items):
        for x in flat_items(i.items) if type(i) is Star else (i,):
            x = eng.res(x)
            if isinstance(x, str):
                if x not in chars:
                    if type(i) is Star:
                        raise Unsupported("set of texts of unknown number")
                    return False
                continue
            segs = x.segs if isinstance(x, AStr) else ()
            if len(segs) != 1 or not isinstance(segs[0], Atom) or segs[0].name[0] != "char":
                raise Unsupported("comparison of sets of unknown size")
            at = segs[0]
            cs = at.only - at.forbid if at.only is not None else None
            if cs is not None and cs <= chars:
                continue
            if not eng.choose(("within", repr(at.name), "".join(sorted(chars))), (True, False)):
                return False
    return True


def set_order(eng, op, a, b):
    import ast
    if isinstance(a, Ref) and isinstance(b, Ref) and eng.get(a.a).kind == "set" and eng.get(b.a).kind == "set":
        x = eng.definite(eng.iter_items(a))
        y = eng.definite(eng.iter_items(b))
        if x is None and y is not None and isinstance(op, ast.LtE) and all(isinstance(i, str) for i in y):
            return star_within(eng, eng.iter_items(a), frozenset(y))
        if y is None and x is not None and isinstance(op, ast.GtE) and all(isinstance(i, str) for i in x):
            return star_within(eng, eng.iter_items(b), frozenset(x))
        if x is None or y is None:
            raise Unsupported("comparison of sets of unknown size")
        sub = all(eng.contains(b, i) for i in x)
        sup = all(eng.contains(a, i) for i in y)
        return {ast.LtE: sub, ast.GtE: sup, ast.Lt: sub and not sup, ast.Gt: sup and not sub}[type(op)]
    return None


# ------------------------------------------------------------------ item access
def getitem(eng, o, i):
    if isinstance(o, Top):
        return Top("item")
    if isinstance(o, (str, bytes, AStr)):
        if isinstance(i, SliceV):
            if any(isinstance(x, Top) for x in (i.lo, i.hi, i.step)):
                return Top("slice")
            return strs.slice_(eng, o, i.lo, i.hi, i.step)
        return strs.char_at(eng, o, i)
    if isinstance(o, Tup):
        if isinstance(i, SliceV):
            return Tup(slice_items(eng, o.items, i))
        return item_at(eng, o.items, i, "tuple index out of range")
    if isinstance(o, VarsView):
        r = dict_lookup_data(eng, vars_dict(eng, o), i)
        if r is ABSENT:
            eng.raise_("KeyError", i)
        return r
    if isinstance(o, Ref):
        h = eng.get(o.a)
        if h.kind == "list":
            if isinstance(i, SliceV):
                return eng.mklist(slice_items(eng, h.data, i))
            return item_at(eng, h.data, i)
        if h.kind == "dict":
            r = dict_lookup(eng, o, i)
            if r is ABSENT:
                if h.meta and "factory" in h.meta:
                    v = eng.call(h.meta["factory"], [], {})
                    setitem(eng, o, i, v)
                    return v
                eng.raise_("KeyError", i)
            return r
        if h.kind == "class":
            if "#members" in h.data:
                for m in h.data["#members"]:
                    if eng.equals(eng.get(m.a).data["_name_"], i):
                        return m
                eng.raise_("KeyError", i)
            return GAlias(o, i.items if isinstance(i, Tup) else (i,))
        if h.kind == "obj":
            f = eng.lookup_class_attr(h.cls, "__getitem__")
            if isinstance(f, FuncV):
                return eng.call(Bound(f, o), [i], {})
            if isinstance(h.cls, XC):
                return EXT_getitem(eng, o, h, i)
        if h.kind == "top":
            return Top("item")
    if isinstance(o, (GAlias, BT, XC)):
        args = i.items if isinstance(i, Tup) else (i,)
        if isinstance(o, GAlias):
            if o.origin == "Optional":
                return GAlias("Union", tuple(args) + (NONETYPE,))
            return GAlias(o.origin, args)
        return GAlias(o, args)
    eng.raise_("TypeError", "'%s' object is not subscriptable" % type_name(eng, o))


def EXT_getitem(eng, o, h, i):
    from . import ext
    return ext.getitem(eng, o, h, i)


def setitem(eng, o, i, v):
    if isinstance(o, VarsView):
        h = eng.get(o.a)
        if h.kind == "frame":
            eng.setvar(o.a, i, v)
        else:
            eng.setattr_(Ref(o.a), i, v)
        return
    if isinstance(o, Top):
        return
    if isinstance(o, Ref):
        h = eng.get(o.a)
        if h.kind == "dict":
            if isinstance(i, Top):
                eng.set(o.a, h.with_data(dict(h.data, **{"#top": True})))
                return
            if isinstance(i, Ref) and eng.get(i.a).kind in ("list", "dict", "set"):
                eng.raise_("TypeError", "unhashable type")
            key = i
            if isinstance(i, (AStr, AEnum, str, Ref, Tup)) and not (hashable_const(i) and i in h.data):
                for kk in h.data:
                    if isinstance(kk, (AStr, AEnum)) or isinstance(i, (AStr, AEnum)):
                        if isinstance(kk, str) and kk.startswith("#"):
                            continue
                        if eng.equals(kk, i):
                            key = kk
                            break
            d = dict(h.data)
            d[key] = v
            eng.set(o.a, h.with_data(d))
            return
        if h.kind == "list":
            items = eng.resolve_items(h.data)
            if isinstance(i, SliceV):
                d = eng.definite(items)
                if d is None:
                    if i.lo is None and i.hi is None:
                        eng.set(o.a, h.with_data(tuple(eng.iter_items(v, True))))
                        return
                    raise Unsupported("slice assignment")
                l = list(d)
                l[slice(i.lo, i.hi, i.step)] = list(eng.iter_items(v, True))
                eng.set(o.a, h.with_data(tuple(l)))
                return
            if isinstance(i, int):
                pre = []
                idx = i
                if i >= 0 and len(items) > i and not any(type(x) in (Alt, Star) for x in items[:i + 1]):
                    l = list(items)
                    l[i] = v
                    eng.set(o.a, h.with_data(tuple(l)))
                    return
                if i < 0 and len(items) >= -i and not any(type(x) in (Alt, Star) for x in items[i:]):
                    l = list(items)
                    l[i] = v
                    eng.set(o.a, h.with_data(tuple(l)))
                    return
                d = eng.definite(items)
                if d is None:
                    raise Unsupported("item assignment in content of unknown length")
                eng.raise_("IndexError", "list assignment index out of range")
            if isinstance(i, (AInt, ALin)):
                # weak update of some element
                eng.set(o.a, h.with_data(weak_update(eng, items, v)))
                return
            raise Unsupported("list item assignment")
        if h.kind == "obj":
            f = eng.lookup_class_attr(h.cls, "__setitem__")
            if isinstance(f, FuncV):
                eng.call(Bound(f, o), [i, v], {})
                return
            if isinstance(h.cls, XC):
                from . import ext
                return ext.setitem(eng, o, h, i, v)
        if h.kind == "top":
            return
    eng.raise_("TypeError", "'%s' object does not support item assignment" % type_name(eng, o))


def weak_update(eng, items, v):
    out = []
    for i in items:
        if type(i) is Star:
            o = eng.anon_name("weak")
            out.append(Star((Alt(o, {0: i.items, 1: (v,)}),), i.tag))
        elif type(i) is Alt:
            out.append(Alt(i.o, {c: weak_update(eng, b, v) for c, b in i.br.items()}))
        else:
            out.append(Choice(eng.anon_name("weak"), {0: i, 1: v}))
    return tuple(out)


def delitem(eng, o, i):
    if isinstance(o, Ref):
        h = eng.get(o.a)
        if h.kind == "dict":
            if dict_lookup(eng, o, i) is ABSENT:
                eng.raise_("KeyError", i)
            d = dict(h.data)
            d.pop(i, None)
            eng.set(o.a, h.with_data(d))
            return
        if h.kind == "list":
            if isinstance(i, SliceV) and i.lo in (None, 0) and i.hi is None:
                eng.set(o.a, h.with_data(()))
                return
            d = eng.definite(h.data)
            if d is None:
                raise Unsupported("del item of content of unknown length")
            l = list(d)
            try:
                if isinstance(i, SliceV):
                    del l[slice(i.lo, i.hi, i.step)]
                else:
                    del l[i]
            except IndexError:
                eng.raise_("IndexError", "")
            eng.set(o.a, h.with_data(tuple(l)))
            return
        if h.kind == "obj" and isinstance(h.cls, XC):
            from . import ext
            return ext.delitem(eng, o, h, i)
    if isinstance(o, VarsView):
        return eng.delattr_(Ref(o.a), i)
    raise Unsupported("del item")


# ------------------------------------------------------------------ classes
def make_class(eng, name, bases, ns, ann, kwargs):
    isenum = False
    if not bases:
        bases = [eng.builtins["object"]]
    mros = []
    for b in bases:
        if isinstance(b, Ref):
            d = eng.get(b.a).data
            mros.append(list(d["#mro"]))
            if "#members" in d:
                isenum = True
        else:
            mros.append(list(eng.mro(b)))
            if isinstance(b, XC) and b.name in ("enum.Enum", "enum.IntEnum", "enum.StrEnum", "enum.Flag"):
                isenum = True
        if isinstance(b, Top):
            raise Unsupported("class %s with unknown base" % name)
    ref = eng.new(H("class", None, {}))
    # C3
    seqs = [list(m) for m in mros] + [list(bases)]
    mro = [ref]
    while any(seqs):
        for s in seqs:
            if not s:
                continue
            c = s[0]
            if not any(any(same(c, x) for x in q[1:]) for q in seqs):
                break
        else:
            raise Unsupported("MRO")
        mro.append(c)
        for s in seqs:
            if s and same(s[0], c):
                s.pop(0)
    data = {"#name": name, "#qual": ns.get("__qualname__", name), "#mro": tuple(mro), "#bases": tuple(bases),
            "#subs": (), "#ns": {k: v for k, v in ns.items()}, "#ann": ann,
            "#module": ns.get("__module__")}
    eng.set(ref.a, H("class", None, data))
    for b in bases:
        if isinstance(b, Ref):
            h = eng.get(b.a)
            eng.set(b.a, h.with_data(dict(h.data, **{"#subs": h.data["#subs"] + (ref.a,)})))
    if isenum:
        make_enum(eng, ref, ns)
    if any(isinstance(b, XC) and b.name == "typing.NamedTuple" for b in bases):
        fields = list(ann)
        defs = [ns[f] for f in fields if f in ns]
        return NTClass(name, fields, tuple(defs), {k: v for k, v in ns.items() if k not in ann and not k.startswith("__")})
    for b in bases:
        if isinstance(b, Ref):
            f = eng.lookup_class_attr(b, "__init_subclass__")
            if isinstance(f, Wrap) and isinstance(f.v, FuncV):
                eng.call(f.v, [ref], kwargs)
            elif isinstance(f, FuncV):
                eng.call(f, [ref], kwargs)
    return ref


def make_enum(eng, ref, ns):
    h = eng.get(ref.a)
    members = []
    names = []
    nsd = dict(h.data["#ns"])
    byval = []
    last = 0
    init = ns.get("__init__")
    data = dict(h.data)
    data["#members"] = ()
    eng.set(ref.a, h.with_data(data))
    mm = {}
    for k, v in ns.items():
        if k.startswith("__") or (k.startswith("_") and k.endswith("_")):
            continue
        if isinstance(v, (FuncV, Wrap, BF)):
            continue
        if isinstance(v, Ref) and eng.get(v.a).kind == "class":
            continue
        if isinstance(v, Ref) and eng.get(v.a).kind == "obj" and isinstance(eng.get(v.a).cls, XC) and eng.get(v.a).cls.name == "enum.auto":
            v = last + 1
        if isinstance(v, int) and not isinstance(v, bool):
            last = v
        dup = None
        for (vv, m) in byval:
            if same(vv, v):
                dup = m
        if dup is not None:
            mm[k] = dup
            nsd[k] = dup
            continue
        m = eng.new(H("obj", ref, {"_name_": k, "_value_": v}))
        byval.append((v, m))
        members.append(m)
        names.append(k)
        mm[k] = m
        nsd[k] = m
    data["#members"] = tuple(members)
    nsd["_member_names_"] = eng.mklist(names)
    nsd["_member_map_"] = eng.mkdict(mm)
    data["#ns"] = nsd
    eng.set(ref.a, h.with_data(data))
    if isinstance(init, FuncV):
        for m in members:
            v = eng.get(m.a).data["_value_"]
            args = list(v.items) if isinstance(v, Tup) else [v]
            eng.call(Bound(init, m), args, {})


def dc_fields(eng, c):
    """ordered {name: field Ref} of a dataclass"""
    f = eng.lookup_class_attr(c, "__dataclass_fields__")
    return dict(eng.get(f.a).data)


def dataclass_decorator(eng, args, kwargs):
    if args and isinstance(eng.force(args[0]), Ref):
        return apply_dataclass(eng, eng.force(args[0]), kwargs)
    return BF("dataclass", lambda e, a, k: apply_dataclass(e, e.force(a[0]), kwargs))


def apply_dataclass(eng, c, kwargs):
    h = eng.get(c.a)
    fields = {}
    for b in reversed(h.data["#mro"][1:]):
        if isinstance(b, Ref):
            f = eng.get(b.a).data["#ns"].get("__dataclass_fields__")
            if f is not None:
                fields.update(eng.get(f.a).data)
    ns = dict(h.data["#ns"])
    for n, t in h.data["#ann"].items():
        if isinstance(t, GAlias) and t.origin == "ClassVar" or (isinstance(t, str) and "ClassVar" in t):
            continue
        v = ns.get(n, UNBOUND)
        if isinstance(v, Ref) and eng.get(v.a).kind == "obj" and same(eng.get(v.a).cls, FIELD):
            fd = dict(eng.get(v.a).data)
        else:
            if isinstance(v, Ref) and eng.get(v.a).kind in ("list", "dict", "set"):
                eng.raise_("ValueError", "mutable default for field %s is not allowed" % n)
            fd = {"default": MISSING if v is UNBOUND else v, "default_factory": MISSING, "init": True, "repr": True,
                  "hash": None, "compare": True, "metadata": eng.mkdict(), "kw_only": False}
        fd["name"] = n
        fd["type"] = t
        fields[n] = eng.new(H("obj", FIELD, fd))
        d = fd["default"]
        if d is not MISSING:
            ns[n] = d
        else:
            ns.pop(n, None)
    ns["__dataclass_fields__"] = eng.mkdict(fields)
    d = dict(h.data)
    d["#ns"] = ns
    d["#dc"] = True
    if kwargs.get("order"):
        d["#order"] = True
    if kwargs.get("slots") or kwargs.get("frozen"):
        d["#frozen"] = kwargs.get("frozen", False)
    eng.set(c.a, h.with_data(d))
    return c


def instantiate(eng, c, args, kwargs):
    h = eng.get(c.a)
    if "#members" in h.data:
        # enum lookup by value
        if len(args) != 1:
            raise Unsupported("functional enum API")
        v = eng.force(args[0])
        if isinstance(v, AEnum) and v.cls.a == c.a:
            return v
        if isinstance(v, AStr) and len(v.segs) == 1 and isinstance(v.segs[0], Atom) and isinstance(
                v.segs[0].info, tuple) and v.segs[0].info[0] == "enumvalue" and v.segs[0].info[1].a == c.a:
            return AEnum(c, v.segs[0].info[2])
        for m in h.data["#members"]:
            if (isinstance(v, Ref) and v.a == m.a) or eng.equals(eng.get(m.a).data["_value_"], v):
                return m
        f = eng.lookup_class_attr(c, "_missing_")
        if isinstance(f, Wrap):
            r = eng.call(f.v, [c, v], {})
            if r is not None:
                return r
        eng.raise_("ValueError", "%r is not a valid %s" % (v, h.data["#name"]))
    # exception classes
    new = eng.lookup_class_attr(c, "__new__")
    isexc = any(isinstance(x, BT) and x.host is not None and isinstance(x.host, type) and issubclass(x.host, BaseException)
                for x in h.data["#mro"])
    if isinstance(new, (FuncV, Wrap)):
        nf = new.v if isinstance(new, Wrap) else new
        o = eng.call(nf, [c] + list(args), kwargs)
        o = eng.force(o)
        if not (isinstance(o, Ref) and eng.get(o.a).kind == "obj" and eng.is_subclass(eng.get(o.a).cls, c)):
            return o
    else:
        o = eng.new(H("obj", c, {"args": Tup(args)} if isexc else {}))
    init = eng.lookup_class_attr(c, "__init__")
    if isinstance(init, FuncV):
        eng.call(Bound(init, o), args, kwargs)
        return o
    for k in h.data["#mro"]:
        if isinstance(k, Ref) and eng.get(k.a).data.get("#dc"):
            dc_init(eng, o, c, args, kwargs)
            return o
        if isinstance(k, XC):
            f = xc_init(eng, k)
            if f is not None:
                f(eng, o, args, kwargs)
                return o
    if isexc:
        return o
    if (args or kwargs) and not isinstance(new, (FuncV, Wrap)):
        eng.raise_("TypeError", "%s() takes no arguments" % h.data["#name"])
    return o


def xc_init(eng, k):
    from . import ext
    return ext.INIT.get(k.name)


def dc_init(eng, o, c, args, kwargs):
    fields = dc_fields(eng, c)
    kw = dict(kwargs)
    args = list(args)
    data = {}
    for n, f in fields.items():
        fd = eng.get(f.a).data
        if fd["init"] is False:
            if fd["default_factory"] is not MISSING:
                data[n] = eng.call(fd["default_factory"], [], {})
            continue
        if args and not fd.get("kw_only"):
            data[n] = args.pop(0)
            if n in kw:
                eng.raise_("TypeError", "multiple values for %s" % n)
        elif n in kw:
            data[n] = kw.pop(n)
        elif fd["default"] is not MISSING:
            data[n] = fd["default"]
        elif fd["default_factory"] is not MISSING:
            data[n] = eng.call(fd["default_factory"], [], {})
        else:
            eng.raise_("TypeError", "missing argument %s" % n)
    if args:
        eng.raise_("TypeError", "too many positional arguments for %s" % cls_name(eng, c))
    if kw:
        eng.raise_("TypeError", "unexpected keyword argument %s" % sorted(kw)[0])
    h = eng.get(o.a)
    d = dict(h.data)
    d.update(data)
    eng.set(o.a, h.with_data(d))
    p = eng.lookup_class_attr(c, "__post_init__")
    if isinstance(p, FuncV):
        eng.call(Bound(p, o), [], {})


def make_super(eng, env):
    e = env
    while e is not None and (e.func is None or e.func.cls is None):
        e = e.parent
    if e is None:
        raise Unsupported("super()")
    cls = e.func.cls
    first = e.func.node.args.args[0].arg
    selfv = eng.heap[e.frame].data[first]
    return Wrap("super", cls, eng.res(selfv))


def super_attr(eng, w, name):
    cls, obj = w.v, w.extra
    oc = eng.type_of(obj)
    if isinstance(obj, Ref) and eng.get(obj.a).kind == "class":
        oc = obj
    mro = list(eng.mro(oc))
    i = [n for n, x in enumerate(mro) if same(x, cls)][0]
    for k in mro[i + 1:]:
        if isinstance(k, Ref):
            ns = eng.get(k.a).data["#ns"]
            if name in ns:
                return eng.bind(ns[name], obj, oc)
            if name == "__init__" and eng.get(k.a).data.get("#dc"):
                return BF("init", lambda e, a, kw: dc_init(e, obj, k, a, kw))
        elif isinstance(k, XC):
            from . import ext
            if name == "__init__" and k.name in ext.INIT:
                return BF("init", lambda e, a, kw: ext.INIT[k.name](e, obj, a, kw))
            v = xc_attr(eng, k, name)
            if v is not UNBOUND:
                return eng.bind(v, obj, oc)
    if name == "__init__":
        def f(e, a, kw):
            h = e.get(obj.a)
            if "args" in h.data:
                e.set(obj.a, h.with_data(dict(h.data, args=Tup(a))))
        return BF("object.__init__", f)
    if name == "__new__":
        return BF("object.__new__", lambda e, a, kw: e.new(H("obj", a[0], {})))
    if name == "__init_subclass__":
        return BF("x", lambda e, a, kw: None)
    if name == "__setattr__":
        return BF("object.__setattr__", lambda e, a, kw: e.setattr_(obj, a[0], a[1], True))
    return UNBOUND


def abc_check(eng, c, t):
    n = t.name[4:]
    if isinstance(c, BT):
        m = {"Iterable": ("list", "tuple", "set", "dict", "str", "bytes", "frozenset"),
             "Sequence": ("list", "tuple", "str", "bytes"), "Mapping": ("dict",), "MutableSequence": ("list",),
             "MutableMapping": ("dict",), "Collection": ("list", "tuple", "set", "dict", "str"),
             "Callable": (), "Hashable": ("str", "int", "tuple", "float", "bytes"),
             "Sized": ("list", "tuple", "set", "dict", "str"), "Set": ("set", "frozenset"),
             "Number": ("int", "float", "bool"), "Integral": ("int", "bool"), "Real": ("int", "float", "bool"),
             "Iterator": (), "Container": ("list", "tuple", "set", "dict", "str"), "ByteString": ("bytes",),
             "PathLike": ()}
        return c.name in m.get(n, ())
    if isinstance(c, XC):
        if c.name == "decimal.Decimal":
            return n in ("Number", "Hashable")
        if c.name == PATH.name:
            return n in ("PathLike", "Hashable")
        if c.name == ITERTYPE.name:
            return n in ("Iterable", "Iterator")
    if isinstance(c, Ref) and n == "Hashable":
        return True
    if isinstance(c, Ref) and n == "Iterable":
        return eng.lookup_class_attr(c, "__iter__") is not UNBOUND
    return False


# ------------------------------------------------------------------ caches
def cache_decorator(eng, f):
    w = Wrap("cached", f, eng.mklist().a)
    return w


def call_cached(eng, w, args, kwargs):
    key = Tup([eng.force(a) for a in args] + [Tup((k, v)) for k, v in sorted(kwargs.items())])
    for a in key.items:
        if isinstance(a, Ref) and eng.get(a.a).kind in ("list", "dict", "set"):
            eng.raise_("TypeError", "unhashable type")
        if isinstance(a, Ref) and eng.get(a.a).kind == "obj":
            c = eng.get(a.a).cls
            if isinstance(c, Ref) and eng.get(c.a).data.get("#dc") and not eng.is_enum_class(c):
                eng.raise_("TypeError", "unhashable type: '%s'" % cls_name(eng, c))
    h = eng.get(w.extra)
    for ent in h.data:
        if type(ent) is Tup and same(ent.items[0], key):
            return ent.items[1]
    v = eng.call(w.v, args, kwargs)
    h = eng.get(w.extra)
    eng.set(w.extra, h.with_data(h.data + (Tup((key, v)),)))
    return v


# ------------------------------------------------------------------ deepcopy
def deepcopy(eng, v, memo=None, shallow=False):
    memo = {} if memo is None else memo
    if type(v) is Choice:
        return Choice(v.o, {c: deepcopy(eng, x, memo) for c, x in v.br.items()})
    if type(v) is Alt:
        return Alt(v.o, {c: tuple(deepcopy(eng, x, memo) for x in b) for c, b in v.br.items()})
    if type(v) is Star:
        return Star(tuple(deepcopy(eng, x, memo) for x in v.items), v.tag)
    if type(v) is Tup:
        return Tup(tuple(deepcopy(eng, x, memo) for x in v.items), v.cls)
    if type(v) is Ref:
        if v.a in memo:
            return memo[v.a]
        h = eng.get(v.a)
        if h.kind in ("class", "module", "frame"):
            return v
        if h.kind == "obj" and eng.is_enum_class(eng.force(h.cls)):
            return v
        if h.kind == "obj":
            f = eng.lookup_class_attr(h.cls, "__deepcopy__")
            if isinstance(f, FuncV):
                return eng.call(Bound(f, v), [eng.mkdict()], {})
        r = eng.new(H(h.kind, h.cls, () if isinstance(h.data, tuple) else {}, h.meta))
        memo[v.a] = r
        if isinstance(h.data, tuple):
            d = tuple(deepcopy(eng, x, memo) for x in h.data)
        elif isinstance(h.data, dict):
            d = {(deepcopy(eng, k, memo) if isinstance(k, Tup) else k): deepcopy(eng, x, memo) for k, x in h.data.items()}
        else:
            d = h.data
        eng.set(r.a, H(h.kind, h.cls, d, h.meta))
        return r
    return v


def shallow_copy(eng, v):
    v = eng.force(v)
    if isinstance(v, Ref):
        h = eng.get(v.a)
        if h.kind in ("list", "dict", "set", "obj") and not (h.kind == "obj" and eng.is_enum_class(eng.force(h.cls))):
            return eng.new(H(h.kind, h.cls, h.data, {k: x for k, x in (h.meta or {}).items() if k == "factory"} or None))
    return v


# ------------------------------------------------------------------ attributes of non-heap values
def value_attr(eng, o, name):
    if isinstance(o, (str, bytes, AStr)):
        f = STR_METHODS.get(name)
        if f:
            return Bound(f, o)
        if name in ("__class__",):
            return eng.type_of(o)
        if name == "__len__":
            return BF("len", lambda e, a, k: strs.length(e, o))
        if hasattr("", name):
            raise Unsupported("str.%s" % name)
        return UNBOUND
    if isinstance(o, AEnum):
        h = eng.get(o.cls.a)
        if name in ("value", "_value_"):
            return AStr([enum_atom(eng, o)])
        if name in ("name", "_name_"):
            return AStr([Atom(("membername", o.name), forbid="=[]\n \t", minlen=1, edge=True)])
        if name == "__class__":
            return o.cls
        f = eng.lookup_class_attr(o.cls, name)
        if f is not UNBOUND:
            return eng.bind(f, o, o.cls)
        return UNBOUND
    if isinstance(o, (Decimal, ADec)):
        f = DEC_METHODS.get(name)
        if f:
            return Bound(f, o)
        if name == "__class__":
            return DECIMAL
        if hasattr(Decimal(0), name):
            return BF("Decimal." + name, lambda e, a, k: ADec(Atom((name, repr(o), repr(a)), NUMCHARS, minlen=1, kind="num", edge=True)))
        return UNBOUND
    if isinstance(o, Tup):
        if o.cls is not None:
            if name in o.cls.fields:
                return o.items[o.cls.fields.index(name)]
            if name in o.cls.ns:
                return eng.bind(o.cls.ns[name], o, o.cls)
            if name == "_fields":
                return Tup(o.cls.fields)
            if name == "_asdict":
                return BF("_asdict", lambda e, a, k: e.mkdict(dict(zip(o.cls.fields, o.items))))
            if name == "_replace":
                return BF("_replace", lambda e, a, k: Tup([k.get(f, x) for f, x in zip(o.cls.fields, o.items)], o.cls))
        if name == "index":
            return BF("index", lambda e, a, k: list_index(e, o.items, e.force(a[0]), *[e.force(x) for x in a[1:]]))
        if name == "count":
            return BF("count", lambda e, a, k: sum(1 for i in e.definite(o.items) if e.equals(i, a[0])))
        if name == "__class__":
            return eng.type_of(o)
        return UNBOUND
    if isinstance(o, VarsView):
        return container_attr(eng, o, None, name)
    if isinstance(o, (FuncV, Bound)):
        f = o.f if isinstance(o, Bound) else o
        if name == "__name__":
            return getattr(f, "name", "?")
        if name == "__qualname__":
            return getattr(f, "qual", "?")
        if name == "__self__" and isinstance(o, Bound):
            return o.self_
        if name == "__func__" and isinstance(o, Bound):
            return o.f
        if name == "__doc__":
            return None
        if name == "__dict__":
            return eng.mkdict()
        return UNBOUND
    if isinstance(o, Wrap):
        if o.kind == "super":
            return super_attr(eng, o, name)
        if o.kind == "cached":
            if name == "cache_clear":
                def clear(e, a, k):
                    e.set(o.extra, e.get(o.extra).with_data(()))
                return BF("cache_clear", clear)
            if name == "__wrapped__":
                return o.v
            return value_attr(eng, o.v, name)
        if o.kind == "property":
            if name == "setter":
                return BF("setter", lambda e, a, k: Wrap("property", o.v, a[0]))
            if name == "fget":
                return o.v
        if o.kind == "singledispatch" and name == "register":
            return BF("register", lambda e, a, k: singledispatch_register(e, o, a))
        return UNBOUND
    if isinstance(o, BT):
        if name == "__name__" or name == "__qualname__":
            return o.name
        if name in ("__mro__",):
            return Tup(eng.mro(o))
        if o.name == "str" and name in STR_METHODS:
            return STR_METHODS[name]
        if o.name == "str" and name == "maketrans":
            return BF("maketrans", maketrans)
        if o.name == "dict" and name == "fromkeys":
            def fk(e, a, k):
                r = e.mkdict()
                for i in e.definite(e.iter_items(a[0], True)):
                    e.setitem(r, i, a[1] if len(a) > 1 else None)
                return r
            return BF("fromkeys", fk)
        if o.name == "bytes" and name in STR_METHODS:
            return STR_METHODS[name]
        if o.name in ("list", "dict", "set", "tuple") and name in LIST_METHODS | DICT_METHODS.keys() | SET_METHODS.keys():
            return BF(name, lambda e, a, k: e.call(e.getattr_(a[0], name), a[1:], k))
        if o.name == "object":
            if name == "__setattr__":
                return BF("object.__setattr__", lambda e, a, k: e.setattr_(a[0], a[1], a[2], True))
            if name == "__new__":
                return BF("object.__new__", lambda e, a, k: e.new(H("obj", a[0], {})))
            if name == "__getattribute__":
                return BF("object.__getattribute__", lambda e, a, k: e.getattr_(a[0], a[1]))
        if o.name == "float" and name == "fromhex":
            return BF("fromhex", lambda e, a, k: Top("fromhex"))
        if o.name == "int" and name == "from_bytes":
            return BF("from_bytes", lambda e, a, k: Top("from_bytes"))
        return UNBOUND
    if isinstance(o, XC):
        if name in ("__name__", "__qualname__"):
            return o.name.split(".")[-1]
        v = xc_attr(eng, o, name)
        if v is not UNBOUND:
            if isinstance(v, Wrap) and v.kind in ("staticmethod",):
                return v.v
            if isinstance(v, Wrap) and v.kind == "classmethod":
                return Bound(v.v, o)
        return v
    if isinstance(o, NTClass):
        if name == "_fields":
            return Tup(o.fields)
        if name == "_make":
            return BF("_make", lambda e, a, k: Tup(e.definite(e.iter_items(a[0])), o))
        if name == "__name__":
            return o.name
        if name in o.ns:
            v = o.ns[name]
            return v.v if isinstance(v, Wrap) and v.kind == "staticmethod" else Bound(v.v, o) if isinstance(v, Wrap) and v.kind == "classmethod" else v
        return UNBOUND
    if isinstance(o, GAlias):
        if name == "__args__":
            return Tup(o.args)
        if name == "__origin__":
            if o.origin == "Union":
                return GAlias("Union", ())
            if isinstance(o.origin, str):
                return eng.builtins.get(o.origin.lower(), o.origin)
            return o.origin
        return UNBOUND
    if isinstance(o, (int, ALin, AInt, bool, float, AFloat)):
        if name == "__class__":
            return eng.type_of(o)
        if isinstance(o, (int, float)) and hasattr(o, name):
            m = getattr(o, name)
            if callable(m):
                return BF(name, lambda e, a, k: wrap_host(e, m(*[e.force(x) for x in a])))
            return m
        if hasattr(0 if isinstance(o, (ALin, AInt)) else 0.0, name):
            return BF(name, lambda e, a, k: Top("num method"))
        return UNBOUND
    if o is None:
        if name == "__class__":
            return NONETYPE
        return UNBOUND
    if o is MISSING or o is NOTIMPL:
        return UNBOUND
    if isinstance(o, BF):
        if name == "__name__":
            return o.name
        return UNBOUND
    return UNBOUND


def wrap_host(eng, v):
    if isinstance(v, tuple):
        return Tup([wrap_host(eng, x) for x in v])
    if isinstance(v, list):
        return eng.mklist([wrap_host(eng, x) for x in v])
    return v


def enum_atom(eng, o):
    """text of an arbitrary member's value"""
    vals = []
    for m in eng.get(o.cls.a).data["#members"]:
        v = eng.get(m.a).data["_value_"]
        vals.append(v if isinstance(v, str) else None)
    only = None
    forbid = frozenset("\n\r")
    minlen = 0
    edge = False
    if vals and all(isinstance(v, str) for v in vals):
        only = frozenset("".join(vals))
        minlen = min(len(v) for v in vals)
        edge = all(v and v[0] not in ALLWS and v[-1] not in ALLWS for v in vals)
        ff = frozenset(c for c in only if not any(v[:1] == c for v in vals))
        lf = frozenset(c for c in only if not any(v[-1:] == c for v in vals))
        return Atom(("enumvalue", o.name), only, frozenset(), minlen, max(len(v) for v in vals), edge, "text",
                    ("enumvalue", o.cls, o.name), ff, lf)
    return Atom(("enumvalue", o.name), None, forbid, 0, None, False, "text", ("enumvalue", o.cls, o.name))


# ------------------------------------------------------------------ methods
def _force_args(f):
    def g(eng, args, kwargs):
        return f(eng, *[eng.force(a) for a in args], **{k: eng.force(v) for k, v in kwargs.items()})
    return g


def M(name, f):
    return BF(name, _force_args(f))


def _has_top(*a):
    return any(isinstance(x, Top) for x in a)


def s_join(eng, sep, it):
    it = eng.force(it)
    if sep == "" and isinstance(it, Ref) and getattr(eng.get(it.a), "cls", None) == FILE:
        # the lines of a file, put together again
        return eng.call(eng.getattr_(it, "read"), [], {})
    items = eng.iter_items(it, consume=True)
    items = eng.resolve_items(items)
    out = []

    def conv(items):
        r = []
        for i in items:
            if type(i) is Alt:
                r.append(Alt(i.o, {c: conv(b) for c, b in i.br.items()}))
            elif type(i) is Star:
                r.append(Star(conv(i.items), i.tag))
            else:
                r.append(i)
        return tuple(r)
    if any(type(i) in (Alt, Star) for i in items):
        return strs.mk([JoinSeg(sep, conv(items))], strs.isb(sep))
    if len(items) > 12 and any(type(eng.res(i)) is Choice for i in items):
        return strs.mk([JoinSeg(sep, conv(items))], strs.isb(sep))
    for n, i in enumerate(items):
        i = eng.force(i)
        if isinstance(i, Top):
            return Top("join")
        if not isinstance(i, (str, bytes, AStr)):
            eng.raise_("TypeError", "sequence item %d: expected str instance, %s found" % (n, type_name(eng, i)))
        if n:
            out.extend(strs.segs_of(sep))
        out.extend(strs.segs_of(i))
    return strs.mk(out, strs.isb(sep))


def s_format(eng, args, kwargs):
    s = eng.force(args[0])
    if not isinstance(s, str):
        raise Unsupported("format on abstract template")
    import string
    out = []
    auto = 0
    for lit, fld, spec, conv in string.Formatter().parse(s):
        out.append(lit)
        if fld is None:
            continue
        head = hre.match(r"[^.\[]*", fld).group(0)
        rest = fld[len(head):]
        if head == "":
            v = args[1 + auto]
            auto += 1
        elif head.isdigit():
            v = args[1 + int(head)]
        else:
            if head not in kwargs:
                eng.raise_("KeyError", head)
            v = kwargs[head]
        for m in hre.finditer(r"\.(\w+)|\[(\w+)\]", rest):
            if m.group(1):
                v = eng.getattr_(v, m.group(1))
            else:
                k = m.group(2)
                v = eng.getitem(v, int(k) if k.isdigit() else k)
        if spec and "{" in spec:
            def sub(m):
                nonlocal auto
                k = m.group(1)
                if k == "":
                    x = args[1 + auto]
                    auto += 1
                elif k.isdigit():
                    x = args[1 + int(k)]
                else:
                    x = kwargs[k]
                return str(eng.force(x))
            spec = hre.sub(r"\{(\w*)\}", sub, spec)
        v = eng.force(v)
        if conv == "s":
            v = str_of(eng, v)
        elif conv == "r":
            v = repr_of(eng, v)
        r = format_of(eng, v, spec or "")
        if isinstance(r, Top):
            return Top("format")
        out.extend(strs.segs_of(r))
    return strs.mk(out)


def _wrapstr(f):
    def g(eng, s, *a, **k):
        if _has_top(s, *a):
            return Top("str method")
        return f(eng, s, *a, **k)
    return g


def _list(eng, l):
    return eng.mklist(l)


def _encode(eng, s, encoding="utf-8", errors="strict"):
    eng.emit("encode", encoding)
    if isinstance(s, str):
        try:
            return s.encode(encoding, errors)
        except UnicodeEncodeError as ex:
            eng.raise_("UnicodeEncodeError", str(ex))
        except LookupError as ex:
            eng.raise_("LookupError", str(ex))
    return AStr(s.segs, True)


def _decode(eng, s, encoding="utf-8", errors="strict"):
    eng.emit("decode", encoding, errors)
    h = eng.hooks.get("decode")
    if h and h(eng, encoding, eng.force(errors)):
        return s.decode("utf-8") if isinstance(s, bytes) else AStr(s.segs, False)
    if isinstance(s, bytes):
        return s.decode(encoding, errors)
    enc = encoding.lower().replace("_", "-") if isinstance(encoding, str) else "?"
    if enc in ("utf-8", "utf8", "utf-8-sig"):
        return AStr(s.segs, False)
    return AStr([x if isinstance(x, str) else Atom(("decoded", encoding, x.name), None, frozenset(), x.minlen, None, False, "text", x.info)
                 for x in s.segs], False)


def _startswith(eng, s, p, start=None, end=None):
    if start is not None or end is not None:
        s = strs.slice_(eng, s, start, end)
    if isinstance(p, Tup):
        return any(strs.startswith(eng, s, eng.force(x)) for x in p.items)
    if not isinstance(p, (str, bytes, AStr)):
        eng.raise_("TypeError", "startswith")
    return strs.startswith(eng, s, p)


def _endswith(eng, s, p):
    if isinstance(p, Tup):
        return any(strs.endswith(eng, s, eng.force(x)) for x in p.items)
    return strs.endswith(eng, s, p)


def _find(reverse, raising):
    def f(eng, s, sub, start=None, end=None):
        if end is not None:
            s = strs.slice_(eng, s, None, end)
        r = strs.find(eng, s, sub, reverse, start)
        if isinstance(r, int) and r == -1 and raising:
            eng.raise_("ValueError", "substring not found")
        return r
    return f


def _strip(l, r):
    def f(eng, s, chars=None):
        return strs.strip(eng, s, chars.decode() if isinstance(chars, bytes) else chars, l, r)
    return f


def _removeprefix(eng, s, p):
    if strs.startswith(eng, s, p):
        return strs.slice_(eng, s, len(p), None)
    return s


def _removesuffix(eng, s, p):
    if p and strs.endswith(eng, s, p):
        return strs.slice_(eng, s, None, -len(p))
    return s


def maketrans(eng, args, kwargs):
    a = [eng.force(x) for x in args]
    out = {}
    if len(a) == 1:
        for k, v in eng.get(a[0].a).data.items():
            if isinstance(k, str) and k.startswith("#"):
                raise Unsupported("str.maketrans of an unknown dict")
            k, v = eng.force(k), eng.force(v)
            if not isinstance(v, (str, int, type(None))) or not isinstance(k, (str, int)):
                raise Unsupported("str.maketrans of abstract values")
            out[k if isinstance(k, int) else ord(k)] = v
    else:
        if not all(isinstance(x, str) for x in a):
            raise Unsupported("str.maketrans of abstract texts")
        try:
            out = str.maketrans(*a)
        except ValueError as ex:
            eng.raise_("ValueError", str(ex))
    r = eng.mkdict()
    for k, v in out.items():
        eng.setitem(r, k, v)
    return r


def _tr(eng, s, table):
    table = eng.force(table)
    if not (isinstance(table, Ref) and eng.get(table.a).kind == "dict"):
        raise Unsupported("str.translate with an unknown table")
    todo = {}
    for k, v in eng.get(table.a).data.items():
        k, v = eng.force(k), eng.force(v)
        if not isinstance(k, int) or not isinstance(v, (str, int, type(None))):
            raise Unsupported("str.translate with an unknown table")
        todo[chr(k)] = "" if v is None else chr(v) if isinstance(v, int) else v
    if isinstance(s, str):
        return s.translate({ord(k): v for k, v in todo.items()})
    while todo:
        # not before every character that its replacement introduces has been replaced
        first = [k for k in todo if not any(j != k and j in todo[k] for j in todo)]
        if not first:
            raise Unsupported("str.translate with cyclic replacements")
        k = first[0]
        s = strs.replace(eng, s, k, todo.pop(k))
    return s


_S = {
    "strip": _strip(True, True), "lstrip": _strip(True, False), "rstrip": _strip(False, True),
    "split": lambda e, s, sep=None, maxsplit=-1: _list(e, strs.split(e, s, sep, maxsplit)),
    "rsplit": lambda e, s, sep=None, maxsplit=-1: _list(e, strs.rsplit(e, s, sep, maxsplit)),
    "splitlines": lambda e, s, keepends=False: _list(e, strs.splitlines(e, s, bool(e.truth(keepends)))),
    "partition": lambda e, s, sep: Tup(strs.partition(e, s, sep)),
    "rpartition": lambda e, s, sep: Tup(strs.rpartition(e, s, sep)),
    "startswith": _startswith, "endswith": _endswith,
    "find": _find(False, False), "rfind": _find(True, False), "index": _find(False, True), "rindex": _find(True, True),
    "count": lambda e, s, sub: strs.count(e, s, sub),
    "replace": lambda e, s, a, b, c=-1: strs.replace(e, s, a, b, c),
    "ljust": lambda e, s, w, f=" ": strs.pad(e, s, w, "<", f),
    "rjust": lambda e, s, w, f=" ": strs.pad(e, s, w, ">", f),
    "center": lambda e, s, w, f=" ": strs.pad(e, s, w, "^", f),
    "zfill": lambda e, s, w: s.zfill(w) if isinstance(s, str) else strs.pad(e, s, w, ">", "0"),
    "encode": _encode, "decode": _decode,
    "removeprefix": _removeprefix, "removesuffix": _removesuffix,
    "expandtabs": lambda e, s, tabsize=8: strs.expandtabs(e, s, tabsize),
    "translate": _tr,
    "isidentifier": lambda e, s: s.isidentifier() if isinstance(s, str) else e.choose(("isidentifier", repr(s)), (True, False)),
    "__contains__": lambda e, s, x: strs.contains(e, s, x),
    "__eq__": lambda e, s, x: e.equals(s, x),
    "__add__": lambda e, s, x: strs.concat(s, x),
}
for _n in ("upper", "lower", "casefold", "title", "capitalize", "swapcase"):
    _S[_n] = (lambda n: lambda e, s: strs.upper(e, s, n))(_n)
for _n in ("isupper", "islower", "isalpha", "isdigit", "isnumeric", "isalnum", "isdecimal", "isspace", "istitle", "isascii", "isprintable"):
    _S[_n] = (lambda n: lambda e, s: strs.charclass(e, s, n))(_n)
STR_METHODS = {n: BF("str." + n, _force_args(_wrapstr(f))) for n, f in _S.items()}
STR_METHODS["join"] = BF("str.join", lambda eng, a, k: s_join(eng, eng.force(a[0]), a[1]))
STR_METHODS["format"] = BF("str.format", s_format)
STR_METHODS["format_map"] = BF("str.format_map", lambda eng, a, k: s_format(eng, [a[0]], dict(dict_items(eng, a[1]))))

DEC_METHODS = {
    "is_zero": M("is_zero", lambda e, d: d.is_zero() if isinstance(d, Decimal) else not e.truth(d)),
    "is_nan": M("is_nan", lambda e, d: d.is_nan() if isinstance(d, Decimal) else False),
    "is_finite": M("is_finite", lambda e, d: d.is_finite() if isinstance(d, Decimal) else True),
    "is_infinite": M("is_infinite", lambda e, d: d.is_infinite() if isinstance(d, Decimal) else False),
    "is_signed": M("is_signed", lambda e, d: d.is_signed() if isinstance(d, Decimal) else e.choose(("signed", d.atom.name), (True, False))),
    "to_eng_string": M("to_eng", lambda e, d: AStr([d.atom]) if isinstance(d, ADec) else d.to_eng_string()),
    "__str__": M("__str__", lambda e, d: str_of(e, d)),
    "__format__": M("__format__", lambda e, d, s: format_of(e, d, s)),
}


def container_attr(eng, o, h, name):
    kind = "dict" if isinstance(o, VarsView) else h.kind
    tab = {"list": LIST_METHODS, "dict": DICT_METHODS, "set": SET_METHODS, "iter": ITER_METHODS}.get(kind, {})
    f = tab.get(name) if isinstance(tab, dict) else None
    if f:
        return Bound(f, o)
    if name == "__class__":
        return eng.type_of(o)
    if name == "__len__":
        return BF("__len__", lambda e, a, k: b_len(e, [o], {}))
    if name == "__iter__":
        return BF("__iter__", lambda e, a, k: b_iter(e, [o], {}))
    if name == "__contains__":
        return BF("__contains__", lambda e, a, k: e.contains(o, a[0]))
    if name == "__getitem__":
        return BF("__getitem__", lambda e, a, k: e.getitem(o, a[0]))
    if name == "__setitem__":
        return BF("__setitem__", lambda e, a, k: e.setitem(o, a[0], a[1]))
    if name == "__next__":
        return BF("__next__", lambda e, a, k: b_next(e, [o], {}))
    if kind == "dict" and h is not None and h.meta and name == "default_factory":
        return h.meta.get("factory")
    if hasattr({"list": [], "dict": {}, "set": set()}.get(kind, iter(())), name):
        raise Unsupported("%s.%s" % (kind, name))
    return UNBOUND


def _l(eng, r):
    return eng.get(r.a).data


def _ls(eng, r, items):
    h = eng.get(r.a)
    eng.set(r.a, h.with_data(tuple(items)))


def l_append(eng, args, kwargs):
    r = args[0]
    h = eng.get(r.a)
    eng.set(r.a, h.with_data(h.data + (args[1],)))


def l_insert(eng, args, kwargs):
    r, i, v = args[0], eng.force(args[1]), args[2]
    items = eng.resolve_items(_l(eng, r))
    if isinstance(i, int):
        if i == 0:
            _ls(eng, r, (v,) + items)
            return
        if i > 0 and not any(type(x) in (Alt, Star) for x in items[:i]):
            _ls(eng, r, items[:i] + (v,) + items[i:])
            return
        d = eng.definite(items)
        if d is not None:
            l = list(d)
            l.insert(i, v)
            _ls(eng, r, l)
            return
        # fork through Alts in the prefix is handled by definite(); a Star remains
    raise Unsupported("insert into content of unknown length")


def l_pop(eng, args, kwargs):
    r = args[0]
    i = eng.force(args[1]) if len(args) > 1 else -1
    items = eng.resolve_items(_l(eng, r))
    if i == -1 and items and type(items[-1]) not in (Alt, Star):
        _ls(eng, r, items[:-1])
        return items[-1]
    if i == 0 and items and type(items[0]) not in (Alt, Star):
        _ls(eng, r, items[1:])
        return items[0]
    d = eng.definite(items)
    if d is None:
        raise Unsupported("pop from content of unknown length")
    if not isinstance(i, int):
        raise Unsupported("pop index")
    try:
        l = list(d)
        v = l.pop(i)
    except IndexError:
        eng.raise_("IndexError", "pop")
    _ls(eng, r, l)
    return v


def l_remove(eng, args, kwargs):
    r, v = args[0], eng.force(args[1])
    d = eng.definite(_l(eng, r))
    if d is None:
        raise Unsupported("remove from content of unknown length")
    for i, x in enumerate(d):
        if eng.equals(x, v):
            _ls(eng, r, d[:i] + d[i + 1:])
            return
    eng.raise_("ValueError", "list.remove(x): x not in list")


def sort_items(eng, items, key=None, reverse=False):
    d = eng.definite(items)
    if d is None:
        fl = flat_items(items)
        rs = eng.resolve_items(items)
        if not fl:
            return items
        if len(fl) == 1:
            k = eng.force(eng.call(key, [fl[0]], {})) if key is not None else eng.force(fl[0])
            if host_key(k) is not UNBOUND or len(rs) != 1 or type(rs[0]) is not Star:
                return items
            if eng.choose(("in order", rs[0].tag, eng.where()), (True, False)):
                return rs
            return (Star(rs[0].items, Part("in another order (sorted)", None, rs[0].tag)),)
        raise Unsupported("sorting content of unknown length")
    if len(d) <= 1:
        return d
    raw = [eng.force(eng.call(key, [x], {})) if key is not None else eng.force(x) for x in d]
    keys = [host_key(k) for k in raw]
    if any(k is UNBOUND for k in keys):
        if eng_same_all(d):
            return d
        if len(d) > 5:
            raise Unsupported("sorting by abstract keys at %s" % eng.where())
        # stable insertion: every outcome of the comparisons is one order of the keys
        seq = list(zip(raw, d))
        if reverse:
            seq.reverse()
        out = []
        for k, x in seq:
            i = len(out)
            while i and eng.less(k, out[i - 1][0]):
                i -= 1
            out.insert(i, (k, x))
        if reverse:
            out.reverse()
        return tuple(x for _, x in out)
    try:
        idx = sorted(range(len(d)), key=lambda i: keys[i], reverse=bool(reverse))
    except TypeError as ex:
        eng.raise_("TypeError", str(ex))
    return tuple(d[i] for i in idx)


def eng_same_all(d):
    return all(same(x, d[0]) for x in d)


def host_key(k):
    if isinstance(k, (bool, int, float, str, bytes, Decimal)):
        return k
    if isinstance(k, Tup):
        t = tuple(host_key(x) for x in k.items)
        return UNBOUND if any(x is UNBOUND for x in t) else t
    return UNBOUND


def l_sort(eng, args, kwargs):
    r = args[0]
    key = kwargs.get("key")
    _ls(eng, r, sort_items(eng, _l(eng, r), key, eng.truth(kwargs.get("reverse", False))))


LIST_METHODS = {
    "append": BF("append", l_append, True),
    "extend": BF("extend", lambda e, a, k: list_extend(e, a[0], a[1])),
    "insert": BF("insert", l_insert),
    "pop": BF("pop", l_pop),
    "remove": BF("remove", l_remove),
    "index": BF("index", lambda e, a, k: list_index(e, _l(e, a[0]), e.force(a[1]), *[e.force(x) for x in a[2:]])),
    "count": BF("count", lambda e, a, k: sum(1 for i in (e.definite(_l(e, a[0])) or ()) if e.equals(i, a[1]))),
    "reverse": BF("reverse", lambda e, a, k: _ls(e, a[0], reverse_items(_l(e, a[0])))),
    "sort": BF("sort", l_sort),
    "copy": BF("copy", lambda e, a, k: e.mklist(_l(e, a[0]))),
    "clear": BF("clear", lambda e, a, k: _ls(e, a[0], ())),
    "__add__": BF("__add__", lambda e, a, k: e.mklist(_l(e, a[0]) + _l(e, a[1]))),
    # deque
    "appendleft": BF("appendleft", lambda e, a, k: _ls(e, a[0], (a[1],) + _l(e, a[0]))),
    "popleft": BF("popleft", lambda e, a, k: l_pop(e, [a[0], 0], {})),
    "rotate": BF("rotate", lambda e, a, k: _rotate(e, a[0], e.force(a[1]) if len(a) > 1 else 1)),
    "extendleft": BF("extendleft", lambda e, a, k: _ls(e, a[0], reverse_items(e.iter_items(a[1], True)) + _l(e, a[0]))),
}


def _rotate(eng, l, n):
    items = eng.definite(_l(eng, l))
    if items is None or not isinstance(n, int):
        raise Unsupported("rotate of unknown length")
    if items:
        n %= len(items)
        _ls(eng, l, tuple(items[-n:] + items[:-n]) if n else tuple(items))


def _ddata(eng, d):
    return vars_dict(eng, d) if isinstance(d, VarsView) else eng.get(d.a).data


def d_get(eng, args, kwargs):
    r = dict_lookup(eng, args[0], eng.force(args[1]))
    if r is ABSENT:
        return args[2] if len(args) > 2 else kwargs.get("default")
    return r


def d_pop(eng, args, kwargs):
    r = dict_lookup(eng, args[0], eng.force(args[1]))
    if r is ABSENT:
        if len(args) > 2:
            return args[2]
        eng.raise_("KeyError", args[1])
    eng.delitem(args[0], args[1])
    return r


def d_setdefault(eng, args, kwargs):
    r = dict_lookup(eng, args[0], eng.force(args[1]))
    if r is ABSENT:
        v = args[2] if len(args) > 2 else None
        eng.setitem(args[0], args[1], v)
        return v
    return r


def d_update(eng, args, kwargs):
    d = args[0]
    if isinstance(d, VarsView):
        for src in args[1:]:
            for k, v in dict_items(eng, src):
                eng.setattr_(Ref(d.a), k, v)
        for k, v in kwargs.items():
            eng.setattr_(Ref(d.a), k, v)
        return
    for src in args[1:]:
        dict_update(eng, d, src)
    for k, v in kwargs.items():
        eng.setitem(d, k, v)


DICT_METHODS = {
    "items": BF("items", lambda e, a, k: e.mklist(dict_items_content(e, _ddata(e, a[0]), lambda kk, v: Tup((kk, v))))),
    "keys": BF("keys", lambda e, a, k: e.new(H("set", None, tuple(dict_keys_items(e, _ddata(e, a[0]))), "keys"))),
    "values": BF("values", lambda e, a, k: e.mklist(dict_items_content(e, _ddata(e, a[0]), lambda kk, v: v))),
    "get": BF("get", d_get),
    "pop": BF("pop", d_pop),
    "setdefault": BF("setdefault", d_setdefault),
    "update": BF("update", d_update),
    "copy": BF("copy", lambda e, a, k: e.new(H("dict", None, {x: y for x, y in _ddata(e, a[0]).items()}))),
    "clear": BF("clear", lambda e, a, k: setd(e, a[0], {})),
    "popitem": BF("popitem", lambda e, a, k: _popitem(e, a[0], not (len(a) > 1 and not e.truth(a[1]) or "last" in k and not e.truth(k["last"])))),
    "__contains__": BF("__contains__", lambda e, a, k: e.contains(a[0], a[1])),
    "move_to_end": BF("move_to_end", lambda e, a, k: _move_end(e, a, k)),
}


def _move_end(eng, a, k):
    h = eng.get(a[0].a)
    key = eng.force(a[1])
    d = dict(h.data)
    v = d.pop(key)
    if len(a) > 2 and not a[2] or k.get("last") is False:
        d = {key: v, **d}
    else:
        d[key] = v
    eng.set(a[0].a, h.with_data(d))


def _popitem(eng, d, last=True):
    it = dict_items(eng, d)
    if not it:
        eng.raise_("KeyError", "popitem")
    it = list(it)
    eng.delitem(d, it[-1 if last else 0][0])
    return Tup(it[-1 if last else 0])


def _set_from(eng, items):
    r = eng.new(H("set", None, ()))
    if any(type(i) in (Alt, Star) for i in items):
        return eng.new(H("set", None, tuple(items)))
    for i in items:
        set_add(eng, r, i)
    return r


def _setop(op):
    import ast

    def f(eng, a, k):
        cur = a[0]
        for x in a[1:]:
            s = _set_from(eng, eng.iter_items(x, True))
            cur = set_binop(eng, op, cur, s)
        return cur
    return f


def _s_discard(eng, a, k):
    d = eng.definite(_l(eng, a[0]))
    _ls(eng, a[0], tuple(i for i in d if not eng.equals(i, a[1])))


import ast as _ast  # noqa: E402

SET_METHODS = {
    "add": BF("add", lambda e, a, k: set_add(e, a[0], a[1])),
    "update": BF("update", lambda e, a, k: [set_add(e, a[0], i) for x in a[1:] for i in e.iter_items(x, True)] and None),
    "discard": BF("discard", _s_discard),
    "remove": BF("remove", _s_discard),
    "union": BF("union", _setop(_ast.BitOr())),
    "intersection": BF("intersection", _setop(_ast.BitAnd())),
    "difference": BF("difference", _setop(_ast.Sub())),
    "symmetric_difference": BF("symmetric_difference", _setop(_ast.BitXor())),
    "issubset": BF("issubset", lambda e, a, k: set_order(e, _ast.LtE(), a[0], _set_from(e, e.iter_items(a[1], True)))),
    "issuperset": BF("issuperset", lambda e, a, k: set_order(e, _ast.GtE(), a[0], _set_from(e, e.iter_items(a[1], True)))),
    "isdisjoint": BF("isdisjoint", lambda e, a, k: not any(e.contains(a[0], i) for i in e.definite(e.iter_items(a[1], True)))),
    "copy": BF("copy", lambda e, a, k: e.new(H("set", None, _l(e, a[0])))),
    "clear": BF("clear", lambda e, a, k: _ls(e, a[0], ())),
    "pop": BF("pop", lambda e, a, k: l_pop(e, [a[0], 0], {})),
}
ITER_METHODS = {
    "close": BF("close", lambda e, a, k: None),
}


# ------------------------------------------------------------------ builtins
def b_len(eng, args, kwargs):
    v = eng.force(args[0])
    if isinstance(v, (str, bytes, AStr)):
        return strs.length(eng, v)
    if isinstance(v, Tup):
        return items_len(eng, v.items)
    if isinstance(v, Top):
        return AInt(0, None, "top")
    if isinstance(v, VarsView):
        return items_len(eng, tuple(dict_keys_items(eng, vars_dict(eng, v))))
    if isinstance(v, Ref):
        h = eng.get(v.a)
        if h.kind == "set":
            n = set_len(eng, v)
            return items_len(eng, h.data) if n is None else n
        if h.kind == "list":
            return items_len(eng, h.data)
        if h.kind == "dict":
            return items_len(eng, tuple(dict_keys_items(eng, h.data)))
        if h.kind == "class" and "#members" in h.data:
            return len(h.data["#members"])
        if h.kind == "obj":
            f = eng.lookup_class_attr(h.cls, "__len__")
            if isinstance(f, FuncV):
                return eng.call(Bound(f, v), [], {})
            if "children" in h.data:
                return items_len(eng, eng.get(h.data["children"].a).data)
        if h.kind == "top":
            return AInt(0, None, "top")
    eng.raise_("TypeError", "object of type '%s' has no len()" % type_name(eng, v))


def b_iter(eng, args, kwargs):
    v = eng.force(args[0])
    if isinstance(v, Ref) and eng.get(v.a).kind == "iter":
        return v
    if len(args) == 2:
        raise Unsupported("iter with sentinel")
    return eng.new(H("iter", "iterator", tuple(eng.iter_items(v))))


def b_next(eng, args, kwargs):
    it = eng.force(args[0])
    if not (isinstance(it, Ref) and eng.get(it.a).kind == "iter"):
        if isinstance(it, Ref) and eng.get(it.a).kind == "obj":
            f = eng.lookup_class_attr(eng.get(it.a).cls, "__next__")
            if isinstance(f, FuncV):
                return eng.call(Bound(f, it), [], {})
        if isinstance(it, Top):
            return Top("next")
        eng.raise_("TypeError", "'%s' object is not an iterator" % type_name(eng, it))
    h = eng.get(it.a)
    items = eng.resolve_items(h.data)
    if h.cls == "spent":
        raise Unsupported("iterator used after leaving a loop over content of unknown length")
    if h.cls == "count":
        import ast as _ast
        eng.set(it.a, h.with_data((eng.binop(_ast.Add(), items[0], items[1]), items[1])))
        return items[0]
    if h.cls == "repeat":
        return items[0]
    if h.cls == "cycle":
        eng.set(it.a, h.with_data(items[1:] + items[:1]))
        return items[0]
    while items:
        x = items[0]
        if type(x) is Alt:
            raise NeedChoice(x.o, x.br.keys())
        if type(x) is Star:
            inner = eng.resolve_items(x.items)
            if not inner:
                items = items[1:]
                continue
            o = ("nonempty", base_tag(x.tag)) if x.tag is not None else eng.anon_name("next-nonempty")
            if eng.choose(o, (True, False)):
                if type(inner[0]) is Alt:
                    raise NeedChoice(inner[0].o, inner[0].br.keys())
                eng.set(it.a, h.with_data(tuple(inner[1:]) + items))
                return inner[0]
            items = items[1:]
            continue
        eng.set(it.a, h.with_data(items[1:]))
        return eng.res(x)
    eng.set(it.a, h.with_data(()))
    if len(args) > 1:
        return args[1]
    eng.raise_("StopIteration", "")


def b_getattr(eng, args, kwargs):
    n = eng.force(args[1])
    o = eng.force(args[0])
    if not isinstance(n, str):
        if isinstance(n, AStr):
            return Top("getattr with abstract name")
        eng.raise_("TypeError", "attribute name must be string")
    if len(args) > 2:
        try:
            r = eng.getattr_(o, n, default=ABSENT)
        except PyRaise as e:
            if eng.exc_matches(e.value, eng.builtins["AttributeError"]):
                return args[2]
            raise
        return args[2] if r is ABSENT else r
    return eng.getattr_(o, n)


def b_hasattr(eng, args, kwargs):
    o = eng.force(args[0])
    if isinstance(o, Top):
        return eng.anon("hasattr")
    return eng.getattr_(o, eng.force(args[1]), default=ABSENT) is not ABSENT


def b_vars(eng, args, kwargs):
    o = eng.force(args[0])
    if isinstance(o, Ref):
        h = eng.get(o.a)
        if h.kind == "obj":
            if isinstance(h.cls, XC):
                raise Unsupported("vars() of external object")
            return VarsView(o.a)
        if h.kind == "class":
            return VarsView(o.a)
        if h.kind == "module":
            return VarsView(h.data["frame"])
        if h.kind == "top":
            return Top("vars")
    if isinstance(o, AEnum):
        return eng.mkdict({"_value_": eng.getattr_(o, "value"), "_name_": eng.getattr_(o, "name")})
    if isinstance(o, Top):
        return Top("vars")
    eng.raise_("TypeError", "vars() argument must have __dict__ attribute")


def b_dir(eng, args, kwargs):
    o = eng.force(args[0])
    names = []
    if isinstance(o, AEnum) or (isinstance(o, Ref) and eng.get(o.a).kind == "obj" and eng.is_enum_class(eng.force(eng.get(o.a).cls))):
        names = ["__class__", "__doc__", "__module__", "name", "value"]
        c = o.cls if isinstance(o, AEnum) else eng.force(eng.get(o.a).cls)
        names += [n for n, v in eng.get(c.a).data["#ns"].items() if isinstance(v, (FuncV, Wrap))]
    elif isinstance(o, Ref) and eng.get(o.a).kind == "obj":
        h = eng.get(o.a)
        names = [k for k in h.data if not k.startswith("#")]
        for k in eng.mro(h.cls):
            if isinstance(k, Ref):
                names += list(eng.get(k.a).data["#ns"])
        names += dir(object)
    elif isinstance(o, Ref) and eng.get(o.a).kind in ("list", "dict", "set"):
        names = dir({"list": list, "dict": dict, "set": set}[eng.get(o.a).kind])
    elif isinstance(o, (str, AStr)):
        names = dir(str)
    elif isinstance(o, (Decimal, ADec)):
        names = dir(Decimal)
    elif isinstance(o, Tup):
        names = dir(tuple) + (list(o.cls.fields) if o.cls else [])
    elif o is None:
        names = dir(None)
    elif isinstance(o, (int, float)):
        names = dir(o)
    else:
        raise Unsupported("dir() of %r" % (o,))
    return eng.mklist(sorted(set(names)))


def b_any(eng, args, kwargs, want=True):
    items = eng.iter_items(args[0], consume=True)
    res = [not want]
    r = eng.mklist((not want,))

    from .engine import NORMAL, BREAK

    def body(v):
        if eng.truth(v) == want:
            _ls(eng, r, (want,))
            return BREAK
        return NORMAL

    if any(type(i) in (Star,) for i in items):
        # unknown length: each repetition may or may not decide
        def body2(v):
            if eng.truth(v) == want:
                _ls(eng, r, (want,))
            return NORMAL
        fl = eng.resolve_items(items)
        cur = not want
        for i in fl:
            if type(i) is Star:
                poss = False
                for x in flat_items(i.items):
                    x = eng.res(x)
                    if type(x) is Choice or not isinstance(x, bool):
                        poss = True
                    elif x == want:
                        poss = True
                if poss:
                    if eng.anon("any-star"):
                        return want
            elif type(i) is Alt:
                raise NeedChoice(i.o, i.br.keys())
            elif eng.truth(i) == want:
                return want
        return cur
    eng.loop(items, body)
    v = _l(eng, r)[0]
    return v


def b_all(eng, args, kwargs):
    return b_any(eng, args, kwargs, want=False)


def b_sum(eng, args, kwargs):
    items = eng.definite(eng.iter_items(args[0], consume=True))
    cur = args[1] if len(args) > 1 else kwargs.get("start", 0)
    if items is None:
        return AInt(None, None)
    for i in items:
        i = eng.force(i)
        cur = eng.binop(_ast.Add(), cur, i)
    return cur


def b_minmax(which):
    def f(eng, args, kwargs):
        key = kwargs.get("key")
        if len(args) == 1:
            items = eng.definite(eng.iter_items(args[0], consume=True))
            if items is None:
                return Top("min/max")
        else:
            items = tuple(args)
        items = [eng.force(x) for x in items]
        if not items:
            if "default" in kwargs:
                return kwargs["default"]
            eng.raise_("ValueError", which + "() arg is an empty sequence")
        keys = [eng.force(eng.call(key, [x], {})) if key is not None else x for x in items]
        hk = [host_key(k) for k in keys]
        if any(k is UNBOUND for k in hk):
            best, bk = items[0], keys[0]
            for x, k in zip(items[1:], keys[1:]):
                if eng.truth(eng.order(_ast.Lt() if which == "min" else _ast.Gt(), k, bk)):
                    best, bk = x, k
            return best
        g = min if which == "min" else max
        try:
            i = g(range(len(items)), key=lambda n: hk[n])
        except TypeError as ex:
            eng.raise_("TypeError", str(ex))
        return items[i]
    return f


def b_print(eng, args, kwargs):
    f = eng.force(kwargs.get("file")) if kwargs.get("file") is not None else None
    if isinstance(f, Ref) and eng.get(f.a).kind == "obj":
        w = eng.getattr_(f, "write")
        sep = eng.force(kwargs.get("sep", " "))
        out = s_join(eng, sep if sep is not None else " ", eng.mklist([str_of(eng, a) for a in args]))
        end = eng.force(kwargs.get("end", "\n"))
        eng.call(w, [strs.concat(out, end if end is not None else "\n")], {})
        return None
    eng.emit("stdout", "print")


def b_open(eng, args, kwargs):
    from . import ext
    return ext.open_(eng, args, kwargs)


def b_sorted(eng, args, kwargs):
    items = eng.iter_items(args[0], consume=True)
    return eng.mklist(sort_items(eng, items, kwargs.get("key"), eng.truth(kwargs.get("reverse", False))))


def b_setattr(eng, args, kwargs):
    n = eng.force(args[1])
    if not isinstance(n, str):
        raise Unsupported("setattr with abstract name")
    eng.setattr_(eng.force(args[0]), n, args[2])


def b_round(eng, args, kwargs):
    v = eng.force(args[0])
    if isinstance(v, (int, float, Decimal)) and all(isinstance(eng.force(a), int) for a in args[1:]):
        return round(v, *[eng.force(a) for a in args[1:]])
    if isinstance(v, ADec):
        return ADec(Atom(("round", v.atom.name), NUMCHARS, minlen=1, kind="num", edge=True))
    if isinstance(v, AFloat):
        return AFloat(("round", v.src))
    return Top("round")


def b_emit(name):
    def f(eng, args, kwargs):
        eng.emit(name, Tup(args))
        return Top(name)
    return f


def b_hash(eng, args, kwargs):
    v = eng.force(args[0])
    if isinstance(v, (str, bytes, AStr)):
        eng.emit("env", "hash(str), PYTHONHASHSEED")
    return AInt(None, None, ("hash", repr(v)) if isinstance(v, (str, int, AStr)) else "hash")


def b_dunder_import(eng, args, kwargs):
    n = eng.force(args[0])
    if not isinstance(n, str):
        eng.emit("import", n)
        return Top("import")
    lv = eng.force(args[4]) if len(args) > 4 else eng.force(kwargs.get("level", 0))
    if lv:
        raise Unsupported("relative __import__")
    m = eng.import_module(n)
    fl = args[3] if len(args) > 3 else kwargs.get("fromlist")
    if fl is not None and eng.truth(fl):
        return m
    return eng.import_module(n.split(".")[0])


def b_isinstance(eng, args, kwargs):
    return eng.isinstance_(args[0], args[1])


def b_id(eng, args, kwargs):
    eng.emit("id")
    v = eng.force(args[0])
    if isinstance(v, Ref):
        return 0x7f0000000000 + 16 * v.a
    return AInt(0, None, ("id", repr(v)))


def b_callable(eng, args, kwargs):
    v = eng.force(args[0])
    if isinstance(v, (FuncV, BF, Bound, BT, XC, NTClass)) or (isinstance(v, Wrap) and v.kind in ("partial", "cached")):
        return True
    if isinstance(v, Ref):
        h = eng.get(v.a)
        return h.kind == "class" or (h.kind == "obj" and eng.lookup_class_attr(h.cls, "__call__") is not UNBOUND)
    return False


BUILTINS = {
    "len": b_len, "isinstance": b_isinstance, "issubclass": lambda e, a, k: e.is_subclass(a[0], a[1]),
    "getattr": b_getattr, "hasattr": b_hasattr, "setattr": b_setattr,
    "delattr": lambda e, a, k: e.delattr_(e.force(a[0]), e.force(a[1])),
    "vars": b_vars, "dir": b_dir, "print": b_print, "repr": lambda e, a, k: repr_of(e, a[0]),
    "any": b_any, "all": b_all, "sum": b_sum, "min": b_minmax("min"), "max": b_minmax("max"),
    "abs": lambda e, a, k: abs(e.force(a[0])) if isinstance(e.force(a[0]), (int, float, Decimal)) else Top("abs"),
    "iter": b_iter, "next": b_next, "callable": b_callable, "id": b_id,
    "hash": b_hash,
    "open": b_open, "sorted": b_sorted, "round": b_round,
    "ord": lambda e, a, k: ord(e.force(a[0])) if isinstance(e.force(a[0]), str) else AInt(0, None),
    "chr": lambda e, a, k: chr(e.force(a[0])) if isinstance(e.force(a[0]), int) else Top("chr"),
    "format": lambda e, a, k: format_of(e, e.force(a[0]), e.force(a[1]) if len(a) > 1 else ""),
    "input": b_emit("stdin"), "exec": b_emit("exec"), "eval": b_emit("eval"), "compile": b_emit("exec"),
    "__import__": b_dunder_import, "breakpoint": b_emit("breakpoint"),
    "divmod": lambda e, a, k: Tup(divmod(e.force(a[0]), e.force(a[1]))) if all(isinstance(e.force(x), int) for x in a) else Top("divmod"),
    "globals": lambda e, a, k: Top("globals"), "locals": lambda e, a, k: Top("locals"),
    "ascii": lambda e, a, k: repr_of(e, a[0]), "bin": lambda e, a, k: Top("bin"), "hex": lambda e, a, k: Top("hex"),
    "pow": lambda e, a, k: e.binop(_ast.Pow(), a[0], a[1]),
    "exit": b_emit("exit"), "quit": b_emit("exit"),
}


# ------------------------------------------------------------------ constructors
def construct(eng, t, args, kwargs):
    if isinstance(t, NTClass):
        vals = list(args)
        for i, f in enumerate(t.fields[len(args):], start=len(args)):
            if f in kwargs:
                vals.append(kwargs[f])
            else:
                di = i - (len(t.fields) - len(t.defaults))
                if di < 0:
                    eng.raise_("TypeError", "missing %s" % f)
                vals.append(t.defaults[di])
        if len(vals) != len(t.fields):
            eng.raise_("TypeError", "namedtuple arguments")
        return Tup(vals, t)
    if isinstance(t, GAlias):
        if isinstance(t.origin, (BT, XC, Ref)):
            return eng.call(t.origin, args, kwargs)
        b = eng.builtins.get(str(t.origin).lower())
        if b is not None:
            return eng.call(b, args, kwargs)
        raise Unsupported("call of generic alias")
    if isinstance(t, XC):
        from . import ext
        return ext.construct(eng, t, args, kwargs)
    n = t.name
    h = t.host
    if isinstance(h, type) and issubclass(h, BaseException):
        return eng.make_exc(t, tuple(args))
    if n == "str":
        if not args:
            return ""
        v = eng.force(args[0])
        if len(args) > 1 or "encoding" in kwargs or "errors" in kwargs:
            enc = eng.force(args[1]) if len(args) > 1 else eng.force(kwargs.get("encoding", "utf-8"))
            err = args[2] if len(args) > 2 else kwargs.get("errors", "strict")
            return _decode(eng, v, enc, eng.force(err))
        return str_of(eng, v)
    if n == "bytes":
        if not args:
            return b""
        v = eng.force(args[0])
        if isinstance(v, (str, AStr)) and not strs.isb(v):
            if len(args) < 2 and "encoding" not in kwargs:
                eng.raise_("TypeError", "string argument without an encoding")
            return _encode(eng, v, *[eng.force(x) for x in args[1:]], **{k: eng.force(x) for k, x in kwargs.items()})
        return v
    if n == "type":
        if len(args) == 1:
            return eng.type_of(args[0])
        return make_class(eng, eng.force(args[0]), [eng.force(b) for b in eng.force(args[1]).items],
                          dict(dict_items(eng, args[2])), {}, {})
    if n == "bool":
        return eng.truth(args[0]) if args else False
    if n == "int":
        return to_int(eng, args)
    if n == "float":
        return to_float(eng, args)
    if n == "list":
        return eng.mklist(eng.iter_items(args[0], consume=True) if args else ())
    if n == "tuple":
        return Tup(eng.iter_items(args[0], consume=True) if args else ())
    if n in ("set", "frozenset"):
        return _set_from(eng, eng.iter_items(args[0], consume=True) if args else ())
    if n == "dict":
        r = eng.mkdict()
        for a in args:
            dict_update(eng, r, a)
        for k, v in kwargs.items():
            eng.setitem(r, k, v)
        return r
    if n == "object":
        return eng.new(H("obj", t, {}))
    if n == "range":
        a = [eng.force(x) for x in args]
        if all(isinstance(x, int) for x in a):
            return Tup(tuple(range(*a)))
        return Tup((Star((AInt(0, None, "range"),)),))
    if n == "enumerate":
        start = eng.force(args[1]) if len(args) > 1 else eng.force(kwargs.get("start", 0))
        items = eng.iter_items(args[0], consume=True)
        items = eng.resolve_items(items)
        if isinstance(start, int) and not any(type(i) in (Alt, Star) for i in items):
            return eng.new(H("iter", "enumerate", tuple(Tup((start + i, x)) for i, x in enumerate(items))))
        n_ = start if isinstance(start, int) else None
        out = []
        for i in items:
            if type(i) in (Alt, Star):
                n_ = None
            f = (lambda x: Tup((AInt(0, None, "enum"), x))) if n_ is None else (lambda x, k=n_: Tup((k, x)))
            out.append(map_item(i, f))
            if n_ is not None:
                n_ += 1
        return eng.new(H("iter", "enumerate", tuple(out)))
    if n == "zip":
        return zip_(eng, args, kwargs)
    if n == "map":
        from .engine import NORMAL
        seqs = [eng.iter_items(a, consume=True) for a in args[1:]] if len(args) == 2 else args[1:]
        if len(seqs) > 1:
            z = zip_(eng, args[1:], {})
            seqs = [eng.get(z.a).data]
            call = lambda x: eng.call(args[0], list(x.items), {})
        else:
            call = lambda x: eng.call(args[0], [x], {})
        r = eng.new(H("list", None, ()))

        def body(x):
            v = call(x)
            hh = eng.get(r.a)
            eng.set(r.a, hh.with_data(hh.data + (v,)))
            return NORMAL
        eng.loop(seqs[0], body)
        items = eng.get(r.a).data
        return eng.new(H("iter", "map", items))
    if n == "filter":
        from .engine import NORMAL
        f = eng.force(args[0])
        r = eng.new(H("list", None, ()))

        def body(x):
            keep = eng.truth(x) if f is None else eng.truth(eng.call(f, [x], {}))
            if keep:
                hh = eng.get(r.a)
                eng.set(r.a, hh.with_data(hh.data + (x,)))
            return NORMAL
        eng.loop(eng.iter_items(args[1], consume=True), body)
        return eng.new(H("iter", "filter", eng.get(r.a).data))
    if n == "reversed":
        return eng.new(H("iter", "reversed", reverse_items(eng.iter_items(args[0], consume=True))))
    if n == "slice":
        a = [eng.force(x) for x in args]
        if len(a) == 1:
            return SliceV(None, a[0], None)
        return SliceV(a[0], a[1], a[2] if len(a) > 2 else None)
    if n in ("staticmethod", "classmethod"):
        return Wrap(n, args[0])
    if n == "property":
        return Wrap("property", args[0] if args else None, args[1] if len(args) > 1 else None)
    if n == "super":
        return Wrap("super", eng.force(args[0]), eng.force(args[1]))
    if n == "NoneType":
        return None
    raise Unsupported("constructor %s" % n)


def map_item(i, f):
    if type(i) is Alt:
        return Alt(i.o, {c: tuple(map_item(x, f) for x in b) for c, b in i.br.items()})
    if type(i) is Star:
        return Star(tuple(map_item(x, f) for x in i.items), i.tag)
    return f(i)


def zip_(eng, args, kwargs):
    args = [eng.force(a) for a in args]
    its = [a for a in args if isinstance(a, Ref) and eng.get(a.a).kind == "iter"]
    endless = [i for i, a in enumerate(args) if isinstance(a, Ref) and eng.get(a.a).kind == "iter" and eng.get(a.a).cls in ENDLESS]
    if endless and len(endless) == len(args):
        raise Unsupported("zip of endless iterators")
    if len({i.a for i in its}) < len(its) or endless and len(args) - len(endless) > 1 or any(
            eng.get(args[i].a).cls == "cycle" for i in endless):
        # one by one: the same iterator several times
        for i in its:
            if eng.get(i.a).cls not in ENDLESS and eng.definite(eng.get(i.a).data) is None:
                raise Unsupported("zip of shared iterators of unknown length")
        args = [a if isinstance(a, Ref) and eng.get(a.a).kind == "iter" else b_iter(eng, [a], {}) for a in args]
        out = []
        while True:
            row = []
            for a in args:
                h = eng.get(a.a)
                if h.cls not in ENDLESS and not eng.definite(h.data):
                    if eng.definite(h.data) is None:
                        raise Unsupported("zip of shared iterators of unknown length")
                    return eng.new(H("iter", "zip", tuple(out)))
                row.append(b_next(eng, [a], {}))
            out.append(Tup(row))
    if endless:
        e = eng.get(args[endless[0]].a)
        if e.cls == "spent":
            b_next(eng, [args[endless[0]]], {})
        other = args[1 - endless[0]]
        flip = (lambda a, b: Tup((a, b))) if endless[0] == 0 else (lambda a, b: Tup((b, a)))
        if e.cls == "repeat":
            x = e.data[0]
            return eng.new(H("iter", "zip", tuple(map_item(i, lambda y: flip(x, y)) for i in eng.resolve_items(eng.iter_items(other, consume=True)))))
        if e.data[1] != 1:
            raise Unsupported("zip with count in steps")
        en = construct(eng, eng.builtins["enumerate"], [other, e.data[0]], {})
        h = eng.get(en.a)
        # (the counter is not read again in programs of interest)
        eng.set(args[endless[0]].a, H("iter", "spent", ()))
        return eng.new(H("iter", "zip", tuple(map_item(i, lambda y: flip(*y.items)) for i in h.data)))
    seqs = [eng.resolve_items(eng.iter_items(a, consume=True)) for a in args]
    if not seqs:
        return eng.new(H("iter", "zip", ()))
    defs = []
    for s in seqs:
        d = eng.definite(s)
        defs.append(d)
    if all(d is not None for d in defs):
        if kwargs.get("strict") and len({len(d) for d in defs}) > 1:
            eng.raise_("ValueError", "zip() arguments have different lengths")
        return eng.new(H("iter", "zip", tuple(Tup(t) for t in zip(*defs))))
    # parallel stars of identical structure
    if len(seqs) == 2 and all(len(s) == len(seqs[0]) for s in seqs) and all(
            type(a) is type(b) for a, b in zip(seqs[0], seqs[1])):
        out = []
        for a, b in zip(*seqs):
            if type(a) is Star:
                if len(a.items) == len(b.items) == 1:
                    out.append(Star((Tup((a.items[0], b.items[0])),), a.tag))
                else:
                    raise Unsupported("zip of unknown lengths")
            elif type(a) is Alt:
                raise Unsupported("zip of alternatives")
            else:
                out.append(Tup((a, b)))
        return eng.new(H("iter", "zip", tuple(out)))
    raise Unsupported("zip of contents of unknown length at %s" % eng.where())


def to_int(eng, args):
    if not args:
        return 0
    v = eng.force(args[0])
    if isinstance(v, (int, float, Decimal, str)):
        try:
            return int(v, *[eng.force(a) for a in args[1:]]) if isinstance(v, str) else int(v)
        except (ValueError, TypeError, OverflowError) as ex:
            eng.raise_(type(ex).__name__, str(ex))
    if isinstance(v, (AInt, ALin)):
        return v
    if isinstance(v, (ADec, AFloat)):
        return AInt(None, None, ("int", repr(v)))
    if isinstance(v, AStr):
        if len(v.segs) == 1 and isinstance(v.segs[0], Atom) and v.segs[0].kind == "digit":
            return AInt(0, None, ("int", repr(v)))
        if len(v.segs) == 1 and isinstance(v.segs[0], Atom) and isinstance(v.segs[0].info, (AInt, ALin)):
            return v.segs[0].info
        if not strs.float_like(eng, v) or not eng.choose(("isint", repr(v)), (True, False)):
            eng.raise_("ValueError", "invalid literal for int()")
        return AInt(None, None, ("int", repr(v)))
    if v is None or isinstance(v, (Ref, Tup)):
        eng.raise_("TypeError", "int()")
    return Top("int")


def to_float(eng, args):
    if not args:
        return 0.0
    v = eng.force(args[0])
    if isinstance(v, (int, float, Decimal, str, bytes)):
        try:
            return float(v)
        except (ValueError, TypeError, OverflowError) as ex:
            eng.raise_(type(ex).__name__, str(ex))
    if isinstance(v, ADec):
        return AFloat(v.atom.name)
    if isinstance(v, (AFloat,)):
        return v
    if isinstance(v, (AInt, ALin)):
        return AFloat(repr(v))
    if isinstance(v, AStr):
        if not strs.float_like(eng, v):
            eng.raise_("ValueError", "could not convert string to float")
        s = v.segs[0]
        return AFloat(s.name if isinstance(s, Atom) else repr(v))
    if v is None or isinstance(v, (Ref, Tup, AEnum)):
        eng.raise_("TypeError", "float() argument must be a string or a real number")
    return Top("float")


# ------------------------------------------------------------------ external objects
def ext_attr(eng, mod, name):
    from . import ext
    return ext.attr(eng, mod, name)


def xc_attr(eng, k, name):
    from . import ext
    return ext.class_attr(eng, k, name)


def obj_attr(eng, o, h, name):
    """attributes of heap objects of external classes and implicit attributes"""
    c = eng.force(h.cls)
    if name == "__class__":
        return c
    if isinstance(c, BT) and name in ("__traceback__", "__cause__", "__context__"):
        return None
    if isinstance(c, BT) and name == "with_traceback":
        return BF(name, lambda e, a, k: o)
    if isinstance(c, BT) and name == "add_note":
        return BF(name, lambda e, a, k: None)
    if name == "__doc__":
        return None
    if name == "__module__":
        return eng.get(c.a).data["#module"] if isinstance(c, Ref) else None
    if name == "__setattr__":
        return BF(name, lambda e, a, k: e.setattr_(o, e.force(a[0]), a[1]))
    if name == "__repr__" or name == "__str__":
        return BF(name, lambda e, a, k: repr_of(e, o))
    if name == "__eq__":
        return BF(name, lambda e, a, k: e.equals(o, a[0]))
    return UNBOUND


def class_extra_attr(eng, o, h, name):
    if name == "__new__":
        return BF("__new__", lambda e, a, k: e.new(H("obj", a[0], {})))
    if name == "__module__":
        return h.data["#module"]
    if name == "__doc__":
        return None
    if name == "__init__":
        if h.data.get("#dc"):
            return BF("__init__", lambda e, a, k: dc_init(e, a[0], o, a[1:], k))
        return BF("__init__", lambda e, a, k: None)
    if name == "__annotations__":
        return eng.mkdict(h.data["#ann"])
    return UNBOUND


def ext_truth(eng, v, h):
    if isinstance(h.cls, XC) and h.cls.name in ("lxml.Element", "ET.Element"):
        return eng.nonempty(eng.get(h.data["children"].a).data, None)
    return None


def path_div(eng, a, b):
    from . import ext
    return ext.path_div(eng, a, b)


def singledispatch(eng, f):
    return Wrap("singledispatch", f, eng.mklist().a)


def singledispatch_register(eng, w, args):
    from .engine import Env

    def add(cls, f):
        h = eng.get(w.extra)
        eng.set(w.extra, h.with_data(h.data + (Tup((cls, f)),)))
        return f
    x = eng.force(args[0])
    if isinstance(x, FuncV):
        ann = x.node.args.args[0].annotation if x.node.args.args else None
        if ann is None:
            eng.raise_("TypeError", "Invalid first argument to `register()`")
        env = Env(x.frame, None, x.module.globals, x.module.modname, x.module.file, qual=x.qual)
        return add(eng.ev(ann, env), x)
    if len(args) > 1:
        return add(x, args[1])
    return BF("register", lambda e, a, k: add(x, a[0]))


def singledispatch_call(eng, w, args, kwargs):
    v = eng.force(args[0])
    if isinstance(v, Top):
        raise Unsupported("singledispatch on an unknown value")
    entries = []
    for e in eng.get(w.extra).data:
        cls, f = e.items
        cls = eng.force(cls)
        for c in (cls.args if isinstance(cls, GAlias) else (cls,)):
            if eng.isinstance_(v, c):
                entries.append((c, f))
    best = None
    for c, f in entries:
        if best is None or same(best[0], c) or eng.is_subclass(c, best[0]):
            best = (c, f)
    return eng.call(best[1] if best else w.v, args, kwargs)
