"""Load the analysed tree into the abstract interpreter and read off the object model."""
import os
import sys

from pyabs import ext, lib
from pyabs.engine import Engine
from pyabs.values import *
from pyabs.values import H, Ref

sys.setrecursionlimit(60000)
REPO = os.environ.get("NDM_REPO", "/repo")
PKG = "ccsds_ndm"
MODELS = PKG + ".models.ndmxml2"


class Missing(Exception):
    """an anchor the harness needs does not exist in the analysed tree"""


def boot(repo=None, deadline=None):
    e = Engine(repo or REPO, deadline=deadline)
    e.hooks = {}
    ext.preload(e)
    for m in (PKG + ".ndm_io", PKG + ".ndm_xml_io", PKG + ".ndm_kvn_io", MODELS):
        if e.find_source(m) is None:
            raise Missing("module %s not found" % m)
        e.import_module(m)
    return e


SELFTEST = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "spec", "ndm_selftest.py")


def load_selftest(e):
    """deliberately wrong readers and writers; absent when the tree no longer has what they build on"""
    e.extra = {"ndm_selftest": SELFTEST}
    if "ndm_selftest" not in e.modules:
        e.import_module("ndm_selftest")


def settle(e):
    del e.journal[:]
    e.hooks = {}


def modvar(e, mod, name, default=UNBOUND):
    m = e.modules[mod]
    v = e.get(e.get(m.a).data["frame"]).data.get(name, UNBOUND)
    if v is UNBOUND:
        if default is not UNBOUND:
            return default
        raise Missing("%s has no %s" % (mod, name))
    return v


def model_classes(e):
    """{class name: Ref} of every class of the generated model package"""
    out = {}
    for n, m in e.modules.items():
        if not isinstance(m, Ref) or not (n == MODELS or n.startswith(MODELS + ".")):
            continue
        for k, v in e.get(e.get(m.a).data["frame"]).data.items():
            if isinstance(v, Ref) and e.get(v.a).kind == "class":
                d = e.get(v.a).data
                if not str(d.get("#module", "")).startswith(MODELS):
                    continue
                if d["#name"] in out and out[d["#name"]].a != v.a:
                    raise Missing("two model classes named %s" % d["#name"])
                out[d["#name"]] = v
    return out


def typename(e, t):
    if isinstance(t, BT):
        return t.name
    if isinstance(t, XC):
        return t.name.split(".")[-1]
    if isinstance(t, Ref):
        return e.get(t.a).data["#name"]
    return repr(t)


def _plain(e, v):
    v = e.force(v)
    if v is None or isinstance(v, (bool, int, float, str)):
        return v
    if isinstance(v, Decimal):
        return {"decimal": str(v)}
    if isinstance(v, Ref):
        h = e.get(v.a)
        if h.kind == "obj" and e.is_enum_class(e.force(h.cls)):
            return {"enum": [typename(e, e.force(h.cls)), h.data["_name_"]]}
        if h.kind == "dict":
            return {str(k): _plain(e, x) for k, x in lib.dict_items(e, v)}
        if h.kind == "list":
            return [_plain(e, x) for x in h.data]
        if h.kind == "class":
            return {"class": h.data["#name"]}
    if v is MISSING:
        return {"missing": True}
    if isinstance(v, (BT, XC)):
        return {"type": v.name}
    return {"?": repr(v)}


def extract(e):
    """the object model of the analysed tree, as plain data"""
    out = {}
    for name, c in sorted(model_classes(e).items()):
        h = e.get(c.a)
        if "#members" in h.data:
            members = []
            mm = e.lookup_class_attr(c, "_member_map_")
            for n, m in lib.dict_items(e, mm):
                members.append([n, _plain(e, e.get(m.a).data["_value_"])])
            out[name] = {"kind": "enum", "members": members}
            continue
        if not h.data.get("#dc") and e.lookup_class_attr(c, "__dataclass_fields__") is UNBOUND:
            continue
        fields = []
        for p in ext.field_plan(e, c):
            n, xn, kind, islist, types, fd = p
            meta = _plain(e, fd["metadata"])
            default = _plain(e, fd["default"])
            if fd["default_factory"] is not MISSING:
                default = {"factory": typename(e, fd["default_factory"])}
            fields.append({"name": n, "xml": xn, "kind": kind, "list": islist,
                           "types": [typename(e, t) for t in types], "init": fd["init"], "default": default,
                           "meta": {k: v for k, v in meta.items() if k not in ("name", "type")}})
        rec = {"kind": "class", "fields": fields, "bases": [typename(e, b) for b in h.data["#bases"]]}
        mref = h.data["#ns"].get("Meta")
        if isinstance(mref, Ref):
            ns = e.get(mref.a).data["#ns"]
            rec["meta"] = {k: _plain(e, ns[k]) for k in ("name", "namespace", "nillable") if k in ns}
        out[name] = rec
    return out


def where_defined(e, cref):
    """file of a class"""
    mod = e.get(cref.a).data.get("#module")
    src = e.find_source(mod) if mod else None
    return os.path.relpath(src, e.repo) if src else "?"


def describe(e, v, d=0):
    """short rendering of an abstract value for reports"""
    v = e.res(v)
    if v is None or isinstance(v, (bool, int, float, str)):
        return repr(v)
    if isinstance(v, AStr):
        return "".join(s if isinstance(s, str) else "{%s}" % (s.name[-1] if isinstance(s, Atom) and isinstance(s.name, tuple)
                       else s.name if isinstance(s, Atom) else type(s).__name__) for s in v.segs)
    if isinstance(v, ADec):
        return "number {%s}" % (v.atom.name[-1] if isinstance(v.atom.name, tuple) else v.atom.name)
    if isinstance(v, AEnum):
        return "member of %s {%s}" % (typename(e, v.cls), v.name)
    if isinstance(v, Choice):
        return "one of " + " / ".join(sorted({describe(e, b, d + 1) for b in v.br.values()}))[:160]
    if isinstance(v, Tup):
        return "(" + ", ".join(describe(e, x, d + 1) for x in v.items[:4]) + ")"
    if isinstance(v, Ref):
        h = e.get(v.a)
        if h.kind == "obj":
            if isinstance(h.cls, Ref) and e.is_enum_class(h.cls):
                return "%s.%s" % (typename(e, h.cls), h.data.get("_name_"))
            return "a %s" % typename(e, h.cls)
        if h.kind == "list":
            if d > 1:
                return "[...]"
            return "[" + ", ".join(describe(e, x, d + 1) for x in h.data[:6] if not isinstance(x, (Alt, Star))) + "]"
        return "a %s" % h.kind
    return repr(v)[:80]


FILE_EVENTS = ("open-w", "open-r", "write", "truncate", "close", "rename", "fs", "os", "read", "decode")


def settled(e, thunk, kinds=FILE_EVENTS):
    """thunk, with every undecided alternative that contains file events decided (one top-level path each)"""
    def force(items):
        for x in e.resolve_items(items):
            if type(x) is Alt:
                if any(z[0][0] in kinds for b in x.br.values() for z in events(e, b)):
                    raise NeedChoice(x.o, x.br.keys())
            elif type(x) is Choice:
                if any(z[0][0] in kinds for b in x.br.values() for z in events(e, (b,))):
                    raise NeedChoice(x.o, x.br.keys())

    def run():
        try:
            v = thunk()
        except PyRaise:
            force(e.trace())
            raise
        force(e.trace())
        return v
    return run


def events(e, data=None, cond=False):
    """every event of a trace, with a flag telling whether it is unconditional on the path"""
    out = []
    for x in e.resolve_items(e.trace() if data is None else data):
        if type(x) is Alt:
            for b in x.br.values():
                out.extend(events(e, b, True))
        elif type(x) is Star:
            out.extend(events(e, x.items, True))
        elif type(x) is Choice:
            for b in x.br.values():
                out.extend(events(e, (b,), True))
        elif isinstance(x, Tup):
            out.append((x.items, cond))
    return out
