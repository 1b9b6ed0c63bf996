"""Abstract message instances and the reference KVN line grammar.

A message is described by a host-level tree (SObj/SText/...).  From it are derived
  - the abstract heap object handed to the analysed writer (alloc),
  - the sequence of KVN lines the message stands for (reflines), written down here
    independently of the analysed code, from the frozen model table,
  - the text given to the analysed reader (textof).
Optional items are SMaybe (an oracle decides), lists of unknown length SMany.
"""
import json
import os

from pyabs import lib, rex, strs
from pyabs.values import *

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(HERE, "spec", "model.json")) as _f:
    MODEL = json.load(_f)
ROOTS = {"aem": "Aem", "apm": "Apm", "cdm": "Cdm", "oem": "Oem", "omm": "Omm", "opm": "Opm", "rdm": "Rdm", "tdm": "Tdm"}
IDS = {k: "CCSDS_%s_VERS" % k.upper() for k in ROOTS}
VERSIONS = dict.fromkeys(("oem", "omm", "opm", "tdm"), "2.0")
VERSIONS.update(dict.fromkeys(("aem", "apm", "cdm", "rdm"), "1.0"))


class ModelGap(Exception):
    """class / field of the frozen model that the analysed tree does not provide"""


class SObj:
    def __init__(self, cls, path, fields):
        self.cls, self.path, self.fields = cls, path, fields

    def __repr__(self):
        return "%s%r" % (self.cls, self.fields)


class SLeaf:
    """kind: text | dec | int | enum"""

    def __init__(self, kind, path, enum=None, member=None, atom=None, prefix=""):
        self.kind, self.path, self.enum, self.member, self.atom = kind, path, enum, member, atom
        self.prefix = prefix      # literal text before the opaque rest (calendar epochs)

    def __repr__(self):
        return "<%s %s>" % (self.kind, self.path)


class SMaybe:
    def __init__(self, path, node):
        self.path, self.node = path, node


class SItems:
    def __init__(self, items):
        self.items = items


class SMany:
    def __init__(self, tag, node):
        self.tag, self.node = tag, node


def fields_of(cls):
    return MODEL[cls]["fields"]


def is_value_class(cls):
    return any(f["name"] == "value" and f["kind"] == "Text" for f in fields_of(cls))


def is_required(f):
    return bool(f["meta"].get("required"))


def text_atom(path, **kw):
    a = dict(forbid=frozenset("\n\r\x0b\x0c\x1c\x1d\x1e\x85\u2028\u2029"), minlen=1, edge=True)
    a.update(kw)
    return Atom(("in", path), **a)


EPOCHCHARS = frozenset("0123456789-+:.TZ|")
PATHCHARS = frozenset("0123456789,")
rex.FORMS[EPOCHCHARS] = ["2024-01-02T03:04:05.678", "2024-01-02T03:04:05", "2024-01-02T03:04:05Z", "2024-012T03:04:05.6", "2024-012T03:04:05Z", "2024-01-02T03:04:05.678Z", "123.5", "-12", "+0.25"]
rex.FORMS[PATHCHARS] = ["100,200"]


def field_atom(p, f, empty=False):
    """opaque text of a str field: patterned fields are limited to the pattern's characters"""
    if empty and not f["meta"].get("pattern"):
        return text_atom(p, minlen=0)
    pat = f["meta"].get("pattern", "")
    if "T" in pat:
        return text_atom(p, only=EPOCHCHARS)
    if pat:
        return text_atom(p, only=PATHCHARS)
    return text_atom(p)


def gen(cls, path, policy):
    """policy(path, field, kind) -> for optional single: 'maybe'|True|False; for lists 'many'|n.
    policy.special(cls, path) may return a ready SObj."""
    sp = policy.special(cls, path)
    if sp is not None:
        return sp
    out = {}
    for f in fields_of(cls):
        if not f["init"]:
            continue
        p = path + "." + f["name"]
        t = f["types"][0]
        if f["list"]:
            n = policy.count(p, f)
            if n == "many":
                out[f["name"]] = SMany(p, item(t, f, p + "[]", policy))
            else:
                out[f["name"]] = SItems([item(t, f, p + "[%d]" % i, policy) for i in range(n)])
            continue
        pr = True if is_required(f) or f["kind"] == "Text" and not policy.novalue else policy.present(p, f)
        if pr is False:
            out[f["name"]] = None
        elif pr is True:
            out[f["name"]] = item(t, f, p, policy)
        else:
            out[f["name"]] = SMaybe(p, item(t, f, p, policy))
    return SObj(cls, path, out)


def item(t, f, p, policy):
    if t in MODEL:
        if MODEL[t]["kind"] == "enum":
            return SLeaf("enum", p, t, policy.member(p, t))
        return gen(t, p, policy)
    if t == "Decimal":
        return SLeaf("dec", p)
    if t == "int":
        return SLeaf("int", p)
    if t != "str":
        raise ModelGap("field type %s" % t)
    return SLeaf("text", p, atom=policy.text(p, f), prefix=policy.prefix(p, f))


class Policy:
    """everything optional undecided, lists of any length"""
    novalue = False     # True: text content may be missing where the model allows it

    def special(self, cls, path):
        return None

    def count(self, p, f):
        return "many"

    def present(self, p, f):
        return "maybe"

    def member(self, p, t):
        return None

    def text(self, p, f):
        return field_atom(p, f)

    def prefix(self, p, f):
        return ""


# ------------------------------------------------------------------ leaves
class Ctx:
    """binds host trees to an engine"""

    def __init__(self, e, classes):
        self.e, self.classes = e, classes

    def cls(self, name):
        c = self.classes.get(name)
        if c is None:
            raise ModelGap("class %s" % name)
        return c

    def leaf(self, n):
        """abstract value stored in the object"""
        if n.kind == "text":
            return strs.mk([n.prefix, n.atom])
        if n.kind == "dec":
            return ADec(self.decatom(n))
        if n.kind == "int":
            return AInt(0, None, ("in", n.path))
        if n.kind == "enum":
            c = self.cls(n.enum)
            if n.member is None:
                return AEnum(c, n.path)
            for m in self.e.get(c.a).data["#members"]:
                if self.e.get(m.a).data["_value_"] == n.member:
                    return m
            raise ModelGap("%s has no value %s" % (n.enum, n.member))
        raise AssertionError

    def decatom(self, n):
        return Atom(("in", n.path), NUMCHARS, minlen=1, kind="num", edge=True)

    def text(self, n):
        """segments of the text the value is written as"""
        if n.kind == "text":
            return strs.segs_of(strs.mk([n.prefix, n.atom]))
        if n.kind == "dec":
            return (self.decatom(n),)
        if n.kind == "int":
            return strs.segs_of(lib.str_of(self.e, self.leaf(n)))
        if n.member is not None:
            return (n.member,)
        return (lib.enum_atom(self.e, AEnum(self.cls(n.enum), n.path)),)

    def alloc(self, n):
        e = self.e
        if n is None:
            return None
        if isinstance(n, SLeaf):
            return self.leaf(n)
        if isinstance(n, SMaybe):
            return Choice(("present", n.path), {True: self.alloc(n.node), False: None})
        if isinstance(n, SItems):
            return e.mklist(tuple(self.alloc(x) for x in n.items))
        if isinstance(n, SMany):
            return e.mklist((Star((self.alloc(n.node),), n.tag),))
        c = self.cls(n.cls)
        kw = {}
        have = lib.dc_fields(e, c)
        for k, v in n.fields.items():
            if k not in have:
                raise ModelGap("%s.%s" % (n.cls, k))
            if v is None:
                continue
            kw[k] = self.alloc(v)
        return lib.instantiate(e, c, [], kw)


# ------------------------------------------------------------------ reference lines
class L:
    """KEY = value [unit]"""

    def __init__(self, key, val, unit=None, src=""):
        self.key, self.val, self.unit, self.src = tuple(key), tuple(val), unit, src

    def __repr__(self):
        return "%s = %s%s" % (show(self.key), show(self.val), " [%s]" % show(self.unit) if self.unit is not None else "")


class M:
    """block marker"""

    def __init__(self, text, src=""):
        self.text, self.src = text, src

    def __repr__(self):
        return self.text


class Dl:
    """data line; key None or KEY (tracking data)"""

    def __init__(self, key, cols, src="", kind=""):
        self.key, self.cols, self.src, self.kind = key, [tuple(c) for c in cols], src, kind

    def __repr__(self):
        return ("%s = " % show(self.key) if self.key else "") + " ".join(show(c) for c in self.cols)


class LAlt:
    def __init__(self, o, br):
        self.o, self.br = o, br

    def __repr__(self):
        return "Alt(%s)%r" % (oname(self.o), self.br)


class LStar:
    def __init__(self, tag, items):
        self.tag, self.items = tag, items

    def __repr__(self):
        return "Star%r" % (self.items,)


def show(segs):
    if segs is None:
        return ""
    return "".join(s if isinstance(s, str) else "{%s}" % aname(s.name) if isinstance(s, Atom) else repr(s) for s in segs)


def aname(n):
    if isinstance(n, tuple):
        if n and n[0] in ("in", "enumvalue"):
            return str(n[1])
        return ":".join(aname(x) for x in n)
    return str(n)


MARKED = {"AemMetadata": "META", "OemMetadata": "META", "TdmMetadata": "META", "AemData": "DATA", "TdmData": "DATA",
          "OemCovarianceMatrixType": "COVARIANCE"}
QUAT = {"FIRST": ("qc", "q1", "q2", "q3"), "LAST": ("q1", "q2", "q3", "qc")}


def strip_maybe(n):
    return n.node if isinstance(n, SMaybe) else n


def one(ctx, n, fn):
    """lines of an optional single node"""
    if n is None:
        return []
    if isinstance(n, SMaybe):
        return [LAlt(("present", n.path), {True: fn(n.node), False: []})]
    return fn(n)


def value_parts(ctx, n):
    """(value segs, unit node or None, selector node or None) of a value type"""
    unit = n.fields.get("units")
    sel = n.fields.get("angle") or n.fields.get("rate")
    return ctx.text(strip_maybe(n.fields["value"])), unit, sel


def reflines(ctx, n, att=None):
    """att: {'qt': 'FIRST'|'LAST'} attitude settings of the enclosing segment"""
    out = []
    if n.cls == "StateVectorAccType":
        return [Dl(None, [c for c in sv_cols(ctx, n)], n.path, "sv")]
    if n.cls == "OemCovarianceMatrixType":
        return cov_lines(ctx, n)
    if n.cls == "AttitudeStateType":
        return [Dl(None, att_cols(ctx, n, att), n.path, "att")]
    if n.cls == "TrackingDataObservationType":
        return tdm_lines(ctx, n)
    if n.cls == "AemSegment":
        att = {"qt": qt_of(n)}
    for k, v in n.fields.items():
        out.extend(field_lines(ctx, n, k, v, att))
    return out


def qt_of(seg):
    q = seg.fields["metadata"].fields.get("quaternion_type")
    q = strip_maybe(q) if q is not None else None
    return q.member.upper() if isinstance(q, SLeaf) and q.member else "LAST"


def field_lines(ctx, owner, k, v, att):
    f = next(x for x in fields_of(owner.cls) if x["name"] == k)
    key = f["xml"] if f["xml"].isupper() else k.upper()
    if v is None:
        return []

    def single(n):
        if isinstance(n, SLeaf):
            return [L((key,), ctx.text(n), None, n.path)]
        if n.cls == "UserDefinedParameterType":
            val = n.fields["value"]
            return [L(("USER_DEFINED_",) + tuple(upper_key(ctx.text(n.fields["parameter"]))), ctx.text(strip_maybe(val)), None, n.path)]
        if is_value_class(n.cls):
            val, unit, sel = value_parts(ctx, n)
            kk = (key,)
            if sel is not None:
                kk = tuple(upper_key(ctx.text(strip_maybe(sel))))
            if unit is None:
                return [L(kk, val, None, n.path)]
            if isinstance(unit, SMaybe):
                return [LAlt(("present", unit.path), {True: [L(kk, val, ctx.text(unit.node), n.path)],
                                                      False: [L(kk, val, None, n.path)]})]
            return [L(kk, val, ctx.text(unit), n.path)]
        inner = reflines(ctx, n, att)
        return inner

    def marked(n):
        b = MARKED.get(n.cls) if isinstance(n, SObj) else None
        if b and not f["list"]:
            return [M(b + "_START", n.path)] + single(n) + [M(b + "_STOP", n.path)]
        return single(n)

    if isinstance(v, SMany):
        body = [LStar(v.tag, single(v.node))]
        b = MARKED.get(v.node.cls) if isinstance(v.node, SObj) else None
        if b:
            return [LAlt(("nonempty", v.tag), {True: [M(b + "_START", v.tag)] + body + [M(b + "_STOP", v.tag)], False: []})]
        return body
    if isinstance(v, SItems):
        body = [l for n in v.items for l in single(n)]
        b = MARKED.get(v.items[0].cls) if v.items and isinstance(v.items[0], SObj) else None
        if b:
            return [M(b + "_START", owner.path)] + body + [M(b + "_STOP", owner.path)]
        return body
    return one(ctx, v, marked)


def upper_key(segs):
    return strs.segs_of(up(segs))


def up(segs):
    out = []
    for s in segs:
        if isinstance(s, str):
            out.append(s.upper())
        else:
            out.append(s)
    return strs.mk(out)


def leafval(ctx, n):
    n = strip_maybe(n)
    if isinstance(n, SLeaf):
        return ctx.text(n)
    return ctx.text(strip_maybe(n.fields["value"]))


SV_ORDER = ("epoch", "x", "y", "z", "x_dot", "y_dot", "z_dot", "x_ddot", "y_ddot", "z_ddot")


def sv_cols(ctx, n):
    cols = []
    for k in SV_ORDER:
        v = n.fields.get(k)
        if v is None:
            continue
        if isinstance(v, SMaybe):
            raise ModelGap("state vector column %s undecided" % k)
        cols.append(leafval(ctx, v))
    return cols


COV_ROWS = (("cx_x",), ("cy_x", "cy_y"), ("cz_x", "cz_y", "cz_z"),
            ("cx_dot_x", "cx_dot_y", "cx_dot_z", "cx_dot_x_dot"),
            ("cy_dot_x", "cy_dot_y", "cy_dot_z", "cy_dot_x_dot", "cy_dot_y_dot"),
            ("cz_dot_x", "cz_dot_y", "cz_dot_z", "cz_dot_x_dot", "cz_dot_y_dot", "cz_dot_z_dot"))


def cov_lines(ctx, n):
    out = []
    for k in ("comment", "epoch", "cov_ref_frame"):
        out.extend(field_lines(ctx, n, k, n.fields.get(k), None))
    for r in COV_ROWS:
        out.append(Dl(None, [leafval(ctx, n.fields[k]) for k in r], n.path, "cov"))
    return out


def tdm_lines(ctx, n):
    key = [k for k in n.fields if k != "epoch" and n.fields[k] is not None]
    if len(key) != 1:
        raise ModelGap("observation with %d data" % len(key))
    return [Dl((key[0].upper(),), [leafval(ctx, n.fields["epoch"]), leafval(ctx, n.fields[key[0]])], n.path, "tdm")]


def att_cols(ctx, n, att):
    (k, v), = [(k, v) for k, v in n.fields.items() if v is not None]
    v = strip_maybe(v)
    cols = [leafval(ctx, v.fields["epoch"])]
    q = QUAT[(att or {}).get("qt", "LAST")]
    if "quaternion" in v.fields:
        cols += [leafval(ctx, v.fields["quaternion"].fields[c]) for c in q]
    if "quaternion_rate" in v.fields:
        cols += [leafval(ctx, v.fields["quaternion_rate"].fields[c + "_dot"]) for c in q]
    for g in ("rotation_angles", "rotation_rates"):
        if g in v.fields and v.fields[g] is not None:
            r = strip_maybe(v.fields[g])
            cols += [leafval(ctx, r.fields["rotation%d" % i]) for i in (1, 2, 3)]
    for c in ("spin_alpha", "spin_delta", "spin_angle", "spin_angle_vel", "nutation", "nutation_per", "nutation_phase"):
        if c in v.fields:
            cols.append(leafval(ctx, v.fields[c]))
    return cols


def refdoc(ctx, root, kind):
    return [L((IDS[kind],), (VERSIONS[kind],), None, kind)] + reflines(ctx, root)
