"""KVN jobs: writer comparison, reader comparison, write-read composition."""
from pyabs import lib, strs
from pyabs.values import *

from . import boot, lines, reader, tree
from .core import job, rec
from .reader import Skel
from .tree import *

KINDS = ("aem", "apm", "cdm", "oem", "omm", "opm", "rdm", "tdm")
ATTS = ("quaternion_state", "quaternion_derivative", "quaternion_euler_rate", "euler_angle", "euler_angle_rate",
        "spin", "spin_nutation")
SEQS = ("121", "123", "131", "132", "212", "213", "231", "232", "312", "313", "321", "323")
KVN = "ccsds_ndm.ndm_kvn_io"
KVNFILE = "ccsds_ndm/ndm_kvn_io.py"


def exc_text(e, x, diff, pc):
    def f():
        v = e.res(x.value)
        try:
            c = boot.typename(e, e.get(v.a).cls)
            a = e.get(v.a).data.get("args")
            return "%s%s" % (c, boot.describe(e, a) if a is not None else "")
        except Exception:
            return repr(v)[:80]
    try:
        return e.with_state(diff, f, pc)
    except Exception:
        return "exception"


def pc_text(pc):
    out = []
    for o, c in list(pc.items())[:6]:
        out.append("%s=%s" % (aname(o) if isinstance(o, tuple) else o, c))
    return "; ".join(out)


# ------------------------------------------------------------------ writer
class WPol(Policy):
    """everything optional undecided, lists of any length; what the data-line layout depends on is fixed"""

    def __init__(self, kind, acc=None, att=None, qt=None, empty=False):
        self.kind, self.acc, self.att, self.qt, self.empty = kind, acc, att, qt, empty

    def present(self, p, f):
        if f["name"].endswith("ddot"):
            return bool(self.acc)
        if f["name"] == "quaternion_type":
            return self.qt is not None
        if self.kind == "aem" and f["name"] in ("rotation_rates", "rotation_angles"):
            return True
        return "maybe"

    def special(self, cls, path):
        if cls == "AttitudeStateType":
            f = [x for x in fields_of(cls) if x["name"] == (self.att or "quaternion_state")][0]
            return SObj(cls, path, {f["name"]: item(f["types"][0], f, path + "." + f["name"], self)})
        if cls == "TdmData":
            obs = []
            fe = [x for x in fields_of("TrackingDataObservationType") if x["name"] == "epoch"][0]
            for i, f in enumerate(x for x in fields_of("TrackingDataObservationType") if x["name"] != "epoch"):
                p = path + ".observation[%d]" % i
                obs.append(SObj("TrackingDataObservationType", p, {
                    "epoch": item("str", fe, p + ".epoch", self),
                    f["name"]: item(f["types"][0], f, p + "." + f["name"], self)}))
            fc = [x for x in fields_of(cls) if x["name"] == "comment"][0]
            return SObj(cls, path, {"comment": SMany(path + ".comment", item("str", fc, path + ".comment[]", self)),
                                    "observation": SItems(obs)})
        return None

    def member(self, p, t):
        if p.endswith(".quaternion_type"):
            return self.qt
        return None

    def text(self, p, f):
        # an empty reference frame of a covariance matrix is the same as none
        return field_atom(p, f, self.empty and f["name"] != "cov_ref_frame")


def what_of(x):
    if isinstance(x, M):
        return "marker"
    if isinstance(x, Dl):
        return x.kind or "tdm"
    if isinstance(x, L):
        if x.key == ("COMMENT",):
            return "comment"
        if x.key and x.key[0] == "USER_DEFINED_":
            return "user"
        return "unitkv" if x.unit is not None else "kv"
    if isinstance(x, LStar):
        return what_of(x.items[0]) if x.items else "list"
    if isinstance(x, tuple) and x:
        return what_of(x[0])
    if isinstance(x, LAlt):
        for b in x.br.values():
            if b:
                return what_of(b[0])
    return "?"


def what_act(x):
    if isinstance(x, lines.Parsed):
        if len(x.segs) == 1 and isinstance(x.segs[0], str) and x.segs[0].endswith(("_START", "_STOP")):
            return "marker"
        if x.key == ("COMMENT",):
            return "comment"
        if x.key is not None:
            return "unitkv" if x.unit is not None else "kv"
        return "data"
    return "?"


def src_of(x):
    if isinstance(x, tuple) and x and not isinstance(x[0], str):
        return src_of(x[0])
    if isinstance(x, LStar):
        return src_of(x.items[0]) if x.items else ""
    if isinstance(x, LAlt):
        for b in x.br.values():
            if b:
                return src_of(b[0])
    return getattr(x, "src", "") or ""


def writer_io(e):
    return lib.instantiate(e, boot.modvar(e, KVN, "NdmKvnIo"), [], {})


def run_writer(e, obj, entry="to_string", extra=()):
    io = writer_io(e)
    return e.run_paths(lambda: e.call(e.getattr_(io, entry), [obj] + list(extra), {}), partial=True)


def compare_write(e, ctx, root, kind, res):
    out, counts = [], {"paths": 0, "lines": 0, "forks": 0}
    for pc, k, v, diff in res:
        counts["paths"] += 1
        if k != "ret":
            out.append(rec("write", kind, "exception", "exception", kind,
                           "writing a %s message raises %s%s" % (kind.upper(), exc_text(e, v, diff, pc),
                                                                 " when " + pc_text(pc) if pc else ""), v.where))
            continue
        ref = tree.refdoc(ctx, root, kind)
        c = lines.Cmp(e)
        try:
            its = e.with_state(diff, lambda: lines.text_items(e.force(v)), pc)
            c.run(ref, its, pc)
        except lines.BadText as x:
            out.append(rec("write", kind, "text", "text", kind, "the written text has no line structure: %s" % (str(x)[:160],)))
            continue
        counts["lines"] += c.lines
        counts["forks"] += c.forks
        for d in c.diffs:
            w = what_of(d[1]) if d[1] is not None else what_act(d[2])
            r = rec("write", kind, w, d[0], src_of(d[1]) or kind, d[3][:400])
            if d[0] in ("extra", "missing") or d[0] == "key":
                r["what2"] = what_act(d[2])
            out.append(r)
    return out, counts


@job
def writer(e, cl, kind, acc=None, att=None, qt=None, empty=False):
    ctx = Ctx(e, cl)
    root = gen(ROOTS[kind], kind, WPol(kind, acc, att, qt, empty))
    obj = ctx.alloc(root)
    return compare_write(e, ctx, root, kind, run_writer(e, obj))


@job
def writer_skel(e, cl, kind, sk):
    """definite message -> text, every order and column"""
    ctx = Ctx(e, cl)
    root = gen(ROOTS[kind], kind, Skel(**sk))
    obj = ctx.alloc(root)
    return compare_write(e, ctx, root, kind, run_writer(e, obj))


# ------------------------------------------------------------------ reader
def cat(path):
    """category of a field path"""
    last = path.rsplit(".", 1)[-1]
    if last.startswith("comment"):
        return "comment"
    if last == "units":
        return "unit"
    if ".attitude_state[" in path:
        return "att"
    if ".state_vector[" in path:
        return "sv"
    if ".covariance_matrix[" in path:
        return "cov"
    if ".observation[" in path:
        return "tdm"
    if ".user_defined" in path:
        return "user"
    return "kv"


def aspect_of(msg):
    if msg.startswith("expected an element") and msg.endswith("found None"):
        return "absent"
    if msg.startswith("expected nothing"):
        return "present"
    if "element(s), found" in msg:
        return "count"
    if msg.startswith(("expected text", "expected number", "expected integer")) or " is lost" in msg:
        return "value"
    if " member " in msg:
        return "value"
    return "structure"


def mk_layout(name):
    """text rendering options: every one of these is a legal layout of the same lines"""
    base = dict(sep=" = ", indent="", eol="\n", blank=False, colsep=" ", usep=" ", comment=" ", trail="", head="", tail="")
    base.update(LAYOUTS[name])
    return base


W0 = lambda: "w0"
LAYOUTS = {
    "plain": {},
    "tight": dict(sep="=", usep=""),
    "anyspace": dict(sep=("w0", "=", "w0"), indent="w0", trail="w0", colsep="w1", usep="w0", comment="w1"),
    "blank": dict(blank=True, head="\n\n", tail="\n\n"),
    "crlf": dict(eol="\r\n", tail="\r\n"),
    "mixedeol": dict(eol=("\n", "\r\n"), blank=True),
    "crlfblank": dict(eol="\r\n", blank=True),
    "tabs": dict(sep="\t=\t", colsep="\t", usep="\t", indent="\t"),
    "commenteq": dict(comment=" = "),
    "commenttight": dict(comment="="),
    "trailing": dict(trail="   ", tail="\n"),
    "writer": dict(sep=" = ", usep="   ", colsep="  ", blank=True),
    "vtab": dict(blank=True, tail="\n   \n"),
}


def nofirst(segs, ch):
    """the text does not begin with ch"""
    a = segs[0]
    if not isinstance(a, Atom):
        return segs
    return (Atom(a.name, a.only, a.forbid, a.minlen, a.maxlen, a.edge, a.kind, a.info,
                 a.firstforbid | frozenset(ch), a.lastforbid),) + tuple(segs[1:])


def doc(lines_, lay):
    segs = []
    n = [0]
    neol = [0]

    def eol():
        x = lay["eol"]
        if isinstance(x, tuple):
            neol[0] += 1
            x = x[neol[0] % len(x)]
        sp(x)

    def sp(x):
        if x == "w0" or x == "w1":
            n[0] += 1
            segs.append(ws_atom(("ws", n[0]), int(x[1])))
        elif isinstance(x, tuple):
            for y in x:
                sp(y)
        elif x:
            segs.append(x)
    sp(lay["head"])
    for i, l in enumerate(lines_):
        if i:
            eol()
            if lay["blank"] and i % 3 == 1:
                eol()
            if lay["blank"] and i % 5 == 2:
                sp("  ")
                eol()
        sp(lay["indent"])
        if isinstance(l, M):
            segs.append(l.text)
        elif isinstance(l, L) and l.key == ("COMMENT",):
            segs.append("COMMENT")
            sp(lay["comment"])
            segs.extend(l.val if "=" in lay["comment"] else nofirst(l.val, "="))
        elif isinstance(l, L):
            segs.extend(l.key)
            sp(lay["sep"])
            segs.extend(l.val)
            if l.unit is not None:
                sp(lay["usep"])
                segs.append("[")
                segs.extend(l.unit)
                segs.append("]")
        elif isinstance(l, Dl):
            if l.key:
                segs.extend(l.key)
                sp(lay["sep"])
            for j, c in enumerate(l.cols):
                if j:
                    sp(lay["colsep"])
                segs.extend(c)
        else:
            raise ModelGap("indefinite reference line %r" % (l,))
        sp(lay["trail"])
    sp(lay["tail"])
    return strs.mk(segs)


def compare_read(e, ctx, root, kind, res, side="read", dom=None):
    out, counts = [], {"paths": 0, "leaves": 0, "objects": 0}
    for pc, k, v, diff in res:
        counts["paths"] += 1
        if k != "ret":
            out.append(rec(side, kind, "exception", "exception", kind,
                           "reading a %s message raises %s%s" % (kind.upper(), exc_text(e, v, diff, pc),
                                                                 " when " + pc_text(pc) if pc else ""), v.where))
            continue
        td = reader.TreeDiff(e, ctx)
        e.with_state(diff, lambda: td.diff(v, root, kind), pc)
        counts["leaves"] += td.leaves
        counts["objects"] += td.objs
        for p, m in td.out:
            out.append(rec(side, kind, cat(p), aspect_of(m), p, m[:400]))
        for ev, cond in e.with_state(diff, lambda: boot.events(e), pc):
            if ev[0] in ("xml-injection", "unknown-element", "unknown-attribute", "convert-fallback"):
                out.append(rec(side, kind, "event", ev[0], kind, "%s while reading: %s" % (ev[0], str(ev[1:3])[:200])))
    return out, counts


@job
def read_skel(e, cl, kind, sk, layout="plain"):
    ctx = Ctx(e, cl)
    root = gen(ROOTS[kind], kind, Skel(**sk))
    txt = doc(tree.refdoc(ctx, root, kind), mk_layout(layout))
    return compare_read(e, ctx, root, kind, reader.read(e, txt))


@job
def roundtrip(e, cl, kind, sk):
    """write an abstract message with the analysed writer, read the text back with the analysed reader"""
    ctx = Ctx(e, cl)
    root = gen(ROOTS[kind], kind, Skel(**sk))
    obj = ctx.alloc(root)

    def thunk():
        io = writer_io(e)
        t = e.call(e.getattr_(io, "to_string"), [obj], {})
        io2 = writer_io(e)
        return e.call(e.getattr_(io2, "from_string"), [t], {})
    return compare_read(e, ctx, root, kind, e.run_paths(thunk, partial=True), "roundtrip")


# ------------------------------------------------------------------ job sets
def base_of(kind, full=True):
    if kind == "oem":
        return {"acc": full}
    if kind == "aem":
        return {"att": "euler_angle_rate", "seq": "312"} if full else {"att": "quaternion_state", "qt": "LAST"}
    return {}


SINGLE_COMMENT = ("opm", "omm", "apm", "cdm", "rdm")   # container-level comments: one is attributable


def writer_jobs():
    out = []
    for k in KINDS:
        if k == "aem":
            for a in ATTS:
                for q in ("FIRST", "LAST", "first", "last") if a[0] == "q" else (None,):
                    out.append(("writer", dict(kind=k, att=a, qt=q)))
        elif k == "oem":
            out += [("writer", dict(kind=k, acc=a)) for a in (True, False)]
        else:
            out.append(("writer", dict(kind=k)))
    return out + [(n, dict(d, empty=True)) for n, d in out]


def optionals(kind, base):
    """paths (relative to the root) of the optional single fields present in the full document"""
    seen = []

    class S(Skel):
        def present(self, p, f):
            r = Skel.present(self, p, f)
            n = f["name"]
            if not (n == "units" and any(x in p for x in reader.DATA_LINES)) and \
                    n not in ("quaternion_type", "euler_rot_seq") and \
                    not (n in ("rotation_angles", "rotation_rates") and ".attitude_state[" in p) and not n.endswith("ddot"):
                seen.append((p[len(kind):], f["types"][0]))
            return r
    gen(ROOTS[kind], kind, S(**dict(base, full=True)))
    return seen


def allopt(t):
    """block with nothing mandatory in it: present only with some content"""
    if t not in MODEL or MODEL[t]["kind"] != "class" or is_value_class(t):
        return False
    return all(f["list"] or not is_required(f) for f in fields_of(t))


def counts_of(kind):
    return {"opm": ("maneuver_parameters", "user_defined"), "apm": ("maneuver_parameters",), "omm": ("user_defined",),
            "oem": ("covariance_matrix", "state_vector", "segment"), "aem": ("attitude_state", "segment"),
            "tdm": ("observation", "segment"), "cdm": (), "rdm": ("user_defined",)}[kind]


def close(on, opts):
    """blocks with nothing mandatory in them get at least one keyword of their own"""
    on = set(on)
    for q, t in opts:
        if q in on and allopt(t):
            own = [o for o, u in opts if o.startswith(q + ".") and "." not in o[len(q) + 1:] and
                   not (u in MODEL and MODEL[u]["kind"] == "class" and not is_value_class(u))]
            if own and not any(o in on for o in own):
                on.add(own[0])
    return tuple(sorted(on))


def random_on(kind, base, rng, p=0.5):
    """a random choice of optional elements"""
    opts = optionals(kind, base)
    return close([q for q, t in opts if rng.random() < p], opts)


def presence_docs(kind, bases=None):
    """every optional element: absent from the full document, present alone in the minimal one"""
    out = []
    full = base_of(kind, True)
    mini = {"acc": False} if kind == "oem" else full
    opts = optionals(kind, full)
    for q, t in opts:
        out.append(dict(full, full=True, off=(q,)))
        out.append(dict(mini, full=False, on=close(tuple(parents(q, opts)) + (q,), opts)))
    return out


def parents(q, opts):
    names = {x for x, t in opts}
    out = []
    while "." in q:
        q = q.rsplit(".", 1)[0]
        if q in names:
            out.append(q)
    return out
