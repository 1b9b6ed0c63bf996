"""KVN reader harness: definite skeleton documents (keywords, units and structure fixed,
every value opaque) are given to the analysed reader and the object tree it builds is
compared, field by field, with the message the document stands for."""
from pyabs import lib, strs
from pyabs.values import *

from . import boot
from .tree import *


DATA_LINES = (".state_vector[", ".covariance_matrix[", ".attitude_state[", ".observation[")
ANGLES = {"angle": ("X_ANGLE", "Y_ANGLE", "Z_ANGLE"), "rate": ("X_RATE", "Y_RATE", "Z_RATE")}


class Skel(Policy):
    """definite documents. present: True | False | set of path suffixes that are present/absent"""

    def __init__(self, full=True, counts=None, comments=1, att=None, qt=None, seq=None, case=None,
                 acc=None, obs=None, on=(), off=(), epoch="2024-", members=None, empty=False, exotic=None, names=None):
        self.names = names
        self.empty, self.exotic = empty, exotic
        self.full, self.counts, self.comments = full, counts or {}, comments
        self.att, self.qt, self.seq, self.case = att, qt, seq, case
        self.acc, self.obs, self.on, self.off, self.epoch = acc, obs, on, off, epoch
        self.members = members or {}

    def of(self, what, path):
        """an attitude setting, given once or per segment"""
        v = getattr(self, what)
        if isinstance(v, (tuple, list)):
            i = int(path.split(".segment[")[1].split("]")[0]) if ".segment[" in path else 0
            return v[i % len(v)]
        return v

    def special(self, cls, path):
        if cls == "AttitudeStateType":
            att = self.of("att", path) or "quaternion_state"
            f = [x for x in fields_of(cls) if x["name"] == att][0]
            return SObj(cls, path, {att: item(f["types"][0], f, path + "." + att, self)})
        if cls == "TrackingDataObservationType":
            i = int(path[path.rindex("[") + 1:-1])
            data = [x for x in fields_of(cls) if x["name"] != "epoch"]
            f = data[(self.obs[i] if self.obs else i) % len(data)]
            fe = [x for x in fields_of(cls) if x["name"] == "epoch"][0]
            return SObj(cls, path, {"epoch": item("str", fe, path + ".epoch", self),
                                    f["name"]: item(f["types"][0], f, path + "." + f["name"], self)})
        return None

    def count(self, p, f):
        leaf = f["name"]
        for k, v in self.counts.items():
            if p.endswith(k):
                return v
        if leaf == "comment":
            # data-level comments of these messages directly precede the comments of the first data
            # block: only one of them is attributable to the data section itself
            if p.endswith(".data.comment") and p.split(".")[0] in ("opm", "omm", "apm", "cdm", "rdm"):
                return min(self.comments, 1)
            return self.comments
        if leaf == "segment":
            return 2 if p.startswith("cdm") else 1
        if leaf == "maneuver_parameters":
            return 1 if self.full else 0
        if leaf == "covariance_matrix":
            return 1 if self.full else 0
        if leaf == "user_defined":
            return 2
        return 2

    def present(self, p, f):
        if f["name"] == "units" and any(x in p for x in DATA_LINES):
            return False
        if f["name"] in ("rotation_angles", "rotation_rates") and ".attitude_state[" in p:
            return True       # a data line always has all its columns
        if any(p.endswith(x) for x in self.off):
            return False
        if any(p.endswith(x) for x in self.on):
            return True
        if f["name"].endswith("ddot") and self.acc is not None:
            return self.acc
        if f["name"] == "quaternion_type":
            return self.of("qt", p) is not None
        if f["name"] == "euler_rot_seq":
            return self.of("seq", p) is not None
        return self.full

    def member(self, p, t):
        if t in self.members:
            return self.members[t]
        if t in ("AngleKeywordType", "AngleRateKeywordType"):
            i = int(p.split(".rotation")[-1][0]) - 1
            j = int((self.of("seq", p) or "321")[i]) - 1
            return ANGLES[p.split(".")[-1]][j]
        if p.endswith(".quaternion_type"):
            return self.of("qt", p)
        if p.endswith(".euler_rot_seq"):
            return self.of("seq", p)
        if p.endswith(".attitude_type") and self.of("att", p):
            r = {"quaternion_state": "QUATERNION", "quaternion_derivative": "QUATERNION/DERIVATIVE",
                    "quaternion_euler_rate": "QUATERNION/RATE", "euler_angle": "EULER_ANGLE",
                    "euler_angle_rate": "EULER_ANGLE/RATE", "spin": "SPIN", "spin_nutation": "SPIN/NUTATION"}[self.of("att", p)]
            return r.lower() if self.case == "lower" else r
        return None

    def text(self, p, f):
        a = field_atom(p, f, self.empty is True and f["name"] not in ("cov_ref_frame", "parameter"))
        free = not f["meta"].get("pattern") and f["name"] != "parameter"
        self.texts = getattr(self, "texts", -1) + free
        if free and self.empty == "lit" and f["kind"] != "Text" and (self.texts % 2 or f["name"] == "comment" and p.endswith("[0]")):
            return ""
        if free and self.texts == self.exotic:
            # texts may contain other line separators than line feed and carriage return
            a = text_atom(p, only=frozenset("abcdefghijklmnopqrstuvwxyz0123456789 " + strs.NEL), forbid=a.forbid - frozenset(strs.NEL), firstforbid=frozenset(strs.NEL), lastforbid=frozenset(strs.NEL))
        if f["name"] == "comment":
            return a
        if f["name"] == "parameter":
            if self.names:
                return ""
            return text_atom(p, only=frozenset("ABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789_"))
        return a

    def prefix(self, p, f):
        if f["name"] == "parameter":
            i = int(p.split("user_defined[")[1].split("]")[0])
            return self.names[i % len(self.names)] if self.names else user_name(i)
        return self.epoch if "T" in f["meta"].get("pattern", "") else ""


def user_name(i):
    return "ABCDEFGHJK"[i] if i < 10 else "P%dX" % i


def doc_text(lines, sep=" = "):
    segs = []
    for i, l in enumerate(lines):
        if i:
            segs.append("\n")
        if isinstance(l, M):
            segs.append(l.text)
        elif isinstance(l, L):
            if l.key == ("COMMENT",):
                segs.append("COMMENT" + sep)
                segs.extend(l.val)
                continue
            segs.extend(l.key)
            segs.append(sep)
            segs.extend(l.val)
            if l.unit is not None:
                segs.append(" [")
                segs.extend(l.unit)
                segs.append("]")
        elif isinstance(l, Dl):
            if l.key:
                segs.extend(l.key)
                segs.append(sep)
            for j, c in enumerate(l.cols):
                if j:
                    segs.append(" ")
                segs.extend(c)
        else:
            raise ModelGap("indefinite reference line %r" % (l,))
    return strs.mk(segs)


# ------------------------------------------------------------------ comparison
def norm(segs):
    return [("a", s.name) if isinstance(s, Atom) else s for s in segs if s != ""]


class TreeDiff:
    def __init__(self, eng, ctx):
        self.e, self.ctx = eng, ctx
        self.out = []
        self.leaves = 0
        self.objs = 0
        self.under = []       # decisions the present comparison is made under
        self.splits = 0

    def add(self, path, msg):
        if self.under:
            msg += " when " + "; ".join("%s is %s" % (oname(o), c) for o, c in self.under)[:200]
        self.out.append((path, msg))

    def branch(self, o, choices, thunk, path):
        """compare under each way the decision may go"""
        e = self.e
        self.splits += 1
        if self.splits > 400:
            raise Unsupported("too many alternatives in the result")
        n = len(self.out)
        for c in choices:
            e.pc[o] = c
            self.under.append((o, c))
            try:
                thunk()
            except Infeasible:
                pass
            finally:
                del e.pc[o]
                self.under.pop()
            if len(self.out) > n:
                return

    def desc(self, v):
        try:
            return boot.describe(self.e, v)
        except Exception:
            return repr(v)[:120]

    def diff(self, v, n, path):
        e = self.e
        v = e.res(v)
        if type(v) is Choice:
            return self.branch(v.o, list(v.br), lambda: self.diff(v, n, path), path)
        if n is None:
            if v is not None and not isinstance(v, tuple):
                self.add(path, "expected nothing, found %s" % self.desc(v))
            return
        if isinstance(n, SLeaf):
            self.leaves += 1
            return self.leaf(v, n, path)
        if isinstance(n, SItems):
            if not (isinstance(v, Ref) and e.get(v.a).kind == "list"):
                return self.add(path, "expected a list of %d, found %s" % (len(n.items), self.desc(v)))
            its = e.resolve_items(e.get(v.a).data)
            if its and any(type(x) is Alt for x in its):
                x = [x for x in its if type(x) is Alt][0]
                return self.branch(x.o, list(x.br), lambda: self.diff(v, n, path), path)
            if any(type(x) is Star for x in its):
                return self.add(path, "number of elements is not determined by the document")
            if len(its) != len(n.items):
                self.add(path, "expected %d element(s), found %d" % (len(n.items), len(its)))
            for i, (a, b) in enumerate(zip(its, n.items)):
                self.diff(a, b, "%s[%d]" % (path, i))
            return
        self.objs += 1
        if not (isinstance(v, Ref) and e.get(v.a).kind == "obj"):
            return self.add(path, "expected an element %s, found %s" % (n.cls, self.desc(v)))
        h = e.get(v.a)
        cname = boot.typename(e, h.cls)
        if cname != n.cls:
            return self.add(path, "expected an element %s, found a %s" % (n.cls, cname))
        for f in fields_of(n.cls):
            if not f["init"]:
                continue
            k = f["name"]
            x = h.data.get(k, UNBOUND)
            if x is UNBOUND:
                self.add(path + "." + k, "field is missing")
                continue
            w = n.fields.get(k)
            if w is None and f["list"]:
                w = SItems([])
            self.diff(x, w, path + "." + k)

    def leaf(self, v, n, path):
        want = norm(self.ctx.text(n))
        if v is None:
            return self.add(path, "value %s is lost" % show(self.ctx.text(n)))
        if n.kind == "text":
            if isinstance(v, (str, AStr)) and norm(strs.segs_of(v)) == want:
                return
            return self.add(path, "expected text %s, found %s" % (show(self.ctx.text(n)), self.desc(v)))
        if n.kind == "dec":
            if isinstance(v, ADec) and [("a", v.atom.name)] == want:
                return
            return self.add(path, "expected number %s, found %s" % (show(self.ctx.text(n)), self.desc(v)))
        if n.kind == "int":
            if same(v, self.ctx.leaf(n)) or (isinstance(v, (AInt, ALin)) and norm(strs.segs_of(lib.str_of(self.e, v))) == want):
                return
            return self.add(path, "expected integer %s, found %s" % (show(self.ctx.text(n)), self.desc(v)))
        exp = self.ctx.leaf(n)
        if same(v, exp):
            return
        if isinstance(v, AEnum) and isinstance(exp, AEnum) and v.name == exp.name and same(v.cls, exp.cls):
            return
        self.add(path, "expected %s member %s, found %s" % (n.enum, show(self.ctx.text(n)), self.desc(v)))


def read(e, text, entry="from_string"):
    """run_paths outcome of the KVN reader on text"""
    def thunk():
        io = lib.instantiate(e, boot.modvar(e, "ccsds_ndm.ndm_kvn_io", "NdmKvnIo"), [], {})
        return e.call(e.getattr_(io, entry), [text], {})
    return e.run_paths(thunk, partial=True)
