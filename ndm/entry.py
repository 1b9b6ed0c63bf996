"""Entry-point jobs: format identification, dispatch, files, encodings, options, failures, state."""
import ast

from pyabs import ext, lib, strs
from pyabs.values import *
from pyabs.values import H, Ref

from . import boot, lines, reader, tree
from .core import job, rec
from .kvn import KINDS, base_of, cat, aspect_of, compare_read, compare_write, doc, exc_text, mk_layout, pc_text
from .reader import Skel, TreeDiff
from .tree import *

IO = {"ndm": ("ccsds_ndm.ndm_io", "NdmIo"), "xml": ("ccsds_ndm.ndm_xml_io", "NdmXmlIo"), "kvn": ("ccsds_ndm.ndm_kvn_io", "NdmKvnIo")}
for _c in ("Mutate", "MutateList", "Retain", "Memo", "Effect", "Clock", "SetOrder", "Swallow", "Leak", "Locale", "Early", "Lenient", "Sticky"):
    IO["bad:" + _c] = ("ndm_selftest", _c)      # see spec/ndm_selftest.py
FILES = {"ndm": "ccsds_ndm/ndm_io.py", "xml": "ccsds_ndm/ndm_xml_io.py", "kvn": "ccsds_ndm/ndm_kvn_io.py"}
FMTS = ("XML", "KVN", "JSON")
# a file name: any text (its ending, its directory, a leading "~" are open)
IN = AStr([Atom(("path", "in"), minlen=1)])
OUT = AStr([Atom(("path", "out"), minlen=1)])


# ------------------------------------------------------------------ reference XML
def xmlref(ctx, n, tag, out, level=0, attrs=()):
    ind = "  " * level
    if n is None:
        return
    if isinstance(n, SMaybe):
        raise ModelGap("undecided element %s" % tag)
    if isinstance(n, SItems):
        for x in n.items:
            xmlref(ctx, x, tag, out, level)
        return
    if isinstance(n, SLeaf):
        if ctx.text(n) == ():
            out.append(ind + "<%s/>\n" % tag)
            return
        out.append(ind + "<%s>" % tag)
        out.extend(strs.xml_escape(ctx.text(n)))
        out.append("</%s>\n" % tag)
        return
    out.append(ind + "<" + tag)
    text = None
    kids = []
    for f in fields_of(n.cls):
        v = n.fields.get(f["name"])
        if f["kind"] == "Attribute":
            if not f["init"]:
                out.append(' %s="%s"' % (f["xml"], f["default"]))
            elif v is not None:
                out.append(' %s="' % f["xml"])
                out.extend(strs.xml_escape(ctx.text(v), True))
                out.append('"')
        elif f["kind"] == "Text":
            text = v
        elif f["init"]:
            kids.append((f["xml"], v))
    for a in attrs:
        out.append(a)
    if text is not None and ctx.text(text) != ():
        out.append(">")
        out.extend(strs.xml_escape(ctx.text(text)))
        out.append("</%s>\n" % tag)
        return
    body = []
    for t, v in kids:
        xmlref(ctx, v, t, body, level + 1)
    if not body:
        out.append("/>\n")
        return
    out.append(">\n")
    out.extend(body)
    out.append(ind + "</%s>\n" % tag)


def xml_text(ctx, root, tag, decl=True):
    out = ['<?xml version="1.0" encoding="UTF-8"?>\n'] if decl else []
    xmlref(ctx, root, tag, out)
    return strs.mk(out)


def skel(kind, full=False, comments=1, prefix=None, **kw):
    sk = Skel(**dict(base_of(kind, full), full=full, comments=comments, **kw))
    return gen(ROOTS[kind], prefix or kind, sk)


def kvn_text(ctx, root, kind, layout="plain"):
    return doc(tree.refdoc(ctx, root, kind), mk_layout(layout))


def io_obj(e, which):
    return lib.instantiate(e, boot.modvar(e, *IO[which]), [], {})


def fmt(e, name):
    c = boot.modvar(e, "ccsds_ndm.ndm_io", "NDMFileFormats")
    for m in e.get(c.a).data["#members"]:
        if e.get(m.a).data["_name_"] == name:
            return m
    raise boot.Missing("NDMFileFormats.%s" % name)


def to_bytes(v):
    return v.encode("utf-8") if isinstance(v, str) else AStr(v.segs, True)


def excname(e, x, diff, pc):
    def f():
        v = e.res(x.value)
        c = e.get(v.a).cls
        names = []
        for k in e.mro(c):
            names.append(boot.typename(e, k))
        return names
    try:
        return e.with_state(diff, f, pc)
    except Exception:
        return ["?"]


def evs(e, diff, pc):
    return e.with_state(diff, lambda: [x for x, c in boot.events(e)], pc)


def segs_trim(v):
    return lines.trim(strs.segs_of(v)) if isinstance(v, (str, bytes, AStr)) else None


def txt(v):
    return strs.segs_of(v) if isinstance(v, (str, bytes, AStr)) else None


def same_text(a, b):
    if not isinstance(a, (str, bytes, AStr)) or not isinstance(b, (str, bytes, AStr)):
        return False
    if strs.isb(a) != strs.isb(b):
        return False
    return norm_(strs.segs_of(a)) == norm_(strs.segs_of(b))


def norm_(segs):
    out = []
    for s in segs:
        if isinstance(s, bytes):
            s = s.decode("utf-8", "replace")
        if isinstance(s, str):
            if out and isinstance(out[-1], str):
                out[-1] += s
            elif s:
                out.append(s)
        else:
            out.append(("a", s.name) if isinstance(s, Atom) else repr(s))
    return out


def stub(e, which, meth, tag):
    """replace a reader/writer method by a recorder returning an opaque result"""
    c = boot.modvar(e, *IO[which])
    h = e.get(c.a)
    if meth not in h.data["#ns"]:
        raise boot.Missing("%s.%s" % (IO[which][1], meth))

    def fn(eng, a, k):
        eng.emit("stub", tag, a[1] if len(a) > 1 else next(iter(k.values()), None))
        return Tup(("stub", tag))
    e.set(c.a, h.with_data(dict(h.data, **{"#ns": dict(h.data["#ns"], **{meth: BF(meth, fn)})})))


# ------------------------------------------------------------------ C01
FRONT = {"w0": lambda: [Atom(("lead",), only=ALLWS, kind="ws")], "none": lambda: []}
BACK = {"w0": lambda: [Atom(("trail",), only=ALLWS, kind="ws")], "none": lambda: []}


def shapes():
    A = lambda n, **k: Atom((n,), **k)
    ws = [chr(c) for c in (9, 10, 11, 12, 13, 28, 29, 30, 31, 32, 0x85, 0xa0)]
    notws = frozenset(ALLWS) | frozenset(ws)
    end = frozenset(notws)
    s = {
        "kvn": (["CCSDS_", A("rest")], "KVN"),
        "xml": (["<", A("rest"), ">"], "XML"),
        "json": (["[", A("rest"), "]"], "JSON"),
        "other": ([A("first", minlen=1, maxlen=1, forbid=notws | frozenset("<[C")), A("rest")], None),
        "ltopen": (["<", A("rest"), A("last", minlen=1, maxlen=1, forbid=end | frozenset(">"))], None),
        "brackopen": (["[", A("rest"), A("last", minlen=1, maxlen=1, forbid=end | frozenset("]"))], None),
        "cother": (["C", A("nxt", minlen=1, maxlen=1, forbid=frozenset("C")), A("rest")], None),
        "ccsds-": (["CCSDS", A("nxt", minlen=1, maxlen=1, forbid=frozenset("_")), A("rest")], None),
        "lower": (["ccsds_", A("rest")], None),
        "empty": ([], None),
        "xmlkvn": (["<?xml ", A("rest"), " CCSDS_OPM_VERS ", A("rest2"), ">"], "XML"),
        "kvnlt": (["CCSDS_OPM_VERS = 2.0\n", A("rest"), ">"], "KVN"),
        "kvnbr": (["CCSDS_OPM_VERS = 2.0\n", A("rest"), "[km]"], "KVN"),
        "commentfirst": (["COMMENT ", A("rest")], None),
    }
    return s


@job
def identify(e, cl, shape, lead, trail, entry="from_string"):
    segs, want = shapes()[shape]
    core = strs.mk(segs)
    text = strs.mk(FRONT[lead]() + list(segs) + BACK[trail]())
    for w in ("xml", "kvn"):
        stub(e, w, "from_string", w.upper())
    arg = text
    if entry == "from_bytes":
        arg = to_bytes(text)
    if entry == "from_path":
        arg = IN
        e.hooks["files"] = lambda eng, p, b, enc: to_bytes(text) if b else text
    io = io_obj(e, "ndm")
    res = e.run_paths(lambda: e.call(e.getattr_(io, entry), [arg], {}))
    out = []
    P = "ndm_io.NdmIo.%s" % entry
    sh = "".join(x if isinstance(x, str) else "*" for x in segs)
    for pc, k, v, diff in res:
        if k == "exc":
            names = excname(e, v, diff, pc)
            if want == "JSON" and "NotImplementedError" in names:
                continue
            if want is None and "ValueError" in names:
                continue
            out.append(rec("entry", "", "identify", "exception", P,
                           "text of the form %r (white space around: %s/%s) must be %s but %s is raised" % (
                               sh, lead, trail, "read as " + want if want in ("KVN", "XML") else "rejected with %s" % (
                                   "NotImplementedError" if want else "ValueError"), names[0]), v.where))
            continue
        st = [x for x in evs(e, diff, pc) if x[0] == "stub"]
        if want in ("KVN", "XML"):
            if [x[1] for x in st] != [want]:
                out.append(rec("entry", "", "identify", "dispatch", P, "text of the form %r must be read by the %s reader, readers used: %s" % (
                    sh, want, [x[1] for x in st] or "none")))
            elif norm_(segs_trim2(st[0][2])) != norm_(segs_trim2(text)):
                out.append(rec("entry", "", "identify", "text", P, "the text handed to the %s reader is not the input text" % want))
            elif not (isinstance(v, Tup) and v.items[0] == "stub"):
                out.append(rec("entry", "", "identify", "result", P, "the %s reader's result is not returned" % want))
        else:
            out.append(rec("entry", "", "identify", "accepted", P, "text of the form %r must be rejected with %s, but a result is returned" % (
                sh, "NotImplementedError" if want else "ValueError")))
    return out, {"paths": len(res), "shapes": 1}


def segs_trim2(v):
    if isinstance(v, bytes):
        v = v.decode("utf-8", "replace")
    if not isinstance(v, (str, AStr)):
        return (repr(v),)
    segs = list(strs.segs_of(v))
    while segs and isinstance(segs[0], Atom) and segs[0].kind == "ws":
        segs.pop(0)
    while segs and isinstance(segs[-1], Atom) and segs[-1].kind == "ws":
        segs.pop()
    return segs


# ------------------------------------------------------------------ C02 / C04 / C05: output
def fs_of(events, before=()):
    """final file contents after a trace; `before`: files that exist before it"""
    fs, closed, keep = {key_of(p): old_of(p) for p in before}, {}, {}
    old = lambda k: AStr([Atom(("old content", k))])
    for x in events:
        if x[0] == "open-w":
            k = key_of(x[1])
            closed[k] = False
            m = str(x[2])
            keep[k] = "after" if "+" in m and "r" in m else "before" if "a" in m else None
            if keep[k] is None:
                fs[k] = ""
            else:
                fs.setdefault(k, old(k))
        elif x[0] == "write":
            k = key_of(x[1])
            fs[k] = x[2]
            if keep.get(k) and isinstance(x[2], (str, bytes, AStr)):
                t = x[2].decode("utf-8", "replace") if isinstance(x[2], bytes) else AStr(strs.segs_of(x[2]), False)
                fs[k] = strs.concat(t, old(k)) if keep[k] == "after" else strs.concat(old(k), t)
        elif x[0] == "truncate":
            k = key_of(x[1])
            keep[k] = None
            fs[k] = x[2]
        elif x[0] == "close":
            closed[key_of(x[1])] = True
        elif x[0] == "rename":
            a, b = key_of(x[1]), key_of(x[2])
            if a in fs:
                fs[b] = fs.pop(a)
                closed[b] = closed.pop(a, True)
        elif x[0] == "fs" and x[1] == "unlink":
            fs.pop(key_of(x[2]), None)
        elif x[0] == "os" and x[1] in ("remove", "unlink"):
            fs.pop(key_of(x[2].items[0]), None)
        elif x[0] == "os" and x[1] == "truncate":
            fs[key_of(x[2].items[0])] = AStr([Atom(("truncated",))])
        elif x[0] == "os" and x[1] == "open":
            raise Unsupported("a file opened with os.open")
    return fs, closed


def old_of(p):
    return AStr([Atom(("old content", key_of(p)))])


def key_of(p):
    return p if isinstance(p, str) else repr(norm_(strs.segs_of(p))) if isinstance(p, AStr) else repr(p)


def as_path(e, p, how):
    if how == "path":
        return ext.mkpath(e, p)
    if how == "pathlike":
        c = lib.make_class(e, "APathLike", [], {"__fspath__": BF("__fspath__", lambda eng, a, k: p)}, {}, {})
        return lib.instantiate(e, c, [], {})
    return p


@job
def to_file(e, cl, io, kind, how="str", full=False, fmtname=None, opts=()):
    """what to_file stores, against what to_string returns"""
    ctx = Ctx(e, cl)
    root = skel(kind, full)
    obj = ctx.alloc(root)
    path = OUT
    P = "%s.%s.to_file" % (IO[io][0].split(".")[-1], IO[io][1])
    opts = dict(opts)

    def thunk():
        x = io_obj(e, io)
        args = [obj] + ([fmt(e, fmtname)] if fmtname else [])
        t = e.call(e.getattr_(x, "to_string"), args, dict(opts))
        e.emit("mark")
        y = io_obj(e, io)
        r = e.call(e.getattr_(y, "to_file"), args + [as_path(e, path, how)], dict(opts))
        return Tup((t, r))
    out = []
    res = e.run_paths(boot.settled(e, thunk))
    for pc, k, v, diff in res:
        if k == "exc":
            out.append(rec("entry", kind, "tofile", "exception", P, "writing to a %s raises %s" % (
                {"str": "path given as text", "path": "pathlib path", "pathlike": "path-like object"}[how], exc_text(e, v, diff, pc)), v.where))
            continue
        t = e.with_state(diff, lambda: e.res(v.items[0]), pc)
        if not isinstance(t, (str, AStr)) or strs.isb(t):
            out.append(rec("entry", kind, "tofile", "type", P.replace("to_file", "to_string"), "to_string does not return text"))
            continue
        ev = evs(e, diff, pc)
        i = max(j for j, x in enumerate(ev) if x[0] == "mark")
        pre, post = ev[:i], ev[i + 1:]
        if any(x[0] in ("open-w", "write", "rename", "fs", "os") for x in pre):
            out.append(rec("entry", kind, "tofile", "effect", P.replace("to_file", "to_string"), "to_string writes to the file system"))
        fs, closed = fs_of(post, [path] if any(x[0] == "rename" and key_of(x[1]) == key_of(path) for x in post) else [])
        if key_of(path) not in fs:
            out.append(rec("entry", kind, "tofile", "nofile", P, "the given path is not written (written: %s)" % sorted(fs)))
            continue
        c = fs[key_of(path)]
        if isinstance(c, bytes) or isinstance(c, AStr) and c.b:
            c = c.decode("utf-8", "replace") if isinstance(c, bytes) else AStr(c.segs, False)
        if not same_text(c, t):
            out.append(rec("entry", kind, "tofile", "content", P, "the stored text differs from the text to_string returns: %s" % first_diff(c, t)))
        for other in fs:
            if other != key_of(path):
                out.append(rec("entry", kind, "tofile", "stray", P, "another file is left behind: %s" % other))
        for x in post:
            if x[0] == "newline":
                out.append(rec("entry", kind, "tofile", "content", P, "line ends are rewritten (%r)" % (x[1],)))
            if x[0] in ("open-w", "open-r") and "a" in str(x[2]):
                out.append(rec("entry", kind, "tofile", "content", P, "the target is opened for appending"))
        for p_, c_ in closed.items():
            if not c_:
                out.append(rec("entry", kind, "tofile", "close", P, "the file is not closed"))
        ren = [j for j, x in enumerate(post) if x[0] == "render"]
        opn = [j for j, x in enumerate(post) if x[0] in ("open-w", "write") and key_of(x[1]) == key_of(path)]
        if ren and opn and opn[0] < ren[-1]:
            out.append(rec("entry", kind, "tofile", "order", P, "the target is opened before the message has been converted"))
    return out, {"paths": len(res), "files": 1}


def first_diff(a, b):
    x, y = norm_(strs.segs_of(a)), norm_(strs.segs_of(b))
    for i in range(max(len(x), len(y))):
        p = x[i] if i < len(x) else "(end)"
        q = y[i] if i < len(y) else "(end)"
        if p != q:
            return "%s vs %s" % (str(p)[-80:] if not isinstance(p, str) or len(p) < 80 else p[:80], str(q)[:80])
    return ""


class Boom(Exception):
    pass


def fail_with(name, base="Exception"):
    def f(eng, *a):
        eng.raise_(name, "injected") if name in eng.builtins else eng.raise_(ext.exc_class(eng, name, base), "injected")
    return f


@job
def to_file_fail(e, cl, io, case, fmtname=None):
    """conversion fails: the failure is reported and the target keeps its content"""
    ctx = Ctx(e, cl)
    P = "%s.%s.to_file" % (IO[io][0].split(".")[-1], IO[io][1])
    if case == "combined":
        obj = ctx.alloc(ndm_root({"opm": 2}))
    elif case == "notamessage":
        obj = lib.instantiate(e, lib.make_class(e, "Stranger", [], {}, {}, {}), [], {})
    else:
        obj = ctx.alloc(skel("opm"))
        e.hooks["render"] = lambda eng, s, o, sl, nsl: eng.raise_("ValueError", "injected")

    def thunk():
        x = io_obj(e, io)
        return e.call(e.getattr_(x, "to_file"), [obj] + ([fmt(e, fmtname)] if fmtname else []) + [OUT], {})
    res = e.run_paths(boot.settled(e, thunk))
    out = []
    for pc, k, v, diff in res:
        ev = evs(e, diff, pc)
        if k == "ret":
            out.append(rec("entry", "", "tofile", "swallowed", P, "a message that cannot be converted (%s) is written without an error" % case))
        fs, _ = fs_of(ev, [OUT])
        if key_of(OUT) not in fs:
            out.append(rec("entry", "", "tofile", "destroyed", P,
                           "the target file is removed although the conversion fails (%s)" % case))
        elif not same_text(fs[key_of(OUT)], old_of(OUT)):
            out.append(rec("entry", "", "tofile", "destroyed", P,
                           "the target file is overwritten although the conversion fails (%s)" % case))
        for p in fs:
            if p != key_of(OUT):
                out.append(rec("entry", "", "tofile", "stray", P, "another file is left behind when the conversion fails (%s): %s" % (case, p)))
    return out, {"paths": len(res), "faults": 1}


def opaque_xml(*parts):
    return AStr([Atom(("xmltext",) + tuple(repr(p) for p in parts), minlen=1)])


@job
def dispatch(e, cl, entry, fmtname, opts=()):
    """NdmIo output format selection"""
    ctx = Ctx(e, cl)
    kind = "opm"
    root = skel(kind)
    obj = ctx.alloc(root)
    P = "ndm_io.NdmIo.%s" % entry

    def val():
        if fmtname in FMTS:
            return fmt(e, fmtname)
        if fmtname.startswith("="):
            return ast.literal_eval(fmtname[1:])
        return {"none": None, "text": "nonsense", "int": 42, "obj": obj}[fmtname]

    def thunk():
        x = io_obj(e, "ndm")
        return e.call(e.getattr_(x, entry), [obj, val()] + ([OUT] if entry == "to_file" else []),
                      {o: AStr([Atom(("option", o), minlen=1)]) for o in opts})

    def expected():
        if fmtname not in ("XML", "KVN"):
            return None
        y = io_obj(e, fmtname.lower())
        return e.call(e.getattr_(y, "to_string"), [obj], {})
    want = None
    if fmtname in ("XML", "KVN"):
        r0 = e.run_paths(expected)
        if len(r0) != 1 or r0[0][1] != "ret":
            raise Unsupported("the %s writer does not convert the sample message" % fmtname)
        want = e.with_state(r0[0][3], lambda: e.res(r0[0][2]))
    res = e.run_paths(boot.settled(e, thunk))
    out = []
    for pc, k, v, diff in res:
        ev = evs(e, diff, pc)
        fs, _ = fs_of(ev)
        if want is not None:
            if k == "exc":
                out.append(rec("entry", "", "dispatch", "exception", P, "format %s raises %s" % (fmtname, exc_text(e, v, diff, pc)), v.where))
                continue
            got = e.with_state(diff, lambda: e.res(v), pc) if entry == "to_string" else fs.get(key_of(OUT))
            if isinstance(got, bytes) or isinstance(got, AStr) and got.b:
                got = got.decode("utf-8", "replace") if isinstance(got, bytes) else AStr(got.segs, False)
            if not same_text(got, want):
                out.append(rec("entry", "", "dispatch", "text", P, "format %s does not produce the %s text of the message" % (fmtname, fmtname)))
            continue
        need = "NotImplementedError" if fmtname == "JSON" else "ValueError"
        if k != "exc":
            out.append(rec("entry", "", "dispatch", "accepted", P, "output format %s must be rejected with %s, but the call returns" % (fmtname, need)))
        elif need not in excname(e, v, diff, pc):
            out.append(rec("entry", "", "dispatch", "exception", P, "output format %s must be rejected with %s, raised: %s" % (
                fmtname, need, excname(e, v, diff, pc)[0]), v.where))
        if fs:
            out.append(rec("entry", "", "dispatch", "effect", P, "a rejected output format still writes %s" % sorted(fs)))
    return out, {"paths": len(res), "formats": 1}


# ------------------------------------------------------------------ C03 / C05: input
@job
def read_agree(e, cl, io, src, kind, how="str"):
    """from_path, from_bytes and from_string give the message the document stands for"""
    ctx = Ctx(e, cl)
    root = skel(kind)
    text = kvn_text(ctx, root, kind) if src == "kvn" else xml_text(ctx, root, kind)
    path = IN
    e.hooks["files"] = lambda eng, p, b, enc: to_bytes(text) if b else text
    out, counts = [], {"paths": 0, "leaves": 0, "objects": 0}
    codecs = {}
    for entry in ("from_string", "from_bytes", "from_path"):
        if io == "kvn" and entry == "from_bytes":
            continue
        P = "%s.%s.%s" % (IO[io][0].split(".")[-1], IO[io][1], entry)
        x = io_obj(e, io)
        arg = {"from_string": text, "from_bytes": to_bytes(text), "from_path": as_path(e, path, how)}[entry]
        res = e.run_paths(boot.settled(e, lambda: e.call(e.getattr_(x, entry), [arg], {})))
        o, c = compare_read(e, ctx, root, kind, res, side=P)
        for r in o:
            r["what"], r["entry"] = "agree", entry
            r["path"] = P + ": " + r["path"]
        out += o
        for n in c:
            counts[n] += c[n]
        for pc, k, v, diff in res:
            ev = evs(e, diff, pc)
            rd = [z for z in ev if z[0] == "read"]
            codecs.setdefault(entry, set()).update(
                "utf-8" if enc_ok(c) else str(c) for c in
                [z[3] for z in rd if z[3] != "binary"] + [z[1] for z in ev if z[0] == "decode"])
            if entry == "from_path":
                if not rd or any(key_of(z[1]) != key_of(path) for z in rd):
                    out.append(rec(P, kind, "agree", "path", P, "the file read is not the given path"))
            elif rd:
                out.append(rec(P, kind, "agree", "path", P, "a file is read"))
    # bytes handed to the XML parser undecoded are read as UTF-8
    a, b = codecs.get("from_path") or {"utf-8"}, codecs.get("from_bytes") or {"utf-8"}
    if a != b:
        P = "%s.%s.from_path" % (IO[io][0].split(".")[-1], IO[io][1])
        out.append(rec(P, kind, "agree", "codec", P, "the bytes of a file are decoded with %s, the same bytes given directly with %s" % (
            ", ".join(sorted(a)), ", ".join(sorted(b)))))
    return out, counts


@job
def raw_agree(e, cl, io, src, kind, pre="", post="", mid=None):
    """a text that is no proper document is treated alike by from_path, from_bytes and from_string"""
    ctx = Ctx(e, cl)
    root = skel(kind, False)
    doc = kvn_text(ctx, root, kind) if src == "kvn" else xml_text(ctx, root, kind)
    text = mid if mid is not None else strs.concat(strs.concat(pre, doc), post)
    e.hooks["files"] = lambda eng, p, b, enc: to_bytes(text) if b else text
    got, n = {}, 0
    for entry in ("from_string", "from_bytes", "from_path"):
        if io == "kvn" and entry == "from_bytes":
            continue
        arg = {"from_string": text, "from_bytes": to_bytes(text), "from_path": IN}[entry]
        res = e.run_paths(boot.settled(e, lambda: e.call(e.getattr_(io_obj(e, io), entry), [arg], {})))
        n += len(res)
        got[entry] = tuple(sorted({k if k == "ret" else excname(e, v, diff, pc)[0] for pc, k, v, diff in res}))
        if got[entry] == ("ret",):
            o, c = compare_read(e, ctx, root, kind, res)
            got[entry] += tuple(sorted({r["path"] + ": " + r["msg"] for r in o}))
    out = []
    for entry in got:
        if got[entry] != got["from_string"]:
            P = "%s.%s.%s" % (IO[io][0].split(".")[-1], IO[io][1], entry)
            out.append(rec(P, kind, "agree", "raw", P, "a text with %r before and %r after the %s document: from_string gives %s, %s gives %s" % (
                pre, post, src.upper(), got["from_string"], entry, got[entry])))
    return out, {"paths": n}


def enc_ok(x):
    return isinstance(x, str) and x.lower().replace("_", "-") in ("utf-8", "utf8", "u8")


@job
def encodings(e, cl, io, entry, kind="opm", src=None, fmtname=None, how="path"):
    """every text/bytes boundary crossed uses UTF-8, strictly, independent of the locale"""
    e.hooks["decode"] = lambda eng, enc, errors: True      # the event is judged; the content is followed as if right
    ctx = Ctx(e, cl)
    root = skel(kind)
    P = "%s.%s.%s" % (IO[io][0].split(".")[-1], IO[io][1], entry)
    if entry.startswith("from"):
        text = kvn_text(ctx, root, kind) if src == "kvn" else xml_text(ctx, root, kind)
        e.hooks["files"] = lambda eng, p, b, enc: to_bytes(text) if b else text
        arg = {"from_string": text, "from_bytes": to_bytes(text), "from_path": as_path(e, IN, how)}[entry]
        call = lambda: e.call(e.getattr_(io_obj(e, io), entry), [arg], {})
    else:
        obj = ctx.alloc(root)
        call = lambda: e.call(e.getattr_(io_obj(e, io), entry), [obj] + ([fmt(e, fmtname)] if fmtname else []) + (
            [as_path(e, OUT, how)] if entry == "to_file" else []), {})
    res = e.run_paths(call)
    out, n = [], 0
    for pc, k, v, diff in res:
        if k == "exc":
            out.append(rec("entry", kind, "encoding", "exception", P, "raises %s" % exc_text(e, v, diff, pc), v.where))
        ev = evs(e, diff, pc)
        enc = [z for z in ev if z[0] == "encode"]
        for z in ev:
            if z[0] == "read":
                n += 1
                if z[3] != "binary" and not enc_ok(z[3]):
                    out.append(rec("entry", kind, "encoding", "read", P, "the file is decoded with %s" % (
                        "the locale's encoding" if z[3] is None else z[3])))
            elif z[0] == "open-w":
                n += 1
                if z[3] != "binary" and not enc_ok(z[3]):
                    out.append(rec("entry", kind, "encoding", "write", P, "the file is encoded with %s" % (
                        "the locale's encoding" if z[3] is None else z[3])))
            elif z[0] in ("encode", "decode"):
                n += 1
                if not enc_ok(z[1]):
                    out.append(rec("entry", kind, "encoding", z[0], P, "text is %sd as %s" % (z[0], z[1])))
                if z[0] == "decode" and z[2] != "strict":
                    out.append(rec("entry", kind, "encoding", "lossy", P, "undecodable bytes are handled with %r" % (z[2],)))
            elif z[0] == "codec-errors":
                out.append(rec("entry", kind, "encoding", "lossy", P, "characters that cannot be converted are handled with %r" % (z[1],)))
            elif z[0] == "render":
                n += 1
                if z[4] is not None and not enc_ok(z[4]):
                    out.append(rec("entry", kind, "encoding", "declared", P, "the XML declaration names %s" % (z[4],)))
    return out, {"paths": len(res), "boundaries": n}


# ------------------------------------------------------------------ C06
OPTS = ((), (("schema_location", "SL"),), (("no_namespace_schema_location", "NSL"),),
        (("schema_location", "SL"), ("no_namespace_schema_location", "NSL")))


@job
def schema_options(e, cl, io, seq, entries, shared=True, by="name"):
    """each XML output call of a sequence carries exactly the options given to that call"""
    ctx = Ctx(e, cl)
    obj = ctx.alloc(skel("opm"))
    out = []

    def thunk():
        x = io_obj(e, io)
        for i, (o, en) in enumerate(zip(seq, entries)):
            if not shared and i:
                x = io_obj(e, io)
            kw = {k: AStr([Atom(("opt", v, i), minlen=1)]) for k, v in OPTS[o]}
            pos = []
            if by == "position":
                pos = [kw.get(a) for a in ("schema_location", "no_namespace_schema_location")]
                kw = {}
            e.emit("call", i)
            r = e.call(e.getattr_(x, en), [obj] + ([fmt(e, "XML")] if io == "ndm" else []) + (["o%d.xml" % i] if en == "to_file" else []) + pos, kw)
            e.emit("done", i, r)
        return None
    res = e.run_paths(thunk)
    P = "%s.%s" % (IO[io][0].split(".")[-1], IO[io][1])
    n = 0
    for pc, k, v, diff in res:
        if k == "exc":
            out.append(rec("entry", "", "options", "exception", P, "raises %s" % exc_text(e, v, diff, pc), v.where))
            continue
        cur = None
        got = {}
        for z in evs(e, diff, pc):
            if z[0] == "call":
                cur = z[1]
            elif z[0] == "render":
                got[cur] = (z[2], z[3])
        for i, (o, en) in enumerate(zip(seq, entries)):
            want = dict(OPTS[o])
            w = tuple(None if a not in want else AStr([Atom(("opt", want[a], i), minlen=1)])
                      for a in ("schema_location", "no_namespace_schema_location"))
            n += 1
            if i not in got:
                out.append(rec("entry", "", "options", "norender", P + "." + en, "call %d of %d produces no XML" % (i + 1, len(seq))))
                continue
            for nm, a, b in zip(("schemaLocation", "noNamespaceSchemaLocation"), got[i], w):
                if not ((a is None or a == "") and b is None or same_text(a, b)):
                    out.append(rec("entry", "", "options", nm, P + "." + en,
                                   "call %d of %s writes %s %s, the call asked for %s" % (
                                       i + 1, [[p for p, q in OPTS[s]] for s in seq], nm, boot.describe(e, a), boot.describe(e, b))))
    return out, {"paths": len(res), "calls": n}


# ------------------------------------------------------------------ C07
@job
def registry(e, cl, src, kind, io):
    """each message identifier gives its own message type"""
    ctx = Ctx(e, cl)
    P = "%s.%s.from_string" % (IO[io][0].split(".")[-1], IO[io][1])
    if kind in ROOTS:
        root = skel(kind)
        text = kvn_text(ctx, root, kind) if src == "kvn" else xml_text(ctx, root, kind)
    elif src == "kvn":
        root = skel("opm")
        ls = tree.refdoc(ctx, root, "opm")
        if kind.startswith("above "):
            ls.insert(0, L((kind.split()[1],), ("1.0",), None, "opm"))
        elif kind == "no version line":
            del ls[0]
        else:
            ls[0] = L((kind,), ("1.0",), None, "opm")
        text = doc(ls, mk_layout("plain"))
    elif kind.startswith("namespace"):
        k0 = kind.split()[1]
        p = "" if "default" in kind else "n:"
        t = xml_text(ctx, skel(k0), k0)
        segs = list(strs.segs_of(t))
        i = next(i for i, s in enumerate(segs) if isinstance(s, str) and "<" + k0 in s)
        segs[i] = segs[i].replace("<" + k0, '<%s%s xmlns%s="urn:other"' % (p, k0, p and ":n"), 1)
        if p:
            j = max(i for i, s in enumerate(segs) if isinstance(s, str) and "</" + k0 + ">" in s)
            h, _, r = segs[j].rpartition("</" + k0 + ">")
            segs[j] = h + "</" + p + k0 + ">" + r
        text = strs.mk(segs)
    elif kind.startswith("around "):
        segs = list(strs.segs_of(xml_text(ctx, skel("opm"), "opm")))
        assert isinstance(segs[0], str) and "<opm" in segs[0] and isinstance(segs[-1], str)
        w = kind.split()[1]
        segs[0] = segs[0].replace("<opm", "<%s><opm" % w, 1)
        segs[-1] = segs[-1].rstrip() + "</%s>\n" % w
        text = strs.mk(segs)
    else:
        text = xml_text(ctx, skel("opm"), kind)
    x = io_obj(e, io)
    res = e.run_paths(lambda: e.call(e.getattr_(x, "from_string"), [text], {}))
    out = []
    for pc, k, v, diff in res:
        if kind in ROOTS:
            if k == "exc":
                out.append(rec("entry", kind, "registry", "exception", P, "a %s document (%s) raises %s" % (kind.upper(), src, exc_text(e, v, diff, pc)), v.where))
                continue
            r = e.with_state(diff, lambda: e.res(v), pc)
            cn = e.with_state(diff, lambda: boot.typename(e, e.get(r.a).cls) if isinstance(r, Ref) and e.get(r.a).kind == "obj" else boot.describe(e, r), pc)
            if cn != ROOTS[kind]:
                out.append(rec("entry", kind, "registry", "type", P, "a %s document (%s) is read as %s" % (kind.upper(), src, cn)))
        elif k != "exc":
            out.append(rec("entry", kind, "registry", "accepted", P, "a document with the unknown message type %r is read as %s" % (
                kind, e.with_state(diff, lambda: boot.describe(e, v), pc))))
        elif src == "kvn" and " " not in kind and "ValueError" not in excname(e, v, diff, pc):
            out.append(rec("entry", kind, "registry", "exception", P, "the unknown message type %r must be reported with ValueError, raised: %s" % (
                kind, excname(e, v, diff, pc)[0]), v.where))
    return out, {"paths": len(res), "ids": 1}


# ------------------------------------------------------------------ C08
@job
def strict_xml(e, cl, kind, where, io):
    """an element the message type does not define is reported"""
    ctx = Ctx(e, cl)
    P = "%s.%s.from_string" % (IO[io][0].split(".")[-1], IO[io][1])
    root = skel(kind)
    t = xml_text(ctx, root, kind) if where[0] != "ndm" else None
    if where[0] == "ndm":
        t = strs.mk(['<?xml version="1.0"?>\n'] + ndm_xml(ctx, {kind: 1}))
        where = where[1:]
    segs = list(strs.segs_of(t))
    done = False
    out2 = []
    for s in segs:
        if not done and isinstance(s, str) and where[1] in s:
            i = s.index(where[1])
            ins = "<UNDEFINED_ELEMENT>x</UNDEFINED_ELEMENT>\n"
            if where[0] == "before":
                s = s[:i] + ins + s[i:]
            elif where[0] == "rename":
                nm = where[1][1:].rstrip(">")
                s = s[:i] + "<UNDEFINED_" + s[i + 1:]
                out2.append(s)
                done = nm
                continue
            elif where[0] == "cut":
                s = s[:i]
                out2.append(s)
                done = True
                break
            done = True
        elif isinstance(done, str) and isinstance(s, str) and "</" + done in s:
            s = s.replace("</" + done, "</UNDEFINED_" + done, 1)
            done = True
        out2.append(s)
    if not done:
        raise Unsupported("no place for %r" % (where,))
    text = strs.mk(out2)
    x = io_obj(e, io)
    res = e.run_paths(lambda: e.call(e.getattr_(x, "from_string"), [text], {}))
    out = []
    for pc, k, v, diff in res:
        if k != "exc":
            out.append(rec("entry", kind, "strict", "accepted", P, "a %s document with %s is read without an error" % (
                kind.upper(), {"before": "an undefined element before %s", "rename": "an undefined element in place of %s",
                               "cut": "its text cut at %s"}[where[0]] % where[1])))
    return out, {"paths": len(res), "documents": 1}


# ------------------------------------------------------------------ C09 / C10
def ndm_root(counts, extras=False, order=None):
    f = {}
    for fl in fields_of("Ndm"):
        n = fl["name"]
        if n == "message_id":
            f[n] = SLeaf("text", "ndm.message_id", atom=text_atom("ndm.message_id")) if extras else None
        elif n == "comment":
            f[n] = SItems([SLeaf("text", "ndm.comment[0]", atom=text_atom("ndm.comment[0]"))] if extras else [])
        else:
            f[n] = SItems([skel(n, prefix="%s%d" % (n, i)) for i in range(counts.get(n, 0))])
    return SObj("Ndm", "ndm", f)


def ndm_xml(ctx, counts, extras=False, empty=False):
    out = []
    xmlref(ctx, ndm_root(counts, extras), "ndm", out)
    return out


@job
def combined_read(e, cl, counts, extras=False, io="xml", decl=True):
    ctx = Ctx(e, cl)
    counts = dict(counts)
    root = ndm_root(counts, extras)
    text = xml_text(ctx, root, "ndm", decl)
    P = "%s.%s.from_string" % (IO[io][0].split(".")[-1], IO[io][1])
    x = io_obj(e, io)
    res = e.run_paths(lambda: e.call(e.getattr_(x, "from_string"), [text], {}))
    if sum(counts.values()) == 1:
        k = next(c for c in counts if counts[c])
        want, kind = root.fields[k].items[0], k
    else:
        want, kind = root, "ndm"
    o, c = compare_read(e, ctx, want, kind, res, side="combined")
    for r in o:
        r["what"] = "combined"
        r["path"] = P + ": " + r["path"]
        r["msg"] = "combined file with %s: %s" % (", ".join("%d %s" % (n, k) for k, n in counts.items() if n) or "no message", r["msg"])
    return o, c


@job
def combined_write(e, cl, counts, extras=False, io="kvn", entry="to_string", alias=False):
    ctx = Ctx(e, cl)
    counts = dict(counts)
    root = ndm_root(counts, extras)
    obj = ctx.alloc(root)
    if alias:      # the same message object in every place of its list
        for k in counts:
            l = e.get(obj.a).data[k]
            items = e.get(l.a).data
            e.set(l.a, e.get(l.a).with_data((items[0],) * len(items)))
    P = "%s.%s.%s" % (IO[io][0].split(".")[-1], IO[io][1], entry)

    def thunk():
        x = io_obj(e, io)
        a = [obj] + ([fmt(e, "KVN")] if io == "ndm" else []) + (["out.kvn"] if entry == "to_file" else [])
        return e.call(e.getattr_(x, entry), a, {})
    res = e.run_paths(boot.settled(e, thunk))
    out = []
    desc = ", ".join("%d %s" % (n, k) for k, n in counts.items() if n) or "no message"
    if sum(counts.values()) == 1:
        k1 = next(c for c in counts if counts[c])
        if entry == "to_file":
            r2 = []
            for pc, k, v, diff in res:
                if k == "ret":
                    fs, _ = fs_of(evs(e, diff, pc))
                    v = fs.get(key_of("out.kvn"), "")
                    if isinstance(v, bytes) or isinstance(v, AStr) and v.b:
                        v = v.decode("utf-8", "replace") if isinstance(v, bytes) else AStr(v.segs, False)
                r2.append((pc, k, v, diff))
            res = r2
        out, c = compare_write(e, ctx, root.fields[k1].items[0], k1, res)
        for r in out:
            r["what"] = "combined"
            r["msg"] = "combined message with a single %s: %s" % (k1.upper(), r["msg"])
        return out, c
    for pc, k, v, diff in res:
        if k != "exc":
            out.append(rec("entry", "ndm", "combined", "accepted", P, "a combined message with %s is written to KVN" % desc))
        elif "NotImplementedError" not in excname(e, v, diff, pc):
            out.append(rec("entry", "ndm", "combined", "exception", P, "a combined message with %s must be refused with NotImplementedError, raised: %s" % (
                desc, excname(e, v, diff, pc)[0]), v.where))
        if fs_of(evs(e, diff, pc))[0]:
            out.append(rec("entry", "ndm", "combined", "effect", P, "a refused combined message still writes a file"))
    return out, {"paths": len(res)}


# ------------------------------------------------------------------ XML reference
XMLCTRL = frozenset(chr(i) for i in range(32) if i not in (9, 10)) | {"\ufffe", "\uffff"}


def loosen(n, xml=False):
    """let every text of a message description be any text, also empty or with white space around it"""
    if isinstance(n, SLeaf):
        if n.kind == "text" and n.atom is not None:
            a = n.atom
            if not xml:
                n.atom = Atom(a.name, None, frozenset(), 0, None, False, a.kind)
                n.prefix = ""
            elif a.only is None:
                n.atom = Atom(a.name, None, XMLCTRL, max(a.minlen, 1), None, False, a.kind)
    elif isinstance(n, SObj):
        for v in n.fields.values():
            loosen(v, xml)
    elif isinstance(n, SItems):
        for v in n.items:
            loosen(v, xml)
    elif isinstance(n, (SMaybe, SMany)):
        loosen(n.node, xml)


@job
def xml_read(e, cl, kind, full=True, comments=1, sk=None, io="xml", loose=False):
    ctx = Ctx(e, cl)
    root = gen(ROOTS[kind], kind, Skel(**sk)) if sk else skel(kind, full, comments)
    if loose:
        loosen(root, True)
    text = xml_text(ctx, root, kind)
    x = io_obj(e, io)
    res = e.run_paths(lambda: e.call(e.getattr_(x, "from_string"), [text], {}))
    o, c = compare_read(e, ctx, root, kind, res, side="xmlread")
    return o, c


@job
def xml_write(e, cl, kind, full=True, comments=1, sk=None, io="xml", counts=None, extras=False, loose=False):
    ctx = Ctx(e, cl)
    root = ndm_root(dict(counts), extras) if counts else gen(ROOTS[kind], kind, Skel(**sk)) if sk else skel(kind, full, comments)
    if loose:
        loosen(root, True)
    obj = ctx.alloc(root)
    want = xml_text(ctx, root, kind)
    x = io_obj(e, io)
    res = e.run_paths(lambda: e.call(e.getattr_(x, "to_string"), [obj] + ([fmt(e, "XML")] if io == "ndm" else []), {}))
    out = []
    P = "%s.%s.to_string" % (IO[io][0].split(".")[-1], IO[io][1])
    for pc, k, v, diff in res:
        if k == "exc":
            out.append(rec("xmlwrite", kind, "exception", "exception", P, "writing a %s message raises %s" % (kind.upper(), exc_text(e, v, diff, pc)), v.where))
            continue
        got = e.with_state(diff, lambda: e.res(v), pc)
        a, b = xml_lines(got), xml_lines(want)
        for i in range(max(len(a), len(b))):
            p = a[i] if i < len(a) else "(end)"
            q = b[i] if i < len(b) else "(end)"
            if p != q:
                out.append(rec("xmlwrite", kind, "xml", "text", P, "element %d: expected %s, written %s" % (i, q, p)))
                break
    return out, {"paths": len(res), "lines": len(xml_lines(want))}


def xml_lines(v):
    if not isinstance(v, (str, AStr)):
        return [repr(v)[:100]]
    s = "".join(x if isinstance(x, str) else "{%s}" % aname(x.name) for x in strs.segs_of(v))
    return [l.strip() for l in s.split("\n") if l.strip() and not l.startswith("<?xml")]


@job
def xml_roundtrip(e, cl, counts=None, kind=None, full=True, io="xml", extras=False, empty=False, loose=False):
    ctx = Ctx(e, cl)
    root = ndm_root(dict(counts), extras) if counts else skel(kind, full, empty=empty)
    if loose:
        loosen(root, True)
    obj = ctx.alloc(root)

    def thunk():
        t = e.call(e.getattr_(io_obj(e, io), "to_string"), [obj] + ([fmt(e, "XML")] if io == "ndm" else []), {})
        return e.call(e.getattr_(io_obj(e, io), "from_string"), [t], {})
    res = e.run_paths(thunk)
    o, c = compare_read(e, ctx, root, kind or "ndm", res, side="xmlrt")
    return o, c


# ------------------------------------------------------------------ conversion between the formats
@job
def convert(e, cl, kind, way, sk=None, via="ndm"):
    """read one format, write the other, through the unified interface"""
    ctx = Ctx(e, cl)
    root = gen(ROOTS[kind], kind, Skel(**(sk or dict(base_of(kind, True), full=True))))
    src, dst = way
    text = kvn_text(ctx, root, kind) if src == "KVN" else xml_text(ctx, root, kind)

    def thunk():
        m = e.call(e.getattr_(io_obj(e, "ndm"), "from_string"), [text], {})
        return e.call(e.getattr_(io_obj(e, "ndm"), "to_string"), [m, fmt(e, dst)], {})
    res = e.run_paths(thunk)
    P = "ndm_io.NdmIo.from_string/to_string"
    if dst == "KVN":
        o, c = compare_write(e, ctx, root, kind, res)
    else:
        o, c = compare_xml_text(e, ctx, root, kind, res, P)
    for r in o:
        r["what2"], r["what"] = r["what"], "convert"
        r["msg"] = "%s message converted from %s to %s: %s" % (kind.upper(), src, dst, r["msg"])
    return o, c


def compare_xml_text(e, ctx, root, kind, res, P):
    want = xml_lines(xml_text(ctx, root, kind))
    out = []
    for pc, k, v, diff in res:
        if k == "exc":
            out.append(rec("xmlwrite", kind, "exception", "exception", P, "raises %s" % exc_text(e, v, diff, pc), v.where))
            continue
        a = xml_lines(e.with_state(diff, lambda: e.res(v), pc))
        for i in range(max(len(a), len(want))):
            p = a[i] if i < len(a) else "(end)"
            q = want[i] if i < len(want) else "(end)"
            if p != q:
                out.append(rec("xmlwrite", kind, "xml", "text", P, "element %d: expected %s, written %s" % (i, q, p)))
                break
    return out, {"paths": len(res), "lines": len(want)}
