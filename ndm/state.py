"""State jobs: histories, aliasing, shared state, effects, faults, set order, API, object model."""
import json
import os
import re

from pyabs import ext, lib, strs
from pyabs.values import *
from pyabs.values import H, Ref

from . import boot, core, lines, reader, tree
from .core import job, rec
from .entry import *
from .entry import IO
from .kvn import ATTS, KINDS, WPol, base_of, compare_read, compare_write, doc, exc_text, mk_layout, run_writer
from .reader import Skel
from .tree import *

MUTABLE = ("list", "dict", "set", "obj", "iter")


def is_shared_const(e, a):
    h = e.get(a)
    if h.kind == "obj":
        c = e.res(h.cls)
        return isinstance(c, Ref) and e.is_enum_class(c)
    return False


def refs_in(v, out):
    """heap references directly contained in an abstract value"""
    st = [v]
    while st:
        v = st.pop()
        if isinstance(v, Ref):
            out.append(v.a)
        elif isinstance(v, VarsView):
            out.append(v.a)
        elif isinstance(v, Tup):
            st.extend(v.items)
        elif isinstance(v, (Choice, Alt)):
            for b in v.br.values():
                st.append(b)
        elif isinstance(v, Star):
            st.extend(v.items)
        elif isinstance(v, (tuple, list)):
            st.extend(v)
        elif isinstance(v, dict):
            st.extend(v.keys())
            st.extend(v.values())
        elif isinstance(v, Bound):
            st.append(v.self_)


def reach(e, v):
    """addresses of the mutable objects reachable from v"""
    seen, work = set(), []
    refs_in(v, work)
    while work:
        a = work.pop()
        if a in seen or a not in e.heap:
            continue
        h = e.get(a)
        if h.kind not in MUTABLE or is_shared_const(e, a):
            continue
        seen.add(a)
        refs_in(h.data, work)
    return seen


def name_of(e, a, owners=None):
    h = e.heap.get(a)
    if h is None:
        return "?"
    if h.kind == "obj":
        return "a %s" % boot.typename(e, e.res(h.cls)) if isinstance(e.res(h.cls), (Ref, XC)) else "an object"
    return "a %s" % h.kind


# ------------------------------------------------------------------ C33: arguments are not changed
@job
def no_mutation(e, cl, io, kind, mode="maybe", entry="to_string", fmtname=None, counts=None, sk=None, att=None, qt=None, acc=None, novalue=False, loose=False):
    ctx = Ctx(e, cl)
    if counts:
        root = ndm_root(dict(counts), True)
    elif mode == "maybe":
        pol = WPol(kind, acc, att, qt, novalue)
        pol.novalue = novalue
        root = gen(ROOTS[kind], kind, pol)
    else:
        root = gen(ROOTS[kind], kind, Skel(**sk))
    if loose:
        loosen(root)
    obj = ctx.alloc(root)
    own = reach(e, obj)
    before = {a: e.get(a) for a in own}
    P = "%s.%s.%s" % (IO[io][0].split(".")[-1], IO[io][1], entry)

    def thunk():
        x = io_obj(e, io)
        return e.call(e.getattr_(x, entry), [obj] + ([fmt(e, fmtname)] if fmtname else []) + (["o.dat"] if entry == "to_file" else []), {})
    res = e.run_paths(thunk)
    out = []
    for pc, k, v, diff in res:
        if k == "exc" and not counts and not loose:
            out.append(rec("state", kind, "mutation", "exception", P, "raises %s" % exc_text(e, v, diff, pc), v.where))
        for a in own:
            if a in diff and not e.with_state(diff, lambda: same_heap(e, before[a], e.get(a)), pc):
                h = before[a]
                ch = []
                if isinstance(h.data, dict) and isinstance(diff[a].data, dict):
                    ch = [n for n in set(h.data) | set(diff[a].data) if not same(h.data.get(n, UNBOUND), diff[a].data.get(n, UNBOUND))]
                out.append(rec("state", kind, "mutation", "changed", P, "writing changes %s of the message it is given%s" % (
                    name_of(e, a), ": " + ", ".join(map(str, ch)) if ch else "")))
    return out, {"paths": len(res), "objects": len(own)}


def same_heap(e, a, b):
    if a is b:
        return True
    if a.kind != b.kind or not same(a.cls, b.cls):
        return False
    x, y = a.data, b.data
    if isinstance(x, dict) and isinstance(y, dict):
        return set(x) == set(y) and all(same(e.res(x[k]), e.res(y[k])) for k in x)
    if isinstance(x, tuple) and isinstance(y, tuple):
        return len(x) == len(y) and all(same(p, q) for p, q in zip(x, y))
    return x is y or x == y


# ------------------------------------------------------------------ C34: histories of reads
BAD = {"kvn": "CCSDS_NOSUCH_VERS = 1.0\nX = 1\n", "xml": "<opm><header></opm>", "xml2": "<nosuch><a>1</a></nosuch>"}


def make_doc(ctx, step):
    src, kind = step[0], step[1]
    pre = step[2] if len(step) > 2 else kind
    full = step[3] if len(step) > 3 else False
    if kind == "bad":
        return None, BAD[src]
    if kind == "combined":
        root = ndm_root({"opm": 1, "aem": 2})
        return root, xml_text(ctx, root, "ndm")
    root = skel(kind, full, prefix=pre, comments=1)
    return root, (kvn_text(ctx, root, kind) if src == "kvn" else xml_text(ctx, root, kind))


@job
def history_read(e, cl, io, steps, shared=True):
    """a sequence of reads: every result is the message of its own document, stays so, and the
    results have no mutable object in common"""
    ctx = Ctx(e, cl)
    docs = [make_doc(ctx, tuple(s)) for s in steps]
    pre_addr = e.addr
    P = "%s.%s.from_string" % (IO[io][0].split(".")[-1], IO[io][1])

    def thunk():
        x = io_obj(e, io)
        got = []
        for i, (root, text) in enumerate(docs):
            if i and not shared:
                x = io_obj(e, io)
            if root is None:
                try:
                    e.call(e.getattr_(x, "from_string"), [text], {})
                except PyRaise:
                    pass
                got.append(None)
            else:
                got.append(e.call(e.getattr_(x, "from_string"), [text], {}))
        return Tup(got)
    res = e.run_paths(thunk)
    out, counts = [], {"paths": 0, "leaves": 0, "objects": 0, "reads": len(docs)}
    hist = " -> ".join("%s%s" % (s[1], "(%s)" % s[0]) for s in steps)
    for pc, k, v, diff in res:
        if k == "exc":
            out.append(rec("state", "", "history", "exception", P, "%s: raises %s" % (hist, exc_text(e, v, diff, pc)), v.where))
            continue
        sets = []
        for i, (root, text) in enumerate(docs):
            if root is None:
                continue
            r = v.items[i]
            kind = root.cls.lower()
            o, c = compare_read(e, ctx, root, kind, [(pc, "ret", r, diff)], side="history")
            for q in o:
                q["what"], q["path"] = "history", P + ": " + q["path"]
                q["msg"] = "read %d of %s%s: %s" % (i + 1, hist, "" if shared else " (separate readers)", q["msg"])
            out += o
            for n in c:
                counts[n] += c[n]
            sets.append((i, e.with_state(diff, lambda: reach(e, r), pc)))
        for x in range(len(sets)):
            old = [a for a in sets[x][1] if a <= pre_addr]
            if old:
                out.append(rec("state", "", "history", "alias", P, "%s: the result of read %d contains %s that existed before the call" % (
                    hist, sets[x][0] + 1, e.with_state(diff, lambda: name_of(e, old[0]), pc))))
            for y in range(x):
                com = sets[x][1] & sets[y][1]
                if com:
                    out.append(rec("state", "", "history", "alias", P, "%s: the results of reads %d and %d share %s" % (
                        hist, sets[y][0] + 1, sets[x][0] + 1, e.with_state(diff, lambda: name_of(e, min(com)), pc))))
    return out, counts


@job
def history_write(e, cl, io, steps, shared=True, fmts=None):
    """a sequence of writes by one writer: every text is the text of its own message"""
    ctx = Ctx(e, cl)
    roots = [skel(k, False, prefix=p) for k, p in steps]
    objs = [ctx.alloc(r) for r in roots]
    fmts = fmts or [None] * len(steps)
    P = "%s.%s.to_string" % (IO[io][0].split(".")[-1], IO[io][1])

    def thunk():
        x = io_obj(e, io)
        got = []
        for i, o in enumerate(objs):
            if i and not shared:
                x = io_obj(e, io)
            got.append(e.call(e.getattr_(x, "to_string"), [o] + ([fmt(e, fmts[i])] if fmts[i] else []), {}))
        return Tup(got)
    res = e.run_paths(thunk)
    return check_texts(e, ctx, io, roots, steps, fmts, res, P)


def check_texts(e, ctx, io, roots, steps, fmts, res, P):
    out, counts = [], {"paths": 0, "lines": 0, "forks": 0, "writes": len(steps)}
    hist = " -> ".join(k for k, p in steps)
    for pc, k, v, diff in res:
        if k == "exc":
            out.append(rec("state", "", "history", "exception", P, "%s: raises %s" % (hist, exc_text(e, v, diff, pc)), v.where))
            continue
        for i, (root, (kind, p)) in enumerate(zip(roots, steps)):
            t = e.with_state(diff, lambda: e.res(v.items[i]), pc)
            if io == "xml" or fmts[i] == "XML":
                a, b = xml_lines(t), xml_lines(xml_text(ctx, root, kind))
                o = [] if a == b else [rec("state", kind, "history", "text", P, "text differs from the message: %s" % next(
                    ("expected %s, written %s" % (q, p2) for p2, q in zip(a + ["(end)"], b + ["(end)"]) if p2 != q), ""))]
                c = {"lines": len(b)}
            else:
                o, c = compare_write(e, ctx, root, kind, [(pc, "ret", t, diff)])
            for q in o:
                q["what"], q["path"] = "history", P
                q["msg"] = "write %d of %s: %s" % (i + 1, hist, q["msg"])
            out += o
            for n in c:
                counts[n] = counts.get(n, 0) + c[n]
    return out, counts


@job
def history_edit(e, cl, io, kind, fmtname=None):
    """write, edit the message, write again: the second text shows the edit"""
    ctx = Ctx(e, cl)
    a, b = skel(kind, False, prefix="a"), skel(kind, False, prefix="b")
    oa, ob = ctx.alloc(a), ctx.alloc(b)
    mixed = SObj(a.cls, "a", dict(a.fields, body=b.fields["body"]))
    P = "%s.%s.to_string" % (IO[io][0].split(".")[-1], IO[io][1])

    def thunk():
        x = io_obj(e, io)
        args = [fmt(e, fmtname)] if fmtname else []
        t1 = e.call(e.getattr_(x, "to_string"), [oa] + args, {})
        e.setattr_(oa, "body", e.getattr_(ob, "body"))
        t2 = e.call(e.getattr_(x, "to_string"), [oa] + args, {})
        return Tup((t1, t2))
    res = e.run_paths(thunk)
    return check_texts(e, ctx, io, [a, mixed], [(kind, "a"), (kind, "edited")], [fmtname] * 2, res, P)


@job
def read_then_write(e, cl, kind, full=False):
    """one object used for reading and writing in turn"""
    ctx = Ctx(e, cl)
    a, b = skel(kind, full, prefix="a"), skel("opm" if kind != "opm" else "apm", False, prefix="b")
    kb = b.cls.lower()
    ta = kvn_text(ctx, a, kind)
    ob = ctx.alloc(b)
    P = "ndm_kvn_io.NdmKvnIo"

    def thunk():
        x = io_obj(e, "kvn")
        t1 = e.call(e.getattr_(x, "to_string"), [ob], {})
        m = e.call(e.getattr_(x, "from_string"), [ta], {})
        t2 = e.call(e.getattr_(x, "to_string"), [ob], {})
        m2 = e.call(e.getattr_(x, "from_string"), [t2], {})
        return Tup((t1, m, t2, m2))
    res = e.run_paths(thunk)
    out, counts = [], {"paths": len(res)}
    for pc, k, v, diff in res:
        if k == "exc":
            out.append(rec("state", kind, "history", "exception", P, "raises %s" % exc_text(e, v, diff, pc), v.where))
            continue
        o = []
        o += compare_write(e, ctx, b, kb, [(pc, "ret", v.items[0], diff)])[0]
        o += compare_read(e, ctx, a, kind, [(pc, "ret", v.items[1], diff)])[0]
        o += compare_write(e, ctx, b, kb, [(pc, "ret", v.items[2], diff)])[0]
        o += compare_read(e, ctx, b, kb, [(pc, "ret", v.items[3], diff)])[0]
        for q in o:
            q["what"], q["msg"] = "history", "one object used to write, read, write, read: " + q["msg"]
        out += o
    return out, counts


# ------------------------------------------------------------------ shared state
def atoms_in(v, out, depth=0):
    st = [v]
    while st:
        v = st.pop()
        if isinstance(v, Atom):
            out.append(v)
        elif isinstance(v, AStr):
            st.extend(v.segs)
        elif isinstance(v, ADec):
            out.append(v.atom)
        elif isinstance(v, (AltSeg, Choice, Alt)):
            out.append(v) if isinstance(v, (Choice, Alt)) and is_input(v.o) else None
            for b in v.br.values():
                st.append(b)
        elif isinstance(v, (JoinSeg,)):
            st.extend(v.items)
        elif isinstance(v, Star):
            st.extend(v.items)
        elif isinstance(v, StarSeg):
            st.extend(v.segs)
        elif isinstance(v, (tuple, list)):
            st.extend(v)
        elif isinstance(v, Tup):
            st.extend(v.items)
        elif isinstance(v, dict):
            st.extend(v.keys())
            st.extend(v.values())
        elif isinstance(v, AEnum):
            out.append(v)


def is_input(o):
    return isinstance(o, tuple) and o and o[0] in ("present", "nonempty", "enumvalue")


@job
def shared_state(e, cl, io, act, kind, sk=None, fmtname=None):
    """nothing of the processed message stays in state shared between readers/writers
    (module variables, class attributes, function attributes, caches of mutable results)"""
    ctx = Ctx(e, cl)
    root = gen(ROOTS[kind], kind, Skel(**(sk or dict(base_of(kind, True), full=True))))
    P = "%s.%s.%s" % (IO[io][0].split(".")[-1], IO[io][1], act)
    obj = ctx.alloc(root)
    own = reach(e, obj)
    if act == "from_string":
        arg = [kvn_text(ctx, root, kind) if (io == "kvn" or fmtname == "KVN") else xml_text(ctx, root, kind)]
    else:
        arg = [obj] + ([fmt(e, fmtname)] if fmtname else [])
    x = io_obj(e, io)
    xs = reach(e, x)
    own |= xs
    start = e.addr
    base = {a: h for a, h in e.heap.items() if a <= start}
    # the writer/reader object itself may keep what it likes
    res = e.run_paths(lambda: e.call(e.getattr_(x, act), arg, {}))
    out, n = [], 0
    for pc, k, v, diff in res:
        for a, h in diff.items():
            if a not in base or a in own or a == e.trace_addr or base[a] is h:
                continue
            n += 1

            def content():
                acc, seen, work = [], set(), []
                atoms_in(e.get(a).data, acc)
                muts = []
                refs_in(e.get(a).data, work)
                while work:
                    b = work.pop()
                    if b in seen or b not in e.heap:
                        continue
                    seen.add(b)
                    hb = e.get(b)
                    if b in own and not is_shared_const(e, b) and b not in xs:
                        muts.append(b)
                        acc.append(Atom(("in", "message")))
                        continue
                    if hb.kind in ("class", "module", "frame") or (b in base and base[b] is hb):
                        continue
                    if hb.kind in MUTABLE and not is_shared_const(e, b):
                        muts.append(b)
                    atoms_in(hb.data, acc)
                    refs_in(hb.data, work)
                return acc, muts
            acc, muts = e.with_state(diff, content, pc)
            if not acc or not [z for z in acc if not isinstance(z, Atom) or from_input(z)]:
                continue
            if is_memo(e, a) and not muts:
                continue
            out.append(rec("state", kind, "shared", "retained", P, "%s %s keeps data of the message in %s" % (
                "reading" if act == "from_string" else "writing", kind.upper(), place(e, a))))
    return out, {"paths": len(res), "shared-writes": n, "shared-locations": len([a for a in base if a not in own and a != e.trace_addr]) * len(res)}


def entries(h):
    """what a location holds, entry by entry"""
    if isinstance(h.data, dict):
        return {k: v for k, v in h.data.items()}
    if isinstance(h.data, tuple):
        return dict(enumerate(h.data))
    return {None: h.data}


@job
def shared_overwrite(e, cl, io, calls):
    """state shared between readers and writers is only ever added to: what a call leaves there
    (a table, a prepared object) is not replaced by another call on another reader or writer"""
    ctx = Ctx(e, cl)
    args, own = [], set()
    for act, kind, sk, fmtname in calls:
        root = gen(ROOTS[kind], "%s%d" % (kind, len(args)), Skel(**sk))
        obj = ctx.alloc(root)
        own |= reach(e, obj)
        if act == "from_string":
            args.append([kvn_text(ctx, root, kind) if fmtname == "KVN" else xml_text(ctx, root, kind)])
        else:
            args.append([obj] + ([fmt(e, fmtname)] if io == "ndm" else []))
    xs = [io_obj(e, io) for c in calls]
    for x in xs:
        own |= reach(e, x)
    base = {a for a in e.heap if a <= e.addr}
    snaps = []

    def shared():
        """the state reachable from what existed before the calls"""
        seen, out = set(), {}
        work = [a for a in base if a in e.heap and a not in own and a != e.trace_addr]
        while work:
            a = work.pop()
            if a in seen or a in own or a not in e.heap:
                continue
            seen.add(a)
            h = e.get(a)
            if h.kind in ("frame", "iter") and a not in base:
                continue
            out[a] = h
            if a not in base or h.kind in ("class", "module", "list", "dict", "set", "obj"):
                refs_in(h.data, work)
        return out

    def thunk():
        for i, (act, kind, sk, fmtname) in enumerate(calls):
            e.call(e.getattr_(xs[i], act), args[i], {})
            snaps.append(shared())
        s = snaps[-len(calls):]
        del snaps[:]
        e.snapshots = s
        found.append(compare(s))
    found = []

    def compare(s):
        bad = []
        for x, y in zip(s, s[1:]):
            for a, h in x.items():
                g = y.get(a)
                if g is None or g is h or is_memo(e, a):
                    continue
                was = start.get(a)
                for k, v in entries(h).items():
                    w = entries(g).get(k, UNBOUND)
                    if was is not None and k in entries(was) and same(entries(was)[k], v) and v in (None, UNBOUND, False, 0):
                        continue      # prepared by the later call
                    if not same(v, w):
                        bad.append((a, k))
        return bad
    start = {a: e.get(a) for a in base if a in e.heap}
    P = "%s.%s" % (IO[io][0].split(".")[-1], IO[io][1])
    res = e.run_paths(thunk)
    out, n = [], 0
    for pc, k, v, diff in res:
        if k == "exc":
            out.append(rec("state", "", "shared", "exception", P, "raises %s" % exc_text(e, v, diff, pc), v.where))
    for bad in found:
        n += 1
        for a, k in bad[:5]:
            out.append(rec("state", "", "shared", "overwritten", P, "a call replaces what another call left in %s%s (%s)" % (
                place(e, a), " [%s]" % k if isinstance(k, str) else "", ", ".join("%s %s" % (c[0], c[1]) for c in calls))))
    return out, {"paths": len(res), "shared-locations": len(start)}


def from_input(a):
    n = a.name

    def f(n):
        return isinstance(n, tuple) and (n[:1] in (("in",), ("enumvalue",)) or any(f(x) for x in n))
    return f(n)


def is_memo(e, a):
    for w in memo_wraps(e):
        if w.extra == a:
            return True
    return False


def memo_wraps(e):
    for h in list(e.heap.values()):
        if isinstance(h.data, dict):
            for v in h.data.values():
                if isinstance(v, Wrap) and v.kind == "cached":
                    yield v
            ns = h.data.get("#ns")
            if isinstance(ns, dict):
                for v in ns.values():
                    if isinstance(v, Wrap) and v.kind == "cached":
                        yield v


def place(e, a):
    """name of a shared location"""
    if a == e.fattr_addr:
        return "an attribute of a function"
    for n, m in e.modules.items():
        if not isinstance(m, Ref):
            continue
        fr = e.get(m.a).data["frame"]
        if fr == a:
            return "a variable of module %s" % n
        for k, v in e.get(fr).data.items():
            if isinstance(v, Ref) and v.a == a:
                h = e.get(a)
                return "class %s" % k if h.kind == "class" else "%s.%s" % (n, k)
            if isinstance(v, Ref) and e.get(v.a).kind == "class":
                for k2, v2 in e.get(v.a).data["#ns"].items():
                    if isinstance(v2, Ref) and v2.a == a:
                        return "class attribute %s.%s" % (k, k2)
    return "a shared %s" % e.get(a).kind


# ------------------------------------------------------------------ effects
QUIET = {"read", "open-r", "xmlparse", "etparse", "render", "encode", "decode", "close", "call", "done", "mark", "stub",
         "setattr", "convert-fallback", "unknown-element", "unknown-attribute", "xml-injection", "ext", "id", "warn", "newline",
         "codec-errors", "locale"}
NONDET = {"clock", "random", "env"}


@job
def effects(e, cl, io, entry, kind, sk=None, fmtname=None, src=None, setorder=1, bad=None):
    """what one call does besides computing its result; with setorder=-1 the result is also compared
    when every set is iterated in the opposite order"""
    ctx = Ctx(e, cl)
    root = gen(ROOTS[kind], kind, Skel(**(sk or dict(base_of(kind, True), full=True))))
    P = "%s.%s.%s" % (IO[io][0].split(".")[-1], IO[io][1], entry)
    text = None
    if entry.startswith("from"):
        text = bad or (kvn_text(ctx, root, kind) if src == "kvn" else xml_text(ctx, root, kind))
        e.hooks["files"] = lambda eng, p, b, enc: to_bytes(text) if b else text
        arg = {"from_string": text, "from_bytes": to_bytes(text), "from_path": IN}[entry]
        args = [arg]
    else:
        obj = ctx.alloc(root)
        args = [obj] + ([fmt(e, fmtname)] if fmtname else []) + ([OUT] if entry == "to_file" else [])
    e.setorder = setorder
    try:
        res = e.run_paths(lambda: e.call(e.getattr_(io_obj(e, io), entry), args, {}))
    finally:
        e.setorder = 1
    out, n = [], 0
    allowed_w = {key_of(OUT)} if entry == "to_file" else set()
    allowed_r = {key_of(IN)} if entry == "from_path" else set()
    for pc, k, v, diff in res:
        ev = evs(e, diff, pc)
        tmp = set()
        for z in ev:
            n += 1
            if z[0] in NONDET:
                out.append(rec("state", kind, "nondet", z[0], P, "the result depends on the %s (%s)" % (
                    {"clock": "clock", "random": "random numbers", "env": "environment"}[z[0]], z[1] if len(z) > 1 else "")))
            elif z[0] in ("read", "open-r"):
                if key_of(z[1]) not in allowed_r | tmp | allowed_w:
                    out.append(rec("state", kind, "effect", z[0], P, "reads the file %s" % key_of(z[1])))
            elif z[0] in ("open-w", "write"):
                if key_of(z[1]) not in allowed_w | tmp:
                    out.append(rec("state", kind, "effect", z[0], P, "writes the file %s" % key_of(z[1])))
            elif z[0] == "rename":
                if key_of(z[2]) not in allowed_w or key_of(z[1]) not in allowed_w:
                    out.append(rec("state", kind, "effect", z[0], P, "renames %s to %s" % (key_of(z[1]), key_of(z[2]))))
            elif z[0] in ("fsquery",):
                continue
            elif z[0] == "fs" and entry == "to_file":
                if z[1] not in ("unlink", "touch") or key_of(z[2]) not in tmp | allowed_w:
                    out.append(rec("state", kind, "effect", z[0], P, "file system operation %s" % (z[1],)))
            elif z[0] not in QUIET:
                out.append(rec("state", kind, "effect", z[0], P, "has an effect outside its result: %s %s" % (z[0], str(z[1:])[:80])))
    if not bad:
        if entry.startswith("from"):
            o, c = compare_read(e, ctx, root, kind, res)
        elif fmtname == "XML" or io == "xml":
            o = []
            if entry == "to_string":
                for pc, k, v, diff in res:
                    if k == "exc" or xml_lines(e.with_state(diff, lambda: e.res(v), pc)) != xml_lines(xml_text(ctx, root, kind)):
                        o.append(rec("state", kind, "order", "text", P, "the text written differs from the message"))
        elif entry == "to_string":
            o, c = compare_write(e, ctx, root, kind, res)
        else:
            o = []
        for q in o:
            q["what"], q["aspect"] = "order", q["aspect"]
            q["msg"] = ("with sets iterated in %s order: " % ("opposite" if setorder < 0 else "insertion")) + q["msg"]
        out += o
    return out, {"paths": len(res), "events": n}


@job
def import_effects(e, cl):
    """importing the package has no effect outside the interpreter"""
    out = []
    ev = core.BOOT["events"]
    for z in ev:
        if z[0] in NONDET or z[0] not in QUIET | {"read"} or z[0] in ("read", "open-r"):
            out.append(rec("state", "", "effect", z[0], "import", "importing the package: %s %s" % (z[0], str(z[1:])[:80])))
    return out, {"events": len(ev), "modules": core.BOOT["modules"]}


# ------------------------------------------------------------------ C38: failures are reported
@job
def fault(e, cl, io, entry, kind, where, src=None, fmtname=None, sk=None):
    """a failure of an operation the call relies on reaches the caller"""
    ctx = Ctx(e, cl)
    root = gen(ROOTS[kind], kind, Skel(**(sk or dict(base_of(kind, False), full=False))))
    P = "%s.%s.%s" % (IO[io][0].split(".")[-1], IO[io][1], entry)
    op, idx, exc = where
    if entry.startswith("from"):
        text = kvn_text(ctx, root, kind) if src == "kvn" else xml_text(ctx, root, kind)
        e.hooks["files"] = lambda eng, p, b, enc: to_bytes(text) if b else text
        args = [{"from_string": text, "from_bytes": to_bytes(text), "from_path": IN}[entry]]
    else:
        obj = ctx.alloc(root)
        args = [obj] + ([fmt(e, fmtname)] if fmtname else []) + ([OUT] if entry == "to_file" else [])
    hit = "fault-injected"

    def boom(eng):
        eng.emit(hit)
        if exc in eng.builtins:
            eng.raise_(exc, "injected")
        eng.raise_(ext.exc_class(eng, exc, "ValueError"), "injected")

    def opener(eng, path, mode):
        if (op == "open-r" and "r" in mode and mode != "write") or (op == "open-w" and mode not in ("write", "r", "rb")) or \
                (op == "write" and mode == "write"):
            boom(eng)

    def parser(eng, p, s, c):
        n = sum(1 for z, cc in boot.events(eng) if z[0] == "xmlparse")
        if n == idx:
            boom(eng)

    def render(eng, s, o, sl, nsl):
        boom(eng)

    def files(eng, p, b, enc):
        if b:
            return to_bytes(text)
        if any(z[0] == "codec-errors" for z, cc in boot.events(eng)):
            eng.emit(hit)
            return text
        boom(eng)

    def decoder(eng, enc, errors):
        if errors == "strict":
            boom(eng)
        eng.emit(hit)
    if op in ("open-r", "open-w", "write"):
        e.hooks["open_error"] = opener
    elif op == "parse":
        e.hooks["xmlparse"] = parser
    elif op == "render":
        e.hooks["render"] = render
    elif op == "decode":
        e.hooks["files"] = files
        e.hooks["decode"] = decoder
    res = e.run_paths(boot.settled(e, lambda: e.call(e.getattr_(io_obj(e, io), entry), args, {})))
    out, hits = [], 0
    for pc, k, v, diff in res:
        ev = evs(e, diff, pc)
        h = any(z[0] == hit for z in ev)
        hits += h
        if k == "ret" and h:
            out.append(rec("state", kind, "fault", "swallowed", P, "%s fails with %s, but the call returns normally" % (
                {"open-r": "opening the input file", "open-w": "opening the output file", "write": "writing the output file",
                 "parse": "the %s. conversion of a block of the document" % idx, "render": "the XML conversion",
                 "decode": "decoding the input file"}[op], exc)))
        opened = {}
        for z in ev:
            if z[0] in ("open-r", "open-w"):
                opened[key_of(z[1])] = z[0]
            elif z[0] == "close":
                opened.pop(key_of(z[1]), None)
        if entry == "to_file" and op == "render" and any(z[0] == "open-w" for z in ev):
            out.append(rec("state", kind, "fault", "destroyed", P, "the output file is opened although the conversion fails"))
    return out, {"paths": len(res), "faults": hits}


@job
def refused(e, cl, io, entry, kind, sk, key, value):
    """a KVN document with an undefined setting that decides how its data is read is refused"""
    ctx = Ctx(e, cl)
    root = gen(ROOTS[kind], kind, Skel(**sk))
    segs = strs.segs_of(kvn_text(ctx, root, kind))
    pat = re.compile(r"(?m)^(%s *= *)[^\n]+" % key)
    new = [pat.sub(lambda m: m.group(1) + value, s) if isinstance(s, str) else s for s in segs]
    if new == list(segs):
        raise Unsupported("the reference document has no %s line" % key)
    text = AStr(new)
    P = "%s.%s.%s" % (IO[io][0].split(".")[-1], IO[io][1], entry)
    e.hooks["files"] = lambda eng, p, b, enc: to_bytes(text) if b else text
    arg = {"from_string": text, "from_bytes": to_bytes(text), "from_path": IN}[entry]
    res = e.run_paths(lambda: e.call(e.getattr_(io_obj(e, io), entry), [arg], {}))
    out = []
    for pc, k, v, diff in res:
        if k == "ret":
            out.append(rec("state", kind, "fault", "swallowed", P, "%s = %s does not say how the data lines are to be read, but the call returns normally" % (key, value)))
    return out, {"paths": len(res)}


@job
def files_closed(e, cl, io, entry, kind, src=None, fmtname=None, fail=None):
    """every file a call opens is closed when the call ends, also when it fails"""
    ctx = Ctx(e, cl)
    root = gen(ROOTS[kind], kind, Skel(**dict(base_of(kind, False), full=False)))
    P = "%s.%s.%s" % (IO[io][0].split(".")[-1], IO[io][1], entry)
    if entry.startswith("from"):
        text = kvn_text(ctx, root, kind) if src == "kvn" else xml_text(ctx, root, kind)
        if fail == "content":
            text = "neither one nor the other"
        e.hooks["files"] = lambda eng, p, b, enc: to_bytes(text) if b else text
        args = [IN]
    else:
        obj = ctx.alloc(root)
        args = [obj] + ([fmt(e, fmtname)] if fmtname else []) + [OUT]
        if fail == "combined":
            args[0] = ctx.alloc(ndm_root({kind: 2}))
        if fail == "nomessage":
            args[0] = "nonsense"
        if fail == "write":
            e.hooks["open_error"] = lambda eng, p, m: eng.raise_("OSError", "injected") if m == "write" else None
        if fail == "render":
            e.hooks["render"] = lambda eng, s, o, sl, nsl: eng.raise_("ValueError", "injected")
    if fail == "decode":
        def files(eng, p, b, enc):
            if b:
                return to_bytes(text)
            eng.raise_("UnicodeDecodeError", "injected")
        e.hooks["files"] = files
        e.hooks["decode"] = lambda eng, enc, errors: eng.raise_("UnicodeDecodeError", "injected")
    if fail == "read":
        e.hooks["files"] = lambda eng, p, b, enc: eng.raise_("OSError", "injected")
    if fail == "parse":
        e.hooks["xmlparse"] = lambda eng, p, s, c: eng.raise_("ValueError", "injected")
    res = e.run_paths(boot.settled(e, lambda: e.call(e.getattr_(io_obj(e, io), entry), args, {})))
    out, n = [], 0
    for pc, k, v, diff in res:
        opened = {}
        for z in evs(e, diff, pc):
            if z[0] in ("open-r", "open-w"):
                opened[key_of(z[1])] = opened.get(key_of(z[1]), 0) + 1
                n += 1
            elif z[0] == "close":
                opened[key_of(z[1])] = opened.get(key_of(z[1]), 0) - 1
        for p, c in opened.items():
            if c > 0:
                out.append(rec("state", kind, "close", "open", P, "the file %s is left open%s" % (p, " when the call fails" if k == "exc" else "")))
    return out, {"paths": len(res), "opens": n}


# ------------------------------------------------------------------ API
API = {
    "ndm": {"from_path": ["input_file_path"], "from_bytes": ["ndm_data_source"], "from_string": ["ndm_data_source"],
            "to_string": ["ndm_obj", "data_format"], "to_file": ["ndm_obj", "data_format", "xml_write_file_path"]},
    "xml": {"from_path": ["xml_read_file_path"], "from_bytes": ["xml_source"], "from_string": ["xml_source"],
            "to_string": ["ndm_obj", "schema_location", "no_namespace_schema_location"],
            "to_file": ["ndm_obj", "xml_write_file_path", "schema_location", "no_namespace_schema_location"]},
    "kvn": {"from_path": ["kvn_read_file_path"], "from_string": ["kvn_source"], "to_string": ["ndm_obj"],
            "to_file": ["ndm_obj", "kvn_write_file_path"]},
}


@job
def api(e, cl, io):
    mod, cn = IO[io]
    out, n = [], 0
    try:
        c = boot.modvar(e, mod, cn)
        x = io_obj(e, io)
    except (boot.Missing, PyRaise) as ex:
        return [rec("model", "", "api", "missing", mod, "%s.%s cannot be created without arguments: %s" % (mod, cn, ex))], {"names": 1}
    ctx = Ctx(e, cl)
    for m, params in API[io].items():
        n += 1
        f = e.lookup_class_attr(c, m)
        P = "%s.%s.%s" % (mod, cn, m)
        if f is UNBOUND:
            out.append(rec("model", "", "api", "missing", P, "the method %s does not exist" % P))
            continue
        # the documented parameters are accepted by position and by name
        kind = "opm"
        root = skel(kind)
        text = kvn_text(ctx, root, kind) if io != "xml" else xml_text(ctx, root, kind)
        e.hooks["files"] = lambda eng, p, b, enc: to_bytes(text) if b else text
        obj = ctx.alloc(root)

        def val(p):
            if p == "ndm_obj":
                return obj
            if p == "data_format":
                return fmt(e, "KVN")
            if "location" in p:
                return "http://example.invalid/x.xsd"
            if p.endswith("path"):
                return "f.dat"
            return to_bytes(text) if m == "from_bytes" else text
        for form in ("position", "name"):
            def call():
                if form == "position":
                    return e.call(e.getattr_(x, m), [val(p) for p in params], {})
                return e.call(e.getattr_(x, m), [], {p: val(p) for p in params})
            for pc, k, v, diff in e.run_paths(call):
                n += 1
                if k == "exc":
                    out.append(rec("model", "", "api", "signature", P, "%s(%s) by %s raises %s" % (P, ", ".join(params), form, exc_text(e, v, diff, pc)), v.where))
    if io == "ndm":
        for m in FMTS:
            n += 1
            try:
                fmt(e, m)
            except boot.Missing:
                out.append(rec("model", "", "api", "missing", "ccsds_ndm.ndm_io", "NDMFileFormats.%s does not exist" % m))
    return out, {"names": n}


@job
def exports(e, cl):
    out = []
    n = 0
    pk = boot.MODELS
    m = e.modules[pk]
    fr = e.get(e.get(m.a).data["frame"]).data
    allv = fr.get("__all__")
    names = None
    if isinstance(allv, Ref) or isinstance(allv, Tup):
        names = [x for x in e.iter_items(allv)]
    for c in sorted(MODEL):
        n += 1
        v = fr.get(c, UNBOUND)
        if v is UNBOUND:
            out.append(rec("model", "", "export", "missing", pk + "." + c, "%s cannot be imported from %s" % (c, pk)))
            continue
        if not isinstance(v, Ref) or boot.typename(e, v) != c:
            out.append(rec("model", "", "export", "wrong", pk + "." + c, "%s.%s is %s" % (pk, c, boot.describe(e, v))))
        if names is not None and c not in names:
            out.append(rec("model", "", "export", "all", pk + "." + c, "%s is not in __all__ of %s" % (c, pk)))
    for x in names or ():
        n += 1
        if isinstance(x, str) and fr.get(x, UNBOUND) is UNBOUND:
            out.append(rec("model", "", "export", "dangling", pk + "." + x, "__all__ of %s names %s, which does not exist" % (pk, x)))
    return out, {"names": n}


# ------------------------------------------------------------------ object model
@job
def model(e, cl, part, lo=0, hi=1):
    """compare the object model extracted from the current source with the frozen vocabulary"""
    cur = boot.extract(e)
    out, n = [], 0
    names = sorted(set(MODEL) | set(cur))

    def add(c, path, msg, asp):
        w = boot.where_defined(e, cl[c]) if c in cl else "?"
        out.append(rec("model", "", "model", asp, "%s:%s" % (w, path), msg))
    for c in names:
        a, b = MODEL.get(c), cur.get(c)
        if a is None:
            if part == "vocabulary":
                add(c, c, "%s is not part of the object model" % c, "extra")
            continue
        if b is None:
            add(c, c, "the model class %s does not exist" % c, "missing")
            continue
        if a["kind"] != b["kind"]:
            add(c, c, "%s is a %s instead of a %s" % (c, b["kind"], a["kind"]), "kind")
            continue
        if a["kind"] == "enum":
            if part == "enums":
                n += len(a["members"])
                am, bm = [tuple(x) for x in a["members"]], [tuple(x) for x in b["members"]]
                for k, v in am:
                    w = dict(bm).get(k, UNBOUND)
                    if w is UNBOUND:
                        add(c, "%s.%s" % (c, k), "%s has no member %s (%r)" % (c, k, v), "member")
                    elif w != v or type(w) is not type(v):
                        add(c, "%s.%s" % (c, k), "%s.%s stands for %r instead of %r" % (c, k, w, v), "member")
                for k, v in bm:
                    if k not in dict(am):
                        add(c, "%s.%s" % (c, k), "%s has an undefined member %s (%r)" % (c, k, v), "member")
            continue
        fa, fb = {f["name"]: f for f in a["fields"]}, {f["name"]: f for f in b["fields"]}
        if part == "vocabulary":
            n += len(fa)
            if a.get("meta") != b.get("meta"):
                add(c, c, "%s: element name/namespace %r instead of %r" % (c, b.get("meta"), a.get("meta")), "meta")
            for k in fa:
                if k not in fb:
                    add(c, "%s.%s" % (c, k), "%s has no field %s" % (c, k), "field")
            for k in fb:
                if k not in fa:
                    add(c, "%s.%s" % (c, k), "%s has an undefined field %s" % (c, k), "field")
            if [f["name"] for f in a["fields"] if f["name"] in fb] != [f["name"] for f in b["fields"] if f["name"] in fa]:
                add(c, c, "the elements of %s are in a different order" % c, "order")
        for k in fa:
            if k not in fb:
                continue
            x, y = fa[k], fb[k]
            if part == "vocabulary":
                for asp in ("xml", "kind", "list", "types"):
                    if x[asp] != y[asp]:
                        add(c, "%s.%s" % (c, k), "%s.%s: %s is %r instead of %r" % (
                            c, k, {"xml": "element name", "kind": "node kind", "list": "repetition", "types": "type"}[asp], y[asp], x[asp]), asp)
            elif part == "constraints":
                n += 1
                for asp in ("init", "default", "meta"):
                    if x[asp] != y[asp]:
                        add(c, "%s.%s" % (c, k), "%s.%s: %s is %s instead of %s" % (
                            c, k, {"init": "constructor argument", "default": "default value", "meta": "constraints"}[asp],
                            json.dumps(y[asp], sort_keys=True), json.dumps(x[asp], sort_keys=True)), asp)
    return out, {"items": n, "classes": len(MODEL)}


@job
def defaults(e, cl):
    """two messages built with default arguments share no mutable object"""
    out, n = [], 0
    for c in sorted(MODEL):
        if MODEL[c]["kind"] == "enum" or c not in cl:
            continue

        def mk():
            return Tup((lib.instantiate(e, cl[c], [], {}), lib.instantiate(e, cl[c], [], {})))
        start = e.addr
        for pc, k, v, diff in e.run_paths(mk):
            n += 1
            if k == "exc":
                if not v_required(c):
                    out.append(rec("model", "", "defaults", "exception", c, "%s() raises %s" % (c, exc_text(e, v, diff, pc)), v.where))
                continue
            a = e.with_state(diff, lambda: reach(e, v.items[0]), pc)
            b = e.with_state(diff, lambda: reach(e, v.items[1]), pc)
            if a & b:
                out.append(rec("model", "", "defaults", "shared", c, "two new %s objects share %s" % (c, e.with_state(diff, lambda: name_of(e, min(a & b)), pc))))
            if [x for x in a if x <= start]:
                out.append(rec("model", "", "defaults", "shared", c, "a new %s contains an object that existed before" % c))
    return out, {"classes": n}


def v_required(c):
    """constructor arguments without a default value"""
    return any(f["init"] and f["default"] == {"missing": True} for f in MODEL[c]["fields"])
