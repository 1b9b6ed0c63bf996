"""The abstract interpreter.

Evaluation is direct style.  A decision on something the abstraction does not determine
raises NeedChoice(oracle); the innermost enclosing *fork point* (statement, loop
iteration, call, conditional expression) rolls the state back, evaluates the construct
once per choice and joins the resulting states: values that differ become
Choice(oracle, ...), list contents Alt(oracle, ...).  Only if the choices disagree on
control flow (return/raise/break vs. fall through) is the fork moved outwards, to the
rest of the block, the rest of the loop, the call, the calling statement...
Loops over contents of unknown length (Star) are evaluated once, generalised, and the
generalisation is checked for stability.
"""
import ast
import os
import time
from decimal import Decimal

from . import strs
from .values import *
from .values import H, Ref


class _Again(Exception):
    """a step of a loop over an iterator may find the iterator exhausted"""


class Kind:
    __slots__ = ("tag", "val")

    def __init__(self, tag, val=None):
        self.tag = tag
        self.val = val


NORMAL = Kind("N")
BREAK = Kind("B")
CONTINUE = Kind("C")


class Mangler(ast.NodeTransformer):
    """private name mangling, done once per module"""

    def __init__(self):
        self.stack = []

    def m(self, n):
        if self.stack and n.startswith("__") and not n.endswith("__"):
            return "_" + self.stack[-1].lstrip("_") + n
        return n

    def visit_ClassDef(self, node):
        node.decorator_list = [self.visit(d) for d in node.decorator_list]
        node.bases = [self.visit(d) for d in node.bases]
        self.stack.append(node.name)
        node.body = [self.visit(b) for b in node.body]
        self.stack.pop()
        node.name = self.m(node.name)
        return node

    def visit_Name(self, node):
        node.id = self.m(node.id)
        return node

    def visit_Attribute(self, node):
        self.generic_visit(node)
        node.attr = self.m(node.attr)
        return node

    def visit_FunctionDef(self, node):
        node.name = self.m(node.name)
        self.generic_visit(node)
        return node

    def visit_arg(self, node):
        node.arg = self.m(node.arg)
        self.generic_visit(node)
        return node

    def visit_keyword(self, node):
        if node.arg:
            node.arg = self.m(node.arg)
        self.generic_visit(node)
        return node

    def visit_Global(self, node):
        node.names = [self.m(n) for n in node.names]
        return node

    visit_Nonlocal = visit_Global


class LocalFinder(ast.NodeVisitor):
    """names bound in a function body (not in nested scopes)"""

    def __init__(self):
        self.names = set()
        self.glob = set()
        self.nonl = set()
        self.nested = False
        self.gen = False

    def visit_Name(self, n):
        if isinstance(n.ctx, (ast.Store, ast.Del)):
            self.names.add(n.id)

    def visit_FunctionDef(self, n):
        self.names.add(n.name)
        self.nested = True
        for d in n.decorator_list:
            self.visit(d)
        for d in n.args.defaults + [x for x in n.args.kw_defaults if x]:
            self.visit(d)

    def visit_ClassDef(self, n):
        self.names.add(n.name)
        self.nested = True

    def visit_Lambda(self, n):
        self.nested = True
        for d in n.args.defaults:
            self.visit(d)

    def _comp(self, n):
        # comprehension scopes: only the walrus targets leak
        for x in ast.walk(n):
            if isinstance(x, ast.NamedExpr):
                self.names.add(x.target.id)
            if isinstance(x, (ast.Lambda, ast.FunctionDef)):
                self.nested = True

    visit_ListComp = visit_SetComp = visit_DictComp = visit_GeneratorExp = _comp

    def visit_Global(self, n):
        self.glob.update(n.names)

    def visit_Nonlocal(self, n):
        self.nonl.update(n.names)

    def visit_Import(self, n):
        for a in n.names:
            self.names.add((a.asname or a.name).split(".")[0])

    def visit_ImportFrom(self, n):
        for a in n.names:
            self.names.add(a.asname or a.name)

    def visit_ExceptHandler(self, n):
        if n.name:
            self.names.add(n.name)
        self.generic_visit(n)

    def visit_Yield(self, n):
        self.gen = True
        self.generic_visit(n)

    def visit_YieldFrom(self, n):
        self.gen = True
        self.generic_visit(n)

    def visit_MatchAs(self, n):
        if n.name:
            self.names.add(n.name)
        self.generic_visit(n)

    def visit_MatchStar(self, n):
        if n.name:
            self.names.add(n.name)

    def visit_MatchMapping(self, n):
        if n.rest:
            self.names.add(n.rest)
        self.generic_visit(n)


class Engine:
    def __init__(self, repo="/repo", deadline=None, maxsteps=60_000_000):
        self.repo = repo
        self.heap = {}
        self.journal = []
        self.pc = {}
        self.ctr = 0
        self.addr = 0
        self.modules = {}          # name -> Ref of module
        self.sources = {}          # file -> text
        self.depth = 0
        self.steps = 0
        self.maxsteps = maxsteps
        self.deadline = deadline
        self.cut = None
        self.pathmode = False
        self.trace_addr = None
        self.notes = {}            # imprecision notes
        self.stack = []            # call stack (names)
        self.line = None
        self.curfile = None
        self.covered = set()       # interpreted functions
        self.setorder = 1          # -1: sets are iterated in the opposite order
        self.visited_calls = 0
        self.forks = 0
        self.scope_cache = {}
        self.loading = []
        from . import lib
        self.lib = lib
        self.builtins = lib.builtin_table(self)
        self.trace_addr = self.alloc(H("list", None, ()))
        self.fattr_addr = self.alloc(H("frame", None, {}))
        self.fkeep = {}

    # ------------------------------------------------------------------ heap
    def alloc(self, h):
        self.addr += 1
        a = self.addr
        self.journal.append((a, None))
        self.heap[a] = h
        return a

    def new(self, h):
        return Ref(self.alloc(h))

    def get(self, a):
        return self.heap[a]

    def set(self, a, h):
        self.journal.append((a, self.heap.get(a)))
        self.heap[a] = h

    def rollback(self, mark):
        j = self.journal
        heap = self.heap
        while len(j) > mark:
            a, old = j.pop()
            if old is None:
                heap.pop(a, None)
            else:
                heap[a] = old

    def capture(self, mark):
        d = {}
        heap = self.heap
        for i in range(mark, len(self.journal)):
            a = self.journal[i][0]
            if a not in d and a in heap:
                d[a] = heap[a]
        self.rollback(mark)
        return d

    def free(self, a):
        if a in self.heap:
            self.journal.append((a, self.heap[a]))
            del self.heap[a]

    def emit(self, *ev):
        h = self.heap[self.trace_addr]
        self.set(self.trace_addr, h.with_data(h.data + (Tup(ev),)))

    def trace(self):
        return self.heap[self.trace_addr].data

    # ------------------------------------------------------------------ oracles
    def choose(self, o, choices):
        if o in self.pc:
            return self.pc[o]
        r = self.resolve_hook(o, choices)
        if r is not None:
            return r
        raise NeedChoice(o, choices)

    def resolve_hook(self, o, choices):
        # facts implied by the path condition
        if isinstance(o, tuple) and len(o) == 2 and o[0] == "empty":
            t = self.pc.get(("truthy", o[1]))
            if t is not None:
                return not t
        if isinstance(o, tuple) and len(o) == 3 and o[0] == "longer":
            for k, v in self.pc.items():
                if isinstance(k, tuple) and len(k) == 3 and k[0] == "longer" and k[1] == o[1] and (k[2] >= o[2] if v else k[2] <= o[2]):
                    return v
        if isinstance(o, tuple) and len(o) == 2 and o[0] == "truthy":
            t = self.pc.get(("empty", o[1]))
            if t is not None:
                return not t
        return None

    def anon(self, tag, choices=(True, False)):
        self.ctr += 1
        o = ("anon", tag, self.ctr)
        return self.choose(o, choices)

    def anon_name(self, tag):
        self.ctr += 1
        return ("anon", tag, self.ctr)

    def res(self, v):
        """resolve choices already decided on this path"""
        while type(v) is Choice and v.o in self.pc:
            c = self.pc[v.o]
            if c not in v.br:
                raise Infeasible()
            v = v.br[c]
        return v

    def force(self, v):
        while type(v) is Choice:
            if v.o in self.pc:
                c = self.pc[v.o]
                if c not in v.br:
                    raise Infeasible()
                v = v.br[c]
            else:
                r = self.resolve_hook(v.o, v.br)
                if r is not None:
                    v = v.br[r]
                    continue
                raise NeedChoice(v.o, v.br.keys())
        if type(v) is AStr and any(type(s) is AltSeg for s in v.segs):
            v2 = v
            if any(type(s) is AltSeg and s.o in self.pc for s in v.segs):
                out = []
                for s in v.segs:
                    if type(s) is AltSeg and s.o in self.pc:
                        out.extend(s.br[self.pc[s.o]])
                    else:
                        out.append(s)
                v = strs.mk(out, v.b)
        return v

    # ------------------------------------------------------------------ forking
    def fork(self, nc, thunk):
        """evaluate thunk under every choice; join.  Mixed control flow -> NeedChoice."""
        if self.pathmode:
            raise NeedChoice(nc.o, nc.choices, 2)
        self.forks += 1
        if self.deadline and (self.forks & 63) == 0 and time.time() > self.deadline:
            raise Budget("time")
        if self.depth > 900:
            raise Unsupported("fork nesting too deep")
        o = nc.o
        if o in self.pc:
            raise Unsupported("oracle %s decided twice" % oname(o))
        mark = len(self.journal)
        ctr0 = self.ctr
        ctrmax = ctr0
        res = {}
        mixed = False
        first_exc = None
        for c in nc.choices:
            self.ctr = ctr0
            self.pc[o] = c
            try:
                try:
                    k = thunk()
                except PyRaise as e:
                    k = Kind("X", e)
                d = self.capture(mark)
                res[c] = (k, d)
            except Infeasible:
                self.rollback(mark)
            except NeedChoice as n2:
                self.rollback(mark)
                mixed = True
                esc = n2.esc
            finally:
                del self.pc[o]
            ctrmax = max(ctrmax, self.ctr)
            if mixed:
                break
        self.ctr = ctrmax
        if not mixed and not res:
            raise Infeasible()
        tags = {k.tag for k, _ in res.values()}
        if not mixed and len(res) == 1:
            # only one feasible choice
            (k, d), = res.values()
            for a, h in d.items():
                self.set(a, h)
            if k.tag == "X":
                raise k.val
            return k
        if mixed or len(tags) > 1 or "X" in tags:
            self.ctr = ctr0
            raise NeedChoice(o, nc.choices, esc if mixed else 2 if "X" in tags else 1)
        self.apply_join(o, {c: d for c, (k, d) in res.items()})
        tag = tags.pop()
        if tag == "R":
            return Kind("R", self.join_val(o, {c: k.val for c, (k, d) in res.items()}))
        return next(iter(res.values()))[0]

    def apply_join(self, o, diffs):
        touched = []
        seen = set()
        for d in diffs.values():
            for a in d:
                if a not in seen:
                    seen.add(a)
                    touched.append(a)
        for a in touched:
            base = self.heap.get(a)
            hs = {}
            for c, d in diffs.items():
                h = d.get(a, base)
                if h is not None:
                    hs[c] = h
            if base is None or len(hs) == 1:
                # allocated within one branch
                if len(hs) >= 1:
                    h0 = next(iter(hs.values()))
                    if len(hs) > 1:
                        h0 = self.join_h(o, hs)
                    self.set(a, h0)
                continue
            j = self.join_h(o, hs)
            if j is not base:
                self.set(a, j)

    def join_h(self, o, hs):
        vals = list(hs.values())
        h0 = vals[0]
        if all(v is h0 for v in vals):
            return h0
        if any(v.kind != h0.kind for v in vals):
            return H("top", None, "join of different kinds")
        cls = h0.cls
        if any(not same(v.cls, cls) for v in vals):
            cls = self.join_val(o, {c: h.cls for c, h in hs.items()})
        if h0.kind in ("list", "set"):
            return H(h0.kind, cls, self.join_items(o, {c: h.data for c, h in hs.items()}), h0.meta)
        if h0.kind == "iter":
            return H(h0.kind, cls, self.join_items(o, {c: h.data for c, h in hs.items()}, suffix=True), h0.meta)
        if isinstance(h0.data, dict):
            keys = []
            ks = set()
            for v in vals:
                for k in v.data:
                    if k not in ks:
                        ks.add(k)
                        keys.append(k)
            data = {}
            for k in keys:
                data[k] = self.join_val(o, {c: h.data.get(k, UNBOUND) for c, h in hs.items()})
            return H(h0.kind, cls, data, h0.meta)
        if all(same(v.data, h0.data) for v in vals):
            return h0
        return H("top", None, "join")

    def join_val(self, o, br):
        vals = list(br.values())
        v0 = vals[0]
        if all(v is v0 for v in vals):
            return v0
        if all(same(v, v0) for v in vals):
            return v0
        nb = {}
        for c, v in br.items():
            while type(v) is Choice and v.o == o:
                v = v.br[c]
            nb[c] = v
        vals = list(nb.values())
        if all(same(v, vals[0]) for v in vals):
            return vals[0]
        # accumulating strings: keep the common prefix
        if all(type(v) in (str, AStr) for v in vals):
            segs = {c: list(strs.segs_of(v)) for c, v in nb.items()}
            pre = []
            while all(segs.values()):
                s0 = [s[0] for s in segs.values()]
                if all(type(x) is str for x in s0):
                    n = len(os.path.commonprefix(s0))
                    if n == 0:
                        break
                    pre.append(s0[0][:n])
                    allfull = True
                    for s in segs.values():
                        s[0] = s[0][n:]
                        if not s[0]:
                            s.pop(0)
                        else:
                            allfull = False
                    if not allfull:
                        break
                elif all(x == s0[0] for x in s0):
                    pre.append(s0[0])
                    for s in segs.values():
                        s.pop(0)
                else:
                    break
            if any(("\n" in p) if type(p) is str else type(p) in (AltSeg, StarSeg, JoinSeg) for p in pre):
                return strs.mk(pre + [AltSeg(o, {c: tuple(s) for c, s in segs.items()})])
        return Choice(o, nb)

    def join_items(self, o, br, suffix=False):
        seqs = {c: tuple(s) for c, s in br.items()}
        vals = list(seqs.values())
        if all(v is vals[0] for v in vals):
            return vals[0]
        n = 0
        m = min(len(v) for v in vals)
        if suffix:
            while n < m and all(same(v[-1 - n], vals[0][-1 - n]) for v in vals):
                n += 1
            common = vals[0][len(vals[0]) - n:]
            rest = {c: s[:len(s) - n] for c, s in seqs.items()}
        else:
            while n < m and all(v[n] is vals[0][n] or same(v[n], vals[0][n]) for v in vals):
                n += 1
            common = vals[0][:n]
            rest = {c: s[n:] for c, s in seqs.items()}
        rest = {c: self.simplify_items(s, o, c) for c, s in rest.items()}
        rv = list(rest.values())
        if all(same(r, rv[0]) for r in rv):
            alt = rv[0]
        elif all(len(r) == len(rv[0]) for r in rv) and all(
                not isinstance(x, (Alt, Star)) for r in rv for x in r):
            # element-wise join keeps the length definite
            alt = tuple(self.join_val(o, {c: r[i] for c, r in rest.items()}) for i in range(len(rv[0])))
        else:
            # common suffix of the differing parts
            k = 0
            m = min(len(r) for r in rv)
            while k < m and all(same(r[-1 - k], rv[0][-1 - k]) for r in rv):
                k += 1
            tail = rv[0][len(rv[0]) - k:] if k else ()
            alt = (Alt(o, {c: (r[:len(r) - k] if k else r) for c, r in rest.items()}),) + tuple(tail)
        return (alt + common) if suffix else (common + alt)

    def simplify_items(self, items, o, c):
        """content under the assumption that oracle o has the value c"""
        if not any(type(i) is Alt for i in items):
            return tuple(items)
        out = []
        for i in items:
            if type(i) is Alt:
                if i.o == o:
                    if c in i.br:
                        out.extend(self.simplify_items(i.br[c], o, c))
                    else:
                        out.append(i)
                    continue
                nb = {k: self.simplify_items(b, o, c) for k, b in i.br.items()}
                if any(nb[k] is not b and nb[k] != b for k, b in i.br.items()):
                    v = list(nb.values())
                    if all(len(x) == len(v[0]) and all(same(p, q) for p, q in zip(x, v[0])) for x in v[1:]):
                        out.extend(v[0])
                        continue
                    i = Alt(i.o, nb)
            out.append(i)
        return tuple(out)

    def local(self, thunk):
        """fork point for an expression; thunk returns a value"""
        mark = len(self.journal)
        ctr = self.ctr
        try:
            return thunk()
        except NeedChoice as nc:
            self.rollback(mark)
            self.ctr = ctr
            if nc.esc == 2:
                raise
            k = self.fork(nc, lambda: Kind("R", self.local(thunk)))
            return k.val

    # ------------------------------------------------------------------ content iteration
    def resolve_items(self, items):
        """splice Alts whose oracle is decided"""
        if not any(type(i) is Alt and i.o in self.pc for i in items):
            return items
        out = []
        for i in items:
            if type(i) is Alt and i.o in self.pc:
                if self.pc[i.o] not in i.br:
                    raise Infeasible()
                out.extend(self.resolve_items(i.br[self.pc[i.o]]))
            else:
                out.append(i)
        return tuple(out)

    def definite(self, items):
        """content with every Alt decided (raises NeedChoice), None if a Star is present"""
        items = self.resolve_items(items)
        for i in items:
            if type(i) is Alt:
                raise NeedChoice(i.o, i.br.keys())
        if any(type(i) is Star for i in items):
            return None
        return items

    def loop(self, items, body, orelse=None):
        return self._loop(tuple(items), 0, body, orelse)

    def _loop(self, items, i, body, orelse, inner=False):
        while i < len(items):
            it = items[i]
            if type(it) is Alt:
                if it.o in self.pc:
                    if self.pc[it.o] not in it.br:
                        raise Infeasible()
                    items = items[:i] + tuple(it.br[self.pc[it.o]]) + items[i + 1:]
                    continue
                nc = NeedChoice(it.o, it.br.keys())
                try:
                    k = self.fork(nc, lambda: self._loop(tuple(it.br[self.pc[it.o]]), 0, body, None, True))
                except NeedChoice as n2:
                    if n2.esc == 2:
                        raise
                    its, idx = items, i
                    return self.fork(n2, lambda: self._loop(its, idx, body, orelse, inner))
            elif type(it) is Star:
                k = self._star(it, body)
            else:
                mark = len(self.journal)
                ctr = self.ctr
                try:
                    k = body(it)
                except NeedChoice as nc:
                    self.rollback(mark)
                    self.ctr = ctr
                    if nc.esc == 2:
                        raise
                    try:
                        def th():
                            k = body(it)
                            return NORMAL if k.tag == "C" else k
                        k = self.fork(nc, th)
                    except NeedChoice as n2:
                        self.rollback(mark)
                        self.ctr = ctr
                        if n2.esc == 2:
                            raise
                        its, idx = items, i
                        return self.fork(n2, lambda: self._loop(its, idx, body, orelse, inner))
            if k.tag == "R":
                return k
            if k.tag == "B":
                return BREAK if inner else NORMAL
            i += 1
        if orelse:
            return orelse()
        return NORMAL

    def _star(self, star, body):
        """zero or more iterations over star.items"""
        if self.pathmode:
            self.pathmode = False
            try:
                return self._star(star, body)
            finally:
                self.pathmode = True
        if star.tag is not None and self.pc.get(("nonempty", base_tag(star.tag))) is False:
            return NORMAL
        for rnd in range(4):
            mark = len(self.journal)
            ctr = self.ctr
            def once():
                k = self._loop(star.items, 0, body, None, True)
                return NORMAL if k.tag == "C" else k
            try:
                try:
                    k = once()
                except NeedChoice as nc:
                    self.rollback(mark)
                    self.ctr = ctr
                    if nc.esc == 2:
                        raise
                    k = self.fork(nc, lambda: self._forkall(once))
            except NeedChoice as nc:
                # some choice leaves the loop: decide it for the (first leaving) iteration
                self.rollback(mark)
                self.ctr = ctr
                return self._star_exit(star, body, nc)
            if k.tag == "N":
                diff = self.capture(mark)
                changed = self._widen(diff, rnd, star.tag)
                if not changed:
                    return NORMAL
                continue
            # body always leaves: zero iterations or exit in the first one
            self.rollback(mark)
            self.ctr = ctr
            o = self.anon_name("nonempty")
            if self.choose(o, (False, True)):
                return once()
            return NORMAL
        raise Unsupported("loop does not stabilise")

    def _forkall(self, thunk):
        mark = len(self.journal)
        ctr = self.ctr
        try:
            return thunk()
        except NeedChoice as nc:
            self.rollback(mark)
            self.ctr = ctr
            if nc.esc == 2:
                raise
            return self.fork(nc, lambda: self._forkall(thunk))

    def _star_exit(self, star, body, nc):
        """loop over Star whose body may leave the loop, depending on nc.o.
        Choices: the loop completes (all iterations take non-leaving choices), or some
        iteration leaves."""
        paths = []
        self._enum_paths(lambda: self._loop(star.items, 0, body, None, True), {}, paths, [0])
        normal = [p for p in paths if p[1] in ("N", "C")]
        leaving = [p for p in paths if p[1] in ("B", "R", "X")]
        o = self.anon_name("starexit")
        c = self.choose(o, ("complete",) + tuple("exit%d" % i for i in range(len(leaving))))

        def run_under(pc):
            for k, v in pc.items():
                self.pc[k] = v
            try:
                return self._loop(star.items, 0, body, None, True)
            finally:
                for k in pc:
                    self.pc.pop(k, None)

        if normal:
            # widened effect of the completed iterations
            for rnd in range(4):
                changed = False
                for p in normal:
                    mark = len(self.journal)
                    run_under(p[0])
                    diff = self.capture(mark)
                    changed |= self._widen(diff, rnd)
                if not changed:
                    break
            else:
                raise Unsupported("loop does not stabilise")
        if c == "complete":
            return NORMAL
        return run_under(leaving[int(c[4:])][0])

    def _enum_paths(self, thunk, pc, out, n):
        n[0] += 1
        if n[0] > 64:
            raise Unsupported("too many paths through a loop body")
        mark = len(self.journal)
        ctr = self.ctr
        for k, v in pc.items():
            self.pc[k] = v
        need = None
        try:
            try:
                k = thunk()
                out.append((dict(pc), k.tag))
            except PyRaise:
                out.append((dict(pc), "X"))
            except NeedChoice as nc:
                need = nc
            except Infeasible:
                pass
        finally:
            for k in pc:
                self.pc.pop(k, None)
        self.rollback(mark)
        self.ctr = ctr
        if need is not None:
            for c in need.choices:
                d = dict(pc)
                d[need.o] = c
                self._enum_paths(thunk, d, out, n)

    def _widen(self, diff, rnd, tag=None):
        """generalise one abstract iteration's effect to any number; True if the state changed"""
        changed = False
        fresh = {a for a in diff if a not in self.heap}
        for a, h in diff.items():
            base = self.heap.get(a)
            if base is None:
                self.set(a, h)      # allocated in the iteration: representative object
                continue
            if base is h:
                continue
            if h.kind == "top":
                self.set(a, h)
                continue
            if base.kind in ("list", "set", "iter") and isinstance(h.data, tuple):
                b, n = base.data, h.data
                if base.kind == "iter":
                    if not same(b, n):
                        raise Unsupported("iterator consumed in a loop of unknown length")
                    continue
                if same(b, n):
                    continue
                if len(n) >= len(b) and same(n[:len(b)], b):
                    delta = n[len(b):]
                    if b and type(b[-1]) is Star and self.iso_items(b[-1].items, delta):
                        continue
                    if b and type(b[-1]) is Star and rnd >= 1:
                        # different effect after the first iteration: (first | later)*
                        o = self.anon_name("iter")
                        nd = (Star((Alt(o, {0: b[-1].items, 1: delta}),)),)
                        if rnd >= 2:
                            nd = (Star((Top("loop"),)),)
                        self.set(a, base.with_data(b[:-1] + nd))
                        changed = True
                        continue
                    self.set(a, base.with_data(b + (Star(delta, tag if tag is not None and self.static_nonempty(delta) else None),)))
                    changed = True
                else:
                    if any(type(x) is Top for x in b):
                        continue
                    self.set(a, base.with_data((Star((Top("loop"),)),)))
                    changed = True
                continue
            if isinstance(base.data, dict) and isinstance(h.data, dict):
                data = dict(base.data)
                ch = False
                for k, v in h.data.items():
                    old = data.get(k, UNBOUND)
                    if same(old, v) or self.subsumed(v, old):
                        continue
                    nv = self.widen_val(old, v, rnd)
                    data[k] = nv
                    ch = True
                if ch:
                    self.set(a, base.with_data(data))
                    changed = True
                continue
            if not same(base.data, h.data):
                self.set(a, H("top", None, "loop"))
                changed = True
        return changed

    def subsumed(self, v, old):
        if type(old) is Top:
            return True
        if type(old) is Choice and isinstance(old.o, tuple) and old.o[:2] == ("anon", "widen"):
            return any(self.subsumed(v, x) for x in old.br.values())
        if type(old) is AInt and (type(v) in (int, ALin, AInt)):
            lo = v if type(v) is int else v.lo()
            hi = v if type(v) is int else v.hi()
            return (old.lo_ is None or (lo is not None and lo >= old.lo_)) and (
                old.hi_ is None or (hi is not None and hi <= old.hi_))
        return self.iso(old, v)

    def widen_val(self, old, v, rnd):
        if old is UNBOUND and rnd == 0:
            return Choice(self.anon_name("widen"), {0: UNBOUND, 1: v})
        ints = (int, AInt, ALin)
        if type(old) in ints and type(v) in ints and type(old) is not bool and type(v) is not bool:
            lo = lambda x: x if type(x) is int else x.lo()
            hi = lambda x: x if type(x) is int else x.hi()
            nlo = None if lo(old) is None or lo(v) is None or lo(v) < lo(old) else lo(old)
            nhi = None if hi(old) is None or hi(v) is None or hi(v) > hi(old) else hi(old)
            return AInt(nlo, nhi, "widened")
        if type(old) in (str, AStr) and type(v) in (str, AStr):
            so, sv = strs.segs_of(old), strs.segs_of(v)
            if type(old) is str and type(v) is AStr and sv and type(sv[0]) is str and sv[0].startswith(old):
                rest = strs.segs_of(strs.mk((sv[0][len(old):],) + tuple(sv[1:])))
                return AStr(so + (StarSeg(rest),))
            if len(sv) >= len(so) and tuple(sv[:len(so)]) == tuple(so):
                return AStr(so + (StarSeg(tuple(sv[len(so):])),))
            if so and type(so[-1]) is StarSeg:
                pass
        if rnd >= 2:
            return Top("loop")
        br = {}
        if type(old) is Choice and isinstance(old.o, tuple) and old.o[:2] == ("anon", "widen"):
            br.update(old.br)
        else:
            br[0] = old
        br[len(br)] = v
        return Choice(self.anon_name("widen"), br)

    # structural isomorphism of two values up to renaming of addresses / anonymous oracles
    def iso(self, a, b, m=None, d=0):
        if m is None:
            m = {}
        if a is b:
            return True
        if d > 60:
            return False
        if type(a) is not type(b):
            return False
        if type(a) is Ref:
            if a.a == b.a:
                return True
            if m.get(("a", a.a)) is not None:
                return m[("a", a.a)] == b.a
            ha, hb = self.heap.get(a.a), self.heap.get(b.a)
            if ha is None or hb is None or ha.kind != hb.kind or not same(ha.cls, hb.cls):
                return ha is None and hb is None
            m[("a", a.a)] = b.a
            if isinstance(ha.data, dict) and isinstance(hb.data, dict):
                return list(ha.data) == list(hb.data) and all(
                    self.iso(ha.data[k], hb.data[k], m, d + 1) for k in ha.data)
            if isinstance(ha.data, tuple) and isinstance(hb.data, tuple):
                return self.iso_items(ha.data, hb.data, m, d + 1)
            return same(ha.data, hb.data)
        if type(a) in (Choice, Alt, AltSeg):
            if a.o != b.o:
                if a.o[0] == "anon" and b.o[0] == "anon" and a.o[1] == b.o[1]:
                    m.setdefault(("o", a.o), b.o)
                    if m[("o", a.o)] != b.o:
                        return False
                else:
                    return False
            if set(a.br) != set(b.br):
                return False
            f = self.iso if type(a) is Choice else self.iso_items
            return all(f(a.br[k], b.br[k], m, d + 1) for k in a.br)
        if type(a) is Star:
            return self.iso_items(a.items, b.items, m, d + 1)
        if type(a) is Tup:
            return self.iso_items(a.items, b.items, m, d + 1)
        if type(a) is Bound:
            return a.f is b.f and self.iso(a.self_, b.self_, m, d + 1)
        return same(a, b)

    def iso_items(self, x, y, m=None, d=0):
        if m is None:
            m = {}
        return len(x) == len(y) and all(self.iso(p, q, m, d + 1) for p, q in zip(x, y))

    # ------------------------------------------------------------------ modules
    extra = {}

    def find_source(self, name):
        if name in self.extra:
            return self.extra[name]
        p = os.path.join(self.repo, *name.split("."))
        if os.path.isdir(p):
            f = os.path.join(p, "__init__.py")
            return f if os.path.exists(f) else "namespace:" + p
        if os.path.exists(p + ".py"):
            return p + ".py"
        return None

    def import_module(self, name):
        if name in self.modules:
            return self.modules[name]
        src = self.find_source(name)
        if src is None:
            m = XMod(name)
            self.modules[name] = m
            return m
        # parents first
        if "." in name:
            self.import_module(name.rsplit(".", 1)[0])
            if name in self.modules:
                return self.modules[name]
        fr = self.alloc(H("frame", None, {"__name__": name}))
        ref = self.new(H("module", name, {"frame": fr}))
        self.modules[name] = ref
        if "." in name:
            p, c = name.rsplit(".", 1)
            pr = self.modules.get(p)
            if isinstance(pr, Ref):
                self.setvar(self.get(pr.a).data["frame"], c, ref)
        if not src.startswith("namespace:"):
            with open(src, encoding="utf-8") as f:
                text = f.read()
            self.sources[src] = text
            tree = ast.parse(text, src)
            tree = Mangler().visit(tree)
            save = self.curfile, self.stack
            self.curfile = src
            self.stack = self.stack + ["<module %s>" % name]
            env = Env(fr, None, fr, name, src)
            self.setvar(fr, "__file__", src)
            self.setvar(fr, "__package__", name if os.path.basename(src) == "__init__.py" else name.rpartition(".")[0])
            k = self.exec_block(tree.body, env)
            self.curfile, self.stack = save
        return ref

    def mod_attr(self, ref, name):
        ref = self.force(ref)
        if isinstance(ref, XMod):
            return self.lib.ext_attr(self, ref.name, name)
        fr = self.get(ref.a).data["frame"]
        v = self.get(fr).data.get(name, UNBOUND)
        if v is UNBOUND:
            sub = self.get(ref.a).cls + "." + name
            if self.find_source(sub):
                return self.import_module(sub)
            self.raise_("AttributeError", "module has no attribute %r" % name)
        return v

    def setvar(self, fr, name, v):
        h = self.heap[fr]
        d = dict(h.data)
        d[name] = v
        self.set(fr, H(h.kind, h.cls, d, h.meta))

    # ------------------------------------------------------------------ exceptions
    def raise_(self, cls, msg=""):
        c = self.builtins[cls] if isinstance(cls, str) else cls
        e = self.make_exc(c, (msg,))
        raise PyRaise(e, self.where())

    def make_exc(self, cls, args):
        return self.new(H("obj", cls, {"args": Tup(args)}))

    def where(self):
        return "%s:%s in %s" % (os.path.relpath(self.curfile, self.repo) if self.curfile else "?",
                                self.line, self.stack[-1] if self.stack else "?")

    # ------------------------------------------------------------------ statements
    def exec_block(self, stmts, env, i=0):
        n = len(stmts)
        while i < n:
            s = stmts[i]
            mark = len(self.journal)
            ctr = self.ctr
            try:
                k = self.exec_stmt(s, env)
            except NeedChoice as nc:
                self.rollback(mark)
                self.ctr = ctr
                if i == n - 1 or nc.esc == 2:
                    raise
                idx = i
                return self.fork(nc, lambda: self.exec_block(stmts, env, idx))
            if k.tag != "N":
                return k
            i += 1
        return NORMAL

    def exec_stmt(self, s, env):
        mark = len(self.journal)
        ctr = self.ctr
        try:
            return self._exec(s, env)
        except NeedChoice as nc:
            self.rollback(mark)
            self.ctr = ctr
            if nc.esc and type(s) not in (ast.Try, ast.With):
                raise
            return self.fork(nc, lambda: self.exec_stmt(s, env))

    def _exec(self, s, env):
        self.steps += 1
        if self.steps > self.maxsteps:
            raise Budget("step budget exhausted")
        if self.deadline and (self.steps & 1023) == 0 and time.time() > self.deadline:
            raise Budget("time budget exhausted")
        self.line = s.lineno
        m = getattr(self, "x_" + type(s).__name__, None)
        if m is None:
            raise Unsupported("statement %s at %s" % (type(s).__name__, self.where()))
        return m(s, env) or NORMAL

    def x_Expr(self, s, env):
        if isinstance(s.value, ast.Constant):
            return NORMAL
        if isinstance(s.value, ast.Yield) and env.at_yield is not None:
            k = env.at_yield(self.ev(s.value.value, env) if s.value.value is not None else None)
            return NORMAL if k.tag == "N" else Kind("R", Wrap("left", k))
        self.ev(s.value, env)

    def x_Pass(self, s, env):
        pass

    def x_Break(self, s, env):
        return BREAK

    def x_Continue(self, s, env):
        return CONTINUE

    def x_Return(self, s, env):
        return Kind("R", self.ev(s.value, env) if s.value is not None else None)

    def x_Assign(self, s, env):
        v = self.ev(s.value, env)
        for t in s.targets:
            self.assign(t, v, env)

    def x_AnnAssign(self, s, env):
        if env.isclass and isinstance(s.target, ast.Name):
            try:
                ann = self.ev(s.annotation, env)
            except PyRaise:
                ann = Top("annotation")
            h = self.heap[env.frame]
            d = dict(h.data)
            an = dict(d.get("#ann", {}))
            an[s.target.id] = ann
            d["#ann"] = an
            self.set(env.frame, h.with_data(d))
        if s.value is not None:
            self.assign(s.target, self.ev(s.value, env), env)

    def x_AugAssign(self, s, env):
        t = s.target
        if isinstance(t, ast.Name):
            cur = self.load_name(t.id, env)
            store = lambda v: self.assign(t, v, env)
        elif isinstance(t, ast.Attribute):
            o = self.force(self.ev(t.value, env))
            cur = self.getattr_(o, t.attr)
            store = lambda v: self.setattr_(o, t.attr, v)
        else:
            o = self.force(self.ev(t.value, env))
            i = self.ev_slice(t.slice, env)
            cur = self.getitem(o, i)
            store = lambda v: self.setitem(o, i, v)
        rhs = self.ev(s.value, env)
        cur = self.force_container(cur)
        if isinstance(cur, Ref) and self.get(cur.a).kind in ("list", "set", "dict"):
            k = self.get(cur.a).kind
            if k == "list" and isinstance(s.op, ast.Add):
                self.lib.list_extend(self, cur, rhs)
                store(cur)
                return
            if k == "dict" and isinstance(s.op, ast.BitOr):
                self.lib.dict_update(self, cur, rhs)
                store(cur)
                return
        store(self.binop(s.op, cur, rhs))

    def force_container(self, v):
        return self.force(v)

    def x_Delete(self, s, env):
        for t in s.targets:
            if isinstance(t, ast.Name):
                self.store_name(t.id, UNBOUND, env)
            elif isinstance(t, ast.Subscript):
                o = self.force(self.ev(t.value, env))
                self.delitem(o, self.ev_slice(t.slice, env))
            elif isinstance(t, ast.Attribute):
                o = self.force(self.ev(t.value, env))
                self.delattr_(o, t.attr)
            else:
                raise Unsupported("del target")

    def x_If(self, s, env):
        c = self.truth(self.ev(s.test, env))
        return self.exec_block(s.body if c else s.orelse, env)

    def x_While(self, s, env):
        return self._while(s, env, 0)

    def _while(self, s, env, it):
        while True:
            it += 1
            if it > 100000:
                raise Unsupported("while loop does not terminate within the iteration bound at %s" % self.where())
            mark = len(self.journal)
            ctr = self.ctr

            def step():
                if not self.truth(self.ev(s.test, env)):
                    return Kind("E")
                k = self.exec_block(s.body, env)
                return NORMAL if k.tag == "C" else k
            try:
                k = step()
            except NeedChoice as nc:
                self.rollback(mark)
                self.ctr = ctr
                if it > 400:
                    raise Unsupported("while loop with undetermined exit at %s" % self.where())
                if nc.esc == 2:
                    raise
                try:
                    k = self.fork(nc, lambda: self._forkall(step))
                except NeedChoice as n2:
                    self.rollback(mark)
                    self.ctr = ctr
                    if n2.esc == 2:
                        raise
                    n = it
                    return self.fork(n2, lambda: self._while(s, env, n))
            if k.tag == "E":
                return self.exec_block(s.orelse, env)
            if k.tag == "B":
                return NORMAL
            if k.tag == "R":
                return k

    def x_For(self, s, env):
        it = self.ev(s.iter, env)
        orelse = (lambda: self.exec_block(s.orelse, env)) if s.orelse else None

        def body(v):
            self.assign(s.target, v, env)
            return self.exec_block(s.body, env)
        shared = self.shared_iterator(it, s.iter, s.body)
        if shared is not None:
            return self._iter_loop(shared, body, orelse)
        items = self.iter_items(it, consume=True)
        src = self.iter_source(it)
        if src is not None:
            return self._live_loop(src, 0, body, orelse)
        return self.loop(items, body, orelse)

    def shared_iterator(self, it, expr, body):
        """(address, plain name?) of an iterator that others may advance while it is looped
        over, or read after the loop"""
        it = self.res(it)
        if type(it) is Choice:
            it = self.force(it)
        if not (isinstance(it, Ref) and self.get(it.a).kind == "iter"):
            return None
        if self.get(it.a).cls in self.lib.ENDLESS:
            return it.a, True
        if isinstance(expr, ast.NamedExpr):
            expr = expr.target
        if isinstance(expr, ast.Name):
            used = any(isinstance(n, ast.Name) and n.id == expr.id for b in body for n in ast.walk(b))
            return it.a, used
        if isinstance(expr, (ast.Attribute, ast.Subscript)):
            return it.a, False
        return None

    def _iter_loop(self, src, body, orelse, n=0):
        a, used = src
        while True:
            h = self.get(a)
            n += 1
            if n > 2000:
                raise Unsupported("endless loop")
            if h.cls not in self.lib.ENDLESS:
                data = self.resolve_items(h.data)
                if not data:
                    return orelse() if orelse else NORMAL
                if not used and any(type(x) in (Star, Alt) for x in data):
                    # all of it: nothing else advances the iterator
                    self.set(a, h.with_data(()))

                    def last(v):
                        k = body(v)
                        if k.tag == "B":
                            self.set(a, H("iter", "spent", ()))
                        return k
                    return self._loop(tuple(data), 0, last, orelse)
            mark = len(self.journal)
            ctr = self.ctr

            def step():
                try:
                    v = self.lib.b_next(self, [Ref(a)], {})
                except PyRaise as e:
                    if self.exc_matches(e.value, self.builtins["StopIteration"]):
                        return None
                    raise
                return body(v)
            try:
                k = step()
            except NeedChoice as nc:
                self.rollback(mark)
                self.ctr = ctr
                if nc.esc == 2:
                    raise
                try:
                    def th():
                        k = step()
                        if k is None:
                            raise _Again()
                        return NORMAL if k.tag == "C" else k
                    k = self.fork(nc, th)
                except (NeedChoice, _Again) as n2:
                    self.rollback(mark)
                    self.ctr = ctr
                    if isinstance(n2, _Again):
                        n2 = nc
                    if n2.esc == 2:
                        raise
                    m = n
                    return self.fork(n2, lambda: self._iter_loop(src, body, orelse, m))
            if k is None:
                return orelse() if orelse else NORMAL
            if k.tag == "R":
                return k
            if k.tag == "B":
                return NORMAL
        return NORMAL

    def iter_source(self, it):
        """lists iterated directly are iterated live (they may be mutated by the body)"""
        it = self.res(it)
        if isinstance(it, Ref) and self.get(it.a).kind == "list":
            if not any(type(i) in (Star, Alt) for i in self.get(it.a).data):
                return it.a
        return None

    def _live_loop(self, a, i, body, orelse):
        while True:
            data = self.resolve_items(self.get(a).data)
            if any(type(x) in (Star, Alt) for x in data):
                return self._loop(tuple(data), i, body, orelse)
            if i >= len(data):
                break
            it = data[i]
            mark = len(self.journal)
            ctr = self.ctr
            try:
                k = body(it)
            except NeedChoice as nc:
                self.rollback(mark)
                self.ctr = ctr
                if nc.esc == 2:
                    raise
                try:
                    def th():
                        k = body(it)
                        return NORMAL if k.tag == "C" else k
                    k = self.fork(nc, th)
                except NeedChoice as n2:
                    self.rollback(mark)
                    self.ctr = ctr
                    if n2.esc == 2:
                        raise
                    idx = i
                    return self.fork(n2, lambda: self._live_loop(a, idx, body, orelse))
            if k.tag == "R":
                return k
            if k.tag == "B":
                return NORMAL
            i += 1
        return orelse() if orelse else NORMAL

    def x_With(self, s, env):
        return self._with(s, env, 0)

    def _with_generator(self, s, env, i, cm):
        """the body of the with statement runs where the generator function yields"""
        item = s.items[i]

        def body(v):
            if item.optional_vars is not None:
                self.assign(item.optional_vars, v, env)
            return self._with(s, env, i + 1)
        r = self.force(self.call_function(cm.v, list(cm.extra[0]), dict(cm.extra[1]), at_yield=body))
        return r.v if isinstance(r, Wrap) and r.kind == "left" else NORMAL

    def _with(self, s, env, i):
        if i == len(s.items):
            return self.exec_block(s.body, env)
        item = s.items[i]
        cm = self.force(self.ev(item.context_expr, env))
        if isinstance(cm, Wrap) and cm.kind == "gencm-call":
            return self._with_generator(s, env, i, cm)
        enter = self.getattr_(cm, "__enter__")
        exit_ = self.getattr_(cm, "__exit__")
        v = self.call(enter, [], {})
        if item.optional_vars is not None:
            self.assign(item.optional_vars, v, env)
        try:
            k = self._with(s, env, i + 1)
        except PyRaise as e:
            r = self.call(exit_, [self.type_of(e.value), e.value, None], {})
            if self.truth(r):
                return NORMAL
            raise
        self.call(exit_, [None, None, None], {})
        return k

    def x_Raise(self, s, env):
        if s.exc is None:
            cur = env.lookup_exc()
            if cur is None:
                self.raise_("RuntimeError", "No active exception to reraise")
            raise PyRaise(cur, self.where())
        v = self.force(self.ev(s.exc, env))
        if isinstance(v, (BT, XC)) or (isinstance(v, Ref) and self.get(v.a).kind == "class"):
            v = self.call(v, [], {})
        cause = self.ev(s.cause, env) if s.cause is not None else None
        if cause is not None and isinstance(v, Ref) and self.get(v.a).kind == "obj":
            self.set(v.a, self.get(v.a).with_data(dict(self.get(v.a).data, __cause__=cause)))
        if isinstance(v, Top):
            v = self.make_exc(self.builtins["Exception"], ())
        raise PyRaise(v, self.where())

    def x_Assert(self, s, env):
        if not self.truth(self.ev(s.test, env)):
            self.raise_("AssertionError", "")

    def x_Try(self, s, env):
        try:
            k = self._try_inner(s, env)
        except PyRaise:
            if s.finalbody:
                k2 = self.exec_block(s.finalbody, env)
                if k2.tag != "N":
                    return k2
            raise
        if s.finalbody:
            k2 = self.exec_block(s.finalbody, env)
            if k2.tag != "N":
                return k2
        return k

    def _try_inner(self, s, env):
        try:
            k = self.exec_block(s.body, env)
        except PyRaise as e:
            for h in s.handlers:
                if h.type is None or self.exc_matches(e.value, self.ev(h.type, env)):
                    env.push_exc(e.value)
                    try:
                        if h.name:
                            self.store_name(h.name, e.value, env)
                        k = self.exec_block(h.body, env)
                        if h.name:
                            self.store_name(h.name, UNBOUND, env)
                        return k
                    finally:
                        env.pop_exc()
            raise
        if k.tag == "N" and s.orelse:
            return self.exec_block(s.orelse, env)
        return k

    def exc_matches(self, exc, types):
        types = self.force(types)
        ts = [self.force(t) for t in types.items] if isinstance(types, Tup) else [types]
        c = self.type_of(exc)
        for t in ts:
            if isinstance(t, Top) or isinstance(c, Top):
                if self.anon("excmatch"):
                    return True
                continue
            if self.is_subclass(c, t):
                return True
        return False

    def x_Global(self, s, env):
        pass

    x_Nonlocal = x_Global

    def x_Import(self, s, env):
        for a in s.names:
            m = self.import_module(a.name)
            if a.asname:
                self.store_name(a.asname, m, env)
            else:
                top = a.name.split(".")[0]
                self.store_name(top, self.import_module(top), env)

    def x_ImportFrom(self, s, env):
        mod = s.module or ""
        if s.level:
            pkg = self.get(env.globals).data.get("__package__", "")
            for _ in range(s.level - 1):
                pkg = pkg.rpartition(".")[0]
            mod = pkg + ("." + mod if mod else "")
        if mod == "__future__":
            return
        m = self.import_module(mod)
        for a in s.names:
            if a.name == "*":
                if isinstance(m, XMod):
                    raise Unsupported("star import of external module %s" % mod)
                fr = self.get(self.get(m.a).data["frame"]).data
                names = fr.get("__all__")
                if isinstance(names, Ref):
                    names = [x for x in self.get(names.a).data]
                else:
                    names = [n for n in fr if not n.startswith("_")]
                for n in names:
                    self.store_name(n, fr[n], env)
                continue
            self.store_name(a.asname or a.name, self.mod_attr(m, a.name), env)

    def x_FunctionDef(self, s, env):
        f = self.make_function(s, env, s.name)
        v = f
        for d in reversed(s.decorator_list):
            dv = self.ev(d, env)
            v = self.call(dv, [v], {})
        self.store_name(s.name, v, env)

    def scope(self, node):
        r = self.scope_cache.get(id(node))
        if r is None:
            lf = LocalFinder()
            body = node.body if isinstance(node.body, list) else [node.body]
            for b in body:
                lf.visit(b)
            args = node.args
            for a in args.posonlyargs + args.args + args.kwonlyargs:
                lf.names.add(a.arg)
            if args.vararg:
                lf.names.add(args.vararg.arg)
            if args.kwarg:
                lf.names.add(args.kwarg.arg)
            lf.names -= lf.glob | lf.nonl
            r = self.scope_cache[id(node)] = (frozenset(lf.names), frozenset(lf.glob), frozenset(lf.nonl),
                                              lf.nested, lf.gen, node)
        return r

    def make_function(self, node, env, name):
        f = FuncV()
        f.node = node
        f.name = name
        f.qual = (env.qual + "." if env.qual else "") + name
        f.frame = env.closure_env()
        f.module = env
        f.defaults = [self.ev(d, env) for d in node.args.defaults]
        f.kwdefaults = [self.ev(d, env) if d is not None else UNBOUND for d in node.args.kw_defaults]
        loc, glob, nonl, nested, gen, _ = self.scope(node)
        f.locals_ = loc
        f.globals_ = glob
        f.nonlocals_ = nonl
        f.keepframe = nested
        f.isgen = gen
        f.cls = None
        f.memo = None
        return f

    def x_ClassDef(self, s, env):
        bases = [self.force(self.ev(b, env)) for b in s.bases]
        bases = [self.builtins["object"] if isinstance(b, GAlias) else b for b in bases]
        fr = self.alloc(H("frame", None, {"__module__": env.modname,
                                          "__qualname__": (env.qual + "." if env.qual else "") + s.name}))
        cenv = Env(fr, env, env.globals, env.modname, env.file, isclass=True, qual=(env.qual + "." if env.qual else "") + s.name)
        self.exec_block(s.body, cenv)
        ns = dict(self.heap[fr].data)
        ann = ns.pop("#ann", {})
        if ann:
            ns["__annotations__"] = self.new(H("dict", None, dict(ann)))
        c = self.lib.make_class(self, s.name, bases, ns, ann, {kw.arg: self.ev(kw.value, env) for kw in s.keywords})
        for n, v in ns.items():
            if isinstance(v, FuncV):
                v.cls = c
            elif isinstance(v, Wrap) and isinstance(v.v, FuncV):
                v.v.cls = c
        v = c
        for d in reversed(s.decorator_list):
            v = self.call(self.ev(d, env), [v], {})
        self.store_name(s.name, v, env)

    def x_Match(self, s, env):
        subj = self.ev(s.subject, env)
        for c in s.cases:
            if self.match_pat(c.pattern, subj, env):
                if c.guard is None or self.truth(self.ev(c.guard, env)):
                    return self.exec_block(c.body, env)
        return NORMAL

    def match_pat(self, p, v, env):
        if isinstance(p, ast.MatchValue):
            return self.truth(self.compare(ast.Eq(), v, self.ev(p.value, env)))
        if isinstance(p, ast.MatchSingleton):
            return self.truth(self.compare(ast.Is(), v, p.value))
        if isinstance(p, ast.MatchAs):
            if p.pattern is not None and not self.match_pat(p.pattern, v, env):
                return False
            if p.name:
                self.store_name(p.name, v, env)
            return True
        if isinstance(p, ast.MatchOr):
            return any(self.match_pat(x, v, env) for x in p.patterns)
        if isinstance(p, ast.MatchClass):
            c = self.ev(p.cls, env)
            v = self.force(v)
            if not self.isinstance_(v, c):
                return False
            if p.patterns:
                if len(p.patterns) == 1 and isinstance(c, BT):
                    if not self.match_pat(p.patterns[0], v, env):
                        return False
                else:
                    names = self.getattr_(c, "__match_args__", default=None)
                    names = [self.force(n) for n in self.definite(self.iter_items(names))] if names is not None else []
                    if len(names) < len(p.patterns):
                        self.raise_("TypeError", "%s() accepts %d positional sub-patterns" % (self.lib.cls_name(self, c), len(names)))
                    for n, q in zip(names, p.patterns):
                        a = self.getattr_(v, n, default=ABSENT)
                        if a is ABSENT or not self.match_pat(q, a, env):
                            return False
            for n, q in zip(p.kwd_attrs, p.kwd_patterns):
                a = self.getattr_(v, n, default=ABSENT)
                if a is ABSENT or not self.match_pat(q, a, env):
                    return False
            return True
        if isinstance(p, ast.MatchSequence):
            v = self.force(v)
            if isinstance(v, (str, bytes, AStr)) or not (isinstance(v, Tup) or (isinstance(v, Ref) and self.get(v.a).kind == "list")):
                return False
            items = self.definite(self.iter_items(v))
            if items is None:
                raise Unsupported("sequence pattern on unbounded list")
            star = [i for i, q in enumerate(p.patterns) if isinstance(q, ast.MatchStar)]
            if not star:
                return len(items) == len(p.patterns) and all(
                    self.match_pat(q, x, env) for q, x in zip(p.patterns, items))
            k = star[0]
            after = len(p.patterns) - k - 1
            if len(items) < k + after:
                return False
            if not all(self.match_pat(q, x, env) for q, x in zip(p.patterns[:k], items)):
                return False
            if p.patterns[k].name:
                self.store_name(p.patterns[k].name, self.mklist(items[k:len(items) - after]), env)
            return all(self.match_pat(q, x, env) for q, x in zip(p.patterns[k + 1:], items[len(items) - after:]))
        if isinstance(p, ast.MatchMapping):
            v = self.force(v)
            if isinstance(v, VarsView):
                pass
            elif not (isinstance(v, Ref) and self.get(v.a).kind == "dict"):
                return False
            keys = [self.ev(k, env) for k in p.keys]
            for k, q in zip(keys, p.patterns):
                if not self.contains(v, k) or not self.match_pat(q, self.getitem(v, k), env):
                    return False
            if p.rest:
                r = self.mkdict()
                for k, x in self.lib.dict_items(self, v):
                    if not any(self.equals(k, j) for j in keys):
                        self.setitem(r, k, x)
                self.store_name(p.rest, r, env)
            return True
        raise Unsupported("pattern %s" % type(p).__name__)

    # ------------------------------------------------------------------ names
    def load_name(self, n, env):
        e = env
        first = True
        while e is not None:
            if first or not e.isclass:
                if not (e.func and n in e.func.globals_):
                    h = self.heap.get(e.frame)
                    if h is not None:
                        v = h.data.get(n, None) if n in h.data else UNBOUND
                        if v is not UNBOUND and type(v) is Choice:
                            v = self.res(v)
                        if v is not UNBOUND:
                            if type(v) is Choice and any(x is UNBOUND for x in v.br.values()):
                                v = self.force(v)
                                if v is UNBOUND:
                                    self.raise_("UnboundLocalError", n)
                            return v
                        if e.func and n in e.func.locals_:
                            self.raise_("UnboundLocalError", n)
                else:
                    e = None
                    break
            first = False
            e = e.parent
        h = self.heap[env.globals]
        if n in h.data and h.data[n] is not UNBOUND:
            return self.res(h.data[n])
        if n in self.builtins:
            if n == "__debug__":
                self.emit("env", "__debug__")
            return self.builtins[n]
        self.raise_("NameError", n)

    def store_name(self, n, v, env):
        if env.func is not None:
            if n in env.func.globals_:
                self.setvar(env.globals, n, v)
                return
            if n in env.func.nonlocals_:
                e = env.parent
                while e is not None:
                    if not e.isclass and n in self.heap[e.frame].data:
                        self.setvar(e.frame, n, v)
                        return
                    e = e.parent
        if env.comp and env.comp_store and n not in env.comp_store:
            # walrus inside comprehension
            self.store_name(n, v, env.parent)
            return
        self.setvar(env.frame, n, v)

    def assign(self, t, v, env):
        if isinstance(t, ast.Name):
            self.store_name(t.id, v, env)
        elif isinstance(t, ast.Attribute):
            self.setattr_(self.force(self.ev(t.value, env)), t.attr, v)
        elif isinstance(t, ast.Subscript):
            self.setitem(self.force(self.ev(t.value, env)), self.ev_slice(t.slice, env), v)
        elif isinstance(t, (ast.Tuple, ast.List)):
            v = self.force(v)
            if isinstance(v, Top):
                for e in t.elts:
                    self.assign(e.value if isinstance(e, ast.Starred) else e, Top("unpack"), env)
                return
            items = self.definite(self.iter_items(v))
            if items is None:
                raise Unsupported("unpacking content of unknown length at %s" % self.where())
            star = [i for i, e in enumerate(t.elts) if isinstance(e, ast.Starred)]
            if not star:
                if len(items) != len(t.elts):
                    self.raise_("ValueError", "unpack: expected %d got %d" % (len(t.elts), len(items)))
                for e, x in zip(t.elts, items):
                    self.assign(e, x, env)
            else:
                k = star[0]
                after = len(t.elts) - k - 1
                if len(items) < k + after:
                    self.raise_("ValueError", "unpack")
                for e, x in zip(t.elts[:k], items):
                    self.assign(e, x, env)
                self.assign(t.elts[k].value, self.mklist(items[k:len(items) - after]), env)
                for e, x in zip(t.elts[k + 1:], items[len(items) - after:]):
                    self.assign(e, x, env)
        else:
            raise Unsupported("assignment target %s" % type(t).__name__)

    def mklist(self, items=()):
        return self.new(H("list", None, tuple(items)))

    def mkdict(self, d=None):
        return self.new(H("dict", None, dict(d or {})))

    # ------------------------------------------------------------------ expressions
    def ev(self, e, env):
        self.steps += 1
        m = getattr(self, "e_" + type(e).__name__, None)
        if m is None:
            raise Unsupported("expression %s at %s" % (type(e).__name__, self.where()))
        return m(e, env)

    def e_Constant(self, e, env):
        return e.value

    def e_Name(self, e, env):
        return self.load_name(e.id, env)

    def e_Attribute(self, e, env):
        o = self.ev(e.value, env)
        o = self.res(o)
        if type(o) is Choice:
            return self.local(lambda: self.getattr_(self.force(o), e.attr))
        return self.getattr_(o, e.attr)

    def e_Tuple(self, e, env):
        return Tup(self.ev_elts(e.elts, env))

    def e_List(self, e, env):
        return self.mklist(self.ev_elts(e.elts, env))

    def e_Set(self, e, env):
        r = self.new(H("set", None, ()))
        for v in self.ev_elts(e.elts, env):
            self.lib.set_add(self, r, v)
        return r

    def ev_elts(self, elts, env):
        out = []
        for x in elts:
            if isinstance(x, ast.Starred):
                out.extend(self.iter_items(self.ev(x.value, env), consume=True))
            else:
                out.append(self.ev(x, env))
        return out

    def e_Dict(self, e, env):
        r = self.mkdict()
        for k, v in zip(e.keys, e.values):
            if k is None:
                self.lib.dict_update(self, r, self.ev(v, env))
            else:
                kk = self.ev(k, env)
                self.setitem(r, kk, self.ev(v, env))
        return r

    def e_IfExp(self, e, env):
        def th():
            return self.ev(e.body if self.truth(self.ev(e.test, env)) else e.orelse, env)
        return self.local(th)

    def e_BoolOp(self, e, env):
        isand = isinstance(e.op, ast.And)

        def th():
            v = None
            for i, x in enumerate(e.values):
                v = self.ev(x, env)
                if i == len(e.values) - 1:
                    return v
                t = self.truth(v)
                if t != isand:
                    return self.force(v)
            return v
        return self.local(th)

    def e_UnaryOp(self, e, env):
        def th():
            v = self.ev(e.operand, env)
            if isinstance(e.op, ast.Not):
                return not self.truth(v)
            v = self.force(v)
            if isinstance(v, (int, float, Decimal)):
                return -v if isinstance(e.op, ast.USub) else +v if isinstance(e.op, ast.UAdd) else ~v
            if isinstance(v, (AInt, ALin)) and isinstance(e.op, ast.USub):
                return strs.add(0, v, -1)
            if isinstance(v, ADec):
                if isinstance(e.op, ast.USub):
                    return ADec(Atom(("neg", v.atom.name), v.atom.only, minlen=1, kind="num", edge=True))
                return ADec(Atom(("ctxround", v.atom.name), v.atom.only, minlen=1, kind="num", edge=True))
            return Top("unary")
        return self.local(th)

    def e_BinOp(self, e, env):
        l = self.ev(e.left, env)
        r = self.ev(e.right, env)
        if type(self.res(l)) is Choice or type(self.res(r)) is Choice:
            return self.local(lambda: self.binop(e.op, l, r))
        return self.binop(e.op, l, r)

    def e_Compare(self, e, env):
        l = self.ev(e.left, env)
        if len(e.ops) == 1:
            r = self.ev(e.comparators[0], env)
            return self.compare(e.ops[0], l, r)
        res = True
        for op, c in zip(e.ops, e.comparators):
            r = self.ev(c, env)
            res = self.compare(op, l, r)
            if not self.truth(res):
                return False
            l = r
        return res

    def e_Call(self, e, env):
        # super() without arguments
        if isinstance(e.func, ast.Name) and e.func.id == "super" and not e.args and "super" not in self.heap[env.frame].data:
            return self.lib.make_super(self, env)
        if isinstance(e.func, ast.Name) and e.func.id in ("locals",) and not e.args:
            return self.mkdict({k: v for k, v in self.heap[env.frame].data.items()})
        if isinstance(e.func, ast.Name) and e.func.id in ("globals",) and not e.args:
            return VarsView(env.globals)
        f = self.ev(e.func, env)
        args = self.ev_elts(e.args, env)
        kwargs = {}
        for k in e.keywords:
            if k.arg is None:
                d = self.force(self.ev(k.value, env))
                for kk, vv in self.lib.dict_items(self, d):
                    kwargs[kk] = vv
            else:
                kwargs[k.arg] = self.ev(k.value, env)
        ln = self.line
        self.line = e.lineno
        r = self.call(f, args, kwargs)
        self.line = ln
        return r

    def e_Lambda(self, e, env):
        return self.make_function(e, env, "<lambda>")

    def e_JoinedStr(self, e, env):
        out = []
        for p in e.values:
            if isinstance(p, ast.Constant):
                out.append(p.value)
            else:
                out.append(self.e_FormattedValue(p, env))
        vals = out

        def th():
            segs = []
            for v in vals:
                v = self.force(v)
                if isinstance(v, Top):
                    return Top("fstring")
                segs.extend(strs.segs_of(v))
            return strs.mk(segs)
        return self.local(th)

    def e_FormattedValue(self, e, env):
        v = self.ev(e.value, env)
        spec = self.ev(e.format_spec, env) if e.format_spec else ""

        def th():
            x = self.force(v)
            if e.conversion == ord("s"):
                x = self.lib.str_of(self, x)
            elif e.conversion == ord("r"):
                x = self.lib.repr_of(self, x)
            elif e.conversion == ord("a"):
                x = self.lib.repr_of(self, x)
            return self.lib.format_of(self, x, self.force(spec))
        return self.local(th)

    def e_NamedExpr(self, e, env):
        v = self.ev(e.value, env)
        self.store_name(e.target.id, v, env)
        return v

    def e_Starred(self, e, env):
        raise Unsupported("starred expression")

    def e_Subscript(self, e, env):
        o = self.ev(e.value, env)
        i = self.ev_slice(e.slice, env)
        o2, i2 = self.res(o), self.res(i)
        if type(o2) is Choice or type(i2) is Choice:
            return self.local(lambda: self.getitem(self.force(o2), self.force(i2)))
        return self.local(lambda: self.getitem(o2, i2))

    def ev_slice(self, s, env):
        if isinstance(s, ast.Slice):
            return SliceV(*[self.force(self.ev(x, env)) if x is not None else None for x in (s.lower, s.upper, s.step)])
        return self.ev(s, env)

    def e_Slice(self, e, env):
        return self.ev_slice(e, env)

    # comprehensions
    def comp(self, e, env, emit):
        targets = set()
        for g in e.generators:
            for n in ast.walk(g.target):
                if isinstance(n, ast.Name):
                    targets.add(n.id)
        fr = self.alloc(H("frame", None, {}))
        cenv = Env(fr, env, env.globals, env.modname, env.file, func=None, comp=True, qual=env.qual)
        cenv.comp_store = targets
        cenv.real = env

        def run(gi):
            if gi == len(e.generators):
                emit(cenv)
                return NORMAL
            g = e.generators[gi]
            it = self.ev(g.iter, env if gi == 0 else cenv)

            def body(v):
                self.assign(g.target, v, cenv)
                for c in g.ifs:
                    if not self.truth(self.ev(c, cenv)):
                        return NORMAL
                return run(gi + 1)
            if isinstance(g.iter, ast.Name):
                shared = self.shared_iterator(it, g.iter, [e])
                if shared is not None and sum(isinstance(n, ast.Name) and n.id == g.iter.id for n in ast.walk(e)) > 1:
                    return self._iter_loop(shared, body, None)
            items = self.iter_items(it, consume=True)
            return self.loop(items, body)
        run(0)
        if not any(isinstance(n, (ast.Lambda,)) for n in ast.walk(e)):
            self.free(fr)

    def e_ListComp(self, e, env):
        r = self.mklist()

        def emit(c):
            v = self.ev(e.elt, c)
            h = self.heap[r.a]
            self.set(r.a, h.with_data(h.data + (v,)))
        self.comp(e, env, emit)
        return r

    def e_SetComp(self, e, env):
        r = self.new(H("set", None, ()))
        self.comp(e, env, lambda c: self.lib.set_add(self, r, self.ev(e.elt, c)))
        return r

    def e_DictComp(self, e, env):
        r = self.mkdict()

        def emit(c):
            k = self.ev(e.key, c)
            self.setitem(r, k, self.ev(e.value, c))
        self.comp(e, env, emit)
        return r

    def e_GeneratorExp(self, e, env):
        l = self.e_ListComp(e, env)
        items = self.heap[l.a].data
        self.free(l.a)
        return self.new(H("iter", "generator", items))

    def e_Yield(self, e, env):
        v = self.ev(e.value, env) if e.value is not None else None
        fe = env
        while fe is not None and fe.yields is None:
            fe = fe.parent
        if fe is None:
            raise Unsupported("yield outside function")
        h = self.heap[fe.yields]
        if len(h.data) > 2000:
            raise Unsupported("generator without an end in sight")
        self.set(fe.yields, h.with_data(h.data + (v,)))
        return None

    def e_YieldFrom(self, e, env):
        items = self.iter_items(self.ev(e.value, env), consume=True)
        fe = env
        while fe is not None and fe.yields is None:
            fe = fe.parent
        h = self.heap[fe.yields]
        self.set(fe.yields, h.with_data(h.data + tuple(items)))
        return None

    # ------------------------------------------------------------------ operators
    def truth(self, v):
        v = self.force(v)
        if v is None or isinstance(v, (bool, int, float, str, bytes, Decimal)):
            return bool(v)
        if isinstance(v, AStr):
            segs = v.segs
            unk = []
            for s in segs:
                if isinstance(s, str):
                    return True
                if isinstance(s, Atom):
                    if s.minlen > 0:
                        return True
                    unk.append(s)
                else:
                    return self.choose(("truthyseg", repr(s)), (True, False))
            for s in unk:
                if self.choose(("truthy", s.name), (True, False)):
                    return True
            return False
        if isinstance(v, ADec):
            return self.choose(("nonzero", v.atom.name), (True, False))
        if isinstance(v, AFloat):
            return self.choose(("nonzero", repr(v.src)), (True, False))
        if isinstance(v, (ALin, AInt)):
            lo, hi = v.lo(), v.hi()
            if (lo is not None and lo > 0) or (hi is not None and hi < 0):
                return True
            return self.choose(("nonzero", repr(v)), (True, False))
        if isinstance(v, Tup):
            return self.nonempty(v.items, None)
        if isinstance(v, Ref):
            h = self.get(v.a)
            if h.kind in ("list", "set"):
                return self.nonempty(h.data, None)
            if h.kind == "dict":
                return self.lib.dict_len_truth(self, v)
            if h.kind == "obj":
                f = self.lookup_class_attr(h.cls, "__bool__")
                if f is not UNBOUND:
                    return self.truth(self.call(Bound(f, v) if isinstance(f, FuncV) else f, [], {}))
                f = self.lookup_class_attr(h.cls, "__len__")
                if f is not UNBOUND and isinstance(f, FuncV):
                    return self.truth(self.call(Bound(f, v), [], {}))
                r = self.lib.ext_truth(self, v, h)
                if r is not None:
                    return r
                return True
            if h.kind == "top":
                return self.anon("truth")
            return True
        if isinstance(v, VarsView):
            return bool(self.lib.vars_dict(self, v))
        if isinstance(v, Top):
            return self.anon("truth-top")
        return True

    def nonempty(self, items, key):
        items = self.resolve_items(items)
        if not items:
            return False
        for i in items:
            if type(i) is Alt:
                if all(self.static_nonempty(b) for b in i.br.values()):
                    return True
                raise NeedChoice(i.o, i.br.keys())
            if type(i) is Star:
                continue
            return True
        # only stars
        st = [i for i in items if type(i) is Star]
        if st and st[0].tag is not None:
            return self.choose(("nonempty", base_tag(st[0].tag)), (True, False))
        return self.anon("nonempty")

    def static_nonempty(self, items):
        for i in items:
            if type(i) is Alt:
                if all(self.static_nonempty(b) for b in i.br.values()):
                    return True
            elif type(i) is not Star:
                return True
        return False

    def binop(self, op, a, b):
        a, b = self.force(a), self.force(b)
        if isinstance(a, Top) or isinstance(b, Top):
            return Top("binop")
        HOST = (bool, int, float, str, bytes, Decimal)
        if isinstance(a, HOST) and isinstance(b, HOST):
            return self.host_binop(op, a, b)
        if isinstance(op, ast.Add):
            if isinstance(a, (str, bytes, AStr)) and isinstance(b, (str, bytes, AStr)):
                if strs.isb(a) != strs.isb(b):
                    self.raise_("TypeError", "concat")
                return strs.concat(a, b)
            if isinstance(a, Tup) and isinstance(b, Tup):
                return Tup(a.items + b.items)
            if isinstance(a, Ref) and isinstance(b, Ref) and self.get(a.a).kind == "list" and self.get(b.a).kind == "list":
                return self.mklist(self.get(a.a).data + self.get(b.a).data)
        if isinstance(op, (ast.Add, ast.Sub)) and isinstance(a, (int, AInt, ALin)) and isinstance(b, (int, AInt, ALin)):
            return strs.add(a, b, 1 if isinstance(op, ast.Add) else -1)
        if isinstance(op, ast.Mult):
            for x, y in ((a, b), (b, a)):
                if isinstance(x, Ref) and self.get(x.a).kind == "list" and isinstance(y, int):
                    return self.mklist(self.get(x.a).data * y)
                if isinstance(x, Tup) and isinstance(y, int):
                    return Tup(x.items * y)
                if isinstance(x, AStr) and isinstance(y, int):
                    return strs.mk(x.segs * y, x.b)
                if isinstance(x, str) and isinstance(y, (AInt, ALin)):
                    lo = y.lo() or 0
                    if len(set(x)) == 1:
                        return strs.mk([Atom(("rep", x, repr(y)), frozenset(x), minlen=max(0, lo),
                                             kind="ws" if x.isspace() else "text")])
        if isinstance(op, ast.Mod) and isinstance(a, (str, AStr)):
            return self.lib.percent_format(self, a, b)
        if isinstance(op, (ast.BitOr, ast.BitAnd, ast.Sub, ast.BitXor)):
            r = self.lib.set_binop(self, op, a, b)
            if r is not None:
                return r
            if isinstance(op, ast.BitOr):
                if isinstance(a, (BT, XC, GAlias, Ref)) or a is None:
                    return GAlias("Union", (a, b))
        if isinstance(a, (ADec, AFloat)) or isinstance(b, (ADec, AFloat)):
            name = (type(op).__name__, repr(a), repr(b))
            if isinstance(a, AFloat) or isinstance(b, AFloat):
                return AFloat(name)
            return ADec(Atom(name, NUMCHARS, minlen=1, kind="num", edge=True))
        if isinstance(a, (AInt, ALin)) or isinstance(b, (AInt, ALin)):
            return AInt(None, None)
        if isinstance(op, ast.Div) and isinstance(a, Ref):
            r = self.lib.path_div(self, a, b)
            if r is not None:
                return r
        for x, y, nm in ((a, b, "__%s__"), (b, a, "__r%s__")):
            if isinstance(x, Ref) and self.get(x.a).kind == "obj":
                f = self.lookup_class_attr(self.get(x.a).cls, nm % {
                    "Add": "add", "Sub": "sub", "Mult": "mul", "Div": "truediv", "BitOr": "or", "BitAnd": "and",
                    "Mod": "mod"}.get(type(op).__name__, "none"))
                if f is not UNBOUND:
                    return self.call(Bound(f, x), [y], {})
        if isinstance(a, Ref) and self.get(a.a).kind == "top":
            return Top("binop")
        self.raise_("TypeError", "unsupported operand types %r %s %r" % (a, type(op).__name__, b))

    def host_binop(self, op, a, b):
        import operator as o
        t = {ast.Add: o.add, ast.Sub: o.sub, ast.Mult: o.mul, ast.Div: o.truediv, ast.FloorDiv: o.floordiv,
             ast.Mod: o.mod, ast.Pow: o.pow, ast.LShift: o.lshift, ast.RShift: o.rshift, ast.BitOr: o.or_,
             ast.BitAnd: o.and_, ast.BitXor: o.xor}.get(type(op))
        try:
            return t(a, b)
        except TypeError as ex:
            self.raise_("TypeError", str(ex))
        except ZeroDivisionError as ex:
            self.raise_("ZeroDivisionError", str(ex))

    def compare(self, op, a, b):
        if isinstance(op, (ast.Is, ast.IsNot)):
            def th():
                r = self.is_(self.force(a), self.force(b))
                return r if isinstance(op, ast.Is) else not r
            return self.local(th)
        if isinstance(op, (ast.In, ast.NotIn)):
            def th():
                r = self.contains(self.force(b), a)
                return r if isinstance(op, ast.In) else not r
            return self.local(th)

        def th():
            x, y = self.force(a), self.force(b)
            if isinstance(op, (ast.Eq, ast.NotEq)):
                r = self.equals(x, y)
                return r if isinstance(op, ast.Eq) else not r
            return self.order(op, x, y)
        return self.local(th)

    def is_(self, a, b):
        if isinstance(a, Top) or isinstance(b, Top):
            if (a is None or b is None) and False:
                pass
            return self.anon("is")
        if isinstance(a, Ref) or isinstance(b, Ref):
            if isinstance(a, AEnum) or isinstance(b, AEnum):
                return self.equals(a, b)
            return isinstance(a, Ref) and isinstance(b, Ref) and a.a == b.a
        if isinstance(a, (BT, XC)) and isinstance(b, (BT, XC)):
            return a.name == b.name
        if a is None or b is None or isinstance(a, bool) or isinstance(b, bool):
            return a is b
        if isinstance(a, PRIM) and isinstance(b, PRIM):
            return type(a) is type(b) and a == b
        if isinstance(a, AStr) or isinstance(b, AStr):
            if a is b:
                return True
            return False if type(self.type_of(a)) is BT and not same(self.type_of(a), self.type_of(b)) else self.anon("is-str")
        return a is b or same(a, b)

    def equals(self, a, b):
        a, b = self.force(a), self.force(b)
        if isinstance(a, Top) or isinstance(b, Top):
            return self.anon("eq-top")
        S = (str, bytes, AStr)
        if isinstance(a, S) and isinstance(b, S):
            return strs.equals(self, a, b)
        N = (bool, int, float, Decimal)
        if isinstance(a, N) and isinstance(b, N):
            return a == b
        if isinstance(a, (int, AInt, ALin)) and isinstance(b, (int, AInt, ALin)):
            d = strs.add(a, b, -1)
            if isinstance(d, int):
                return d == 0
            lo, hi = d.lo(), d.hi()
            if (lo is not None and lo > 0) or (hi is not None and hi < 0):
                return False
            return self.choose(("eqint", repr(d)), (True, False))
        if isinstance(a, Tup) and isinstance(b, Tup):
            return self.eq_items(a.items, b.items)
        if isinstance(a, AEnum) or isinstance(b, AEnum):
            if same(a, b):
                return True
            x, y = (a, b) if isinstance(a, AEnum) else (b, a)
            if isinstance(y, Ref) and self.get(y.a).kind == "obj" and self.get(y.a).cls == x.cls:
                return self.choose(("eqenum", x.name, y.a), (False, True))
            if isinstance(y, AEnum) and y.cls == x.cls:
                return self.choose(("eqenum", x.name, y.name), (False, True))
            return False
        if isinstance(a, ADec) or isinstance(b, ADec):
            if same(a, b):
                return True
            if isinstance(a, (ADec, int, Decimal, float)) and isinstance(b, (ADec, int, Decimal, float)):
                for x, y in ((a, b), (b, a)):
                    if isinstance(x, ADec) and isinstance(y, (int, Decimal, float)) and y == 0:
                        return not self.choose(("nonzero", x.atom.name), (True, False))
                return self.choose(("eqdec", repr(a), repr(b)), (False, True))
            return False
        if isinstance(a, Ref) and isinstance(b, Ref):
            if a.a == b.a:
                return True
            ha, hb = self.get(a.a), self.get(b.a)
            if ha.kind != hb.kind:
                if "top" in (ha.kind, hb.kind):
                    return self.anon("eq")
                return False
            if ha.kind == "list":
                return self.eq_items(ha.data, hb.data)
            if ha.kind == "dict":
                if set(ha.data) != set(hb.data):
                    return False
                return all(self.equals(ha.data[k], hb.data[k]) for k in ha.data)
            if ha.kind == "set":
                x = self.definite(ha.data)
                y = self.definite(hb.data)
                if x is None or y is None:
                    return self.anon("eqset")
                return all(self.contains(b, i) for i in x) and all(self.contains(a, i) for i in y)
            if ha.kind == "obj" and isinstance(ha.cls, XC) and ha.cls.name == self.lib.PATH.name and same(ha.cls, hb.cls):
                p, q = ha.data["path"], hb.data["path"]
                if same(p, q):
                    return True
                if isinstance(p, str) and isinstance(q, str):
                    return p == q
                return self.choose(("eqpath", repr(p), repr(q)), (False, True))
            if ha.kind == "obj":
                f = self.lookup_class_attr(ha.cls, "__eq__")
                if isinstance(f, FuncV):
                    return self.truth(self.call(Bound(f, a), [b], {}))
                if self.is_enum_class(ha.cls):
                    return False
                if same(ha.cls, hb.cls) and self.lookup_class_attr(ha.cls, "__dataclass_fields__") is not UNBOUND:
                    flds = self.lib.dc_fields(self, ha.cls)
                    return all(self.equals(self.getattr_(a, n), self.getattr_(b, n)) for n in flds)
                return False
            return False
        if isinstance(a, VarsView) or isinstance(b, VarsView):
            raise Unsupported("comparison of vars()")
        if isinstance(a, (BT, XC)) and isinstance(b, (BT, XC)):
            return a.name == b.name
        return same(a, b)

    def eq_items(self, x, y):
        x, y = self.definite(x), self.definite(y)
        if x is None or y is None:
            if x is not None and y is None and len(x) == 0 or y is not None and x is None and len(y) == 0:
                return not self.nonempty(y if y is not None and x is None else (x or ()), None) if False else self.anon("eqlist")
            return self.anon("eqlist")
        if len(x) != len(y):
            return False
        return all(self.equals(p, q) for p, q in zip(x, y))

    def order(self, op, a, b):
        if isinstance(a, Top) or isinstance(b, Top):
            return self.anon("order-top")
        N = (bool, int, float, Decimal)
        S = (str, bytes)
        if (isinstance(a, N) and isinstance(b, N)) or (isinstance(a, S) and isinstance(b, S)):
            import operator as o
            return {ast.Lt: o.lt, ast.LtE: o.le, ast.Gt: o.gt, ast.GtE: o.ge}[type(op)](a, b)
        I = (int, AInt, ALin)
        if isinstance(a, I) and isinstance(b, I):
            d = strs.add(a, b, -1)
            lo = d if isinstance(d, int) else d.lo()
            hi = d if isinstance(d, int) else d.hi()
            if isinstance(op, ast.Lt):
                t, f = hi is not None and hi < 0, lo is not None and lo >= 0
            elif isinstance(op, ast.LtE):
                t, f = hi is not None and hi <= 0, lo is not None and lo > 0
            elif isinstance(op, ast.Gt):
                t, f = lo is not None and lo > 0, hi is not None and hi <= 0
            else:
                t, f = lo is not None and lo >= 0, hi is not None and hi < 0
            if t:
                return True
            if f:
                return False
            return self.choose(("ord", type(op).__name__, repr(d)), (True, False))
        if isinstance(a, (ADec, AFloat, AStr)) or isinstance(b, (ADec, AFloat, AStr)):
            return self.choose(("ord", type(op).__name__, repr(a), repr(b)), (True, False))
        if isinstance(a, Tup) and isinstance(b, Tup):
            for x, y in zip(a.items, b.items):
                x, y = self.force(x), self.force(y)
                if not self.equals(x, y):
                    return self.order(op, x, y)
            return self.order(op, len(a.items), len(b.items))
        r = self.lib.set_order(self, op, a, b)
        if r is not None:
            return r
        if isinstance(a, Ref) and isinstance(b, Ref) and self.get(a.a).kind == self.get(b.a).kind == "list":
            x, y = self.definite(self.get(a.a).data), self.definite(self.get(b.a).data)
            if x is None or y is None:
                raise Unsupported("ordering of lists of unknown length")
            return self.order(op, Tup(x), Tup(y))
        n, r = {ast.Lt: ("lt", "gt"), ast.Gt: ("gt", "lt"), ast.LtE: ("le", "ge"), ast.GtE: ("ge", "le")}[type(op)]
        for x, y, m in ((a, b, n), (b, a, r)):
            if isinstance(x, Ref) and self.get(x.a).kind == "obj":
                f = self.lookup_class_attr(self.get(x.a).cls, "__%s__" % m)
                if isinstance(f, FuncV):
                    return self.truth(self.call(Bound(f, x), [y], {}))
                if isinstance(self.get(x.a).cls, Ref) and self.get(self.get(x.a).cls.a).data.get("#order"):
                    raise Unsupported("ordering of dataclass objects")
        self.raise_("TypeError", "ordering of %r and %r" % (a, b))

    def less(self, a, b):
        return False if same(a, b) else self.order(ast.Lt(), self.force(a), self.force(b))

    def contains(self, c, v):
        c = self.force(c)
        if isinstance(c, (str, bytes, AStr)):
            v = self.force(v)
            if not isinstance(v, (str, bytes, AStr)):
                self.raise_("TypeError", "in <string>")
            return strs.contains(self, c, v)
        if isinstance(c, Top):
            return self.anon("in-top")
        if isinstance(c, VarsView):
            return self.lib.vars_contains(self, c, self.force(v))
        if isinstance(c, Ref):
            h = self.get(c.a)
            if h.kind == "dict":
                k = self.force(v)
                return self.lib.dict_lookup(self, c, k) is not ABSENT
            if h.kind == "obj":
                f = self.lookup_class_attr(h.cls, "__contains__")
                if isinstance(f, FuncV):
                    return self.truth(self.call(Bound(f, c), [v], {}))
            if h.kind == "class" and self.is_enum_class(c):
                v = self.force(v)
                t = self.type_of(v)
                if isinstance(t, Ref) and t.a == c.a:
                    return True
                return any(self.equals(self.get(m.a).data["_value_"], v) for m in h.data["#members"])
        items = self.resolve_items(self.iter_items(c, consume=True))
        if any(type(i) in (Alt, Star) for i in items):
            return self._contains_items(items, v)
        v = self.force(v)
        # definite answers first
        und = []
        for i in items:
            i = self.res(i)
            if type(i) is not Choice and same(i, v):
                return True
        for i in items:
            if self.equals(i, v):
                return True
        return False

    def _contains_items(self, items, v):
        v = self.force(v)
        for i in items:
            if type(i) is Alt:
                if i.o not in self.pc:
                    # irrelevant unless some branch may contain v
                    raise NeedChoice(i.o, i.br.keys())
                if self._contains_items(self.resolve_items(i.br[self.pc[i.o]]), v):
                    return True
            elif type(i) is Star:
                mark = len(self.journal)
                if any(self._maybe_equal(x, v) for x in i.items):
                    if self.anon("in-star"):
                        return True
            elif self.equals(i, v):
                return True
        return False

    def _maybe_equal(self, x, v):
        if type(x) in (Alt,):
            return any(self._maybe_equal(y, v) for b in x.br.values() for y in b)
        if type(x) is Star:
            return any(self._maybe_equal(y, v) for y in x.items)
        try:
            return self.equals(x, v)
        except NeedChoice:
            return True

    # ------------------------------------------------------------------ types
    def type_of(self, v):
        v = self.force(v)
        B = self.builtins
        if v is None:
            return self.lib.NONETYPE
        if isinstance(v, bool):
            return B["bool"]
        if isinstance(v, (int, AInt, ALin)):
            return B["int"]
        if isinstance(v, (float, AFloat)):
            return B["float"]
        if isinstance(v, (str,)):
            return B["str"]
        if isinstance(v, bytes):
            return B["bytes"]
        if isinstance(v, AStr):
            return B["bytes"] if v.b else B["str"]
        if isinstance(v, (Decimal, ADec)):
            return self.lib.DECIMAL
        if isinstance(v, AEnum):
            return v.cls
        if isinstance(v, Tup):
            return v.cls or B["tuple"]
        if isinstance(v, Ref):
            h = self.get(v.a)
            if h.kind == "obj":
                return self.force(h.cls)
            if h.kind in ("list", "dict", "set"):
                if h.cls is not None:
                    return h.cls
                return B[h.kind]
            if h.kind == "class":
                m = h.data.get("#metaclass")
                return m or (self.lib.ENUMMETA if "#members" in h.data else B["type"])
            if h.kind == "iter":
                return self.lib.ITERTYPE
            if h.kind == "module":
                return self.lib.MODTYPE
            return Top("type")
        if isinstance(v, (BT, XC, NTClass)):
            return B["type"]
        if isinstance(v, (FuncV, Bound, BF)):
            return self.lib.FUNCTYPE
        if isinstance(v, VarsView):
            return B["dict"]
        return Top("type")

    def mro(self, c):
        c = self.force(c)
        if isinstance(c, Ref):
            return self.get(c.a).data["#mro"]
        if isinstance(c, BT):
            if c.host is not None:
                out = []
                for h in c.host.__mro__:
                    out.append(self.lib.host_type(self, h))
                return tuple(x for x in out if x is not None)
            return (c, self.builtins["object"])
        if isinstance(c, XC):
            out = [c]
            for b in c.bases:
                out.extend(self.mro(b))
            if not any(isinstance(x, BT) and x.name == "object" for x in out):
                out.append(self.builtins["object"])
            return tuple(out)
        if isinstance(c, NTClass):
            return (c, self.builtins["tuple"], self.builtins["object"])
        return (c,)

    def is_subclass(self, c, t):
        c, t = self.force(c), self.force(t)
        if isinstance(t, Tup):
            return any(self.is_subclass(c, x) for x in t.items)
        if isinstance(t, GAlias):
            if t.origin == "Union":
                return any(self.is_subclass(c, x if x is not None else self.lib.NONETYPE) for x in t.args)
            t = t.origin if not isinstance(t.origin, str) else self.builtins.get(t.origin.lower(), t)
        if isinstance(t, Top) or isinstance(c, Top):
            return self.anon("issubclass")
        if isinstance(t, XC) and t.name.startswith("abc."):
            return self.lib.abc_check(self, c, t)
        for x in self.mro(c):
            if same(x, t):
                return True
        return False

    def isinstance_(self, v, t):
        v = self.force(v)
        if isinstance(v, Top):
            return self.anon("isinstance")
        return self.is_subclass(self.type_of(v), t)

    def is_enum_class(self, c):
        return isinstance(c, Ref) and self.get(c.a).kind == "class" and "#members" in self.get(c.a).data

    def lookup_class_attr(self, c, name):
        c = self.force(c)
        if isinstance(c, Ref):
            for k in self.get(c.a).data["#mro"]:
                if isinstance(k, Ref):
                    d = self.get(k.a).data["#ns"]
                    if name in d:
                        v = d[name]
                        if v is not UNBOUND:
                            return v
                elif isinstance(k, XC):
                    v = self.lib.xc_attr(self, k, name)
                    if v is not UNBOUND:
                        return v
        elif isinstance(c, XC):
            for k in self.mro(c):
                if isinstance(k, XC):
                    v = self.lib.xc_attr(self, k, name)
                    if v is not UNBOUND:
                        return v
        return UNBOUND

    # ------------------------------------------------------------------ attributes
    def bind(self, f, obj, cls):
        if isinstance(f, (FuncV, BF)) or (isinstance(f, Wrap) and f.kind in ("cached", "gencm", "singledispatch")):
            return Bound(f, obj)
        if isinstance(f, Wrap):
            if f.kind == "staticmethod":
                return f.v
            if f.kind == "classmethod":
                return Bound(f.v, cls)
            if f.kind == "property":
                return self.call(f.v, [obj], {})
            if f.kind == "cached_property":
                v = self.call(f.v, [obj], {})
                h = self.get(obj.a)
                d = dict(h.data)
                d[f.extra] = v
                self.set(obj.a, h.with_data(d))
                return v
            if f.kind == "partial":
                return f
        return f

    def getattr_(self, o, name, default=UNBOUND):
        o = self.force(o)
        r = self._getattr(o, name)
        if r is UNBOUND:
            if default is not UNBOUND:
                return default
            tn = self.lib.type_name(self, o)
            self.raise_("AttributeError", "'%s' object has no attribute '%s'" % (tn, name))
        if type(r) is Choice and any(x is UNBOUND or x is ABSENT for x in r.br.values()):
            r = self.force(r)
            if r is UNBOUND or r is ABSENT:
                if default is not UNBOUND:
                    return default
                self.raise_("AttributeError", name)
        return self.res(r)

    def fkey(self, f, name):
        """function attributes live in one frame of their own"""
        self.fkeep[id(f)] = f
        return "%d:%s" % (id(f), name)

    def _getattr(self, o, name):
        if isinstance(o, FuncV):
            v = self.heap[self.fattr_addr].data.get(self.fkey(o, name), UNBOUND)
            if v is not UNBOUND:
                return v
        if isinstance(o, Ref):
            h = self.get(o.a)
            k = h.kind
            if k == "obj":
                if name == "__class__":
                    return h.cls
                if name == "__dict__":
                    return VarsView(o.a)
                cls = h.cls
                f = self.lookup_class_attr(cls, name)
                if isinstance(f, Wrap) and f.kind == "property":
                    return self.bind(f, o, cls)
                if name in h.data and h.data[name] is not UNBOUND:
                    return h.data[name]
                if self.is_enum_class(cls) and name in ("value", "name"):
                    return h.data["_%s_" % name]
                if f is not UNBOUND:
                    return self.bind(f, o, self.force(cls))
                r = self.lib.obj_attr(self, o, h, name)
                if r is not UNBOUND:
                    return r
                g = self.lookup_class_attr(cls, "__getattr__")
                if isinstance(g, FuncV):
                    return self.call(Bound(g, o), [name], {})
                return UNBOUND
            if k == "class":
                return self.class_attr(o, h, name)
            if k == "module":
                if name == "__dict__":
                    return VarsView(h.data["frame"])
                fr = self.get(h.data["frame"])
                if name in fr.data:
                    return fr.data[name]
                sub = h.cls + "." + name
                if self.find_source(sub):
                    return self.import_module(sub)
                return UNBOUND
            if k == "top":
                return Top("attr")
            return self.lib.container_attr(self, o, h, name)
        if isinstance(o, XMod):
            return self.lib.ext_attr(self, o.name, name)
        if isinstance(o, Top):
            return Top("attr of top")
        return self.lib.value_attr(self, o, name)

    def class_attr(self, o, h, name):
        if name == "__name__" or name == "__qualname__":
            return h.data["#name"]
        if name == "__mro__":
            return Tup(h.data["#mro"])
        if name == "__bases__":
            return Tup(h.data["#bases"])
        if name == "__dict__":
            return VarsView(o.a)
        if name == "__subclasses__":
            return BF("__subclasses__", lambda eng, a, k: eng.mklist(
                [Ref(x) for x in eng.get(o.a).data["#subs"]]))
        if name == "__class__":
            return self.type_of(o)
        if name == "mro":
            return BF("mro", lambda eng, a, k: eng.mklist(h.data["#mro"]))
        if name == "__members__" and "#members" in h.data:
            return self.mkdict({self.get(m.a).data["_name_"]: m for m in h.data["#members"]})
        f = self.lookup_class_attr(o, name)
        if f is not UNBOUND:
            if isinstance(f, Wrap):
                if f.kind == "property" or f.kind == "cached_property":
                    return f
                return self.bind(f, o, o)
            return f
        return self.lib.class_extra_attr(self, o, h, name)

    def setattr_(self, o, name, v, raw=False):
        o = self.force(o)
        if isinstance(o, Ref):
            h = self.get(o.a)
            if h.kind == "obj":
                if not raw:
                    f = self.lookup_class_attr(h.cls, "__setattr__")
                    if isinstance(f, FuncV):
                        self.call(Bound(f, o), [name, v], {})
                        return
                    if isinstance(h.cls, Ref) and any(isinstance(c, Ref) and self.get(c.a).data.get("#frozen")
                                                      for c in self.mro(h.cls)):
                        self.raise_("#FrozenInstanceError", "cannot assign to field '%s'" % name)
                if name == "__class__":
                    self.set(o.a, H(h.kind, self.force(v), h.data, h.meta))
                    return
                if name == "__dict__":
                    raise Unsupported("assignment to __dict__")
                p = self.lookup_class_attr(h.cls, name)
                if isinstance(p, Wrap) and p.kind == "property":
                    if p.extra is None:
                        self.raise_("AttributeError", "can't set attribute")
                    self.call(p.extra, [o, v], {})
                    return
                d = dict(h.data)
                d[name] = v
                self.set(o.a, h.with_data(d))
                if h.meta and h.meta.get("track"):
                    self.emit("setattr", o, name)
                return
            if h.kind == "class":
                ns = dict(h.data["#ns"])
                ns[name] = v
                d = dict(h.data)
                d["#ns"] = ns
                self.set(o.a, h.with_data(d))
                return
            if h.kind == "module":
                self.setvar(h.data["frame"], name, v)
                return
            if h.kind == "top":
                return
        if isinstance(o, FuncV):
            h = self.heap[self.fattr_addr]
            self.set(self.fattr_addr, h.with_data(dict(h.data, **{self.fkey(o, name): v})))
            return
        if isinstance(o, Top):
            return
        if isinstance(o, (XMod, XC)):
            self.emit("setattr-ext", repr(o), name)
            return
        self.raise_("AttributeError", "cannot set %s on %r" % (name, o))

    def delattr_(self, o, name):
        if isinstance(o, Ref) and self.get(o.a).kind == "obj":
            h = self.get(o.a)
            d = dict(h.data)
            if name not in d:
                self.raise_("AttributeError", name)
            del d[name]
            self.set(o.a, h.with_data(d))
            return
        raise Unsupported("delattr")

    # ------------------------------------------------------------------ items
    def getitem(self, o, i):
        o = self.force(o)
        if not isinstance(i, SliceV):
            i = self.force(i)
        return self.lib.getitem(self, o, i)

    def setitem(self, o, i, v):
        return self.lib.setitem(self, self.force(o), i if isinstance(i, SliceV) else self.force(i), v)

    def delitem(self, o, i):
        return self.lib.delitem(self, self.force(o), i if isinstance(i, SliceV) else self.force(i))

    def iter_items(self, v, consume=False):
        """content of an iterable as item sequence"""
        v = self.force(v)
        return self.resolve_items(self.lib.iter_items(self, v, consume))

    # ------------------------------------------------------------------ calls
    def call(self, f, args, kwargs):
        f = self.res(f)
        if type(f) is Choice:
            return self.local(lambda: self.call(self.force(f), args, kwargs))
        if type(f) is Bound:
            return self.call(f.f, [f.self_] + list(args), kwargs)
        if type(f) is FuncV:
            return self.call_function(f, args, kwargs)
        if type(f) is BF:
            if f.raw:
                return f.fn(self, args, kwargs)
            return self.local(lambda: f.fn(self, list(args), dict(kwargs)))
        if type(f) is Wrap:
            if f.kind == "partial":
                a0, k0 = f.extra
                return self.call(f.v, list(a0) + list(args), dict(k0, **kwargs))
            if f.kind == "cached":
                return self.lib.call_cached(self, f, args, kwargs)
            if f.kind == "gencm":
                return Wrap("gencm-call", f.v, (tuple(args), tuple(sorted(kwargs.items()))))
            if f.kind == "singledispatch":
                return self.local(lambda: self.lib.singledispatch_call(self, f, args, kwargs))
            return self.call(f.v, args, kwargs)
        if type(f) is Ref:
            h = self.get(f.a)
            if h.kind == "class":
                return self.local(lambda: self.lib.instantiate(self, f, args, kwargs))
            if h.kind == "obj":
                c = self.lookup_class_attr(h.cls, "__call__")
                if c is not UNBOUND:
                    return self.call(Bound(c, f), args, kwargs)
            if h.kind == "top":
                return Top("call")
        if type(f) in (BT, XC, NTClass, GAlias):
            return self.local(lambda: self.lib.construct(self, f, list(args), dict(kwargs)))
        if type(f) is Top:
            self.note("call of unknown value (%s)" % f.why)
            return Top("call of top")
        self.raise_("TypeError", "%r is not callable" % (f,))

    def note(self, s):
        self.notes[s] = self.notes.get(s, 0) + 1

    def bind_args(self, f, args, kwargs):
        a = f.node.args
        params = a.posonlyargs + a.args
        vars_ = {}
        args = list(args)
        n = len(params)
        nd = len(f.defaults)
        if len(args) > n and not a.vararg:
            self.raise_("TypeError", "%s() takes %d positional arguments but %d were given" % (f.name, n, len(args)))
        kw = dict(kwargs)
        for i, p in enumerate(params):
            if i < len(args):
                if p.arg in kw and p not in a.posonlyargs:
                    self.raise_("TypeError", "multiple values for %s" % p.arg)
                vars_[p.arg] = args[i]
            elif p.arg in kw:
                vars_[p.arg] = kw.pop(p.arg)
            elif i >= n - nd:
                vars_[p.arg] = f.defaults[i - (n - nd)]
            else:
                self.raise_("TypeError", "%s() missing argument %s" % (f.name, p.arg))
        if a.vararg:
            vars_[a.vararg.arg] = Tup(args[n:])
        for p, d in zip(a.kwonlyargs, f.kwdefaults):
            if p.arg in kw:
                vars_[p.arg] = kw.pop(p.arg)
            elif d is not UNBOUND:
                vars_[p.arg] = d
            else:
                self.raise_("TypeError", "%s() missing keyword argument %s" % (f.name, p.arg))
        if a.kwarg:
            vars_[a.kwarg.arg] = self.mkdict(kw)
        elif kw:
            self.raise_("TypeError", "%s() got an unexpected keyword argument %s" % (f.name, sorted(kw)[0]))
        return vars_

    split_args = True

    def call_function(self, f, args, kwargs, at_yield=None):
        # split on undecided presence choices passed as arguments
        if self.split_args:
            for x in args:
                x = self.res(x)
                if type(x) is Choice and x.o[0] == "present":
                    nc = NeedChoice(x.o, x.br.keys())
                    k = self.fork(nc, lambda: Kind("R", self.call_function(f, args, kwargs, at_yield)))
                    return k.val
        if len(self.stack) > 150:
            raise Unsupported("recursion too deep: %s" % self.stack[-1])
        self.visited_calls += 1
        self.covered.add((f.module.file, f.qual))
        args = [self.res(x) for x in args]
        mark = len(self.journal)
        ctr = self.ctr

        def run():
            vars_ = self.bind_args(f, args, kwargs)
            fr = self.alloc(H("frame", None, vars_))
            env = Env(fr, f.frame, f.module.globals, f.module.modname, f.module.file, func=f, qual=f.qual)
            env.at_yield = at_yield
            if f.isgen and at_yield is None:
                env.yields = self.alloc(H("list", None, ()))
            save = (self.stack, self.curfile, self.line)
            self.stack = self.stack + [f.qual]
            self.curfile = f.module.file
            try:
                if isinstance(f.node, ast.Lambda):
                    r = Kind("R", self.ev(f.node.body, env))
                else:
                    r = self.exec_block(f.node.body, env)
            finally:
                self.stack, self.curfile, self.line = save
            if at_yield is not None:
                return Kind("R", r.val if r.tag == "R" and isinstance(self.res(r.val), Wrap) else None)
            if f.isgen:
                items = self.heap[env.yields].data
                r = Kind("R", self.new(H("iter", "generator", items)))
            if not f.keepframe:
                self.free(fr)
            return Kind("R", r.val if r.tag == "R" else None)
        try:
            return run().val
        except NeedChoice as nc:
            self.rollback(mark)
            self.ctr = ctr
            if nc.esc == 2:
                raise
            return self.fork(nc, lambda: self._forkall(run)).val

    # ------------------------------------------------------------------ top level
    def run_paths(self, thunk, limit=400, pc=None, partial=False):
        """all outcomes of thunk(): list of (pc, ('ret', v) | ('exc', PyRaise), heap-snapshot-fn).
        State changes are visible to `inspect` only, then rolled back.
        partial: when the budget runs out, the outcomes of the paths finished so far are returned and
        self.cut is set: a discrepancy on them is one, their agreement decides nothing."""
        if partial and self.deadline:
            dl = self.deadline
            self.deadline = time.time() + (dl - time.time()) * .5
            mark, ctr, pcs = len(self.journal), self.ctr, dict(self.pc)
            ctxt = (self.stack, self.curfile, self.line, self.depth)
            try:
                return self._run_paths(thunk, limit, pc, True)
            except (Budget, Unsupported) as b:
                why = b
            finally:
                self.deadline = dl
            # joining the branches is beyond the budget or the domain: enumerate whole paths instead
            self.rollback(mark)
            self.ctr, self.pc = ctr, pcs
            self.stack, self.curfile, self.line, self.depth = ctxt
            self.deadline = time.time() + (dl - time.time()) * .8
            self.pathmode = True
            try:
                return self._run_paths(thunk, 5 * limit, pc, True)
            except (Budget, Unsupported):
                raise why
            finally:
                self.pathmode = False
                self.deadline = dl
        return self._run_paths(thunk, limit, pc, False)

    def _run_paths(self, thunk, limit, pc, partial):
        out = []
        ctxt = (self.stack, self.curfile, self.line, self.depth)
        base = dict(pc or {})
        work = [base]
        n = 0
        while work:
            n += 1
            if n > limit:
                if partial and out:
                    self.cut = "too many top-level paths"
                    return out
                raise Unsupported("too many top-level paths")
            cur = work.pop() if partial else work.pop(0)
            mark = len(self.journal)
            ctr = self.ctr
            saved = dict(self.pc)
            self.pc.update(cur)
            try:
                try:
                    v = thunk()
                    out.append((cur, "ret", v, self.capture_keep(mark)))
                except PyRaise as e:
                    out.append((cur, "exc", e, self.capture_keep(mark)))
                except Infeasible:
                    self.rollback(mark)
                except NeedChoice as nc:
                    self.rollback(mark)
                    for c in nc.choices:
                        d = dict(cur)
                        d[nc.o] = c
                        work.append(d)
                except (Budget, Unsupported) as b:
                    if not partial or not out:
                        raise
                    self.rollback(mark)
                    self.stack, self.curfile, self.line, self.depth = ctxt
                    self.cut = "%s: %s" % (type(b).__name__, b)
                    if isinstance(b, Budget):
                        return out
            finally:
                self.pc = saved
            self.ctr = ctr
        return out

    def capture_keep(self, mark):
        return self.capture(mark)

    class _With:
        pass

    def with_state(self, diff, fn, pc=None):
        """run fn with the state diff applied, then roll back"""
        mark = len(self.journal)
        saved = dict(self.pc)
        self.pc.update(pc or {})
        try:
            for a, h in diff.items():
                self.set(a, h)
            return fn()
        finally:
            self.rollback(mark)
            self.pc = saved


class Env:
    __slots__ = ("frame", "parent", "globals", "modname", "file", "isclass", "func", "comp", "comp_store",
                 "qual", "yields", "excs", "real", "at_yield")

    def __init__(self, frame, parent, globals_, modname, file, isclass=False, func=None, comp=False, qual=""):
        self.frame = frame
        self.parent = parent
        self.globals = globals_
        self.modname = modname
        self.file = file
        self.isclass = isclass
        self.func = func
        self.comp = comp
        self.comp_store = None
        self.qual = qual
        self.yields = None
        self.at_yield = None
        self.excs = []
        self.real = None

    def closure_env(self):
        return self

    def push_exc(self, e):
        self.excs.append(e)

    def pop_exc(self):
        self.excs.pop()

    def lookup_exc(self):
        e = self
        while e is not None:
            if e.excs:
                return e.excs[-1]
            e = e.parent
        return None
