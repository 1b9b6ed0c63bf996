"""Models of the external modules: standard library, lxml, xsdata.

Objects of external classes are heap objects H("obj", XC, {...}).  Reads, writes and
every call with an outside effect are recorded on the engine's event trace.
`eng.hooks` lets a harness supply inputs: file contents, parse results of opaque XML.
"""
import ast
import re as hre
from decimal import Decimal, InvalidOperation
from xml.parsers import expat

from . import strs
from .values import *
from .values import H, Ref
from . import lib
from .lib import DECIMAL, PATH, ENUM, ENUMMETA, AUTO, FILE, FIELD, BF, M


def D(eng, o):
    return eng.get(o.a).data


def upd(eng, o, **kw):
    h = eng.get(o.a)
    eng.set(o.a, h.with_data(dict(h.data, **kw)))


def new(eng, xc, **data):
    return eng.new(H("obj", xc, data))


def hook(eng, name):
    return getattr(eng, "hooks", {}).get(name)


# ------------------------------------------------------------------ classes
OBJECT = XC("builtins.object")
NAMEDTUPLE = XC("typing.NamedTuple")
ET_ELEMENT = XC("ET.Element")
ET_TREE = XC("ET.ElementTree")
LX_ELEMENT = XC("lxml.Element")
PARSERCONFIG = XC("xsdata.ParserConfig")
XMLPARSER = XC("xsdata.XmlParser")
SERCONFIG = XC("xsdata.SerializerConfig")
XMLSER = XC("xsdata.XmlSerializer")
BYTESIO = XC("io.BytesIO")
STRINGIO = XC("io.StringIO")
LOGGER = XC("logging.Logger")
NULLCM = XC("contextlib.nullcontext")
SUPPRESS = XC("contextlib.suppress")
LOCK = XC("threading.Lock")
REGEX = XC("re.Pattern")
MATCH = XC("re.Match")
SYSMOD = XC("sys.stream")

_EXC = {}


def exc_class(eng, name, base):
    """an exception class of an external module as a class object"""
    t = eng.__dict__.setdefault("_ext_exc", {})
    key = name
    if key not in t:
        b = base if not isinstance(base, str) else eng.builtins[base]
        # allocated outside the journal: belongs to the initial state
        ref = lib.make_class(eng, name.split(".")[-1], [b], {"__module__": name.rpartition(".")[0]}, {}, {})
        t[key] = ref
    return t[key]


def preload(eng):
    """create the external exception classes before any analysis (so rollbacks keep them)"""
    exc_class(eng, "xml.etree.ElementTree.ParseError", "SyntaxError")
    exc_class(eng, "lxml.etree.LxmlError", "Exception")
    exc_class(eng, "lxml.etree.XMLSyntaxError", "SyntaxError")
    xs = exc_class(eng, "xsdata.exceptions.ParserError", "ValueError")
    exc_class(eng, "xsdata.exceptions.SerializerError", "ValueError")
    exc_class(eng, "xsdata.exceptions.ConverterError", "ValueError")
    exc_class(eng, "xsdata.exceptions.ConverterWarning", "Warning")
    exc_class(eng, "xsdata.exceptions.XmlContextError", "ValueError")
    exc_class(eng, "decimal.InvalidOperation", "ArithmeticError")
    exc_class(eng, "io.UnsupportedOperation", "OSError")


# ------------------------------------------------------------------ helpers
def F(name, f):
    """builtin function with forced arguments"""
    return BF(name, lambda eng, a, k: f(eng, *[eng.force(x) for x in a], **{n: eng.force(x) for n, x in k.items()}))


def R(name, f):
    return BF(name, lambda eng, a, k: f(eng, *a, **k))


def path_text(eng, p):
    p = eng.force(p)
    if isinstance(p, (str, AStr, bytes)):
        return p
    if isinstance(p, Ref):
        h = eng.get(p.a)
        if h.kind == "obj" and isinstance(h.cls, XC) and "path" in h.data and h.cls.name == PATH.name:
            return h.data["path"]
        if h.kind == "obj":
            f = eng.lookup_class_attr(h.cls, "__fspath__")
            if f is not UNBOUND:
                return path_text(eng, eng.call(Bound(f, p), [], {}))
    if isinstance(p, Top):
        return p
    if isinstance(p, int):
        return AStr([Atom(("fd", p), minlen=1)])
    eng.raise_("TypeError", "expected str, bytes or os.PathLike object, not %s" % lib.type_name(eng, p))


def read_content(eng, path, binary, encoding, how):
    h = hook(eng, "files")
    # data the analysed code itself wrote earlier on this path
    for ev in reversed(eng.resolve_items(eng.trace())):
        if not isinstance(ev, Tup):
            if any("write" in repr(b) and repr(path) in repr(b) for b in getattr(ev, "br", {0: getattr(ev, "items", ())}).values()):
                raise Unsupported("reading a file written on some paths only")
            continue
        if ev.items[0] in ("write",) and same(ev.items[1], path):
            return ev.items[2]
        if ev.items[0] == "open-w" and same(ev.items[1], path):
            break
    eng.emit("read", path, how, encoding)
    if h is None:
        return AStr([Atom(("filecontent", repr(path)))], binary)
    return h(eng, path, binary, encoding)


def werr(eng, path, mode):
    err = hook(eng, "open_error")
    if err is not None:
        err(eng, path, mode)


# ------------------------------------------------------------------ files
def open_(eng, args, kwargs):
    names = ("file", "mode", "buffering", "encoding", "errors", "newline", "closefd", "opener")
    a = dict(zip(names, args))
    a.update(kwargs)
    a = {k: eng.force(v) for k, v in a.items()}
    path = path_text(eng, a["file"])
    mode = a.get("mode", "r")
    enc = a.get("encoding")
    if not isinstance(mode, str):
        raise Unsupported("open() with abstract mode")
    binary = "b" in mode
    if binary:
        enc = "binary"
    f = new(eng, FILE, path=path, mode=mode, encoding=enc, content="", name=path, closed=False)
    textmode(eng, a.get("errors"), a.get("newline"), "read" if "r" in mode else "write")
    if "r" in mode and "+" not in mode:
        err = hook(eng, "open_error")
        if err is not None:
            err(eng, path, mode)
        if hook(eng, "files") is None:
            probe = read_content(eng, path, binary, enc, "open")
            upd(eng, f, content=probe)
        else:
            upd(eng, f, content=UNREAD)
        eng.emit("open-r", path, mode, enc)
    else:
        werr(eng, path, mode)
        eng.emit("open-w", path, mode, enc)
        if "w" in mode or "x" in mode:
            eng.emit("write", path, b"" if binary else "", enc, "truncate")
    return f


UNREAD = None


def file_content(eng, f):
    """what is left to be read; the file is read and decoded when this is first asked for"""
    d = D(eng, f)
    if d["content"] is UNREAD:
        c = read_content(eng, d["path"], "b" in d["mode"], d["encoding"], "open")
        upd(eng, f, content=c)
        return c
    return d["content"]


def file_write(eng, f, text):
    f, text = eng.force(f), eng.force(text)
    d = D(eng, f)
    werr(eng, d["path"], "write")
    if "r" in d["mode"] and "+" not in d["mode"]:
        eng.raise_(exc_class(eng, "io.UnsupportedOperation", "OSError"), "not writable")
    if isinstance(text, (str, bytes, AStr)):
        if strs.isb(text) != ("b" in d["mode"]):
            eng.raise_("TypeError", "write() argument must be %s" % ("bytes" if "b" in d["mode"] else "str"))
    elif not isinstance(text, Top):
        eng.raise_("TypeError", "write() argument must be str, not %s" % lib.type_name(eng, text))
    cur = d["content"]
    if isinstance(text, Top):
        nw = text
    elif isinstance(cur, Top):
        nw = cur
    elif cur == "":
        nw = text
    else:
        nw = strs.concat(cur, text)
    upd(eng, f, content=nw)
    eng.emit("write", d["path"], nw, d["encoding"], "write")
    return strs.length(eng, text) if not isinstance(text, Top) else AInt(0, None)


def file_writelines(eng, f, lines):
    from .engine import NORMAL
    items = eng.iter_items(lines, consume=True)

    def body(x):
        file_write(eng, f, x)
        return NORMAL
    eng.loop(items, body)


def file_read(eng, f, n=None):
    d = D(eng, f)
    if "r" not in d["mode"]:
        eng.raise_(exc_class(eng, "io.UnsupportedOperation", "OSError"), "not readable")
    if n is not None and n != -1:
        raise Unsupported("partial file read")
    c = file_content(eng, f)
    upd(eng, f, content=b"" if "b" in d["mode"] else "")
    return c


def file_truncate(eng, f, size=None):
    d = D(eng, f)
    if size not in (None, 0) or size == 0 and d["content"] != "":
        raise Unsupported("truncating a file to a size")
    eng.emit("truncate", d["path"], d["content"], d["encoding"])
    return AInt(0, None)


def file_exit(eng, f, *a):
    eng.emit("close", D(eng, f)["path"])
    return False


FILE_M = {
    "__enter__": F("__enter__", lambda e, f: f),
    "__exit__": F("__exit__", file_exit),
    "read": F("read", file_read),
    "readlines": F("readlines", lambda e, f: e.mklist(lib.iter_items(e, f))),
    "readline": F("readline", lambda e, f: (_ for _ in ()).throw(Unsupported("readline"))),
    "write": R("write", file_write),
    "writelines": R("writelines", file_writelines),
    "close": F("close", lambda e, f: e.emit("close", D(e, f)["path"])),
    "flush": F("flush", lambda e, f: None),
    "seek": F("seek", lambda e, f, *a: 0), "truncate": F("truncate", file_truncate),
}


# ------------------------------------------------------------------ pathlib
def mkpath(eng, p):
    return new(eng, PATH, path=p)


def textmode(eng, errors, newline, what):
    errors, newline = eng.force(errors), eng.force(newline)
    if errors not in (None, "strict"):
        eng.emit("codec-errors", errors, what)
    if newline not in (None, "", "\n") and what == "write":
        eng.emit("newline", newline, what)


def p_read_text(eng, p, encoding=None, errors=None, newline=None):
    textmode(eng, errors, newline, "read")
    err = hook(eng, "open_error")
    if err is not None:
        err(eng, D(eng, p)["path"], "r")
    return read_content(eng, D(eng, p)["path"], False, encoding, "read_text")


def p_read_bytes(eng, p):
    err = hook(eng, "open_error")
    if err is not None:
        err(eng, D(eng, p)["path"], "rb")
    return read_content(eng, D(eng, p)["path"], True, "binary", "read_bytes")


def closing_write(eng, path, data, enc):
    from .engine import PyRaise
    try:
        werr(eng, path, "write")
    except PyRaise:
        eng.emit("close", path)
        raise
    eng.emit("write", path, data, enc, "write")


def p_write_text(eng, p, data, encoding=None, errors=None, newline=None):
    if not isinstance(data, (str, AStr, Top)) or strs.isb(data):
        eng.raise_("TypeError", "data must be str, not %s" % lib.type_name(eng, data))
    path = D(eng, p)["path"]
    textmode(eng, errors, newline, "write")
    werr(eng, path, "w")
    eng.emit("open-w", path, "w", encoding)
    closing_write(eng, path, data, encoding)
    eng.emit("close", path)
    return AInt(0, None)


def p_write_bytes(eng, p, data):
    if isinstance(data, (str, AStr)) and not strs.isb(data):
        eng.raise_("TypeError", "a bytes-like object is required, not 'str'")
    path = D(eng, p)["path"]
    werr(eng, path, "wb")
    eng.emit("open-w", path, "wb", "binary")
    closing_write(eng, path, data, "binary")
    eng.emit("close", path)
    return AInt(0, None)


def p_join(eng, a, b):
    a, b = path_text(eng, a), path_text(eng, b)
    return strs.concat(strs.concat(a, "/"), b)


def p_rename(eng, p, target):
    t = path_text(eng, target)
    eng.emit("rename", D(eng, p)["path"], t)
    return mkpath(eng, t)


def _pathpart(what):
    def f(eng, p):
        t = D(eng, p)["path"]
        if isinstance(t, str):
            import pathlib
            v = getattr(pathlib.PurePosixPath(t), what)
            return mkpath(eng, str(v)) if what == "parent" else str(v)
        a = AStr([Atom((what, repr(t)), minlen=0)])
        return mkpath(eng, a) if what == "parent" else a
    return Wrap("property", F(what, f))


def _constpath(eng, what, p, s):
    t = D(eng, p)["path"]
    if isinstance(t, str) and isinstance(s, str):
        import pathlib
        try:
            return mkpath(eng, str(getattr(pathlib.PurePosixPath(t), what)(s)))
        except ValueError as ex:
            eng.raise_("ValueError", str(ex))
    return None


def _parts(eng, p):
    t = D(eng, p)["path"]
    if not isinstance(t, str):
        raise Unsupported("parts of an unknown path")
    import pathlib
    return Tup(pathlib.PurePosixPath(t).parts)


def _pq(name):
    def f(eng, p, *a, **k):
        eng.emit("fsquery", name, D(eng, p)["path"])
        return eng.choose(("fs", name, repr(D(eng, p)["path"])), (True, False))
    return F(name, f)


def _pe(name):
    def f(eng, p, *a, **k):
        eng.emit("fs", name, D(eng, p)["path"])
        return None
    return F(name, f)


def expanded(eng, t):
    """~ at the start of a file name replaced by the home directory"""
    if isinstance(t, str) and not t.startswith("~"):
        return t
    if isinstance(t, str) or eng.choose(("tilde", repr(t)), (False, True)):
        eng.emit("env", "HOME")
        return AStr([Atom(("expanduser", repr(t)), minlen=1)])
    return t


def p_expanduser(eng, p):
    t = D(eng, p)["path"]
    x = expanded(eng, t)
    return p if x is t else mkpath(eng, x)


def vars_expanded(eng, t):
    if isinstance(t, str) and "$" not in t:
        return t
    if isinstance(t, str) or eng.choose(("dollar", repr(t)), (False, True)):
        eng.emit("env", "expandvars")
        return AStr([Atom(("expandvars", repr(t)), minlen=1)])
    return t


PATH_M = {
    "read_text": F("read_text", p_read_text), "read_bytes": F("read_bytes", p_read_bytes),
    "write_text": F("write_text", p_write_text), "write_bytes": F("write_bytes", p_write_bytes),
    "open": BF("open", lambda e, a, k: open_(e, a, k)),
    "joinpath": F("joinpath", lambda e, p, *a: mkpath(e, _joinall(e, p, a))),
    "resolve": F("resolve", lambda e, p, *a, **k: p), "absolute": F("absolute", lambda e, p: p),
    "expanduser": F("expanduser", p_expanduser),
    "__fspath__": F("__fspath__", lambda e, p: D(e, p)["path"]),
    "__str__": F("__str__", lambda e, p: D(e, p)["path"]),
    "as_posix": F("as_posix", lambda e, p: D(e, p)["path"]),
    "with_suffix": F("with_suffix", lambda e, p, s: _constpath(e, "with_suffix", p, s) or mkpath(e, AStr([Atom(("with_suffix", repr(D(e, p)["path"]), repr(s)), minlen=1)]))),
    "parts": Wrap("property", F("parts", lambda e, p: _parts(e, p))),
    "with_name": F("with_name", lambda e, p, s: _constpath(e, "with_name", p, s) or mkpath(e, AStr([Atom(("with_name", repr(D(e, p)["path"]), repr(s)), minlen=1)]))),
    "replace": F("replace", p_rename), "rename": F("rename", p_rename),
    "parent": _pathpart("parent"), "name": _pathpart("name"), "suffix": _pathpart("suffix"), "stem": _pathpart("stem"),
}
for _n in ("exists", "is_file", "is_dir", "is_absolute", "is_symlink"):
    PATH_M[_n] = _pq(_n)
for _n in ("unlink", "mkdir", "touch", "rmdir", "chmod", "symlink_to"):
    PATH_M[_n] = _pe(_n)


def _joinall(eng, p, a):
    t = D(eng, p)["path"]
    for x in a:
        t = strs.concat(strs.concat(t, "/"), path_text(eng, x))
    return t


def path_div(eng, a, b):
    h = eng.get(a.a)
    if h.kind == "obj" and isinstance(h.cls, XC) and h.cls.name == PATH.name:
        return mkpath(eng, p_join(eng, a, b))
    return None


# ------------------------------------------------------------------ XML text -> tree
def sax_escape(eng, v, attr):
    v = eng.force(v)
    return strs.mk(strs.xml_escape(strs.simple(eng, v, "xml"), attr))


def html_escape(eng, v, quote=True):
    return sax_escape(eng, v, bool(eng.truth(quote)))


def html_unescape(eng, v):
    import html
    out = []
    for s in strs.simple(eng, eng.force(v), "unescape"):
        if isinstance(s, str):
            out.append(html.unescape(s))
        elif isinstance(s.name, tuple) and s.name and s.name[0] == "esc" and isinstance(s.info, Atom):
            out.append(s.info)
        elif s.may("&"):
            out.append(Atom(("unescaped", s.name), None, frozenset(), 0, None, False, s.kind))
        else:
            out.append(s)
    return strs.mk(out)


class Node:
    __slots__ = ("tag", "attrib", "text", "children", "tail")

    def __init__(self, tag, attrib):
        self.tag = tag
        self.attrib = attrib
        self.text = []
        self.children = []
        self.tail = []


class XmlBad(Exception):
    pass


def parse_abstract_xml(eng, v):
    """v: str/bytes/AStr without joins -> Node tree; texts are segment lists"""
    segs = strs.simple(eng, v, "xml parsing")
    table = []
    out = []
    for s in segs:
        if isinstance(s, str):
            out.append(s)
        else:
            table.append(s)
            out.append(chr(0xE000 + len(table) - 1))
            esc = isinstance(s.name, tuple) and s.name and s.name[0] == "esc"
            if not esc and (s.may("<") or s.may("&")):
                eng.emit("xml-injection", s.name if isinstance(s.name, tuple) else (s.name,))
    text = "".join(out)
    root = []
    stack = []
    p = expat.ParserCreate(encoding="utf-8", namespace_separator="}")
    p.buffer_text = True
    p.ordered_attributes = True

    def back(t):
        r = []
        for ch in t:
            o = ord(ch)
            if 0xE000 <= o < 0xE000 + len(table):
                a = table[o - 0xE000]
                if isinstance(a.name, tuple) and a.name and a.name[0] == "esc" and isinstance(a.info, Atom):
                    a = a.info
                r.append(a)
            else:
                r.append(ch)
        return strs.mk(r)

    def start(tag, attrs):
        d = {}
        for i in range(0, len(attrs), 2):
            d[qname(attrs[i])] = back(attrs[i + 1])
        n = Node(back(qname(tag)), d)
        if stack:
            stack[-1].children.append(n)
        else:
            root.append(n)
        stack.append(n)

    def end(tag):
        stack.pop()

    def chars(data):
        n = stack[-1]
        if n.children:
            n.children[-1].tail.append(data)
        else:
            n.text.append(data)
    p.StartElementHandler = start
    p.EndElementHandler = end
    p.CharacterDataHandler = chars
    try:
        p.Parse(text.encode("utf-8"), True)
    except expat.ExpatError as ex:
        raise XmlBad(str(ex))

    def fix(n):
        n.text = back("".join(n.text))
        n.tail = back("".join(n.tail))
        for c in n.children:
            fix(c)
    fix(root[0])
    return root[0]


def qname(tag):
    """the name as ElementTree spells it: {namespace}local"""
    return "{" + tag if "}" in tag else tag


def is_opaque(v):
    """a document given as a single opaque atom (an input of the analysis)"""
    return isinstance(v, AStr) and len(v.segs) == 1 and isinstance(v.segs[0], Atom)


# ------------------------------------------------------------------ ElementTree / lxml elements
def mkelem(eng, xc, tag, attrib=None, text=None, children=(), tail=None):
    a = attrib if isinstance(attrib, Ref) else eng.mkdict(attrib or {})
    return new(eng, xc, tag=tag, attrib=a, text=text, tail=tail, children=eng.mklist(children))


def node_to_elem(eng, n, xc):
    return mkelem(eng, xc, n.tag, n.attrib, n.text if n.text != "" else None,
                  [node_to_elem(eng, c, xc) for c in n.children], n.tail if n.tail != "" else None)


def et_xml(eng, source, parser=None):
    source = eng.force(source)
    if isinstance(source, Top):
        return Top("xml")
    if not isinstance(source, (str, bytes, AStr)):
        eng.raise_("TypeError", "expected string")
    eng.emit("etparse", source)
    h = hook(eng, "etparse")
    if h is not None:
        r = h(eng, source)
        if r is not None:
            return r
    try:
        return node_to_elem(eng, parse_abstract_xml(eng, source), ET_ELEMENT)
    except XmlBad as ex:
        eng.raise_(exc_class(eng, "xml.etree.ElementTree.ParseError", "SyntaxError"), str(ex))


def et_parse(eng, source, parser=None):
    source = eng.force(source)
    if isinstance(source, Ref) and eng.get(source.a).kind == "obj" and isinstance(eng.get(source.a).cls, XC) and \
            "content" in eng.get(source.a).data:
        c = file_read(eng, source)
    else:
        c = read_content(eng, path_text(eng, source), True, "binary", "ET.parse")
    return new(eng, ET_TREE, root=et_xml(eng, c))


NAME_RE = hre.compile(r"[A-Za-z_][\w.\-]*\Z")


def check_xmlname(eng, tag, what):
    if isinstance(tag, str):
        if not NAME_RE.match(tag):
            eng.raise_("ValueError", "Invalid %s name %r" % (what, tag))
    elif isinstance(tag, AStr):
        # every segment must be made of name characters
        for i, s in enumerate(strs.simple(eng, tag, "xml name")):
            if isinstance(s, str):
                if not hre.match(r"[\w.\-]*\Z", s) or (i == 0 and not NAME_RE.match(s)):
                    eng.raise_("ValueError", "Invalid %s name" % what)
            elif s.only is None or not all(hre.match(r"[\w.\-]", c) for c in (s.only - s.forbid)):
                if not eng.choose(("xmlname", s.name), (True, False)):
                    eng.raise_("ValueError", "Invalid %s name" % what)
    elif not isinstance(tag, Top):
        eng.raise_("TypeError", "Argument must be bytes or unicode, got '%s'" % lib.type_name(eng, tag))


def lx_element(eng, tag, attrib=None, nsmap=None, **extra):
    check_xmlname(eng, tag, "tag")
    d = {}
    if attrib is not None:
        d.update(dict(lib.dict_items(eng, attrib)))
    d.update(extra)
    e = mkelem(eng, LX_ELEMENT, tag, {})
    for k, v in d.items():
        lx_set(eng, e, k, v)
    return e


def lx_subelement(eng, parent, tag, attrib=None, nsmap=None, **extra):
    e = lx_element(eng, tag, attrib, nsmap, **extra)
    lib.l_append(eng, [D(eng, parent)["children"], e], {})
    return e


def check_xmltext(eng, v, allow_none=True):
    if v is None:
        if allow_none:
            return
        eng.raise_("TypeError", "Argument must be bytes or unicode, got 'NoneType'")
    if isinstance(v, Top):
        return
    if not isinstance(v, (str, bytes, AStr)):
        eng.raise_("TypeError", "Argument must be bytes or unicode, got '%s'" % lib.type_name(eng, v))


def lx_set(eng, e, k, v):
    check_xmlname(eng, k, "attribute")
    check_xmltext(eng, v, False)
    eng.setitem(D(eng, e)["attrib"], k, v)


def lx_render(eng, e, indent, level, out, top=True):
    d = D(eng, e)
    tag = eng.force(d["tag"])
    out.extend(("<",) + strs.segs_of(tag))
    for k, v in lib.dict_items(eng, d["attrib"]):
        v = eng.force(v)
        if isinstance(v, Top):
            raise Unsupported("unknown attribute value in XML")
        check_xmltext(eng, v, False)
        out.append(" ")
        out.extend(strs.segs_of(eng.force(k)))
        out.append('="')
        out.extend(strs.xml_escape(strs.simple(eng, v, "xml"), True))
        out.append('"')
    text = eng.force(d["text"])
    check_xmltext(eng, text)
    if isinstance(text, Top):
        raise Unsupported("unknown text in XML")
    kids = eng.definite(eng.get(d["children"].a).data)
    if kids is None:
        raise Unsupported("XML element with an unknown number of children")
    kids = [eng.force(k) for k in kids]
    if text is None and not kids:
        out.append("/>")
    else:
        out.append(">")
        if text is not None:
            out.extend(strs.xml_escape(strs.simple(eng, text, "xml")))
        pp = indent and text is None
        for k in kids:
            if pp:
                out.append("\n" + "  " * (level + 1))
            lx_render(eng, k, indent and text is None, level + 1, out, False)
        if kids and pp:
            out.append("\n" + "  " * level)
        out.append("</")
        out.extend(strs.segs_of(tag))
        out.append(">")
    tail = eng.force(d["tail"])
    if tail is not None and not top:
        out.extend(strs.xml_escape(strs.simple(eng, tail, "xml")))


def lx_tostring(eng, e, encoding=None, method="xml", xml_declaration=None, pretty_print=False, with_tail=True, **kw):
    out = []
    uni = encoding == "unicode" or (isinstance(encoding, BT) and encoding.name == "str")
    if xml_declaration or (xml_declaration is None and not uni and encoding is not None
                           and str(encoding).upper() not in ("ASCII", "UTF-8", "UTF8", "US-ASCII")):
        out.append("<?xml version='1.0' encoding='%s'?>\n" % (encoding or "ASCII"))
    lx_render(eng, e, bool(pretty_print), 0, out)
    if pretty_print:
        out.append("\n")
    return strs.mk(out, not uni)


def et_tostring(eng, e, encoding=None, method="xml", **kw):
    return lx_tostring(eng, e, encoding)


def elem_append(eng, e, c):
    lib.l_append(eng, [D(eng, e)["children"], c], {})


def elem_find(eng, e, path, namespaces=None):
    kids = eng.definite(eng.get(D(eng, e)["children"].a).data)
    if kids is None:
        raise Unsupported("find in unknown children")
    for k in kids:
        if eng.equals(D(eng, k)["tag"], path):
            return k
    return None


def elem_findall(eng, e, path, namespaces=None):
    kids = eng.definite(eng.get(D(eng, e)["children"].a).data)
    if kids is None:
        raise Unsupported("find in unknown children")
    return eng.mklist([k for k in kids if eng.equals(D(eng, k)["tag"], path)])


def elem_iter(eng, e, tag=None):
    out = []

    def rec(x):
        if tag is None or eng.equals(D(eng, x)["tag"], tag):
            out.append(x)
        kids = eng.definite(eng.get(D(eng, x)["children"].a).data)
        if kids is None:
            raise Unsupported("iteration over unknown children")
        for k in kids:
            rec(eng.force(k))
    rec(e)
    return eng.new(H("iter", "xmliter", tuple(out)))


ELEM_M = {
    "append": R("append", lambda e, x, c: elem_append(e, e.force(x), c)),
    "set": F("set", lx_set),
    "get": F("get", lambda e, x, k, d=None: e.call(e.getattr_(D(e, x)["attrib"], "get"), [k, d], {})),
    "find": F("find", elem_find), "findall": F("findall", elem_findall), "iter": F("iter", elem_iter),
    "findtext": F("findtext", lambda e, x, p, d=None: (lambda r: d if r is None else (D(e, r)["text"] or ""))(elem_find(e, x, p))),
    "insert": R("insert", lambda e, x, i, c: lib.l_insert(e, [D(e, e.force(x))["children"], i, c], {})),
    "extend": R("extend", lambda e, x, c: lib.list_extend(e, D(e, e.force(x))["children"], c)),
    "keys": F("keys", lambda e, x: e.call(e.getattr_(D(e, x)["attrib"], "keys"), [], {})),
    "items": F("items", lambda e, x: e.call(e.getattr_(D(e, x)["attrib"], "items"), [], {})),
    "remove": R("remove", lambda e, x, c: e.call(e.getattr_(D(e, e.force(x))["children"], "remove"), [c], {})),
    "getchildren": F("getchildren", lambda e, x: e.mklist(e.get(D(e, x)["children"].a).data)),
    "__len__": F("__len__", lambda e, x: lib.b_len(e, [D(e, x)["children"]], {})),
}


# ------------------------------------------------------------------ xsdata
PC_FIELDS = ("base_url", "load_dtd", "process_xinclude", "class_factory", "fail_on_unknown_properties",
             "fail_on_unknown_attributes", "fail_on_converter_warnings")
PC_DEFAULT = {"base_url": None, "load_dtd": False, "process_xinclude": False, "class_factory": None,
              "fail_on_unknown_properties": True, "fail_on_unknown_attributes": False,
              "fail_on_converter_warnings": False}
SC_FIELDS = ("encoding", "xml_version", "xml_declaration", "indent", "ignore_default_attributes", "schema_location",
             "no_namespace_schema_location", "globalns", "pretty_print", "pretty_print_indent")
SC_DEFAULT = {"encoding": "UTF-8", "xml_version": "1.0", "xml_declaration": True, "indent": None, "pretty_print": False,
              "pretty_print_indent": None, "ignore_default_attributes": False, "schema_location": None,
              "no_namespace_schema_location": None, "globalns": None}


def mkconf(xc, names, defaults):
    def f(eng, args, kwargs):
        d = dict(defaults)
        for k, v in list(zip(names, args)) + list(kwargs.items()):
            if k not in d:
                eng.raise_("TypeError", "unexpected keyword argument %r" % k)
            d[k] = v
        return eng.new(H("obj", xc, d))
    return f


def mkparser(eng, args, kwargs):
    conf = kwargs.get("config", args[0] if args else None)
    if conf is None:
        conf = mkconf(PARSERCONFIG, PC_FIELDS, PC_DEFAULT)(eng, [], {})
    bad = [k for k in kwargs if k not in ("config", "context", "handler")]
    if bad:
        eng.raise_("TypeError", "unexpected keyword argument %r" % bad[0])
    return new(eng, XMLPARSER, config=conf, context=kwargs.get("context"), handler=kwargs.get("handler"))


def mkser(eng, args, kwargs):
    conf = kwargs.get("config", args[0] if args else None)
    if conf is None:
        conf = mkconf(SERCONFIG, SC_FIELDS, SC_DEFAULT)(eng, [], {})
    bad = [k for k in kwargs if k not in ("config", "context", "writer")]
    if bad:
        eng.raise_("TypeError", "unexpected keyword argument %r" % bad[0])
    return new(eng, XMLSER, config=conf, context=kwargs.get("context"), writer=kwargs.get("writer"))


def meta(eng, fd):
    return dict(lib.dict_items(eng, fd["metadata"]))


def field_plan(eng, cls):
    """[(fieldname, xml name, kind, islist, item type, fd)]"""
    plan = []
    untyped = []
    for n, f in lib.dc_fields(eng, cls).items():
        fd = eng.get(f.a).data
        m = meta(eng, fd)
        t = fd["type"]
        islist = False
        if isinstance(t, str):
            raise Unsupported("string annotation")
        args = [x for x in t.args if not same(x, lib.NONETYPE) and x is not None] if isinstance(t, GAlias) else [t]
        o = t.origin if isinstance(t, GAlias) else None
        if o == "List" or (isinstance(o, BT) and o.name == "list"):
            islist = True
        if len(args) == 1 and isinstance(args[0], GAlias) and (args[0].origin in ("List",) or (
                isinstance(args[0].origin, BT) and args[0].origin.name == "list")):
            islist = True
            args = list(args[0].args)
        if len(args) == 1 and isinstance(args[0], GAlias) and args[0].origin == "Union":
            args = [x for x in args[0].args if not same(x, lib.NONETYPE)]
        k = m.get("type")
        plan.append([n, m.get("name", n), k, islist, args, fd])
        if k is None:
            untyped.append(plan[-1])
    for p in untyped:
        p[2] = "Text" if len(untyped) == 1 else "Element"
    return plan


def convert(eng, v, types, conf, where):
    """text -> python value like xsdata's converter"""
    for t in types:
        if isinstance(t, BT) and t.name == "str":
            return v
        if same(t, DECIMAL):
            if isinstance(v, str):
                try:
                    return Decimal(v.strip())
                except InvalidOperation:
                    continue
            s = strs.simple(eng, strs.strip(eng, v, None), "convert")
            if len(s) == 1 and isinstance(s[0], Atom) and s[0].kind == "num":
                return ADec(s[0])
            if not s:
                continue
            if any(isinstance(x, str) and not hre.match(r"[0-9eE.+\-]*\Z", x) for x in s):
                continue
            if eng.choose(("isdecimal", repr(s)), (True, False)):
                return ADec(Atom(("decimal", repr(s)), NUMCHARS, minlen=1, kind="num", edge=True))
            continue
        if isinstance(t, BT) and t.name in ("int", "float"):
            try:
                return (lib.to_int if t.name == "int" else lib.to_float)(eng, [v])
            except PyRaise:
                continue
        if isinstance(t, BT) and t.name == "bool":
            if isinstance(v, str):
                if v.strip() in ("true", "1"):
                    return True
                if v.strip() in ("false", "0"):
                    return False
            continue
        if eng.is_enum_class(t):
            if isinstance(v, str):
                w = " ".join(v.split())
                for mb in eng.get(t.a).data["#members"]:
                    if eng.get(mb.a).data["_value_"] == w:
                        return mb
                continue
            s = strs.simple(eng, strs.strip(eng, v, None), "convert")
            if len(s) == 1 and isinstance(s[0], Atom) and isinstance(s[0].info, tuple) and s[0].info[0] == "enumvalue":
                if s[0].info[1].a == t.a and s[0].name == ("enumvalue", s[0].info[2]):
                    return AEnum(t, s[0].info[2])
                if s[0].info[1].a != t.a:
                    return AEnum(t, ("conv", s[0].name))
            if len(s) == 1 and isinstance(s[0], Atom) and isinstance(s[0].info, tuple) and s[0].info[0] == "enumtext":
                return AEnum(t, s[0].name)
            eng.note("opaque text converted to an enumeration")
            continue
        if isinstance(t, Top):
            return Top("convert")
    c = D(eng, conf)
    if eng.force(c["fail_on_converter_warnings"]) is True:
        eng.raise_(exc_class(eng, "xsdata.exceptions.ParserError", "ValueError"), "conversion")
    eng.emit("convert-fallback", where, v)
    return v


def bind_node(eng, node, cls, conf, path):
    plan = field_plan(eng, cls)
    vals = {}
    attrs = {}
    elems = {}
    text = None
    for p in plan:
        n, xn, kind, islist, types, fd = p
        if kind == "Attribute":
            attrs[xn] = p
        elif kind == "Text":
            text = p
        elif kind in ("Element", "Elements"):
            elems[xn] = p
        elif kind == "Ignore":
            pass
        else:
            raise Unsupported("xsdata field kind %s" % kind)
    pe = exc_class(eng, "xsdata.exceptions.ParserError", "ValueError")
    c = D(eng, conf)
    for k, v in node.attrib.items():
        if k in attrs:
            p = attrs[k]
            v2 = convert(eng, v, p[4], conf, path + "@" + k)
            if p[5]["init"] is not False:
                vals[p[0]] = v2
        else:
            eng.emit("unknown-attribute", path, k)
            if eng.force(c["fail_on_unknown_attributes"]) is True:
                eng.raise_(pe, "Unknown attribute")
    for ch in node.children:
        tag = ch.tag
        if not isinstance(tag, str):
            m = [x for x in elems if eng.equals(tag, x)]
            tag = m[0] if m else None
        p = elems.get(tag)
        if p is None or (not p[3] and p[0] in vals):
            eng.emit("unknown-element", path, ch.tag, eng.force(c["fail_on_unknown_properties"]))
            if eng.truth(c["fail_on_unknown_properties"]):
                eng.raise_(pe, "Unknown property %s" % (ch.tag,))
            continue
        n, xn, kind, islist, types, fd = p
        t0 = types[0] if types else None
        if isinstance(t0, Ref) and not eng.is_enum_class(t0):
            v = bind_node(eng, ch, t0, conf, path + "/" + xn)
        else:
            if ch.children:
                eng.emit("unknown-element", path + "/" + xn, ch.children[0].tag, True)
                eng.raise_(pe, "primitive element with children")
            v = convert(eng, ch.text, types, conf, path + "/" + xn)
        if fd["init"] is False:
            continue
        if islist:
            vals.setdefault(n, []).append(v)
        else:
            vals[n] = v
    if text is not None:
        if node.text != "" and text[5]["init"] is not False:
            tv = node.text
            if isinstance(tv, AStr) and all(isinstance(s, Atom) and s.minlen == 0 for s in tv.segs):
                if all(strs.maybe_empty(eng, s) for s in tv.segs):
                    tv = ""
            if tv != "":
                vals[text[0]] = convert(eng, tv, text[4], conf, path + "/#text")
    kw = {k: (eng.mklist(v) if isinstance(v, list) else v) for k, v in vals.items()}
    try:
        return lib.instantiate(eng, cls, [], kw)
    except PyRaise as e:
        eng.raise_(pe, "instantiate")


def xs_parse(eng, parser, source, clazz=None):
    conf = D(eng, parser)["config"]
    strict = eng.force(D(eng, conf)["fail_on_unknown_properties"])
    eng.emit("xmlparse", strict, source, clazz)
    h = hook(eng, "xmlparse")
    if h is not None:
        r = h(eng, parser, source, clazz)
        if r is not None:
            return r
    pe = exc_class(eng, "xsdata.exceptions.ParserError", "ValueError")
    if not isinstance(source, (str, bytes, AStr)):
        if isinstance(source, Top):
            raise Unsupported("parsing of an unknown document")
        eng.raise_("TypeError", "parser input")
    try:
        node = parse_abstract_xml(eng, source)
    except XmlBad as ex:
        eng.raise_(pe, str(ex))
    if clazz is None:
        clazz = find_root_class(eng, node.tag)
        if clazz is None:
            eng.raise_(pe, "No class found matching root")
    return bind_node(eng, node, clazz, conf, lib.cls_name(eng, clazz))


def find_root_class(eng, tag):
    """xsdata looks the root element up among all dataclasses known to the program"""
    best = None
    for a, h in list(eng.heap.items()):
        if h.kind == "class" and h.data.get("#dc"):
            mref = h.data["#ns"].get("Meta")
            nm = h.data["#name"]
            if isinstance(mref, Ref):
                mn = eng.get(mref.a).data["#ns"].get("name")
                if mn is not None:
                    nm = mn
            if isinstance(tag, str) and nm == tag:
                best = Ref(a)
    return best


def xs_parse_file(eng, parser, source, clazz=None):
    if isinstance(source, Ref) and eng.get(source.a).kind == "obj" and "content" in eng.get(source.a).data:
        return xs_parse(eng, parser, file_read(eng, source), clazz)
    c = read_content(eng, path_text(eng, source), True, "binary", "xsdata.parse")
    return xs_parse(eng, parser, c, clazz)


def render_value(eng, v):
    v = eng.force(v)
    if isinstance(v, (ADec, Decimal)):
        return AStr([v.atom]) if isinstance(v, ADec) else f"{v:f}"
    if isinstance(v, AEnum):
        return AStr([lib.enum_atom(eng, v)])
    if isinstance(v, Ref) and eng.get(v.a).kind == "obj" and eng.is_enum_class(eng.force(eng.get(v.a).cls)):
        return eng.force(eng.get(v.a).data["_value_"])
    if isinstance(v, bool):
        return "true" if v else "false"
    return lib.str_of(eng, v)


def render_node(eng, obj, tag, level, out):
    h = eng.get(obj.a)
    cls = eng.force(h.cls)
    plan = field_plan(eng, cls)
    out.append("  " * level + "<" + tag)
    for n, xn, kind, islist, types, fd in plan:
        if kind != "Attribute":
            continue
        v = eng.getattr_(obj, n)
        v = eng.force(v)
        if v is None:
            continue
        out.append(" %s=\"" % xn)
        out.extend(strs.xml_escape(strs.simple(eng, render_value(eng, v), "xml"), True))
        out.append('"')
    body = []
    text = None
    for n, xn, kind, islist, types, fd in plan:
        if kind == "Attribute" or kind == "Ignore":
            continue
        v = eng.force(eng.getattr_(obj, n))
        if kind == "Text":
            if v is not None:
                text = render_value(eng, v)
            continue
        if islist:
            items = eng.definite(eng.iter_items(v))
            if items is None:
                raise Unsupported("rendering a list of unknown length")
        else:
            items = [] if v is None else [v]
        for x in items:
            x = eng.force(x)
            if isinstance(x, Ref) and eng.get(x.a).kind == "obj" and not eng.is_enum_class(eng.force(eng.get(x.a).cls)) and \
                    eng.lookup_class_attr(eng.get(x.a).cls, "__dataclass_fields__") is not UNBOUND:
                render_node(eng, x, xn, level + 1, body)
            else:
                val = strs.simple(eng, render_value(eng, x), "xml")
                if not val:
                    body.append("  " * (level + 1) + "<%s/>\n" % xn)
                    continue
                body.append("  " * (level + 1) + "<%s>" % xn)
                body.extend(strs.xml_escape(val))
                body.append("</%s>\n" % xn)
    if body:
        out.append(">\n")
        out.extend(body)
        out.append("  " * level + "</%s>\n" % tag)
    elif text is not None and text != "":
        out.append(">")
        out.extend(strs.xml_escape(strs.simple(eng, text, "xml")))
        out.append("</%s>\n" % tag)
    else:
        out.append("/>\n")


def xs_render(eng, ser, obj, ns_map=None):
    conf = D(eng, D(eng, ser)["config"])
    sl, nsl = eng.force(conf["schema_location"]), eng.force(conf["no_namespace_schema_location"])
    eng.emit("render", obj, sl, nsl, eng.force(conf["encoding"]), eng.force(conf["xml_declaration"]))
    h = hook(eng, "render")
    if h is not None:
        r = h(eng, ser, obj, sl, nsl)
        if r is not None:
            return r
    if isinstance(obj, Top):
        return Top("render")
    if not (isinstance(obj, Ref) and eng.get(obj.a).kind == "obj"
            and eng.lookup_class_attr(eng.get(obj.a).cls, "__dataclass_fields__") is not UNBOUND):
        eng.raise_(exc_class(eng, "xsdata.exceptions.XmlContextError", "ValueError"), "Type is not a dataclass")
    cls = eng.force(eng.get(obj.a).cls)
    mref = eng.get(cls.a).data["#ns"].get("Meta")
    tag = eng.get(cls.a).data["#name"]
    if isinstance(mref, Ref):
        mn = eng.get(mref.a).data["#ns"].get("name")
        if mn is not None:
            tag = mn
    out = []
    render_node(eng, obj, tag, 0, out)
    pre = '<?xml version="1.0" encoding="UTF-8"?>\n' if eng.truth(conf["xml_declaration"]) else ""
    attr = []
    if sl is not None or nsl is not None:
        attr.append(' xmlns:xsi="http://www.w3.org/2001/XMLSchema-instance"')
        for nm, x in (("schemaLocation", sl), ("noNamespaceSchemaLocation", nsl)):
            if x is not None:
                attr.append(' xsi:%s="' % nm)
                attr.extend(strs.xml_escape(strs.simple(eng, x, "xml"), True))
                attr.append('"')
    out2 = [pre, out[0]] + attr + out[1:]
    return strs.mk(out2)


XMLPARSER_M = {
    "from_string": F("from_string", lambda e, p, s, clazz=None, ns_map=None: xs_parse(e, p, s, clazz)),
    "from_bytes": F("from_bytes", lambda e, p, s, clazz=None, ns_map=None: xs_parse(e, p, s, clazz)),
    "from_path": F("from_path", lambda e, p, s, clazz=None, ns_map=None: xs_parse_file(e, p, s, clazz)),
    "parse": F("parse", lambda e, p, s, clazz=None, ns_map=None: xs_parse_file(e, p, s, clazz)),
}
XMLSER_M = {"render": F("render", xs_render)}


def ser_write(eng, ser, out, obj, ns_map=None):
    t = xs_render(eng, ser, obj, ns_map)
    eng.call(eng.getattr_(out, "write"), [t], {})


XMLSER_M["write"] = F("write", ser_write)


# ------------------------------------------------------------------ re (concrete strings only)
def re_flags(f):
    return f if isinstance(f, int) else 0


def re_call(name):
    def f(eng, pat, s, *a, flags=0, count=0, maxsplit=0):
        if isinstance(pat, Ref):
            d = D(eng, pat)
            p, fl = d["pattern"], d["flags"]
        else:
            p, fl = pat, flags
            if name == "split" and len(a) > 1:
                a, fl = a[:1], a[1]
            elif name not in ("sub", "subn", "split") and a:
                a, fl = (), a[0]
        if not isinstance(p, (str, bytes)):
            raise Unsupported("abstract regular expression")
        from . import rex
        return rex.run(eng, name, p, re_flags(fl), s, a, count, maxsplit)
    return f


def mkmatch(eng, m):
    return None if m is None else new(eng, MATCH, m=m)


def m_group(eng, m, *ks):
    h = D(eng, m)["m"]

    def one(k):
        if isinstance(k, int):
            if k >= len(h.groups):
                eng.raise_("IndexError", "no such group")
            return h.groups[k]
        if k not in h.names:
            eng.raise_("IndexError", "no such group")
        return h.names[k]
    if not ks:
        return one(0)
    if len(ks) == 1:
        return one(ks[0])
    return Tup([one(k) for k in ks])


MATCH_M = {
    "group": F("group", m_group), "__getitem__": F("__getitem__", m_group),
    "groups": F("groups", lambda e, m, d=None: Tup([d if g is None else g for g in D(e, m)["m"].groups[1:]])),
    "groupdict": F("groupdict", lambda e, m, d=None: e.mkdict({k: (d if v is None else v) for k, v in D(e, m)["m"].names.items()})),
    "start": F("start", lambda e, m, g=0: D(e, m)["m"].spans[g][0]),
    "end": F("end", lambda e, m, g=0: D(e, m)["m"].spans[g][1]),
    "span": F("span", lambda e, m, g=0: Tup(D(e, m)["m"].spans[g])),
}
REGEX_M = {n: F(n, re_call(n)) for n in ("match", "fullmatch", "search", "split", "sub", "findall", "finditer")}


def re_subber(name):
    def f(eng, pat, repl, s, count=0, flags=0):
        return re_call(name)(eng, pat, s, repl, flags=flags, count=count)
    return f


re_sub, re_subn = re_subber("sub"), re_subber("subn")
REGEX_M["sub"] = F("sub", re_sub)
REGEX_M["subn"] = F("subn", re_subn)

# ------------------------------------------------------------------ in-memory streams
STRIO_M = {
    "__enter__": F("__enter__", lambda e, f: f), "__exit__": F("__exit__", lambda e, f, *a: False),
    "getvalue": F("getvalue", lambda e, f: D(e, f)["content"]),
    "read": F("read", lambda e, f, n=None: D(e, f)["content"]),
    "close": F("close", lambda e, f: None),
    "readlines": F("readlines", lambda e, f: e.mklist(lib.iter_items(e, f))),
}


def sio_write(eng, f, t):
    c = D(eng, f)["content"]
    t = eng.force(t)
    upd(eng, f, content=t if isinstance(t, Top) or c in ("", b"") else strs.concat(c, t))


STRIO_M["write"] = R("write", lambda e, f, t: sio_write(e, e.force(f), t))
STRIO_M["writelines"] = R("writelines", lambda e, f, l: [sio_write(e, e.force(f), x) for x in (e.definite(e.iter_items(l, True)) or ())] and None)

# ------------------------------------------------------------------ logging / locks / contexts
_noop = F("noop", lambda e, *a, **k: None)
LOGGER_M = {n: _noop for n in ("debug", "info", "warning", "error", "exception", "critical", "log", "addHandler",
                               "setLevel")}
LOGGER_M["isEnabledFor"] = F("isEnabledFor", lambda e, *a: e.anon("log"))
LOCK_M = {"__enter__": F("__enter__", lambda e, l: l), "__exit__": F("__exit__", lambda e, l, *a: False),
          "acquire": _noop, "release": _noop}
NULLCM_M = {"__enter__": F("__enter__", lambda e, l: D(e, l).get("v")), "__exit__": F("__exit__", lambda e, l, *a: False)}


def suppress_exit(eng, s, t, v, tb):
    if v is None:
        return False
    return eng.exc_matches(v, Tup(D(eng, s)["types"].items))


SUPPRESS_M = {"__enter__": F("__enter__", lambda e, l: None), "__exit__": F("__exit__", suppress_exit)}
AUTO_M = {}

CLASS_M = {
    FILE.name: FILE_M, PATH.name: PATH_M, ET_ELEMENT.name: ELEM_M, LX_ELEMENT.name: ELEM_M,
    ET_TREE.name: {"getroot": F("getroot", lambda e, t: D(e, t)["root"])},
    XMLPARSER.name: XMLPARSER_M, XMLSER.name: XMLSER_M, MATCH.name: MATCH_M, REGEX.name: REGEX_M,
    STRINGIO.name: STRIO_M, BYTESIO.name: STRIO_M, LOGGER.name: LOGGER_M, LOCK.name: LOCK_M,
    NULLCM.name: NULLCM_M, SUPPRESS.name: SUPPRESS_M,
    "sys.stream": {"write": F("write", lambda e, s, t: e.emit("stdout", "write")), "flush": _noop},
}
ENUM_ATTRS = {
    "_generate_next_value_": UNBOUND,
}


def class_attr(eng, xc, name):
    t = CLASS_M.get(xc.name)
    if t is not None and name in t:
        return t[name]
    if xc.name == PATH.name and name in ("cwd", "home"):
        return Wrap("classmethod", F(name, lambda e, c: (e.emit("env", name), mkpath(e, AStr([Atom((name,), minlen=1)])))[1]))
    if xc.name == "datetime.datetime" and name in ("now", "utcnow", "today"):
        return F(name, lambda e, *a, **k: (e.emit("clock", name), Top("clock"))[1])
    if xc.name == "datetime.datetime" and name in ("fromisoformat", "strptime"):
        return F(name, lambda e, *a, **k: _dt_parse(e, a))
    if xc.name == "itertools.chain" and name == "from_iterable":
        return R("from_iterable", it_chain_from)
    if xc.name == "decimal.Decimal":
        f = lib.DEC_METHODS.get(name)
        return f if f else UNBOUND
    if xc.name == "random.Random":
        return F(name, lambda e, *a, **k: (e.emit("random", name), Top("random"))[1])
    return UNBOUND


def _dt_parse(eng, a):
    if not eng.choose(("isdate", repr(a[0])), (True, False)):
        eng.raise_("ValueError", "Invalid isoformat string")
    return Top("datetime")


# ------------------------------------------------------------------ constructors
def c_path(eng, args, kwargs):
    if not args:
        return mkpath(eng, ".")
    t = path_text(eng, args[0])
    for x in args[1:]:
        t = strs.concat(strs.concat(t, "/"), path_text(eng, x))
    return mkpath(eng, t)


def c_decimal(eng, args, kwargs):
    v = eng.force(args[0]) if args else 0
    if isinstance(v, (ADec, Decimal)):
        return v
    if isinstance(v, (int, float)) and not isinstance(v, bool):
        return Decimal(v)
    if isinstance(v, str):
        try:
            return Decimal(v)
        except InvalidOperation:
            eng.raise_(exc_class(eng, "decimal.InvalidOperation", "ArithmeticError"), "conversion")
    if isinstance(v, AStr):
        s = strs.simple(eng, strs.strip(eng, v, None), "Decimal")
        if len(s) == 1 and isinstance(s[0], Atom) and s[0].kind == "num":
            return ADec(s[0])
        if not eng.choose(("isdecimal", repr(s)), (True, False)):
            eng.raise_(exc_class(eng, "decimal.InvalidOperation", "ArithmeticError"), "conversion")
        return ADec(Atom(("decimal", repr(s)), NUMCHARS, minlen=1, kind="num", edge=True))
    if isinstance(v, (AFloat, AInt, ALin)):
        return ADec(Atom(("decimalof", repr(v)), NUMCHARS, minlen=1, kind="num", edge=True))
    if isinstance(v, Top):
        return Top("Decimal")
    eng.raise_("TypeError", "conversion from %s to Decimal is not supported" % lib.type_name(eng, v))


def c_field(eng, args, kwargs):
    d = {"default": MISSING, "default_factory": MISSING, "init": True, "repr": True, "hash": None, "compare": True,
         "metadata": None, "kw_only": False}
    for k, v in kwargs.items():
        if k not in d:
            eng.raise_("TypeError", "field() got an unexpected keyword argument %r" % k)
        d[k] = eng.force(v)
    if d["metadata"] is None:
        d["metadata"] = eng.mkdict()
    if d["default"] is not MISSING and d["default_factory"] is not MISSING:
        eng.raise_("ValueError", "cannot specify both default and default_factory")
    return new(eng, FIELD, **d)


def c_defaultdict(eng, args, kwargs):
    f = eng.force(args[0]) if args else None
    r = eng.new(H("dict", None, {}, {"factory": f} if f is not None else None))
    for a in args[1:]:
        lib.dict_update(eng, r, a)
    for k, v in kwargs.items():
        eng.setitem(r, k, v)
    return r


def c_namedtuple(eng, args, kwargs):
    name = eng.force(args[0])
    f = eng.force(args[1])
    if isinstance(f, str):
        fields = f.replace(",", " ").split()
    else:
        fields = list(eng.definite(eng.iter_items(f)))
    d = kwargs.get("defaults")
    defs = tuple(eng.definite(eng.iter_items(d))) if d is not None else ()
    return NTClass(name, fields, defs)


def c_typing_namedtuple(eng, args, kwargs):
    name = eng.force(args[0])
    fields = [eng.force(x).items[0] for x in eng.definite(eng.iter_items(args[1]))]
    return NTClass(name, fields)


def c_deque(eng, args, kwargs):
    n = eng.force(args[1] if len(args) > 1 else kwargs.get("maxlen"))
    items = eng.iter_items(args[0], True) if args else ()
    if n is not None:
        items = eng.definite(items)
        if items is None or not isinstance(n, int):
            raise Unsupported("deque of bounded length")
        if eng.stack:
            eng.note("deque with maxlen")
        items = tuple(items[-n:] if n else ())
    return eng.mklist(items)


def c_counter(eng, args, kwargs):
    items = eng.definite(eng.iter_items(args[0], True)) if args else ()
    if items is None or kwargs:
        raise Unsupported("Counter of unknown content")
    r = c_defaultdict(eng, [eng.builtins["int"]], {})
    for x in items:
        n = lib.dict_lookup(eng, r, x)
        eng.setitem(r, x, 1 if n is ABSENT else n + 1)
    return r


CONSTRUCT = {
    PATH.name: c_path, DECIMAL.name: c_decimal,
    PARSERCONFIG.name: mkconf(PARSERCONFIG, PC_FIELDS, PC_DEFAULT),
    SERCONFIG.name: mkconf(SERCONFIG, SC_FIELDS, SC_DEFAULT),
    XMLPARSER.name: mkparser, XMLSER.name: mkser,
    AUTO.name: lambda e, a, k: new(e, AUTO),
    STRINGIO.name: lambda e, a, k: new(e, STRINGIO, content=e.force(a[0]) if a else "", path="<memory>", mode="r+"),
    BYTESIO.name: lambda e, a, k: new(e, BYTESIO, content=e.force(a[0]) if a else b"", path="<memory>", mode="rb+"),
    NULLCM.name: lambda e, a, k: new(e, NULLCM, v=a[0] if a else None),
    SUPPRESS.name: lambda e, a, k: new(e, SUPPRESS, types=Tup(a)),
    LOCK.name: lambda e, a, k: new(e, LOCK),
    "threading.local": lambda e, a, k: e.new(H("obj", XC("threading.local"), {})),
    "types.SimpleNamespace": lambda e, a, k: e.new(H("obj", XC("types.SimpleNamespace"), dict(k))),
    "collections.OrderedDict": lambda e, a, k: lib.construct(e, e.builtins["dict"], a, k),
    "collections.deque": c_deque,
    "collections.Counter": c_counter,
    "collections.defaultdict": c_defaultdict,
    "types.MappingProxyType": lambda e, a, k: a[0],
    "datetime.datetime": lambda e, a, k: Top("datetime"),
    "random.Random": lambda e, a, k: new(e, XC("random.Random")),
}


def construct(eng, xc, args, kwargs):
    f = CONSTRUCT.get(xc.name)
    if f is None:
        if xc.name == "itertools.chain":
            return it_chain(eng, *args)
        raise Unsupported("construction of %s" % xc.name)
    return f(eng, args, kwargs)


def init_plain(eng, o, args, kwargs):
    return None


def init_namespace(eng, o, args, kwargs):
    upd(eng, o, **kwargs)


INIT = {"types.SimpleNamespace": init_namespace}


# ------------------------------------------------------------------ items of external objects
def getitem(eng, o, h, i):
    if "children" in h.data:
        return lib.getitem(eng, h.data["children"], i)
    f = class_attr(eng, h.cls, "__getitem__")
    if f is not UNBOUND:
        return eng.call(f, [o, i], {})
    raise Unsupported("item of %s" % h.cls.name)


def setitem(eng, o, h, i, v):
    if "children" in h.data:
        return lib.setitem(eng, h.data["children"], i, v)
    raise Unsupported("item assignment on %s" % h.cls.name)


def delitem(eng, o, h, i):
    if "children" in h.data:
        return lib.delitem(eng, h.data["children"], i)
    raise Unsupported("item deletion on %s" % h.cls.name)


# ------------------------------------------------------------------ functools / itertools / operator
def it_chain(eng, *its):
    out = ()
    for i in its:
        out += tuple(eng.iter_items(i, consume=True))
    return eng.new(H("iter", "chain", out))


def it_chain_from(eng, it):
    from .engine import NORMAL
    r = eng.mklist()

    def body(x):
        lib.list_extend(eng, r, x)
        return NORMAL
    eng.loop(eng.iter_items(it, consume=True), body)
    return eng.new(H("iter", "chain", eng.get(r.a).data))


def it_islice(eng, it, *a):
    a = [eng.force(x) for x in a]
    it = eng.force(it)
    isiter = isinstance(it, Ref) and eng.get(it.a).kind == "iter"
    if isiter and eng.get(it.a).cls in lib.ENDLESS:
        s = slice(*a)
        if s.stop is None:
            raise Unsupported("islice of an endless iterator")
        out = [lib.b_next(eng, [it], {}) for _ in range(s.stop)]
        return eng.new(H("iter", "islice", tuple(out[s])))
    items = eng.definite(eng.iter_items(it))
    if items is None:
        if len(a) == 2 and a[1] is None:
            return eng.new(H("iter", "islice", eng.get(lib.getitem(eng, eng.mklist(eng.iter_items(it)), SliceV(a[0], None, None)).a).data))
        raise Unsupported("islice of unknown length")
    s = slice(*a)
    out = items[s]
    if isiter:
        stop = s.stop
        h = eng.get(it.a)
        eng.set(it.a, h.with_data(items[stop:] if stop is not None else ()))
    return eng.new(H("iter", "islice", tuple(out)))


def it_repeat(eng, x, n=None):
    if isinstance(n, int):
        return eng.new(H("iter", "repeated", (x,) * n))
    if n is not None:
        raise Unsupported("repeat an unknown number of times")
    return eng.new(H("iter", "repeat", (x,)))


def it_cycle(eng, it):
    items = eng.definite(eng.iter_items(it, consume=True))
    if not items:
        if items is None:
            raise Unsupported("cycle of unknown length")
        return eng.new(H("iter", "cycled", ()))
    return eng.new(H("iter", "cycle", tuple(items)))


def it_takewhile(eng, f, it, drop=False):
    items = eng.definite(eng.iter_items(it, consume=True))
    if items is None:
        raise Unsupported("takewhile of unknown length")
    out = []
    n = 0
    for x in items:
        if not eng.truth(eng.call(f, [x], {})):
            break
        n += 1
    return eng.new(H("iter", "takewhile", tuple(items[n:] if drop else items[:n])))


def it_groupby(eng, it, key=None):
    items = eng.definite(eng.iter_items(it, consume=True))
    if items is None:
        raise Unsupported("groupby of unknown length")
    out = []
    for x in items:
        k = eng.call(key, [x], {}) if key is not None else x
        if out and eng.equals(out[-1][0], k):
            out[-1][1].append(x)
        else:
            out.append((k, [x]))
    return eng.new(H("iter", "groupby", tuple(Tup((k, eng.new(H("iter", "group", tuple(g))))) for k, g in out)))


def it_zip_longest(eng, *its, fillvalue=None):
    seqs = [eng.definite(eng.iter_items(i, consume=True)) for i in its]
    if any(s is None for s in seqs):
        raise Unsupported("zip_longest of unknown length")
    n = max([len(s) for s in seqs] or [0])
    return eng.new(H("iter", "zl", tuple(Tup([s[i] if i < len(s) else fillvalue for s in seqs]) for i in range(n))))


def it_pairwise(eng, it):
    s = eng.definite(eng.iter_items(it, consume=True))
    if s is None:
        raise Unsupported("pairwise")
    return eng.new(H("iter", "pw", tuple(Tup(p) for p in zip(s, s[1:]))))


def it_accumulate(eng, it, func=None):
    s = eng.definite(eng.iter_items(it, consume=True))
    if s is None:
        raise Unsupported("accumulate")
    out = []
    import ast as _a
    for x in s:
        out.append(x if not out else (eng.call(func, [out[-1], x], {}) if func is not None else eng.binop(_a.Add(), out[-1], x)))
    return eng.new(H("iter", "acc", tuple(out)))


def it_product(eng, *its, repeat=1):
    import itertools
    seqs = [eng.definite(eng.iter_items(i, consume=True)) for i in its] * repeat
    if any(s is None for s in seqs):
        raise Unsupported("product")
    return eng.new(H("iter", "product", tuple(Tup(t) for t in itertools.product(*seqs))))


def it_starmap(eng, f, it):
    from .engine import NORMAL
    r = eng.mklist()

    def body(x):
        v = eng.call(f, list(eng.definite(eng.iter_items(x))), {})
        lib.l_append(eng, [r, v], {})
        return NORMAL
    eng.loop(eng.iter_items(it, consume=True), body)
    return eng.new(H("iter", "starmap", eng.get(r.a).data))


def fn_reduce(eng, f, it, *init):
    items = eng.definite(eng.iter_items(it, consume=True))
    if items is None:
        raise Unsupported("reduce over unknown length")
    items = list(items)
    if init:
        cur = init[0]
    else:
        if not items:
            eng.raise_("TypeError", "reduce() of empty iterable")
        cur = items.pop(0)
    for x in items:
        cur = eng.call(f, [cur, x], {})
    return cur


def op_attrgetter(eng, *names):
    def get(e, o, n):
        for p in n.split("."):
            o = e.getattr_(o, p)
        return o
    if len(names) == 1:
        return BF("attrgetter", lambda e, a, k: get(e, a[0], names[0]))
    return BF("attrgetter", lambda e, a, k: Tup([get(e, a[0], n) for n in names]))


def op_itemgetter(eng, *idx):
    if len(idx) == 1:
        return BF("itemgetter", lambda e, a, k: e.getitem(a[0], idx[0]))
    return BF("itemgetter", lambda e, a, k: Tup([e.getitem(a[0], i) for i in idx]))


def op_methodcaller(eng, name, *a0, **k0):
    return BF("methodcaller", lambda e, a, k: e.call(e.getattr_(a[0], name), list(a0), dict(k0)))


def dc_asdict(eng, o, dict_factory=None, tup=False):
    def conv(v):
        v = eng.force(v)
        if isinstance(v, Ref):
            h = eng.get(v.a)
            if h.kind == "list":
                items = eng.definite(h.data)
                if items is None:
                    raise Unsupported("asdict over unknown length")
                return eng.mklist([conv(x) for x in items])
            if h.kind == "obj" and eng.lookup_class_attr(h.cls, "__dataclass_fields__") is not UNBOUND:
                return eng.mkdict({n: conv(eng.getattr_(v, n)) for n in lib.dc_fields(eng, h.cls)})
        return v
    return conv(o)


def dc_replace(eng, o, **kw):
    c = eng.force(eng.get(o.a).cls)
    args = {}
    for n, f in lib.dc_fields(eng, c).items():
        if eng.get(f.a).data["init"] is False:
            continue
        args[n] = kw.pop(n) if n in kw else eng.getattr_(o, n)
    args.update(kw)
    return lib.instantiate(eng, c, [], args)


def dc_fields_fn(eng, o):
    c = o if isinstance(o, Ref) and eng.get(o.a).kind == "class" else eng.type_of(o)
    f = eng.lookup_class_attr(c, "__dataclass_fields__")
    if f is UNBOUND:
        eng.raise_("TypeError", "must be called with a dataclass type or instance")
    return Tup(list(lib.dc_fields(eng, c).values()))


def is_dataclass(eng, o):
    c = o if isinstance(o, Ref) and eng.get(o.a).kind == "class" else eng.type_of(o)
    if not isinstance(c, Ref):
        return False
    return eng.lookup_class_attr(c, "__dataclass_fields__") is not UNBOUND


def typing_hints(eng, o, *a, **k):
    c = o
    out = {}
    for m in reversed(eng.mro(c)):
        if isinstance(m, Ref):
            out.update(eng.get(m.a).data.get("#ann", {}))
    return eng.mkdict(out)


def os_effect(name):
    def f(eng, *a, **k):
        eng.emit("os", name, Tup([path_text(eng, x) if isinstance(x, (str, AStr, Ref)) else x for x in a]))
        return Top("os." + name)
    return F(name, f)


def os_query(name):
    def f(eng, *a, **k):
        eng.emit("fsquery", name, Tup([path_text(eng, x) if isinstance(x, (str, AStr, Ref)) else x for x in a]))
        return eng.choose(("fs", name, repr(a)), (True, False))
    return F(name, f)


def os_rename(eng, a, b, **k):
    eng.emit("rename", path_text(eng, a), path_text(eng, b))


def wraps(eng, f, *a, **k):
    return BF("wraps", lambda e, a2, k2: a2[0])


def contextmanager(eng, f):
    return Wrap("gencm", f)


def sorted_key(eng, f):
    raise Unsupported("cmp_to_key")


TYPING = {"Optional", "List", "Dict", "Tuple", "Set", "FrozenSet", "Union", "Type", "Callable", "Iterable", "Iterator",
          "Sequence", "Mapping", "MutableMapping", "Generator", "ClassVar", "Final", "Literal", "Annotated", "Generic",
          "Protocol", "DefaultDict", "Deque", "Collection", "Awaitable", "AbstractSet", "NoReturn", "AnyStr", "Any",
          "IO", "TextIO", "BinaryIO", "Text", "Hashable", "Sized", "Container", "Reversible", "TypeVar", "Pattern",
          "Match", "TypedDict", "OrderedDict", "Self", "Never", "Concatenate", "ParamSpec", "TypeAlias", "Counter",
          "NamedTuple"}
ABCS = {"Iterable", "Sequence", "Mapping", "MutableSequence", "MutableMapping", "Collection", "Callable", "Hashable",
        "Sized", "Set", "Iterator", "Container", "ByteString", "Generator", "MutableSet"}


def identity(eng, args, kwargs):
    return args[0]


def effect(kind, name):
    return BF(name, lambda e, a, k: (e.emit(kind, name), Top(name))[1])


MODULES = {
    "dataclasses": {
        "dataclass": BF("dataclass", lib.dataclass_decorator), "field": BF("field", c_field), "MISSING": MISSING,
        "FrozenInstanceError": BT("FrozenInstanceError", __import__("dataclasses").FrozenInstanceError),
        "fields": F("fields", dc_fields_fn), "asdict": F("asdict", dc_asdict), "replace": F("replace", dc_replace),
        "is_dataclass": F("is_dataclass", is_dataclass), "Field": FIELD,
        "astuple": F("astuple", lambda e, o: Tup([v for k, v in lib.dict_items(e, dc_asdict(e, o))])),
    },
    "enum": {"Enum": ENUM, "auto": AUTO, "EnumMeta": ENUMMETA, "EnumType": ENUMMETA,
             "unique": BF("unique", identity), "IntEnum": XC("enum.IntEnum", (ENUM,)), "Flag": XC("enum.Flag", (ENUM,))},
    "decimal": {"Decimal": DECIMAL},
    "collections": {"namedtuple": BF("namedtuple", c_namedtuple), "OrderedDict": XC("collections.OrderedDict"),
                    "defaultdict": XC("collections.defaultdict"), "deque": XC("collections.deque"),
                    "Counter": XC("collections.Counter")},
    "copy": {"deepcopy": BF("deepcopy", lambda e, a, k: lib.deepcopy(e, e.force(a[0]))),
             "copy": BF("copy", lambda e, a, k: lib.shallow_copy(e, a[0])),
             "replace": F("replace", dc_replace)},
    "pathlib": {"Path": PATH, "PurePath": PATH, "PosixPath": PATH, "PurePosixPath": PATH},
    "io": {"StringIO": STRINGIO, "BytesIO": BYTESIO, "open": BF("open", lib.b_open), "TextIOWrapper": FILE,
           "TextIOBase": FILE, "IOBase": FILE},
    "codecs": {"open": BF("codecs.open", lambda e, a, k: open_(e, list(a[:2]), dict({"encoding": a[2] if len(a) > 2 else None}, **k))),
               "BOM_UTF8": b"\xef\xbb\xbf"},
    "functools": {
        "partial": BF("partial", lambda e, a, k: Wrap("partial", a[0], (tuple(a[1:]), dict(k)))),
        "lru_cache": BF("lru_cache", lambda e, a, k: lib.cache_decorator(e, a[0]) if a and isinstance(e.force(a[0]), FuncV)
                        else BF("lru_cache", lambda e2, a2, k2: lib.cache_decorator(e2, a2[0]))),
        "cache": BF("cache", lambda e, a, k: lib.cache_decorator(e, a[0])),
        "reduce": R("reduce", fn_reduce), "wraps": R("wraps", wraps),
        "cached_property": BF("cached_property", lambda e, a, k: Wrap("cached_property", a[0], a[0].name)),
        "total_ordering": BF("total_ordering", identity),
        "singledispatch": BF("singledispatch", lambda e, a, k: lib.singledispatch(e, a[0])),
    },
    "itertools": {
        "chain": XC("itertools.chain"), "islice": R("islice", it_islice),
        "takewhile": R("takewhile", it_takewhile), "dropwhile": R("dropwhile", lambda e, f, i: it_takewhile(e, f, i, True)),
        "groupby": R("groupby", it_groupby), "zip_longest": R("zip_longest", it_zip_longest),
        "pairwise": R("pairwise", it_pairwise), "accumulate": R("accumulate", it_accumulate),
        "product": R("product", it_product), "starmap": R("starmap", it_starmap),
        "count": F("count", lambda e, s=0, st=1: e.new(H("iter", "count", (s, st)))),
        "repeat": F("repeat", it_repeat), "cycle": R("cycle", it_cycle),
        "filterfalse": R("filterfalse", lambda e, f, i: lib.construct(e, e.builtins["filter"], [BF("not", lambda e2, a, k: not e2.truth(e2.call(f, a, {}) if f is not None else a[0])), i], {})),
    },
    "operator": {"attrgetter": F("attrgetter", op_attrgetter), "itemgetter": F("itemgetter", op_itemgetter),
                 "methodcaller": F("methodcaller", op_methodcaller),
                 "eq": F("eq", lambda e, a, b: e.equals(a, b)), "ne": F("ne", lambda e, a, b: not e.equals(a, b)),
                 "contains": F("contains", lambda e, a, b: e.contains(a, b)),
                 "not_": F("not_", lambda e, a: not e.truth(a)), "truth": F("truth", lambda e, a: e.truth(a)),
                 "getitem": F("getitem", lambda e, a, b: e.getitem(a, b)),
                 "setitem": F("setitem", lambda e, a, b, c: e.setitem(a, b, c)),
                 "delitem": F("delitem", lambda e, a, b: e.delitem(a, b)),
                 "is_": F("is_", lambda e, a, b: e.is_(a, b)), "is_not": F("is_not", lambda e, a, b: not e.is_(a, b)),
                 "concat": F("concat", lambda e, a, b: e.binop(ast.Add(), a, b)),
                 **{n: F(n, lambda e, a, b, o=o: e.binop(o(), a, b)) for n, o in (
                     ("add", ast.Add), ("sub", ast.Sub), ("mul", ast.Mult), ("truediv", ast.Div), ("floordiv", ast.FloorDiv),
                     ("mod", ast.Mod), ("pow", ast.Pow), ("or_", ast.BitOr), ("and_", ast.BitAnd), ("xor", ast.BitXor))},
                 **{n: F(n, lambda e, a, b, o=o: e.compare(o(), a, b)) for n, o in (
                     ("lt", ast.Lt), ("le", ast.LtE), ("gt", ast.Gt), ("ge", ast.GtE))}},
    "contextlib": {"nullcontext": NULLCM, "suppress": SUPPRESS, "contextmanager": R("contextmanager", contextmanager)},
    "collections.abc": {n: XC("abc." + n) for n in ABCS},
    "numbers": {n: XC("abc." + n) for n in ("Number", "Integral", "Real")},
    "warnings": {"warn": BF("warn", lambda e, a, k: e.emit("warn")), "simplefilter": effect("global-state", "simplefilter"),
                 "filterwarnings": effect("global-state", "filterwarnings")},
    "logging": {"getLogger": BF("getLogger", lambda e, a, k: new(e, LOGGER)), "NullHandler": LOGGER,
                "DEBUG": 10, "INFO": 20, "WARNING": 30, "ERROR": 40, "CRITICAL": 50,
                **{n: _noop for n in ("debug", "info", "warning", "error", "exception", "critical")}},
    "html": {"escape": R("escape", html_escape), "unescape": R("unescape", html_unescape)},
    "xml.sax": {}, "xml.sax.saxutils": {"escape": R("escape", lambda e, v: sax_escape(e, v, False)), "unescape": R("unescape", html_unescape),
                                        "quoteattr": R("quoteattr", lambda e, v: strs.concat(strs.concat('"', sax_escape(e, v, True)), '"'))},
    "xml": {}, "xml.etree": {},
    "xml.etree.ElementTree": {"XML": R("XML", et_xml), "fromstring": R("fromstring", et_xml), "parse": R("parse", et_parse),
                              "Element": F("Element", lx_element), "SubElement": F("SubElement", lx_subelement),
                              "tostring": F("tostring", et_tostring)},
    "lxml": {},
    "lxml.etree": {"Element": F("Element", lx_element), "SubElement": F("SubElement", lx_subelement),
                   "tostring": F("tostring", lx_tostring), "fromstring": R("fromstring", et_xml), "XML": R("XML", et_xml)},
    "re": {"compile": F("compile", lambda e, p, f=0: p if isinstance(p, Ref) else new(e, REGEX, pattern=p, flags=f)),
           "match": F("match", re_call("match")), "fullmatch": F("fullmatch", re_call("fullmatch")),
           "search": F("search", re_call("search")), "split": F("split", re_call("split")),
           "findall": F("findall", re_call("findall")), "finditer": F("finditer", re_call("finditer")),
           "sub": F("sub", re_sub), "subn": F("subn", re_subn), "escape": F("escape", lambda e, s: hre.escape(s)),
           "IGNORECASE": 2, "I": 2, "MULTILINE": 8, "M": 8, "DOTALL": 16, "S": 16, "VERBOSE": 64, "X": 64, "ASCII": 256, "A": 256,
           "Pattern": REGEX, "Match": MATCH},
    "os": {"fspath": F("fspath", lambda e, p: path_text(e, p)), "linesep": "\n", "sep": "/", "replace": F("replace", os_rename),
           "rename": F("rename", os_rename), "PathLike": XC("abc.PathLike"), "environ": None,
           **{n: os_effect(n) for n in ("remove", "unlink", "mkdir", "makedirs", "rmdir", "chdir", "system", "kill", "chmod",
                                        "symlink", "link", "fsync", "close", "write", "putenv", "_exit", "open", "truncate",
                                        "popen", "execv", "fork")}},
    "os.path": {"join": F("join", lambda e, *a: _ospjoin(e, a)), "exists": os_query("exists"), "isfile": os_query("isfile"),
                "isdir": os_query("isdir"), "basename": F("basename", lambda e, p: AStr([Atom(("basename", repr(p)))])),
                "abspath": F("abspath", lambda e, p: path_text(e, p)), "realpath": F("realpath", lambda e, p, *a: path_text(e, p)),
               "expanduser": F("expanduser", lambda e, p: expanded(e, path_text(e, p))),
               "expandvars": F("expandvars", lambda e, p: vars_expanded(e, path_text(e, p)))},
    "sys": {"stdout": XC("sys.stdout"), "stderr": XC("sys.stderr"), "maxsize": 2 ** 63 - 1, "version_info": Tup((3, 12, 0)),
            "exit": effect("exit", "sys.exit"), "setrecursionlimit": effect("global-state", "setrecursionlimit"),
            "intern": F("intern", lambda e, s: s)},
    "typing": {}, "abc": {"ABC": OBJECT, "abstractmethod": BF("abstractmethod", identity)},
    "types": {"SimpleNamespace": XC("types.SimpleNamespace"), "MappingProxyType": XC("types.MappingProxyType"),
              "FunctionType": lib.FUNCTYPE, "ModuleType": lib.MODTYPE, "NoneType": lib.NONETYPE},
    "threading": {"Lock": LOCK, "RLock": LOCK, "local": XC("threading.local")},
    "datetime": {"datetime": XC("datetime.datetime"), "date": XC("datetime.datetime"), "timezone": XC("datetime.timezone")},
    "time": {n: effect("clock", n) for n in ("time", "monotonic", "perf_counter", "time_ns", "sleep", "localtime", "gmtime")},
    "random": {n: effect("random", n) for n in ("random", "randint", "choice", "shuffle", "sample", "uniform", "seed")},
    "uuid": {n: effect("random", n) for n in ("uuid1", "uuid4")},
    "math": {"isclose": F("isclose", lambda e, *a, **k: e.anon("isclose")), "nan": float("nan"), "inf": float("inf")},
    "string": {"ascii_uppercase": "ABCDEFGHIJKLMNOPQRSTUVWXYZ", "ascii_lowercase": "abcdefghijklmnopqrstuvwxyz",
               "digits": "0123456789", "whitespace": " \t\n\r\x0b\x0c",
               "ascii_letters": "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ"},
    "textwrap": {"dedent": F("dedent", lambda e, s: __import__("textwrap").dedent(s) if isinstance(s, str) else Top("dedent"))},
    "locale": {n: effect("global-state" if n == "setlocale" else "locale", n) for n in ("setlocale", "getlocale", "getpreferredencoding")},
    "xsdata": {}, "xsdata.formats": {}, "xsdata.formats.dataclass": {},
    "xsdata.formats.dataclass.parsers": {"XmlParser": XMLPARSER},
    "xsdata.formats.dataclass.parsers.config": {"ParserConfig": PARSERCONFIG},
    "xsdata.formats.dataclass.serializers": {"XmlSerializer": XMLSER},
    "xsdata.formats.dataclass.serializers.config": {"SerializerConfig": SERCONFIG},
    "xsdata.formats.dataclass.parsers.xml": {"XmlParser": XMLPARSER},
    "xsdata.formats.dataclass.serializers.xml": {"XmlSerializer": XMLSER},
    "xsdata.formats.dataclass.context": {"XmlContext": XC("xsdata.XmlContext")},
    "xsdata.exceptions": {}, "importlib": {"import_module": F("import_module", lambda e, n, p=None: e.import_module(n))},
    "inspect": {"isclass": F("isclass", lambda e, o: isinstance(o, (BT, XC)) or (isinstance(o, Ref) and e.get(o.a).kind == "class"))},
    "tempfile": {n: effect("os", n) for n in ("NamedTemporaryFile", "mkstemp", "mkdtemp", "TemporaryDirectory")},
    "shutil": {n: effect("os", n) for n in ("move", "copy", "copyfile", "rmtree")},
    "subprocess": {n: effect("os", n) for n in ("run", "Popen", "call", "check_output", "check_call")},
    "socket": {n: effect("os", n) for n in ("socket", "create_connection")},
}
CONSTRUCT["xsdata.XmlContext"] = lambda e, a, k: new(e, XC("xsdata.XmlContext"))
for _n in ("stdout", "stderr"):
    CLASS_M["sys." + _n] = {"write": F("write", lambda e, *a: e.emit("stdout", "sys")), "flush": _noop}


def _ospjoin(eng, a):
    t = path_text(eng, a[0])
    for x in a[1:]:
        t = strs.concat(strs.concat(t, "/"), path_text(eng, x))
    return t


EXCS = {
    "xml.etree.ElementTree": {"ParseError": "SyntaxError"},
    "lxml.etree": {"LxmlError": "Exception", "XMLSyntaxError": "SyntaxError"},
    "xsdata.exceptions": {"ParserError": "ValueError", "SerializerError": "ValueError", "ConverterError": "ValueError",
                          "ConverterWarning": "Warning", "XmlContextError": "ValueError"},
    "decimal": {"InvalidOperation": "ArithmeticError"},
    "io": {"UnsupportedOperation": "OSError"},
}


ENV_MODULES = {"platform", "getpass", "site", "sysconfig", "socket", "gc", "resource", "pwd", "multiprocessing", "signal"}
ENV_NAMES = {
    "os": {"environ", "environb", "getenv", "getenvb", "getcwd", "getcwdb", "getpid", "getppid", "cpu_count", "name", "uname", "getlogin",
           "linesep", "listdir", "scandir", "walk", "stat", "get_terminal_size", "getuid", "umask", "isatty", "urandom"},
    "sys": {"argv", "platform", "flags", "path", "version", "hexversion", "implementation", "executable", "prefix",
            "getrecursionlimit", "getfilesystemencoding", "stdin",
            "dont_write_bytecode", "warnoptions", "_getframe", "getrefcount", "gettrace", "getswitchinterval", "api_version"},
    "time": {"tzname", "timezone", "daylight", "altzone", "strftime", "ctime", "asctime", "process_time", "thread_time", "gmtime",
             "perf_counter_ns", "monotonic_ns"},
    "threading": {"get_ident", "current_thread", "active_count", "get_native_id", "enumerate", "main_thread"},
    "tempfile": {"gettempdir", "gettempprefix", "tempdir"},
}


def env_name(mod, name):
    return mod in ENV_MODULES or name in ENV_NAMES.get(mod, ())


def attr(eng, mod, name):
    if name == "__name__":
        return mod
    if env_name(mod, name):
        eng.emit("random" if name == "urandom" else "env", mod + "." + name)
        if not (mod, name) == ("os", "linesep"):
            import importlib
            try:
                c = callable(getattr(importlib.import_module(mod), name, None))
            except Exception:
                c = True
            return BF(mod + "." + name, lambda e, a, k: Top(mod + "." + name)) if c else Top(mod + "." + name)
    ex = EXCS.get(mod, {})
    if name in ex:
        return exc_class(eng, mod + "." + name, ex[name])
    t = MODULES.get(mod)
    if t is not None and name in t:
        v = t[name]
        return v
    if mod in ("typing", "typing_extensions"):
        if name == "Any":
            return GAlias("Any", ())
        if name == "NamedTuple":
            return NAMEDTUPLE
        if name == "TYPE_CHECKING":
            return False
        if name in ("cast",):
            return BF("cast", lambda e, a, k: a[1])
        if name == "TypeVar" or name == "NewType":
            return BF(name, lambda e, a, k: GAlias("Any", ()))
        if name == "get_type_hints":
            return F(name, typing_hints)
        if name == "get_args":
            return F(name, lambda e, t: Tup(t.args) if isinstance(t, GAlias) else Tup(()))
        if name == "get_origin":
            def go(e, t):
                if not isinstance(t, GAlias):
                    return None
                return lib.value_attr(e, t, "__origin__")
            return F(name, go)
        if name in ("overload", "final", "runtime_checkable", "no_type_check"):
            return BF(name, identity)
        if name in TYPING:
            return GAlias(name, ())
    sub = mod + "." + name
    if sub in MODULES:
        return eng.import_module(sub)
    if mod in MODULES or mod.split(".")[0] in ("xsdata", "lxml"):
        import sys
        # a known module: is the attribute unknown to the model or to the module?
        hm = __import__("importlib").import_module(mod) if mod.split(".")[0] not in ("xsdata", "lxml") else None
        if hm is not None and not hasattr(hm, name):
            return UNBOUND
    eng.note("external attribute %s.%s" % (mod, name))
    return BF(mod + "." + name, lambda e, a, k: (e.emit("ext", mod + "." + name), Top(mod + "." + name))[1])
