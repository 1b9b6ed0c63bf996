"""The properties: statement, what is analysed for each (jobs), which discrepancies violate it."""
import ast
import os
import random

from . import boot, entry, kvn, state
from .kvn import ATTS, KINDS, LAYOUTS, SEQS, base_of

PROPS = {}
KVNF, XMLF, NDMF = "ccsds_ndm/ndm_kvn_io.py", "ccsds_ndm/ndm_xml_io.py", "ccsds_ndm/ndm_io.py"
MODF = "ccsds_ndm/models/ndmxml2"


class Prop:
    def __init__(self, pid, title, statement, over, qtext, why, files, mech, jobs, filt=None, selftests=(), technique="",
                 note="", rule="", state=()):
        self.pid, self.title, self.statement = pid, title, statement
        self.over, self.qtext, self.why, self.files, self.mech = over, qtext, why, files, mech
        self.jobs, self.filt, self.selftests = jobs, filt or (lambda r: True), list(selftests)
        self.technique, self.note, self.rule, self.state = technique, note, rule, state
        PROPS[pid] = self


def deep(tier):
    return tier == "thorough"


# ------------------------------------------------------------------ documents
QUAT = ("quaternion_state", "quaternion_derivative", "quaternion_euler_rate")
EUL = ("quaternion_euler_rate", "euler_angle", "euler_angle_rate")


def aem_sk(att, qt=None, seq=None, **k):
    return dict(att=att, qt=qt if att in QUAT else None, seq=seq if att in EUL else None, **k)


def aem_matrix(tier):
    out = []
    for a in ATTS:
        for q in (("FIRST", "LAST", "first", "last") if a in QUAT else (None,)):
            for s in (SEQS if a in EUL else (None,)):
                for c in (None, "lower"):
                    out.append(aem_sk(a, q, s, case=c, full=False))
                    if deep(tier):
                        out.append(aem_sk(a, q, s, case=c, full=True, counts={".attitude_state": 3}))
    # a segment may carry more settings than its attitude type needs
    for a in ATTS:
        out.append(dict(att=a, qt="FIRST", seq="213", full=True))
        out.append(dict(att=a, qt="LAST", seq="132", full=False))
    return out


def rnd_docs(kind, rng, n, comments=(0, 1, 2), counts=True):
    out = []
    for i in range(n):
        base = base_of(kind, True)
        if kind == "oem":
            base = {"acc": rng.random() < .5}
        if kind == "aem":
            base = aem_sk(rng.choice(ATTS), rng.choice(("FIRST", "LAST", "first", "last")), rng.choice(SEQS))
        sk = dict(base, full=False, on=kvn.random_on(kind, base, rng, rng.choice((.15, .5, .85))), comments=rng.choice(comments))
        if counts:
            sk["counts"] = {"." + c: rng.choice((0, 1, 2, 3)) if c in ("maneuver_parameters", "covariance_matrix") else
                            rng.choice((1, 2, 3)) for c in kvn.counts_of(kind)}
        out.append(sk)
    return out


def sys_docs(kind, comments=(0, 1, 2)):
    return [dict(base_of(kind, f), full=f, comments=c) for f in (True, False) for c in comments]


def writer_set(tier, rng, kinds=KINDS, n=6):
    """all optional parts undecided and lists of any length; plus definite messages"""
    J = [j for j in kvn.writer_jobs() if j[1]["kind"] in kinds]
    for k in kinds:
        for sk in sys_docs(k) + rnd_docs(k, rng, 40 * n if deep(tier) else n):
            J.append(("writer_skel", dict(kind=k, sk=sk)))
        for c in (1, 2):
            J.append(("writer_skel", dict(kind=k, sk=dict(base_of(k, True), full=True, comments=c, empty=True))))
    return J


def reader_set(tier, rng, kinds=KINDS, n=12, comments=(0, 1, 2), layouts=("plain",)):
    J = []
    for k in kinds:
        for lay in layouts:
            for sk in sys_docs(k, comments):
                J.append(("read_skel", dict(kind=k, sk=sk, layout=lay)))
        for sk in rnd_docs(k, rng, 30 * n if deep(tier) else n, comments):
            J.append(("read_skel", dict(kind=k, sk=sk, layout=rng.choice(layouts))))
    return J


def thresholds():
    """integer constants of the code under analysis: a count the code singles out is one of them"""
    if not THRESH:
        THRESH.add(0)
        for d, _, fs in os.walk(os.path.join(boot.REPO, "ccsds_ndm")):
            if "models" in d.split(os.sep) or "tests" in d.split(os.sep):
                continue
            for f in fs:
                if f.endswith(".py"):
                    try:
                        t = ast.parse(open(os.path.join(d, f), encoding="utf-8").read())
                    except (SyntaxError, ValueError):
                        continue
                    THRESH.update(n.value for n in ast.walk(t) if isinstance(n, ast.Constant) and type(n.value) is int)
    return THRESH


THRESH = set()


def many(tier, cap):
    """a count beyond every constant (up to cap) in the code"""
    return min(max(max((c for c in thresholds() if c <= cap), default=0) + 2, 250 if deep(tier) else 20), cap + 2)


REPEATS = {"oem": ((".state_vector", 1200), (".covariance_matrix", 60), (".segment", 120), (".metadata.comment", 1200), (".data.comment", 1200)),
           "aem": ((".attitude_state", 300), (".segment", 120), (".metadata.comment", 1200), (".data.comment", 1200)),
           "tdm": ((".observation", 1200), (".segment", 120), (".metadata.comment", 1200), (".data.comment", 1200)),
           "opm": ((".maneuver_parameters", 250), (".user_defined", 1200), (".header.comment", 1200), (".state_vector.comment", 1200)),
           "apm": ((".maneuver_parameters", 250), (".header.comment", 1200), (".quaternion_state.comment", 1200)),
           "omm": ((".user_defined", 1200), (".header.comment", 1200), (".mean_elements.comment", 1200)),
           "rdm": ((".user_defined", 1200), (".header.comment", 1200), (".metadata.comment", 1200)),
           "cdm": ((".header.comment", 1200), (".relative_metadata_data.comment", 1200))}


def big_docs(kind, tier, what=None):
    out = []
    for w, cap in REPEATS[kind]:
        if what is None or any(w.endswith(x) for x in what):
            n = many(tier, cap)
            if deep(tier) and w in (".covariance_matrix", ".segment", ".maneuver_parameters", ".attitude_state"):
                n = min(n, max(30, max((c for c in thresholds() if c <= cap), default=0) + 2))
            sk = dict(base_of(kind, w != ".state_vector"), full=w == ".covariance_matrix", comments=0, counts={w: n})
            if w == ".user_defined":
                sk["on"] = (".user_defined_parameters",)
            if kind == "aem":
                sk.update(aem_sk("quaternion_state", "LAST"))
            if kind in ("opm", "apm", "omm", "cdm", "rdm") and w.endswith(".comment"):
                sk["counts"][".data.comment"] = 1
            if w == ".segment":
                sk["counts"].update({".state_vector": 1, ".attitude_state": 1, ".observation": 1})
            out.append(sk)
    return out


def bigs(tier, kinds, what=None, how=("writer_skel", "read_skel", "roundtrip")):
    return [(h, dict(kind=k, sk=sk)) for k in kinds for sk in big_docs(k, tier, what) for h in how]


def wrt(tier, docs, kind, rt=True):
    J = []
    for sk in docs:
        J.append(("writer_skel", dict(kind=kind, sk=sk)))
        J.append(("read_skel", dict(kind=kind, sk=sk)))
        if rt:
            J.append(("roundtrip", dict(kind=kind, sk=sk)))
    return J


# ------------------------------------------------------------------ filters
def fw(*, what=None, aspect=None):
    """writer side discrepancies"""
    def f(r):
        if r["side"] == "model" and r["aspect"] == "gap":
            return True
        if r["what"] in ("exception", "text"):
            return True
        w = {r["what"], r.get("what2")}
        return (what is None or bool(w & set(what))) and (aspect is None or r["aspect"] in aspect)
    return f


def fr(*, what=None, aspect=None):
    def f(r):
        if r["side"] == "model" and r["aspect"] == "gap":
            return True
        if r["what"] == "exception":
            return True
        return (what is None or r["what"] in what) and (aspect is None or r["aspect"] in aspect)
    return f


def anyrec(r):
    return True


WALL = "The text written for every message type, with each optional element present or absent and lists of any length"
TECH_W = "abstract interpretation of the writer's source (value-provenance domain) compared with a reference layout"
TECH_R = "abstract interpretation of the reader's source on documents with opaque values, field-by-field provenance comparison"
TECH_E = "abstract interpretation with an effect trace; path-sensitive rule over the trace"
TECH_S = "abstract interpretation with heap alias/escape analysis"
TECH_M = "object model extracted from the source by abstract evaluation, compared with a frozen table"
NOTE = ("No code of the repository is executed: its source is re-parsed and interpreted over abstract values on each run. "
        "Trusted: the interpreter, the models of the standard library, xsdata and lxml in pyabs/, the reference layout in ndm/tree.py "
        "and the frozen vocabulary in spec/model.json.")
KW = ("reads and writes",)


def P(*a, **k):
    return Prop(*a, **k)


# ================================================================== entry points
def j_identify(tier, rng):
    return [("identify", dict(shape=s, lead=l, trail=t, entry=en)) for s in entry.shapes() for l in ("none", "w0")
            for t in ("none", "w0") for en in ("from_string", "from_bytes", "from_path")]


P("C01", "Input format is identified from the text itself",
  "Whatever entry point delivers it, text that (apart from surrounding white space) begins with a CCSDS version keyword is read as KVN and text enclosed in "
  "angle brackets is read as XML. Text enclosed in square brackets is reported as not implemented, and every other text is rejected with a value error. "
  "The text handed on is the text given.",
  ["inputs"], "every text of each shape: any characters after the distinguishing prefix/suffix, any leading and trailing white space, all three reading entry points",
  "Tests read a few well-formed files; which reader is chosen must be right for every text, including white space before and after, and text that looks like both.",
  [NDMF], [("format identification", NDMF + " _identify_data_format"), ("dispatch", NDMF + " NdmIo.from_string")],
  j_identify, technique=TECH_E, rule="identify: shape -> reader / error class; text handed on = text given")


def j_dispatch(tier, rng):
    J = [("dispatch", dict(entry=en, fmtname=f)) for en in ("to_string", "to_file") for f in ("XML", "KVN", "JSON", "none", "text", "int", "obj") + NOFORMAT]
    J += [("dispatch", dict(entry=en, fmtname="KVN", opts=o)) for en in ("to_string", "to_file")
          for o in (("schema_location",), ("no_namespace_schema_location",), ("schema_location", "no_namespace_schema_location"))]
    for k in KINDS:
        for f in ("XML", "KVN"):
            for how in ("str", "path", "pathlike"):
                J.append(("to_file", dict(io="ndm", kind=k, fmtname=f, how=how)))
        J += [("convert", dict(kind=k, way=(a, b))) for a in ("XML", "KVN") for b in ("XML", "KVN")]
    return J


P("C02", "The output format argument selects the writer",
  "Through the unified interface, XML output is exactly what the XML writer produces and KVN output exactly what the KVN writer produces, as text and as file. "
  "JSON is reported as not implemented and any other value of the format argument is rejected with an error. "
  "A rejected call writes no file.",
  ["inputs", "configurations"], "every format member and arbitrary other objects as format, every message type, text and file output",
  "Tests use the two valid formats on a few messages; rejection and equality with the direct writer must hold for every message and every format argument.",
  [NDMF], [("format dispatch", NDMF + " NdmIo.to_string, NdmIo.to_file")], j_dispatch, technique=TECH_E,
  rule="dispatch: result text = text of the named writer; otherwise exception of the documented class and no file event")


def j_agree(tier, rng):
    J = []
    for io in ("ndm", "xml", "kvn"):
        for k in KINDS:
            for how in ("str", "path", "pathlike"):
                for src in ("xml", "kvn"):
                    if io in ("ndm", src):
                        J.append(("read_agree", dict(io=io, src=src, kind=k, how=how)))
    odd = ("\ufeff", " ", "\n", "\t", "\x00", "#", "\u00a0", "\x0c", "\u200b", "\r\n", "x", "\x1a", "\n\n", "\r", "'", '"', "\\", "\ufffe", "\u0130")
    for io, src in (("ndm", "xml"), ("ndm", "kvn"), ("xml", "xml"), ("kvn", "kvn")):
        for k in KINDS if deep(tier) else ("opm", "aem"):
            for x in odd:
                J += [("raw_agree", dict(io=io, src=src, kind=k, pre=x)), ("raw_agree", dict(io=io, src=src, kind=k, post=x))]
                if deep(tier):
                    J += [("raw_agree", dict(io=io, src=src, kind=k, pre=x, post=y)) for y in odd]
        for x in ("", "<", "{", "{}", "<a>", "CCSDS_OPM_VERS", "CCSDS_OPM_VERS = 2.0", "<opm/>") + odd:
            J.append(("raw_agree", dict(io=io, src=src, kind="opm", mid=x)))
    return J


P("C03", "Reading a path, bytes or text gives the same message",
  "For the same content, reading a file by path, reading its bytes and reading its text give equal messages, for XML and KVN and for the unified interface. "
  "Paths may be given as text, as path objects or as other path-like objects; the file read is the one named.",
  ["inputs", "configurations"], "every message type, both formats, three interfaces, every kind of path argument, all field values",
  "Tests read by path with one kind of argument; agreement must hold for all contents and path kinds.",
  [NDMF, XMLF, KVNF], [("reading entry points", "from_path/from_bytes/from_string of NdmIo, NdmXmlIo, NdmKvnIo")], j_agree,
  selftests=[("read_agree", dict(io="bad:Lenient", src="kvn", kind="opm"))], technique=TECH_R,
  rule="agree: object tree of each entry point = the message the document stands for")


def j_tofile(tier, rng):
    J = []
    for io in ("ndm", "xml", "kvn"):
        for k in KINDS:
            for how in ("str", "path", "pathlike"):
                for f in (("XML", "KVN") if io == "ndm" else (None,)):
                    for full in (False, True):
                        J.append(("to_file", dict(io=io, kind=k, how=how, fmtname=f, full=full)))
            for f in (("XML",) if io == "ndm" else (None,) if io == "xml" else ()):
                for o in entry.OPTS[1:]:
                    J.append(("to_file", dict(io=io, kind=k, fmtname=f, opts=o)))
    return J


P("C04", "Saving stores exactly the converted text",
  "After saving a message to a path, the file at that path contains exactly the text that conversion to text returns for the same message and options. "
  "No other file is left behind, and converting to text writes nothing.",
  ["inputs", "configurations"], "every message type and content, both formats, every interface, every kind of path argument, every option combination",
  "Tests compare a few saved files; equality must hold for every message, including line ends and the final characters.",
  [NDMF, XMLF, KVNF], [("file output", "to_file of NdmIo, NdmXmlIo, NdmKvnIo")], j_tofile,
  selftests=[("to_file", dict(io="bad:Early", kind="opm"))], technique=TECH_E,
  rule="tofile: final content of the target in the file-event trace = returned text; no other file events")


def j_enc(tier, rng):
    J = []
    for io in ("ndm", "xml", "kvn"):
        for en in ("from_string", "from_bytes", "from_path"):
            for src in ("xml", "kvn"):
                if io in ("ndm", src) and not (io == "kvn" and en == "from_bytes"):
                    for k in KINDS:
                        for how in ("str", "path"):
                            J.append(("encodings", dict(io=io, entry=en, src=src, kind=k, how=how)))
        for en in ("to_string", "to_file"):
            for f in (("XML", "KVN") if io == "ndm" else (None,)):
                for k in KINDS:
                    for how in ("str", "path"):
                        J.append(("encodings", dict(io=io, entry=en, fmtname=f, kind=k, how=how)))
    return J


P("C05", "Files are UTF-8 whatever the locale",
  "Every text file the library reads or writes is decoded and encoded as UTF-8, strictly, independently of the locale of the process. "
  "The encoding an XML output declares is the encoding it is stored in.",
  ["inputs", "configurations"], "every path on which text crosses a byte boundary, all message types and interfaces, any locale",
  "Tests run in one locale with ASCII data; the encoding used is decided by arguments no test varies.",
  [NDMF, XMLF, KVNF], [("text boundaries", "from_path, from_bytes, to_file of the three interfaces")], j_enc,
  selftests=[("encodings", dict(io="bad:Locale", entry="from_path", src="kvn")), ("encodings", dict(io="bad:Locale", entry="to_file"))],
  technique=TECH_E, rule="encoding: each open/encode/decode/render event names UTF-8 and strict error handling")


def j_opts(tier, rng):
    J = []
    E3 = (("to_string", "to_string"), ("to_file", "to_string"), ("to_string", "to_file"), ("to_file", "to_file"))
    for io in ("ndm", "xml"):
        for a in range(4):
            for b in range(4):
                for en in E3:
                    for sh in (True, False):
                        J.append(("schema_options", dict(io=io, seq=(a, b), entries=en, shared=sh)))
        n = 4 if deep(tier) else 1
        for a in range(4):
            for b in range(4):
                for c in range(4):
                    for i in range(n):
                        J.append(("schema_options", dict(io=io, seq=(a, b, c), entries=tuple(rng.choice(("to_string", "to_file")) for _ in range(3)),
                                                         shared=rng.random() < .5)))
    return J


P("C06", "Schema-location options belong to the call they are given to",
  "An XML output call carries exactly the schema locations given to that call: each given location appears, unchanged and under its own attribute, "
  "and a location that was not given does not appear, whatever earlier calls were given.",
  ["inputs", "histories"], "all option values, every sequence of two or three calls with every combination of options, one or several writer objects, text and file output",
  "Tests make single calls; a leaked option needs a history of calls to show.",
  [XMLF, NDMF], [("serializer options", XMLF + " NdmXmlIo.to_string, NdmXmlIo.to_file")], j_opts,
  selftests=[("schema_options", dict(io="bad:Sticky", seq=(1, 0), entries=("to_string", "to_string"), shared=False))],
  technique=TECH_E, rule="options: the render event of call i carries the options of call i and no others")


def j_registry(tier, rng):
    J = []
    for src in ("kvn", "xml"):
        for io in ("ndm", src):
            for k in KINDS:
                J.append(("registry", dict(src=src, kind=k, io=io)))
            for k in (("CCSDS_XYZ_VERS", "CCSDS_OPM", "CCSDS_opm_VERS", "CCSDS_OPM_VERSION", "CCSDS_NDM_VERS", "CCSDS_OPMX_VERS", "CCSDS_OPM_VER", "CCSDS__VERS",
                       "above CCSDS_XYZ_VERS", "above NDM_OPM_VERS", "above COMMENT", "above ORIGINATOR", "no version line") if src == "kvn"
                      else ("xyz", "OPM", "Opm", "opmx", "header", "segment", "namespace opm default", "namespace opm", "namespace tdm default", "around xyz", "around body")):
                J.append(("registry", dict(src=src, kind=k, io=io)))
    return J


P("C07", "The message identifier decides the message type",
  "A document is read as the message type its identifier (KVN version keyword or XML root element) names, for each of the eight message types. "
  "A document with any other identifier is reported with an error instead of being read as something else.",
  ["inputs"], "each identifier in both formats and through both interfaces, with arbitrary content; unknown and near-miss identifiers, also with a valid document behind or inside them",
  "Tests hold one file per type; that the mapping is complete, exact and rejecting needs all identifiers, also invalid ones.",
  [KVNF, XMLF], [("KVN registry", KVNF + " _NdmDataType, _identify_data_type"), ("XML registry", XMLF + " NdmXmlIo.from_string/_NdmDataType")], j_registry,
  technique=TECH_R, rule="registry: class of the returned object = class of the identifier; unknown identifier -> exception on every path")


def j_strict(tier, rng):
    J = []
    places = [("before", "<header>"), ("before", "</header>"), ("before", "<body>"), ("before", "<segment>"), ("before", "<metadata>"), ("before", "</metadata>"),
              ("before", "<data>"), ("before", "</data>"), ("before", "</segment>"), ("before", "</body>"),
              ("rename", "<header>"), ("rename", "<metadata>"), ("rename", "<ORIGINATOR>"), ("cut", "<metadata>"), ("cut", "</header>"), ("cut", "</body>"),
              ("ndm", "before", "</metadata>"), ("ndm", "before", "</header>"), ("ndm", "before", "</data>")]
    for io in ("ndm", "xml"):
        for k in KINDS:
            for w in places + [("ndm", "before", "<%s " % k)]:
                J.append(("strict_xml", dict(kind=k, where=w, io=io)))
    return J


P("C08", "Undefined elements and broken XML are reported",
  "An XML document containing an element its message type does not define at that place, at any depth and also inside a combined file, is rejected with an error. "
  "The same holds for a document whose text is cut off; content is never silently dropped.",
  ["inputs"], "every message type, undefined element at each structural level, truncation at each structural level, any field values",
  "Tests read valid files only; strictness is a configuration of the parser no valid file exercises.",
  [XMLF], [("parser configuration", XMLF + " NdmXmlIo (fail on unknown properties)")], j_strict,
  technique=TECH_R, rule="strict: every path of the reader on such a document ends in an exception")


def combos(tier, rng):
    C = [((k, n),) for k in KINDS for n in (1, 2)]
    for i, k in enumerate(KINDS):
        for k2 in KINDS[i + 1:]:
            C.append(((k, 1), (k2, 1)))
    C += [((k, many(tier, 60)),) for k in KINDS]
    C += [tuple((k, 1) for k in KINDS), (("opm", 3),), (("aem", 2), ("opm", 1)), (("tdm", 1), ("oem", 2), ("cdm", 1))]
    return C


NOFORMAT = ("='XML'", "='xml'", "='KVN'", "='kvn'", "='NDMFileFormats.KVN'", "=1", "=2", "=3", "=0", "=True", "=''", "=('KVN',)")


def j_comb_read(tier, rng):
    return [("combined_read", dict(counts=c, extras=ex, io=io)) for io in ("ndm", "xml") for ex in (True, False) for c in combos(tier, rng) + [()]
            if c or ex] + \
        [("combined_read", dict(counts=c, extras=False, io="xml", decl=False)) for c in combos(tier, rng)[:20]]


P("C09", "Combined files are read completely",
  "Reading a combined file gives every message it contains, each as its own type, in order and with its own content. "
  "A combined file with exactly one message is returned as that message; with several it is returned as the combined message.",
  ["inputs"], "every single type, two of the same type, every pair of types, all types together, with and without message id and comments, all values",
  "Tests hold three combined files; the selection of the single message and completeness must hold for every combination.",
  [XMLF], [("combined files", XMLF + " _is_multi_ndm, _strip_multi_ndm, NdmXmlIo.from_string")], j_comb_read, technique=TECH_R,
  rule="combined: returned tree = single message / complete combined message")


def j_comb_write(tier, rng):
    J = [("combined_write", dict(counts=c, extras=ex, io=io, entry=en)) for io in ("ndm", "kvn") for ex in (True, False) for c in combos(tier, rng)
         for en in ("to_string", "to_file")]
    if not deep(tier):
        J = [j for i, j in enumerate(J) if len(j[1]["counts"]) == 1 or i % 2 == 0]
    for io in ("ndm", "kvn"):
        for en in ("to_string", "to_file"):
            J += [("combined_write", dict(counts=(), extras=ex, io=io, entry=en)) for ex in (True, False)]
            J += [("combined_write", dict(counts=((k, n),), io=io, entry=en, alias=True)) for k in KINDS for n in (2, 3)]
    return J


P("C10", "Combined messages in KVN: one is written, several are refused",
  "A combined message holding a single message is written to KVN exactly as that message. "
  "A combined message holding several messages, of the same or different types, is refused with a not-implemented error and no file is touched.",
  ["inputs"], "every single type, two of the same type, every pair of types, all types together, with and without message id and comments",
  "Tests try one combined message; the decision must be right for every combination.",
  [KVNF, XMLF], [("combined check", KVNF + " NdmKvnIo.to_string"), ("counting", XMLF + " _is_multi_ndm")], j_comb_write, technique=TECH_E,
  rule="combined: text = text of the single message, or NotImplementedError and no file event")

# ================================================================== object model
ARITH = "the generated classes are data: every one of several hundred classes and several thousand fields must be right, tests touch a few dozen"
P("C11", "The object model has the standard's elements, names and order",
  "Every message part offers exactly the elements of the standard, with the element names, attribute or element kind, repetition, value types and order the "
  "standard gives them, so that any standard document can be represented and is written in schema order.",
  ["inputs"], "every class and field of the object model", "Tests build a few messages; " + ARITH + ".",
  [MODF], [("generated model", MODF + "/*.py")],
  lambda t, r: [("model", dict(part="vocabulary")), ("exports", {})] + [(n, dict(kind=k, full=f, comments=1)) for k in KINDS for f in (True, False) for n in ("xml_write", "xml_read")],
  lambda r: r["side"] in ("model",) or r["side"] in ("xmlwrite", "xmlread"), technique=TECH_M, rule="model/vocabulary: extracted table = frozen table")
P("C12", "Enumerations and units have the standard's values",
  "Every enumerated element accepts exactly the values of the standard, spelled as in the standard, and every unit of measure is the standard's unit for its quantity.",
  ["inputs"], "every enumeration member of the object model", "Tests use a handful of the values; " + ARITH + ".",
  [MODF], [("generated model", MODF + "/*.py")], lambda t, r: [("model", dict(part="enums"))],
  lambda r: r["side"] == "model", technique=TECH_M, rule="model/enums: extracted members = frozen members")
P("C13", "Occurrence, default and value constraints are the standard's",
  "Mandatory elements are marked mandatory, optional ones default to absent, identifiers and versions have their fixed values, and value ranges, patterns and "
  "occurrence limits are those of the standard. New messages built without arguments share no mutable part.",
  ["inputs"], "every field of the object model; every pair of newly built objects", "Tests use a handful of the fields; " + ARITH + ".",
  [MODF], [("generated model", MODF + "/*.py")], lambda t, r: [("model", dict(part="constraints")), ("defaults", {})],
  lambda r: r["side"] == "model", technique=TECH_M, rule="model/constraints: extracted metadata = frozen metadata; default objects disjoint")

# ================================================================== KVN writer
WHY_W = "Tests compare the output of a dozen files; a line can be lost or altered for an optional element, list length or value none of them has."
P("C14", "Every element of a message is written to KVN once, under its keyword, in order",
  "The KVN text of a message starts with its version line and contains, in the standard's order, exactly one line per present element, under the keyword of that element "
  "in upper case, and nothing for absent elements. Nothing else is written.",
  ["inputs"], WALL, WHY_W, [KVNF], [("KVN writer", KVNF + " NdmKvnIo.to_string, _collate_str_out, _collate_str_out_subclasses")],
  writer_set, fw(what=("kv", "unitkv", "user", "list", "comment", "marker", "data", "?"), aspect=("key", "missing", "extra", "text", "exception")),
  technique=TECH_W, rule="write: line sequence = reference sequence under every presence choice")
P("C15", "Values are written to KVN unchanged",
  "The value on each KVN line is exactly the value of the element: text verbatim, numbers with the digits they have, enumerated values as the standard spells them. "
  "This holds for every value, including zero, negative, very small and very large numbers and texts with any characters.",
  ["inputs"], WALL + "; every value", WHY_W, [KVNF], [("value formatting", KVNF + " _fill_str_out_kvn, _collate_special_data_str_out")],
  writer_set, fw(aspect=("value", "columns", "missing", "exception", "text"), what=("kv", "unitkv", "user", "att", "sv", "cov", "tdm", "list")),
  technique=TECH_W, rule="write/value: provenance of the value text = the element, no conversion in between")
P("C16", "Units are written with the value they belong to",
  "An element carrying a unit is written with exactly that unit in square brackets after its value; an element without a unit is written without brackets.",
  ["inputs"], WALL + "; units present or absent independently", WHY_W, [KVNF], [("unit formatting", KVNF + " _collate_str_out_subclasses, _fill_str_out_kvn")],
  writer_set, fw(aspect=("unit", "key", "missing", "extra", "exception", "text"), what=("unitkv", "kv")), technique=TECH_W,
  rule="write/unit: provenance of the bracketed text = the units attribute of the same element")
P("C17", "Every comment is written, in its place",
  "Each comment of each part of a message is written as one comment line, verbatim and in order, at the beginning of the part it belongs to.",
  ["inputs"], WALL + "; any number of comments with any text", WHY_W, [KVNF], [("comments", KVNF + " _collate_str_out_subclasses, _collate_special_data_str_out")],
  lambda t, r: writer_set(t, r, n=8) + bigs(t, KINDS, ("comment",), ("writer_skel",)), fw(what=("comment",)), technique=TECH_W, rule="write/comment: comment lines = comments of the reference")
P("C18", "Block markers delimit exactly the blocks they name",
  "In ephemeris, attitude and tracking messages every metadata, data and covariance block is enclosed by its own start and stop markers, once per block, "
  "nested correctly, and no marker is written where there is no such block.",
  ["inputs"], WALL + "; any number of segments, data lines and covariance matrices", WHY_W, [KVNF],
  [("markers", KVNF + " _collate_special_header_str_out, _collate_str_out_subclasses")],
  lambda t, r: writer_set(t, r, ("aem", "oem", "tdm"), 40) + writer_set(t, r, ("opm", "apm", "omm", "cdm", "rdm"), 2) +
  bigs(t, ("aem", "oem", "tdm"), ("segment", "covariance_matrix"), ("writer_skel",)),
  fw(what=("marker",)), technique=TECH_W, rule="write/marker: marker lines = markers of the reference")


def j_att_write(tier, rng):
    J = [("writer", dict(kind="aem", att=a, qt=q)) for a in ATTS for q in (("FIRST", "LAST", "first", "last") if a in QUAT else (None,))]
    J += [("writer_skel", dict(kind="aem", sk=sk)) for sk in aem_matrix(tier)]
    for a in ATTS:
        for b in ATTS:
            J.append(("writer_skel", dict(kind="aem", sk=two_seg(a, b))))
    return J + bigs(tier, ("aem",), ("attitude_state",), ("writer_skel",))


def two_seg(a, b, **k):
    return dict(full=False, att=(a, b), qt=tuple("FIRST" if x in QUAT else None for x in (a, b)) if a != b else ("FIRST" if a in QUAT else None, "LAST" if a in QUAT else None),
                seq=tuple(s if x in EUL else None for x, s in ((a, "312"), (b, "121"))), counts={".segment": 2}, **k)


P("C19", "Attitude data lines are written with the columns of their attitude type",
  "Every attitude data line consists of its epoch followed by the components its attitude type defines, each once and in the standard's column order; "
  "quaternion components come scalar-first or scalar-last as the metadata says, and angles and rates in the order of the rotation sequence.",
  ["inputs", "configurations"], "seven attitude types, both quaternion orders, twelve rotation sequences, both spellings, several segments, any number of lines and any values",
  "Tests hold three attitude files; each of the type/order/sequence combinations has its own column order.",
  [KVNF], [("attitude lines", KVNF + " _collate_special_data_str_out")], j_att_write,
  fw(what=("att", "data", "?", "list"), aspect=None), technique=TECH_W, rule="write/att: provenance of column i = component i of the reference order")


def j_att_read(tier, rng):
    J = [("read_skel", dict(kind="aem", sk=sk)) for sk in aem_matrix(tier)]
    for a in ATTS:
        for b in ATTS:
            J.append(("read_skel", dict(kind="aem", sk=two_seg(a, b))))
        J.append(("read_skel", dict(kind="aem", sk=aem_sk(a, "LAST", "231", full=True, counts={".attitude_state": 3}))))
        J.append(("read_skel", dict(kind="aem", sk=aem_sk(a, "FIRST", "213", full=True, comments=2, counts={".attitude_state": 1}))))
        J.append(("read_skel", dict(kind="aem", sk=aem_sk(a, "FIRST", "213", full=False), layout="tabs")))
        J.append(("roundtrip", dict(kind="aem", sk=aem_sk(a, "FIRST", "213", full=False))))
    return J + bigs(tier, ("aem",), ("attitude_state",), ("read_skel",))


P("C20", "Attitude data lines are read into the components of their attitude type",
  "Every column of an attitude data line is stored in the component the segment's attitude type, quaternion order and rotation sequence assign to it, with its exact value; "
  "each segment is read by its own metadata.",
  ["inputs", "configurations"], "seven attitude types, both quaternion orders, twelve rotation sequences, both spellings, every pair of types in two segments, any values",
  "Tests hold three attitude files; each of the type/order/sequence combinations has its own column order.",
  [KVNF], [("attitude lines", KVNF + " __prepare_aemsegment_sub_objects, __xmlify_att_segment_data")], j_att_read,
  fr(what=("att", "kv", "exception", "event"), aspect=None), technique=TECH_R, rule="read/att: provenance of component i = column i")


def j_oem(tier, rng):
    D = []
    for acc in (True, False):
        for n in (1, 2, 3):
            for s in (1, 2, 3):
                for full in (True, False):
                    D.append(dict(acc=acc, full=full, counts={".state_vector": n, ".segment": s, ".covariance_matrix": 0}))
        for c in (0, 1, 2):
            D.append(dict(acc=acc, full=True, comments=c))
    # acceleration columns on some lines only
    for i in (0, 1, 2):
        D.append(dict(acc=False, full=False, counts={".state_vector": 3}, on=tuple("state_vector[%d].%s_ddot" % (i, x) for x in "xyz")))
        D.append(dict(acc=False, full=False, counts={".segment": 2}, on=tuple("segment[%d].data.state_vector[0].%s_ddot" % (i % 2, x) for x in "xyz")))
    D += rnd_docs("oem", rng, 300 if deep(tier) else 15)
    J = wrt(tier, D, "oem") + [("writer", dict(kind="oem", acc=a)) for a in (True, False)]
    J += [("read_skel", dict(kind="oem", sk=dict(acc=a, full=True), layout=l)) for l in LAYOUTS for a in (True, False)]
    return J + bigs(tier, ("oem",), ("state_vector",))


P("C21", "Ephemeris lines carry epoch, position, velocity and acceleration in order",
  "Every ephemeris data line is written and read as epoch, three position, three velocity and, if given, three acceleration components in that order with exact values, "
  "for every line of every segment.",
  ["inputs"], "with and without accelerations (also mixed), any number of lines and segments, any values",
  "Tests hold four ephemeris files with similar shapes.",
  [KVNF], [("state vectors", KVNF + " __build_special_objects, _collate_special_data_str_out")], j_oem,
  lambda r: fw(what=("sv", "data", "list", "?"))(r) or fr(what=("sv", "exception", "event"))(r) or ".state_vector" in r["path"],
  technique=TECH_W + " / reader", rule="sv: provenance of column i = component i")


def j_cov(tier, rng):
    D = []
    for n in (0, 1, 2, 3):
        for full in (True, False):
            for c in (0, 1, 2):
                D.append(dict(acc=False, full=full, comments=c, counts={".covariance_matrix": n}))
        for s in (1, 2, 3):
            D.append(dict(acc=True, full=True, counts={".covariance_matrix": n, ".segment": s, ".state_vector": 1}))
    for i in range(3):
        D.append(dict(acc=False, full=True, counts={".covariance_matrix": 3}, off=("covariance_matrix[%d].cov_ref_frame" % i,)))
        D.append(dict(acc=False, full=False, counts={".covariance_matrix": 3}, on=("covariance_matrix[%d].cov_ref_frame" % i,)))
        D.append(dict(acc=False, full=True, comments=0, counts={".covariance_matrix": 3, ".covariance_matrix[%d].comment" % i: 2}))
        D.append(dict(acc=False, full=True, counts={".segment[0].data.covariance_matrix": i, ".segment[1].data.covariance_matrix": 2 - i, ".segment": 2}))
    D += rnd_docs("oem", rng, 200 if deep(tier) else 10)
    J = wrt(tier, D, "oem") + [("writer", dict(kind="oem", acc=a)) for a in (True, False)]
    J += [("read_skel", dict(kind="oem", sk=dict(acc=False, full=True, counts={".covariance_matrix": 2}), layout=l)) for l in LAYOUTS]
    return J + bigs(tier, ("oem",), ("covariance_matrix",))


P("C22", "Ephemeris covariance matrices are kept element by element",
  "Each covariance matrix of an ephemeris message is written and read as its epoch, its reference frame if given, its comments and its lower triangle row by row, every element in its own "
  "place with its exact value, for any number of matrices in any segment.",
  ["inputs"], "zero to three matrices per segment, one to three segments, frame and comments present or absent per matrix, any values",
  "Tests hold one ephemeris file with covariance.",
  [KVNF], [("covariance", KVNF + " __build_special_objects, _identify_special_sub_segments, _collate_special_data_str_out")], j_cov,
  lambda r: fw(what=("cov", "data", "list", "?", "marker"))(r) or fr(what=("cov", "exception", "event"))(r) or ".covariance_matrix" in r["path"] or r["what"] in ("comment",),
  technique=TECH_W + " / reader", rule="cov: provenance of element (i,j) = position (i,j)")


def j_tdm(tier, rng):
    n = len([f for f in entry.fields_of("TrackingDataObservationType") if f["name"] != "epoch"])
    D = [dict(full=False, obs=(i, i), comments=0) for i in range(n)]
    D += [dict(full=False, obs=(i, (i + 1) % n, i), counts={".observation": 3}, comments=1) for i in range(n)]
    for s in (1, 2, 3):
        for full in (True, False):
            D.append(dict(full=full, counts={".segment": s, ".observation": 4}))
    D.append(dict(full=True, counts={".observation": n}))
    D.append(dict(full=True, counts={".observation": n}, obs=tuple(reversed(range(n)))))
    D += rnd_docs("tdm", rng, 150 if deep(tier) else 6)
    J = [("writer", dict(kind="tdm"))]
    for i, sk in enumerate(D):
        J += wrt(tier, [sk], "tdm", rt=deep(tier) or i % 3 == 0)
    J += [("read_skel", dict(kind="tdm", sk=dict(full=False), layout=l)) for l in LAYOUTS]
    return J + bigs(tier, ("tdm",), ("observation",))


P("C23", "Tracking data lines keep type, epoch and value",
  "Every tracking data line is written and read as its observation keyword, its epoch and its value, for every observation type of the standard, in the given order and with exact epoch and value.",
  ["inputs"], "every observation type alone, repeated and mixed, any number of lines and segments, any values",
  "Tests hold a dozen tracking files covering a part of the observation types.",
  [KVNF], [("observations", KVNF + " __build_special_objects, _identify_special_sub_segments, _collate_special_data_str_out")], j_tdm,
  lambda r: fw(what=("tdm", "data", "list", "?", "kv"))(r) or fr(what=("tdm", "exception", "event"))(r) or ".observation" in r["path"],
  technique=TECH_W + " / reader", rule="tdm: provenance of (keyword, epoch, value)")

# ================================================================== KVN reader
WHY_R = "Tests read about forty files and look at few fields; a value can end in the wrong field for a combination of optional elements none of them has."
QR = "every message type; documents with all, none and random subsets of the optional elements, repeated blocks, several segments; every value of every field"
P("C24", "Every KVN value is read into its own field, unchanged",
  "Each value of a KVN document is found, after reading, in the field its keyword and block denote and nowhere else: text verbatim, numbers with their exact digits, "
  "enumerated values as the member spelled that way.",
  ["inputs"], QR, WHY_R, [KVNF], [("KVN reader", KVNF + " NdmKvnIo.from_string, __build_object_tree, _xmlify_list")],
  lambda t, r: reader_set(t, r, n=25) + bigs(t, KINDS, how=("read_skel",)), fr(what=("kv", "user", "att", "sv", "cov", "tdm", "event", "unit")), technique=TECH_R, rule="read/value: provenance of each field = its line")
P("C25", "Units in KVN input are kept with their value",
  "A unit given in square brackets after a value is found, after reading, as the unit of exactly that value; values without brackets have no unit.",
  ["inputs"], QR + "; units present or absent independently", WHY_R, [KVNF], [("units", KVNF + " _pre_process_kvn_data, _xmlify_list")],
  lambda t, r: reader_set(t, r, n=14, layouts=("plain", "tight", "anyspace", "writer")) + [
      ("read_skel", dict(kind=k, sk=sk)) for k in ("opm", "apm", "omm", "rdm", "cdm") for sk in kvn.presence_docs(k)
      if any(q.endswith("units") for q in sk.get("on", ()) + sk.get("off", ()))][::1 if deep(t) else 3],
  fr(what=("unit", "event", "kv")), technique=TECH_R, rule="read/unit: provenance of each units attribute = bracketed text of its line")
P("C26", "Comments in KVN input are kept in order with their part",
  "Every comment line of a KVN document is found, after reading, verbatim and in order among the comments of the part it precedes; no comment is lost or moved to another part.",
  ["inputs"], QR + "; zero to three comments per part", WHY_R, [KVNF], [("comments", KVNF + " __process_comment_lines, __identify_sub_segments")],
  lambda t, r: reader_set(t, r, n=16, comments=(0, 1, 2, 3), layouts=("plain", "commenteq", "commenttight", "anyspace", "crlf")) + comment_docs(t) + bigs(t, KINDS, ("comment",), ("read_skel",)),
  fr(what=("comment", "event"), aspect=None), technique=TECH_R, rule="read/comment: comment lists = comment lines of the part")


def comment_docs(tier):
    """comments in one part only"""
    J = []
    for k in KINDS:
        parts = []

        class S(kvn.Skel):
            def count(self, p, f):
                if f["name"] == "comment":
                    parts.append(p[len(k):])
                return kvn.Skel.count(self, p, f)
        kvn.gen(kvn.ROOTS[k], k, S(**dict(base_of(k, True), full=True)))
        for p in sorted(set(parts)):
            for n in (1, 2) if not p.endswith(".data.comment") or k in ("aem", "oem", "tdm") else (1,):
                for full in (True, False):
                    c = {p: n}
                    d = p.rpartition(".data.")
                    if d[0] and d[2].count(".") == 1 and k not in ("aem", "oem", "tdm"):
                        # without a comment of the data section itself a comment in front of the
                        # first block may belong to either of them
                        c[d[0] + ".data.comment"] = 1
                    J.append(("read_skel", dict(kind=k, sk=dict(base_of(k, True), full=full, comments=0, counts=c))))
    return J


P("C27", "Absent optional elements stay absent and present ones are kept",
  "After reading a KVN document, an optional element or block is present in the message if and only if the document gives it, whatever other optional elements are present or absent.",
  ["inputs"], "every optional element of every message type: absent from the complete document, present alone in the minimal one, and in random combinations",
  "Tests use about forty fixed combinations out of an exponential number.",
  [KVNF], [("structure", KVNF + " __identify_sub_sub_segments, __build_object_tree, _get_min_max_indices")],
  lambda t, r: [("read_skel", dict(kind=k, sk=sk)) for k in KINDS for sk in thin(k, kvn.presence_docs(k), t)] + reader_set(t, r, n=8) + bigs(t, KINDS, how=("read_skel",)),
  fr(aspect=("absent", "present", "count", "structure", "value", "exception")), technique=TECH_R, rule="read/presence: field is set <=> line exists")


def thin(k, docs, tier):
    """the covariance elements and units of large messages are alike: quick runs take every third of them"""
    if deep(tier) or k in ("aem", "oem", "tdm", "apm"):
        return docs
    out, n = [], 0
    for d in docs:
        q = (d.get("on") or d.get("off"))
        q = d["off"][0] if d.get("off") else max(d["on"], key=len)
        if q.endswith("units") or "covariance" in q or ".segment[1]" in q:
            n += 1
            if n % 4:
                continue
        out.append(d)
    return out


def j_seg(tier, rng):
    J = []
    for k in ("aem", "oem", "tdm"):
        D = []
        for s in (1, 2, 3, 4):
            for full in (True, False):
                for c in (0, 1, 2):
                    D.append(dict(base_of(k, full), full=full, comments=c, counts={".segment": s}))
        opts = [q for q, t in kvn.optionals(k, dict(base_of(k, True)))]
        for q in opts:
            if ".segment[0]" in q:
                for i in (0, 1):
                    q2 = q.replace(".segment[0]", ".segment[%d]" % i)
                    D.append(dict(base_of(k, True), full=False, on=(q2,), counts={".segment": 2}))
                    D.append(dict(base_of(k, True), full=True, off=(q2,), counts={".segment": 2}))
        for i in (0, 1, 2):
            for w in ("state_vector", "attitude_state", "observation", "covariance_matrix"):
                if (w in ("state_vector", "covariance_matrix")) == (k == "oem") and (w == "attitude_state") == (k == "aem"):
                    D.append(dict(base_of(k, True), full=True, counts={".segment[%d].data.%s" % (i, w): 3, ".segment": 3}))
            for w in ("metadata", "data"):
                D.append(dict(base_of(k, True), full=True, comments=0, counts={".segment[%d].%s.comment" % (i, w): 2, ".segment": 3}))
        D += rnd_docs(k, rng, 200 if deep(tier) else 10)
        for i, sk in enumerate(D):
            J += [("read_skel", dict(kind=k, sk=sk)), ("writer_skel", dict(kind=k, sk=sk))]
            if deep(tier) or i % 4 == 0:
                J.append(("roundtrip", dict(kind=k, sk=sk)))
    for a in ATTS:
        for b in ATTS:
            J += [("read_skel", dict(kind="aem", sk=two_seg(a, b)))]
    for sk in sys_docs("cdm") + rnd_docs("cdm", rng, 60 if deep(tier) else 6):
        J += wrt(tier, [sk], "cdm")
    return J + bigs(tier, ("aem", "oem", "tdm"), ("segment",))


P("C28", "Segments and objects stay separate",
  "In a message with several segments (or the two objects of a conjunction message) every value, comment and data line is written to and read from its own segment, "
  "in order, also when the segments differ in their optional elements, number of data lines or attitude type.",
  ["inputs"], "one to four segments, each optional element in one segment only, differing numbers of lines and comments, both objects of conjunction messages",
  "Tests hold few multi-segment files whose segments look alike.",
  [KVNF], [("segments", KVNF + " __identify_list, _get_segment_limit, __build_object_tree")], j_seg, anyrec, technique=TECH_R,
  rule="segment: provenance of segment i = block i")


ODDNAMES = (("_A", "A", "__A"), ("A_", "A", "A__"), ("A_B", "A", "B"), ("_", "1", "A1"), ("USER_DEFINED", "USER_DEFINED_A", "DEFINED"),
            ("COMMENT", "EPOCH", "X"), ("PARAMETER", "VALUE", "UNITS"), ("A.B", "A-B", "A/B"), ("A:B", "#A", "A#"), ("[A]", "A]", "(A)"),
            ("META_START", "CCSDS_OPM_VERS", "ID"), ("A&B", "A<B", "A>B"), ("\'A", '"A', "A;"), ("\u00c4", "\u0416", "A\u00c4"))


def j_rep(tier, rng):
    J = []
    for k, w, ns in (("opm", "maneuver_parameters", (0, 1, 2, 3, 4)), ("apm", "maneuver_parameters", (0, 1, 2, 3, 4)),
                     ("opm", "user_defined", (1, 2, 3, 5)), ("omm", "user_defined", (1, 2, 3, 5)), ("rdm", "user_defined", (1, 2, 3, 5))):
        for n in ns:
            for full in (True, False):
                for c in (0, 1, 2):
                    on = (".user_defined_parameters",) if w == "user_defined" else ()
                    J += wrt(tier, [dict(full=full, comments=c, counts={"." + w: n}, on=on)], k, rt=deep(tier) or c == 1)
        if w == "user_defined":
            # names of any form
            for nm in ODDNAMES:
                for c in (0, 1):
                    J += wrt(tier, [dict(full=bool(c), comments=c, counts={".user_defined": len(nm)}, on=(".user_defined_parameters",), names=nm)], k)
            # parameters of the same name
            for nm in ("A", "AB", "ABCABABCA", "ABBA") + tuple("".join(rng.choice("ABC") for _ in range(6)) for _ in range(20 if deep(tier) else 2)):
                for c in (0, 1):
                    J += wrt(tier, [dict(full=bool(c), comments=c, counts={".user_defined": max(len(nm), 3)}, on=(".user_defined_parameters",), names=nm)], k)
        if w == "maneuver_parameters":
            for i in range(3):
                J += wrt(tier, [dict(full=True, comments=0, counts={".maneuver_parameters[%d].comment" % i: 2, ".maneuver_parameters": 3})], k)
                J += wrt(tier, [dict(full=False, comments=1, on=tuple(q for q, t in kvn.optionals(k, {}) if ("maneuver_parameters[%d]" % i) in q.replace("[0]", "[%d]" % i)),
                                     counts={".maneuver_parameters": 3})], k)
    for k in ("opm", "apm", "omm", "rdm"):
        for sk in rnd_docs(k, rng, 100 if deep(tier) else 8):
            J += wrt(tier, [sk], k, rt=False)
        J.append(("writer", dict(kind=k)))
    return J + bigs(tier, ("opm", "apm", "omm", "rdm"), ("maneuver_parameters", "user_defined"))


P("C29", "Maneuvers and user-defined parameters are all kept, in order",
  "Every maneuver block and every user-defined parameter of a message is written and read, in order, each with its own comments, units and values, for any number of them.",
  ["inputs"], "zero to four maneuvers, one to five user-defined parameters, with comments and optional elements varying per block; lists of any length in the writer",
  "Tests hold files with at most a few repeated blocks that look alike.",
  [KVNF], [("lists", KVNF + " __identify_list, _xmlify_list"), ("writer lists", KVNF + " _collate_str_out_subclasses")], j_rep,
  lambda r: True, technique=TECH_R, rule="repeat: provenance of element i = block i")


def j_layout(tier, rng):
    J = []
    for k in KINDS:
        for lay in LAYOUTS:
            for full in (True, False):
                J.append(("read_skel", dict(kind=k, sk=dict(base_of(k, full), full=full, comments=1), layout=lay)))
        for sk in rnd_docs(k, rng, 150 if deep(tier) else 10):
            J.append(("read_skel", dict(kind=k, sk=sk, layout=rng.choice(tuple(LAYOUTS)))))
    return J


P("C30", "White space and line ends do not change what is read",
  "A KVN document gives the same message whatever white space surrounds keywords, equal signs, values, columns and units, whether lines end in line feed or carriage return and line feed, "
  "and wherever blank lines stand; comment lines may have an equal sign.",
  ["inputs"], "twelve layouts including arbitrary runs of white space at every place the standard allows it; every message type, full, minimal and random contents",
  "Tests read files in two or three layouts; each layout must work for every keyword and line kind.",
  [KVNF], [("line splitting", KVNF + " _pre_process_kvn_data")], j_layout, anyrec, technique=TECH_R, rule="layout: result independent of the layout")


def j_special(tier, rng):
    J = []
    for k in KINDS:
        for f in (True, False):
            for c in (1, 2):
                sk = dict(base_of(k, f), full=f, comments=c)
                for d in [sk] + [dict(sk, exotic=i) for i in (0, 1, 2, 4, 7, 12)]:
                    J.append(("read_skel", dict(kind=k, sk=d)))
                    J.append(("roundtrip", dict(kind=k, sk=d)))
                J.append(("read_skel", dict(kind=k, sk=sk, layout="tight")))
                J.append(("read_skel", dict(kind=k, sk=sk, layout="anyspace")))
        for sk in rnd_docs(k, rng, 60 if deep(tier) else 8):
            J.append(("read_skel", dict(kind=k, sk=sk)))
        J.append(("convert", dict(kind=k, way=("KVN", "XML"))))
        J.append(("convert", dict(kind=k, way=("XML", "KVN"))))
    return J


P("C31", "No character in a KVN value or comment is taken for markup",
  "Values and comments of a KVN document may contain any characters, including those with a meaning in XML, brackets and equal signs; they are kept verbatim and never alter the structure of the message.",
  ["inputs"], "every text value and comment of every message type, any characters the format allows in a line",
  "Tests use plain values; one unescaped place is enough to corrupt or reject a valid message.",
  [KVNF], [("escaping", KVNF + " _xmlify_list, _xmlify_single_elem, _xmlify_root")], j_special,
  lambda r: r["what"] in ("event", "exception", "convert") or r["aspect"] in ("value", "gap", "comment", "text", "structure", "count", "absent"), technique=TECH_R + "; taint rule for unescaped text in markup",
  rule="special: no opaque text reaches markup unescaped (event rule) and every text comes back verbatim")


def j_rt(tier, rng):
    J = []
    for k in KINDS:
        for sk in sys_docs(k, (0, 1, 2)) + rnd_docs(k, rng, 200 if deep(tier) else 20):
            J.append(("roundtrip", dict(kind=k, sk=sk)))
    for sk in aem_matrix(tier)[::1 if deep(tier) else 5]:
        J.append(("roundtrip", dict(kind="aem", sk=sk)))
    for a in ATTS:
        for b in ATTS[::1 if deep(tier) else 3]:
            J.append(("roundtrip", dict(kind="aem", sk=two_seg(a, b))))
    for s in (2, 3):
        for k in ("oem", "tdm", "aem"):
            J.append(("roundtrip", dict(kind=k, sk=dict(base_of(k, True), full=True, counts={".segment": s}))))
    return J


P("C32", "Writing to KVN and reading back gives the same message",
  "For every message that KVN can express, reading the text the library writes gives a message equal to the original in every field, comment, unit and data line.",
  ["inputs"], QR + "; attitude types, orders and sequences; several segments", "Tests round-trip about forty files.",
  [KVNF], [("writer and reader", KVNF + " NdmKvnIo.to_string, NdmKvnIo.from_string")], j_rt, anyrec,
  technique="abstract interpretation of writer and reader composed, field-by-field provenance comparison", rule="roundtrip: read(write(m)) = m")


# ================================================================== state, effects, failures
def j_mut(tier, rng):
    J = []
    for k in KINDS:
        for a in (ATTS if k == "aem" else (None,)):
            for nv in (False, True):
                J.append(("no_mutation", dict(io="kvn", kind=k, att=a, qt="LAST" if a and a[0] == "q" else None, acc=k == "oem", novalue=nv)))
        for f in ("XML", "KVN"):
            for en in ("to_string", "to_file"):
                for full in (True, False):
                    J.append(("no_mutation", dict(io="ndm", kind=k, fmtname=f, mode="skel", entry=en, sk=dict(base_of(k, full), full=full))))
                for sk in rnd_docs(k, rng, 20 if deep(tier) else 2):
                    J.append(("no_mutation", dict(io="ndm", kind=k, fmtname=f, mode="skel", entry=en, sk=sk)))
        for a in ATTS if k == "aem" else (None,):
            for f in ("KVN", "XML"):
                for en in ("to_string", "to_file"):
                    J.append(("no_mutation", dict(io="ndm", kind=k, fmtname=f, mode="skel", entry=en, loose=True,
                                                  sk=dict(dict(base_of(k, True), full=True), **(dict(att=a, qt="LAST" if a in QUAT else None) if a else {})))))
        J.append(("no_mutation", dict(io="xml", kind=k, mode="skel", sk=dict(base_of(k, True), full=True))))
        for n in (1, 2):
            for io, f in (("kvn", None), ("ndm", "KVN"), ("ndm", "XML"), ("xml", None)):
                J.append(("no_mutation", dict(io=io, kind=k, counts=((k, n),), fmtname=f)))
    return J


P("C33", "Writing never changes the message",
  "Converting a message to text or saving it, in either format and whether it succeeds or is refused, leaves the message and everything reachable from it as it was.",
  ["inputs"], "every message type with every optional element present or absent and lists of any length, combined messages, both formats, text and file output",
  "Tests look at the output, not at the message afterwards, and only for a few messages.",
  [KVNF, XMLF], [("writer", KVNF + " NdmKvnIo.to_string"), ("combined stripping", XMLF + " _strip_multi_ndm")], j_mut,
  selftests=[("no_mutation", dict(io="bad:Mutate", kind="opm")), ("no_mutation", dict(io="bad:MutateList", kind="opm", mode="skel", sk=dict(full=True)))],
  technique=TECH_S, rule="mutation: no heap write to an object reachable from the argument on any path")
VIAS = (("kvn", "kvn"), ("xml", "xml"), ("ndm", "xml"), ("ndm", "kvn"))


def j_hist(tier, rng):
    J = []
    for io, src in VIAS:
        for k in KINDS:
            for k2 in KINDS:
                if deep(tier) or src == "xml" or k == k2 or rng.random() < .5:
                    for sh in (True, False) if deep(tier) or k == k2 else (True,):
                        J.append(("history_read", dict(io=io, steps=((src, k, "a"), (src, k2, "b")), shared=sh)))
            J.append(("history_read", dict(io=io, steps=((src, k, "a"), (src, "bad"), (src, k, "a", True)), shared=True)))
            J.append(("history_read", dict(io=io, steps=((src, k, "a"), (src, k, "a"), (src, k, "b")), shared=True)))
            J.append(("history_read", dict(io=io, steps=((src, k, "a", True), (src, k, "b")), shared=True)))
            J.append(("history_read", dict(io=io, steps=((src, k, "a"), (src, k, "b", True)), shared=False)))
            J.append(("history_edit", dict(io=io, kind=k, fmtname=src.upper() if io == "ndm" else None)))
            for st in (((k, "a"), (k, "b"), ("opm", "c"), (k, "a")), ((k, "a"), (k, "a"))):
                J.append(("history_write", dict(io=io, steps=st, fmts=[src.upper() if io == "ndm" else None] * len(st))))
        for i in range(120 if deep(tier) else 8):
            n = rng.choice((3, 4))
            J.append(("history_read", dict(io=io, steps=tuple((src, rng.choice(KINDS), rng.choice("abc"), rng.random() < .3) for _ in range(n)),
                                           shared=rng.random() < .7)))
        n = many(tier, 70) if not deep(tier) else 72
        J.append(("history_read", dict(io=io, steps=tuple((src, "opm", "a%d" % i) for i in range(n)) + ((src, "opm", "a0"),), shared=True)))
        J.append(("history_read", dict(io=io, steps=((src, "bad"),) * n + ((src, "opm", "a"),), shared=True)))
        J.append(("history_write", dict(io=io, steps=tuple(("opm", "a%d" % i) for i in range(n)) + (("opm", "a0"),), fmts=[src.upper() if io == "ndm" else None] * (n + 1))))
    for k in KINDS:
        J.append(("read_then_write", dict(kind=k)))
        J.append(("history_write", dict(io="ndm", steps=((k, "a"), (k, "a"), (k, "b"), (k, "b")), fmts=["XML", "KVN", "KVN", "XML"])))
        J.append(("history_read", dict(io="ndm", steps=(("xml", k, "a"), ("kvn", k, "a"), ("xml", k, "b")), shared=True)))
        J.append(("history_read", dict(io="xml", steps=(("xml", "combined"), ("xml", k, "b"), ("xml", "combined")), shared=True)))
    return J


P("C34", "Each call depends on its own arguments only",
  "Reading or writing gives the same result whatever the same object, or other objects of the library, were used for before, including failed calls. "
  "Results of different reads share no mutable part, so editing one message never changes another.",
  ["histories", "inputs"], "every pair of message types in sequence, triples with a failing call, random sequences of three and four calls, one or several reader objects, any contents",
  "Tests use a fresh object per call; state left behind by an earlier call needs a history to show.",
  [KVNF, XMLF, NDMF], [("reader state", KVNF + " NdmKvnIo._keys, _lines, object_tree"), ("parser reuse", KVNF + " __xml_parser")], j_hist,
  selftests=[("history_read", dict(io="bad:Memo", steps=(("kvn", "opm", "a"), ("kvn", "opm", "a")), shared=True)),
             ("history_edit", dict(io="bad:Memo", kind="opm"))],
  technique=TECH_S, rule="history: result i = message of document i; reachable mutable objects of results pairwise disjoint and new",
  state=[dict(name="reader working data", meaning="lines, keywords and structure of the document being read", where=KVNF)])


def j_eff(tier, rng):
    J = [("import_effects", {})]
    for k in KINDS:
        for io, src in VIAS:
            for full in (True, False):
                sk = dict(base_of(k, full), full=full)
                for en in ("from_string", "from_bytes", "from_path"):
                    if not (io == "kvn" and en == "from_bytes"):
                        J.append(("effects", dict(io=io, entry=en, kind=k, src=src, sk=sk)))
                for en in ("to_string", "to_file"):
                    J.append(("effects", dict(io=io, entry=en, kind=k, sk=sk, fmtname=src.upper() if io == "ndm" else None)))
    for io in ("kvn", "xml", "ndm"):
        for bad in ("CCSDS_NOSUCH_VERS = 1.0\nX = 1\n", "<nosuch/>", "<opm><header></opm>", "neither"):
            if io == "ndm" or bad[0] == ("C" if io == "kvn" else "<"):
                for en in ("from_string", "from_path"):
                    J.append(("effects", dict(io=io, entry=en, kind="opm", src="kvn" if io == "kvn" else "xml", bad=bad)))
    return J


P("C35", "Reading and writing touch nothing but their argument file",
  "Reading from text or bytes and converting to text have no effect outside their result; reading a path reads that file only and saving writes that file only. "
  "Importing the library does nothing else either.",
  ["inputs"], "every path through every entry point for every message type, also with rejected input", "Tests cannot see an access to a file or service they do not look at.",
  [KVNF, XMLF, NDMF], [("entry points", "all public methods of NdmIo, NdmXmlIo, NdmKvnIo")], j_eff,
  lambda r: r["what"] in ("effect",) or r["aspect"] == "gap",
  selftests=[("effects", dict(io="bad:Effect", entry="from_string", kind="opm", src="kvn")), ("effects", dict(io="bad:Effect", entry="to_string", kind="opm"))],
  technique="effect analysis over the abstract interpretation's event trace", rule="effect: only the argument path occurs in file events; no process, network, environment or output events")


def j_det(tier, rng):
    J = []
    for k in KINDS:
        for io, src in VIAS:
            for so in (1, -1):
                for full in (True, False):
                    sk = dict(base_of(k, full), full=full)
                    J.append(("effects", dict(io=io, entry="from_string", kind=k, src=src, setorder=so, sk=sk)))
                    for en in ("to_string", "to_file"):
                        J.append(("effects", dict(io=io, entry=en, kind=k, setorder=so, sk=sk, fmtname=src.upper() if io == "ndm" else None)))
    return J


P("C36", "Results depend on nothing but the arguments",
  "The result of reading and writing is determined by the arguments alone: it does not depend on the clock, random numbers, the environment, or the iteration order of sets.",
  ["inputs", "configurations"], "every path through every entry point for every message type, with sets iterated in both orders", "Tests run in one environment and one hash order.",
  [KVNF, XMLF, NDMF], [("entry points", "all public methods of NdmIo, NdmXmlIo, NdmKvnIo")], j_det,
  lambda r: r["what"] in ("nondet", "order") or r["aspect"] == "gap",
  selftests=[("effects", dict(io="bad:Clock", entry="to_string", kind="opm")), ("effects", dict(io="bad:SetOrder", entry="to_string", kind="opm", setorder=-1))],
  technique="effect analysis and order-sensitivity analysis by abstract interpretation", rule="determinism: no clock/random/environment event; same result under both set orders")

P("C37", "The documented interface is complete",
  "Every documented class, method, parameter (by position and by name) and format member exists and works as called, "
  "and every class of the object model can be imported from the models package, named in its export list.",
  ["inputs"], "all public classes, methods, parameters and every exported name", "Tests call a part of the interface, mostly by position.",
  [NDMF, XMLF, KVNF, MODF + "/__init__.py"], [("interface", "NdmIo, NdmXmlIo, NdmKvnIo, NDMFileFormats"), ("exports", MODF + "/__init__.py")],
  lambda t, r: [("exports", {})] + [("api", dict(io=i)) for i in ("ndm", "xml", "kvn")] +
  [("schema_options", dict(io=i, seq=(a, b), entries=en, shared=True)) for i in ("ndm", "xml") for a in range(4) for b in range(4)
   for en in (("to_string", "to_file"), ("to_file", "to_string"))] +
  [("schema_options", dict(io="xml", seq=(a, b), entries=(en, en), shared=True, by="position")) for a in range(4) for b in range(4) for en in ("to_string", "to_file")], anyrec,
  technique="name resolution and abstract interpretation of every documented call form", rule="api: every documented name resolves and every call form binds")


def j_fault(tier, rng):
    J = []
    for k in KINDS:
        for io, src in VIAS:
            for en in ("from_string", "from_path", "from_bytes"):
                if io == "kvn" and en == "from_bytes":
                    continue
                top = (40 if deep(tier) else 14) if src == "kvn" else 2
                for i in range(1, top):
                    if deep(tier) or en == "from_string" or i in (1, 3, 7):
                        for x in ("xsdata.exceptions.ParserError", "ValueError", "TypeError") if deep(tier) or i < 3 else ("xsdata.exceptions.ParserError",):
                            J.append(("fault", dict(io=io, entry=en, kind=k, src=src, where=("parse", i, x))))
            for w in (("open-r", 0, "FileNotFoundError"), ("open-r", 0, "PermissionError"), ("open-r", 0, "IsADirectoryError"), ("decode", 0, "UnicodeDecodeError")):
                J.append(("fault", dict(io=io, entry="from_path", kind=k, src=src, where=w)))
            if io != "kvn":
                J.append(("fault", dict(io=io, entry="from_bytes", kind=k, src=src, where=("decode", 0, "UnicodeDecodeError"))))
            ws = [("open-w", 0, "PermissionError"), ("open-w", 0, "FileNotFoundError"), ("write", 0, "OSError")]
            for w in ws + ([("render", 0, "ValueError"), ("render", 0, "TypeError")] if src == "xml" else []):
                J.append(("fault", dict(io=io, entry="to_file", kind=k, where=w, fmtname=src.upper() if io == "ndm" else None)))
            if src == "xml":
                J.append(("fault", dict(io=io, entry="to_string", kind=k, where=("render", 0, "ValueError"), fmtname="XML" if io == "ndm" else None)))
    for a in ATTS:
        for full in (False, True):
            sk = dict(att=a, qt="LAST" if a in QUAT else None, seq="213" if a in EUL else None, full=full)
            for i, v in enumerate(("NOSUCH", "QUATERNIONS", "EULER", "MATRIX", "SPIN NUTATION", "quaternion_state", "ANGLE/RATE", "RATE", "QUATERNION/", "0")):
                for io, en in (("kvn", "from_string"), ("ndm", "from_path"), ("ndm", "from_bytes")) if deep(tier) or i < 2 else (("kvn", "from_string"),):
                    J.append(("refused", dict(io=io, entry=en, kind="aem", sk=sk, key="ATTITUDE_TYPE", value=v)))
            if a in EUL:
                for v in ("456", "31A", "XYZ", "3-1-3", "NOSUCH"):
                    J.append(("refused", dict(io="kvn", entry="from_string", kind="aem", sk=sk, key="EULER_ROT_SEQ", value=v)))
    return J


P("C38", "Failures reach the caller",
  "When opening, decoding, parsing, converting or writing fails, the call that asked for it fails with an exception; it never returns normally or with a partial result. "
  "An attitude message in KVN whose attitude type or Euler rotation sequence is not one the standard defines is refused as well.",
  ["fault_sequences", "inputs"], "a failure at each file operation and at the conversion of each block of a document, for every message type and entry point",
  "Tests inject no failures.",
  [KVNF, XMLF, NDMF], [("entry points", "all public methods of NdmIo, NdmXmlIo, NdmKvnIo")], j_fault,
  selftests=[("fault", dict(io="bad:Swallow", entry="from_path", kind="opm", src="kvn", where=("open-r", 0, "FileNotFoundError"))),
             ("fault", dict(io="bad:Swallow", entry="to_file", kind="opm", where=("write", 0, "OSError")))],
  technique="exception-flow analysis: abstract interpretation with a failing operation at each site", rule="fault: a path on which the operation raises ends in an exception")


def j_shared(tier, rng):
    J = []
    for k in KINDS:
        for io, src in VIAS:
            for full in (True, False):
                for act in ("from_string", "to_string"):
                    J.append(("shared_state", dict(io=io, act=act, kind=k, sk=dict(base_of(k, full), full=full), fmtname=src.upper() if io == "ndm" or act == "from_string" else None)))
            for sk in rnd_docs(k, rng, 30 if deep(tier) else 2):
                for act in ("from_string", "to_string"):
                    J.append(("shared_state", dict(io=io, act=act, kind=k, sk=sk, fmtname=src.upper() if io == "ndm" or act == "from_string" else None)))
    for sk in aem_matrix("quick")[::4]:
        J.append(("shared_state", dict(io="kvn", act="from_string", kind="aem", sk=sk, fmtname="KVN")))
    for j in J:
        if j[1]["io"] in ("kvn", "xml") and j[1]["act"] == "to_string":
            j[1]["fmtname"] = None
    # calls following one another on separate objects
    def call(io, src, act, k, sk):
        return (act, k, sk, src.upper() if io == "ndm" or act == "from_string" else None)

    def kinds_for(n):
        ks = list(KINDS)
        return [(ks[i % len(ks)], ks[(i * 3 + 1) % len(ks)]) for i in range(n)]
    for io, src in VIAS:
        for n, (a, b) in enumerate(kinds_for(len(KINDS) * (3 if deep(tier) else 1))):
            acts = (("from_string", "to_string"), ("to_string", "from_string"), ("from_string", "from_string"), ("to_string", "to_string"))[n % 4]
            J.append(("shared_overwrite", dict(io=io, calls=tuple(call(io, src, act, k, dict(base_of(k, True), full=i == 0))
                                                                  for i, (act, k) in enumerate(zip(acts, (a, b)))))))
            J.append(("shared_overwrite", dict(io=io, calls=tuple(call(io, src, acts[0], a, dict(base_of(a, True), full=f)) for f in (True, False)))))
    pairs = [(x, y) for n, x in enumerate(ATTS) for y in ATTS[n:]]
    for n, (x, y) in enumerate(pairs):
        for act in ("from_string", "to_string"):
            if not deep(tier) and act == "to_string" and n % 2:
                continue
            J.append(("shared_overwrite", dict(io="kvn", calls=(call("kvn", "kvn", act, "aem", aem_sk(x, "LAST", "123")),
                                                                call("kvn", "kvn", act, "aem", aem_sk(y, "FIRST", "321"))))))
    return J


P("C39", "Readers and writers used at the same time do not disturb each other",
  "Separate reader and writer objects may be used concurrently: no call keeps data of the message it works on in state shared with other objects.",
  ["schedules", "inputs"], "every interleaving of calls on separate objects: no shared location receives message data on any path, for every message type and direction",
  "Tests are single-threaded; a disturbance needs a particular interleaving.",
  [KVNF, XMLF, NDMF], [("state", KVNF + " NdmKvnIo attributes; module and class variables of all three interfaces")], j_shared,
  selftests=[("shared_state", dict(io="bad:Retain", act="from_string", kind="opm", fmtname="KVN")), ("shared_state", dict(io="bad:Retain", act="to_string", kind="opm"))],
  technique="escape analysis into shared (module, class, function, cache) state by abstract interpretation", rule="shared: no write of input-derived data to a location that existed before the call and is not the reader/writer's own")


def j_close(tier, rng):
    J = []
    for k in KINDS:
        for io, src in VIAS:
            J.append(("files_closed", dict(io=io, entry="from_path", kind=k, src=src)))
            for w in ("content", "read", "decode", "parse"):
                J.append(("files_closed", dict(io=io, entry="from_path", kind=k, src=src, fail=w)))
            f = src.upper() if io == "ndm" else None
            for w in (None, "write", "combined", "nomessage") if src == "kvn" else (None, "write"):
                J.append(("files_closed", dict(io=io, entry="to_file", kind=k, fmtname=f, fail=w)))
            if src == "xml":
                J.append(("files_closed", dict(io=io, entry="to_file", kind=k, fmtname=f, fail="render")))
    return J


P("C40", "Every file opened is closed again",
  "Whatever way a reading or saving call ends, also with an error, every file it opened has been closed and everything written has reached the file.",
  ["inputs", "fault_sequences"], "every path through every file-handling entry point for every message type, also when the content is rejected or the conversion fails",
  "Tests cannot see a file left to the garbage collector.",
  [KVNF, XMLF, NDMF], [("file handling", "from_path and to_file of the three interfaces")], j_close,
  selftests=[("files_closed", dict(io="bad:Leak", entry="from_path", kind="opm", src="kvn", fail="content"))],
  technique="typestate analysis (open/closed) over the abstract interpretation's event trace", rule="close: open and close events balance on every path")


def xml_docs(tier, rng, job, n):
    J = []
    for k in KINDS:
        for io in ("xml", "ndm"):
            for f in (True, False):
                for c in (0, 1, 2):
                    J.append((job, dict(kind=k, full=f, comments=c, io=io)))
                # texts of any characters: line ends, tabs, blanks at the ends
                J.append((job, dict(kind=k, full=f, comments=2, io=io, loose=True)))
        for c in (1, 3):
            J.append((job, dict(kind=k, sk=dict(base_of(k, True), full=True, comments=c, empty="lit"))))
        for sk in rnd_docs(k, rng, 20 * n if deep(tier) else n):
            J.append((job, dict(kind=k, sk=sk)))
    for sk in aem_matrix(tier)[::7]:
        J.append((job, dict(kind="aem", sk=sk)))
    return J


P("C41", "XML input is read element by element",
  "Every element, attribute and comment of an XML message is found, after reading, in its own field with its exact value, in document order, and absent elements stay absent.",
  ["inputs"], QR, "Tests read about thirty XML files and look at few fields.",
  [XMLF, MODF], [("XML reader", XMLF + " NdmXmlIo.from_string"), ("model", MODF)], lambda t, r: xml_docs(t, r, "xml_read", 14), anyrec,
  technique=TECH_R, rule="xmlread: provenance of each field = its element")
P("C42", "XML output holds every element of the message",
  "The XML text of a message has one element or attribute per present field, under the standard's name and in the standard's order, with the exact value, and none for absent fields.",
  ["inputs"], QR, "Tests compare about thirty XML files.",
  [XMLF, MODF], [("XML writer", XMLF + " NdmXmlIo.to_string"), ("model", MODF)], lambda t, r: xml_docs(t, r, "xml_write", 14) + [
      ("xml_write", dict(kind="ndm", counts=c, extras=ex, io=io)) for io in ("xml", "ndm") for ex in (True, False) for c in combos(t, r)], anyrec,
  technique=TECH_W, rule="xmlwrite: element sequence = reference sequence")


def j_xrt(tier, rng):
    J = [("xml_roundtrip", dict(kind=k, io=io, empty="lit")) for k in KINDS for io in ("xml", "ndm")]
    J += [("xml_roundtrip", dict(kind=k, full=f, io=io, loose=l)) for k in KINDS for f in (True, False) for io in ("xml", "ndm") for l in (False, True)]
    J += [("xml_roundtrip", dict(counts=c, io=io, extras=ex)) for c in combos(tier, rng) if len(c) > 1 or c[0][1] > 1 for io in ("xml", "ndm") for ex in (True, False)]
    return J


P("C43", "Writing to XML and reading back gives the same message",
  "Reading the XML text the library writes gives a message equal to the original in every field, for every single message and every combined message with several messages "
  "(XML cannot tell an empty user-defined value from a missing one; the two count as equal).",
  ["inputs"], "every message type full and minimal, every pair of types and repeated types in combined messages, all values",
  "Tests round-trip about thirty files.",
  [XMLF], [("XML writer and reader", XMLF + " NdmXmlIo")], j_xrt, anyrec,
  technique="abstract interpretation of writer and reader composed, field-by-field provenance comparison", rule="xmlrt: read(write(m)) = m")


def j_nofile(tier, rng):
    J = []
    for io, f in (("ndm", "KVN"), ("ndm", "XML"), ("xml", None), ("kvn", None)):
        for c in (("combined", "notamessage") if (f == "KVN" or io == "kvn") else ("render", "notamessage")):
            J.append(("to_file_fail", dict(io=io, case=c, fmtname=f)))
        for k in KINDS:
            for how in ("str", "path", "pathlike"):
                for full in (True, False):
                    J.append(("to_file", dict(io=io, kind=k, fmtname=f, how=how, full=full)))
            if f != "KVN" and io != "kvn":
                J.append(("fault", dict(io=io, entry="to_file", kind=k, where=("render", 0, "ValueError"), fmtname=f)))
    J += [("dispatch", dict(entry="to_file", fmtname=f)) for f in ("JSON", "none", "text", "int", "obj") + NOFORMAT]
    J += [("combined_write", dict(counts=c, io=io, entry="to_file")) for io in ("ndm", "kvn") for c in combos(tier, rng) if len(c) > 1 or c[0][1] > 1]
    return J


P("C44", "A failed save leaves the existing file as it was",
  "Saving completes the conversion before it touches the target: when the message cannot be converted, the call fails and an existing file at the target keeps its content.",
  ["inputs", "fault_sequences"], "every message type, every way the conversion can fail (refused combined message, not a message, serializer failure), both formats and all interfaces",
  "Tests only save valid messages.",
  [KVNF, XMLF, NDMF], [("file output", "to_file of NdmIo, NdmXmlIo, NdmKvnIo")], j_nofile,
  lambda r: r["aspect"] in ("destroyed", "swallowed", "order", "effect", "exception", "gap", "accepted"),
  selftests=[("to_file_fail", dict(io="bad:Early", case="combined"))],
  technique="ordering rule over the abstract interpretation's event trace", rule="nofile: no event on the target before the conversion has completed, on every path")


def j_conv(tier, rng):
    J = []
    ways = (("KVN", "XML"), ("XML", "KVN"))
    for k in KINDS:
        for w in ways:
            for sk in sys_docs(k) + rnd_docs(k, rng, 100 if deep(tier) else 12):
                J.append(("convert", dict(kind=k, way=w, sk=sk)))
    for i, sk in enumerate(aem_matrix(tier)):
        if deep(tier) or i % 3 == 0:
            J.append(("convert", dict(kind="aem", way=ways[i % 2], sk=sk)))
    return J


P("C45", "Converting between XML and KVN keeps the message",
  "Reading a message in one format and writing it in the other gives the document of the same message: every element, value, unit, comment and data line is carried over, nothing is added.",
  ["inputs"], QR + "; both directions through the unified interface", "Tests convert few files and compare them as text.",
  [NDMF, KVNF, XMLF], [("conversion", NDMF + " NdmIo.from_string, NdmIo.to_string")], j_conv, anyrec,
  technique="abstract interpretation of reader and writer composed, compared with a reference document", rule="convert: write(read(document)) = document of the same message in the other format")

# ------------------------------------------------------------------ not applicable
NA = []


def na(pid, title, statement, over, qtext, why, files, mech, reason):
    NA.append((dict(id=pid, title=title, statement=statement, quantifier=dict(over=over, text=qtext), why_tests_cant=why,
                    anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech])), reason))


na("N01", "Every malformed KVN document is rejected or read sensibly",
   "A KVN document that violates the standard (missing mandatory keywords, wrong order, data lines of the wrong length, dates that are not dates) is rejected with an error that says what is wrong.",
   ["inputs"], "all malformed documents", "Tests hold valid files.", [KVNF], [("reader", KVNF)],
   "The library does not promise this (it reads leniently and several malformed documents give partial messages), and the set of malformed documents has no structure an abstract document family could cover soundly.")
na("N02", "Keywords the standard does not define are reported in KVN input",
   "A KVN document containing a keyword its message type does not define is rejected.", ["inputs"], "all undefined keywords at all places", "Tests hold valid files.", [KVNF], [("reader", KVNF)],
   "The reader drops undefined keywords by design; there is no guarantee in the code to decide, and rejecting them would be new behaviour rather than a repair.")
na("N03", "Comments between two parts are attributed as the author meant",
   "Where a comment could belong to the end of one part or the beginning of the next, it is attributed to the part its author meant.", ["inputs"], "all placements of comments", "Tests hold few comments.",
   [KVNF], [("comments", KVNF + " __process_comment_lines")],
   "The KVN text does not determine the answer (several comments of a data section and of its first block look alike), so no oracle exists; the unambiguous placements are covered by C26.")
na("N04", "Numbers are accepted in every lexical form and rejected otherwise",
   "Numeric elements accept exactly the number formats of the standard, with the resulting value exact.", ["inputs"], "all number texts", "Tests use a few numbers.", [MODF], [("value conversion", "xsdata converters")],
   "Conversion of digits happens inside the xsdata and decimal libraries, outside the analysed source; it quantifies over numerical values, which no argument about this repository's source can bound. That the library hands on the exact text or number is covered by C15, C24, C41, C42.")
na("N05", "Reading time grows in proportion to the document",
   "Reading and writing time and memory grow no faster than in proportion to the size of the message.", ["inputs"], "all document sizes", "Tests read small files.", [KVNF], [("reader loops", KVNF + " __identify_list, _get_segment_limit")],
   "A quantitative property of run time; the segment search is quadratic in the number of segments by construction, and static cost bounds through the third-party parser are out of reach.")
na("N06", "XML in other declared encodings is decoded as declared",
   "An XML file declaring an encoding other than UTF-8 is decoded with the declared encoding.", ["inputs"], "all declared encodings", "Tests hold UTF-8 files.", [XMLF, NDMF], [("reading", NDMF + " NdmIo.from_path")],
   "The unified interface decodes all files as UTF-8 before it looks at them, so the property does not hold and is not offered; decoding by declaration happens inside lxml, which is not part of the analysed source.")
