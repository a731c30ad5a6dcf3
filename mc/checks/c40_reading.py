"""C40: an XML document is read the same, whatever it comes in."""
import io
import itertools
import os
import re
from lxml import etree, objectify
from mc import docs, repos
from mc.core import observe
from MyCapytain.common.constants import Mimetypes, RDF_NAMESPACES, bind_graph, set_graph
from MyCapytain.resolvers.cts.local import CtsCapitainsLocalResolver
from MyCapytain.resources.collections import cts as X
from MyCapytain.resources.texts.local.capitains.cts import CapitainsCtsText

PROPERTY = "C40"
BOUNDS = {"quick": "4 kinds of document (text of 2 levels, inventory, textgroup, work) x 7 encodings (UTF-8 with and without byte order mark, UTF-16 in both orders, ISO-8859-1, ISO-8859-7, ASCII) x 6 XML declarations x 9 prologues (comments, instructions, document types with and without entities) x 9 vehicles (text, files and streams opened as text and as bytes, parsed elements and trees of two libraries), those XML allows; the same files in a folder read by the local resolver; every character of every label, value or unit written as a reference or section, or interrupted by a comment or instruction; entities that name a file",
          "thorough": "the same, every pair of encodings in a folder"}
ASSUMPTIONS = ["the codecs of Python and of libxml2 agree on these 7 encodings"]

DECLS = ["", '<?xml version="1.0"?>', "<?xml version='1.0' standalone='yes'?>", '<?xml version="1.0" encoding="%s"?>', "<?xml version='1.0' encoding='%s' standalone='yes' ?>", '<?xml  version = "1.0"\n  encoding = "%s"  ?>']
ENCODINGS = {"utf-8": "utf-8", "utf-8-sig": "UTF-8", "utf-16-le": "UTF-16", "utf-16-be": "utf-16", "iso-8859-1": "ISO-8859-1", "iso-8859-7": "iso-8859-7", "ascii": "us-ascii"}
BOM = {"utf-16-le": b"\xff\xfe", "utf-16-be": b"\xfe\xff"}
PROLOGUES = ["", "\n", "<!-- a comment encoding=\"latin-1\" -->", '<?xml-model href="x.rng" encoding="ISO-8859-1"?>', "<!DOCTYPE %s>", "<!DOCTYPE %s [\n  <!ENTITY menin \"Μῆνιν\">\n  <!-- > -->]>\n",
             '<!DOCTYPE %s SYSTEM "nowhere.dtd">', '\n<!DOCTYPE %s PUBLIC "-//X//Y" "http://nowhere.example.org/x.dtd" [<!ENTITY menin "<!-- c -->Μῆ&#957;ιν">]>', '<?xml-model href="x"?>\n<!-- c -->\n<?a b?>\n']
VEHICLES = ["str", "StringIO", "text file", "BytesIO", "file", "element", "tree", "objects", "object tree"]
WORDS = "Μῆνιν ἄειδε é à & b"
KINDS = ["text", "inventory", "group", "work"]
TEXT = {"shape": [[[], []], [[]]], "scheme": "child", "labels": "seq", "content": "unique", "noise": "", "wrap": 0}


def body(kind, entity=False):
    w = WORDS.replace("&", "&amp;")
    if entity:
        w = w.replace("Μῆνιν", "&menin;")
    if kind == "text":
        return docs.xml(TEXT).replace(">t", ">%s t" % w).replace('n="2"', 'n="é"'), "TEI"
    if kind == "group":
        return repos.group_xml("phi1").replace("Group", w), "ti:textgroup"
    if kind == "work":
        return repos.work_xml("phi1", "a", [["v1", "edition", None, "ok", "m", 2], ["v2", "translation", "eng", "ok", "m", 2]]).replace("Work phi", w).replace("Work a", w).replace("Desc", w), "ti:work"
    group = repos.group_xml("phi1").replace("Group", w).replace("</ti:textgroup>", body("work", entity)[0] + "</ti:textgroup>")
    return '<ti:TextInventory %s tiid="%s">%s</ti:TextInventory>' % (repos.TI, "i", group), "ti:TextInventory"


META = "<cpt:structured-metadata><dc:source>%s</dc:source><dc:title xml:lang='fre'>%s</dc:title></cpt:structured-metadata>"
# ways of writing one character of a text, or of interrupting it
INSIDE = {"comment": lambda c: "<!-- c -->" + c, "comments": lambda c: "<!--a--><!--b-->" + c + "<!---->", "instruction": lambda c: "<?pi x?>" + c, "cdata": lambda c: "<![CDATA[%s]]>" % c,
          "decimal": lambda c: "&#%d;" % ord(c), "hexadecimal": lambda c: "&#x%X;" % ord(c)}
PLACES = {"inventory": ["ti:groupname", "ti:title", "ti:label", "ti:description"], "group": ["ti:groupname", "dc:source", "dc:title"], "work": ["ti:title", "ti:label", "ti:description"], "text": ["l"]}


def inside(kind, place, how, at):
    """the document, the character at this place of every such element written this way"""
    doc = body(kind)[0]
    if kind == "group":
        w = WORDS.replace("&", "&amp;")
        doc = doc.replace("</ti:textgroup>", META % (w, w) + "</ti:textgroup>")
    if how is None:
        return doc
    out = []
    for part in re.split(r"(<%s[ >][^>]*>?[^<]*</%s>)" % (place, place), doc):
        m = re.match(r"(<%s[^>]*>)([^<]*)(</%s>)$" % (place, place), part)
        if m:
            chars = re.findall(r"&amp;|.", m.group(2))
            c = chars[at % len(chars)]
            chars[at % len(chars)] = c if c == "&amp;" and how == "cdata" else INSIDE[how]("&" if c == "&amp;" and how in ("decimal", "hexadecimal") else c)
            part = m.group(1) + "".join(chars) + m.group(3)
        out.append(part)
    assert "".join(out) != doc or at
    return "".join(out)


def characters(doc, enc):
    """the document with references for what the encoding has no character for"""
    return doc.encode(enc, "xmlcharrefreplace").decode(enc) if enc in ("ascii", "iso-8859-1", "iso-8859-7") else doc


def write(kind, enc, decl, prologue):
    """the document as text and as bytes; None when XML does not allow it"""
    declared = "%s" in DECLS[decl]
    if not declared and enc.startswith("iso"):
        return None
    p = PROLOGUES[prologue]
    if p.startswith("\n") and not DECLS[decl] and p != "\n":
        p = p.lstrip()
    doc, root = body(kind, "menin" in p)
    if "DOCTYPE" in p:
        p = p.replace("%s", root)
    text = (DECLS[decl].replace("%s", ENCODINGS[enc]) if declared else DECLS[decl]) + characters(p + doc, enc) + "<!-- end -->\n"
    return text, BOM.get(enc, b"") + text.encode(enc)


def carry(vehicle, text, data, enc, tmp):
    """what is given to the reader"""
    if vehicle == "str":
        return text
    if vehicle == "StringIO":
        return io.StringIO(text)
    if vehicle == "BytesIO":
        return io.BytesIO(data)
    if vehicle in ("file", "text file"):
        path = os.path.join(tmp, "x.xml")
        with open(path, "wb") as f:
            f.write(data)
        return open(path, "rb") if vehicle == "file" else open(path, encoding="utf-16" if enc.startswith("utf-16") else enc)
    lib = etree if vehicle in ("element", "tree") else objectify
    tree = lib.parse(io.BytesIO(data))
    return tree if vehicle.endswith("tree") else tree.getroot()


def c14n(x):
    return etree.tostring(etree.fromstring(x), method="c14n", with_comments=False)


def labels(o):
    return sorted((str(p), str(v), v.language) for p, v in o.graph.predicate_objects(o.asNode()) if hasattr(v, "language"))


def read(kind, given):
    set_graph(bind_graph())
    if kind == "text":
        t = CapitainsCtsText(resource=given, urn="urn:cts:a:b.c.d")
        out = [[c.refsDecl for c in t.citation], c14n(t.export(Mimetypes.XML.Std)), t.export(Mimetypes.PLAINTEXT)]
        for n in (1, 2):
            for ref in t.getReffs(level=n):
                for simple in (False, True):
                    p = t.getTextualNode(ref, simple=simple)
                    out.append([str(ref), simple, p.export(Mimetypes.PLAINTEXT), c14n(p.export(Mimetypes.XML.Std))])
        return out
    cls = {"inventory": X.XmlCtsTextInventoryMetadata, "group": X.XmlCtsTextgroupMetadata, "work": X.XmlCtsWorkMetadata}[kind]
    o = cls.parse(given)
    return [[x.id, type(x).__name__, x.lang if kind != "group" and hasattr(x, "lang") else None, labels(x)] for x in [o] + o.descendants]


def cases(tier):
    for kind in KINDS:
        for enc in ENCODINGS:
            yield {"m": "forms", "kind": kind, "enc": enc}
    for enc in ENCODINGS:
        for other in ENCODINGS:
            if tier == "thorough" or other == enc or "utf-8" in (enc, other):
                yield {"m": "folder", "enc": enc, "other": other}
    for kind in KINDS:
        for place in PLACES[kind]:
            yield {"m": "inside", "kind": kind, "place": place}
    yield {"m": "secret"}


def run(case, rec):
    with repos.scratch() as tmp:
        if case["m"] == "forms":
            kind, enc = case["kind"], case["enc"]
            want = read(kind, body(kind)[0])
            rec.check(WORDS.split()[0] in repr(want), True, "the words are read")
            for d, p in itertools.product(range(len(DECLS)), range(len(PROLOGUES))):
                doc = write(kind, enc, d, p)
                if doc is None:
                    continue
                for v in VEHICLES:
                    given = carry(v, doc[0], doc[1], enc, tmp)
                    got = observe(read, kind, given)
                    what = "%s, %s, declared %r, after %r, as %s" % (kind, enc, DECLS[d], PROLOGUES[p], v)
                    rec.check(got, ("ok", want), what)
                    if hasattr(given, "closed"):
                        given.close()
                    rec.state([kind, enc, d, p, v])
            if enc.startswith("utf-8"):
                for d, p in itertools.product(range(len(DECLS)), range(len(PROLOGUES))):
                    doc = write(kind, enc, d, p)
                    rec.check(observe(read, kind, "\ufeff" + doc[0]), ("ok", want), "%s as text with a byte order mark, declared %r, after %r" % (kind, DECLS[d], PROLOGUES[p]))
            rec.trace()
            rec.sample(case)
        elif case["m"] == "inside":
            kind, place = case["kind"], case["place"]
            want = read(kind, inside(kind, place, None, 0))
            rec.check(WORDS.split()[0] in repr(want), True, "the words are read")
            for how in INSIDE:
                if kind == "text" and how not in ("cdata", "decimal", "hexadecimal"):
                    continue        # markup inside a passage stays in it (C14)
                for at in range(len(WORDS) + 10):
                    doc = inside(kind, place, how, at)
                    for v in ("str", "element", "file"):
                        given = carry(v, doc, doc.encode("utf-8"), "utf-8", tmp)
                        rec.check(observe(read, kind, given), ("ok", want), "%s with a %s at character %d of %s, as %s" % (kind, how, at, place, v))
                        if hasattr(given, "closed"):
                            given.close()
                    rec.state([kind, place, how, at])
            rec.trace()
        elif case["m"] == "folder":
            for n, (d, p) in enumerate(itertools.product((1, 3, 4), range(len(PROLOGUES)))):
                base = os.path.join(tmp, "r%d" % n)
                work = os.path.join(base, "data", "phi1", "a")
                os.makedirs(work)
                files = [("group", os.path.join(base, "data", "phi1", "__cts__.xml"), case["enc"]), ("work", os.path.join(work, "__cts__.xml"), case["other"])]
                files += [("text", os.path.join(work, "phi1.a.%s.xml" % v), e) for v, e in (("v1", case["enc"]), ("v2", case["other"]))]
                for kind, path, enc in files:
                    doc = write(kind, enc, d, p) or write(kind, enc, 3, p)
                    with open(path, "wb") as f:
                        f.write(doc[1])
                what = "textgroup and edition in %s, work and translation in %s, declared %r, after %r" % (case["enc"], case["other"], DECLS[d], PROLOGUES[p])
                set_graph(bind_graph())
                got = observe(CtsCapitainsLocalResolver, [base])
                if got[0] != "ok":
                    rec.violation("%s: %r" % (what, got))
                    continue
                r = got[1]
                w = r.inventory[repos.NSP + "phi1.a"]
                rec.check([labels(x) for x in [w.parent, w] + sorted(w.descendants, key=lambda x: x.id)], LABELS(), what + ": metadata")
                want = read("text", body("text")[0])
                for v in ("v1", "v2"):
                    urn = repos.NSP + "phi1.a." + v
                    rec.check([str(x) for n in (1, 2) for x in r.getReffs(urn, n)], [x[0] for x in want[3::2]], "%s: references of %s" % (what, v))
                    rec.check(r.getTextualNode(urn).export(Mimetypes.PLAINTEXT), want[2], "%s: %s" % (what, v))
                    for ref, _, text, _ in want[3::2]:
                        rec.check(r.getTextualNode(urn, ref).export(Mimetypes.PLAINTEXT), text, "%s: %s of %s" % (what, ref, v))
                rec.state([case["enc"], case["other"], d, p])
            rec.trace()
        else:
            secret = os.path.join(tmp, "secret.txt")
            with open(secret, "w") as f:
                f.write("SECRET")
            with open(os.path.join(tmp, "x.dtd"), "w") as f:
                f.write('<!ENTITY menin "SECRET">')
            for kind in KINDS:
                doc, root = body(kind, True)
                for dtd in ('<!DOCTYPE %s [<!ENTITY menin SYSTEM "file://%s">]>', '<!DOCTYPE %s [<!ENTITY menin SYSTEM "%s">]>', '<!DOCTYPE %s [<!ENTITY menin PUBLIC "x" "%s">]>',
                            '<!DOCTYPE %s [<!ENTITY %% all SYSTEM "%s.dtd"> %%all;]>', '<!DOCTYPE %s SYSTEM "%s.dtd">'):
                    text = dtd % (root, secret if ".dtd" not in dtd else os.path.join(tmp, "x")) + doc
                    for v in ("str", "file", "text file", "BytesIO", "StringIO"):
                        given = carry(v, text, text.encode("utf-8"), "utf-8", tmp)
                        got = observe(read, kind, given)
                        rec.check("SECRET" in repr(got), False, "%s as %s with %r reads no other file" % (kind, v, dtd))
                        rec.state([kind, dtd, v])
                        rec.outcome([kind, got[0]])
                        if hasattr(given, "closed"):
                            given.close()
            rec.trace()


def LABELS():
    set_graph(bind_graph())
    g = X.XmlCtsTextgroupMetadata.parse(body("group")[0])
    w = X.XmlCtsWorkMetadata.parse(body("work")[0], parent=g)
    return [labels(x) for x in [g, w] + sorted(w.descendants, key=lambda x: x.id)]
