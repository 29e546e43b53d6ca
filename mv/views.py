"""Projections of an output, one for each aspect that a property is about.

They are applied both to the structure given by the model and to the one that
was observed, so that a monitor judges only what its property is about.
"""

HOSTS = ("paragraph-line", "header", "list-item", "label")
ARGS = ("args", "kwargs", "tags", "internal_tags", "subtype")
INLINE = ("text", "verbatim", "style")


def is_macro(node):
    return node.get("_type", "").startswith("macro")


def walk(node, labels=True, notes=True):
    """All the nodes written in the document, in order."""
    if isinstance(node, list):
        for n in node:
            yield from walk(n, labels, notes)
        return
    if not node or "_type" not in node:
        return
    yield node
    if labels:
        for role in sorted(node.get("labels") or {}):
            yield from walk(node["labels"][role], labels, notes)
    if node["_type"] == "macro-header":
        return
    content = node.get("content")
    if isinstance(content, list):
        yield from walk(content, labels, notes)
    if node["_type"] == "blockgroup":
        for position, item in node["items"].items():
            yield from walk(item["block"], labels, notes)
    if notes and node["_type"] == "footnotes":
        for item in node["footnotes"]:
            yield from walk(item["footnote"], labels, notes)


def select(tree, *types, **kw):
    return [n for n in walk(tree, **kw) if n["_type"] in types]


def fields(node, *names):
    out = {"type": node["_type"]}
    for n in names:
        if n in node:
            out[n] = node[n]
    return out


def flat(node):
    """The characters of an inline content, without the styles."""
    if isinstance(node, list):
        return "".join(flat(n) for n in node)
    if node is None or "_type" not in node:
        return ""
    t = node["_type"]
    if t in ("text", "verbatim"):
        return node["value"]
    if t in ("macro-raw", "macro-unicode"):
        return f"<{t}:{node['value']}>"
    if t == "macro-image":
        return f"<image:{node['uri']}>"
    if t == "macro-footnote":
        return "<footnote>"
    if t == "macro":
        return f"<macro:{node['name']}>"
    if t == "macro-header":
        return "<header>"
    return flat(node.get("content") or [])


def inline(nodes):
    """The inline structure: texts, verbatim, styles, and macros."""
    out = []
    for n in nodes:
        t = n["_type"]
        if t in ("text", "verbatim"):
            out.append([t, n["value"]])
        elif t == "style":
            out.append([t, n["style"], inline(n["content"])])
        elif t == "macro-header":
            out.append([t, n["target_name"]])
        elif t in ("macro-link", "macro-class"):
            out.append([t, inline(n["content"])])
        else:
            out.append([t])
    return out


def v_inline(tree):
    return [inline(n["content"]) for n in select(tree, *HOSTS)]


def v_macros(tree):
    out = []
    for host in select(tree, *HOSTS):
        out.append(inline(host["content"]))
    for n in walk(tree):
        if not is_macro(n):
            continue
        t = n["_type"]
        if t == "macro":
            out.append(fields(n, "name", *ARGS))
        elif t == "macro-footnote":
            out.append([t, (n["footnote"] or {}).get("name")])
        elif t == "macro-header":
            out.append([t, n["target_name"]])
        else:
            d = fields(n, "target", "uri", "alt_text", "width", "height", "classes", "value")
            if "content" in n:
                d["content"] = inline(n["content"])
            out.append(d)
    return out


PROCESSED = ("uri", "alt_text", "classes", "language", "name", "start", "ctype")


def v_args(tree):
    out = []
    for n in walk(tree):
        if n["_type"] in INLINE or n["_type"] in ("raw-line", "source-line"):
            continue
        d = fields(n, *ARGS)
        for k in PROCESSED:
            if n.get(k) is not None and isinstance(n[k], str | int | list) and n["_type"] != "blockgroup":
                d[k] = n[k]
        out.append(d)
    return out


def v_text(tree):
    """Texts and values."""
    out = []
    for n in walk(tree):
        t = n["_type"]
        if t in HOSTS:
            out.append([t, flat(n["content"])])
        if is_macro(n) and t != "macro-footnote":
            out.append(fields(n, "target", "target_name", "uri", "alt_text", "value", "args", "kwargs"))
        elif t not in INLINE and t not in HOSTS:
            out.append([t, n.get("args"), n.get("kwargs"), n.get("tags"), n.get("uri")])
    return out


BLOCKS = (
    "document paragraph header list list-item horizontal-rule block raw source include include-image "
    "include-mau include-raw toc footnotes blockgroup paragraph-line"
).split()


def v_attach(tree):
    out = []
    for n in walk(tree, labels=False):
        if n["_type"] in BLOCKS:
            out.append(
                [
                    n["_type"],
                    {k: n.get(k) for k in ARGS},
                    {role: flat(x["content"]) for role, x in (n.get("labels") or {}).items()},
                    short(n),
                ]
            )
    return out


def short(n):
    if n["_type"] in ("paragraph-line", "header", "list-item"):
        return flat(n["content"])
    return ""


def v_elements(tree):
    """Which elements are there, with their text."""
    return [[n["_type"], short(n)] for n in walk(tree, labels=False) if n["_type"] in BLOCKS]


def v_structure(tree):
    """The tree of the elements."""

    def build(n):
        t = n["_type"]
        if t in ("paragraph-line", "header", "list-item"):
            return [t, flat(n["content"])]
        if t in ("raw", "source", "include-raw"):
            return [t, [x.get("value", x.get("line_content")) for x in n["content"]]]
        if t == "blockgroup":
            return [t, sorted((str(k), build(v["block"])) for k, v in n["items"].items())]
        return [t, [build(x) for x in n.get("content") or []]]

    return build(tree) if tree else []


PLAIN_FIELDS = ("level", "ordered", "start", "main_node", "classes", "language", "uri", "ctype", "alt_text", "name", "highlight_style", "line_number")


def v_full(tree):
    """The tree of the elements with all they have, except identifiers and places."""

    def build(n):
        t = n["_type"]
        out = [t, fields(n, *ARGS, *PLAIN_FIELDS)]
        if n.get("labels"):
            out.append({role: inline(x["content"]) for role, x in n["labels"].items()})
        if t in ("paragraph-line", "header", "list-item"):
            out.append(inline(n["content"]))
        elif t in ("raw-line", "source-line"):
            out.append([n.get("value", n.get("line_content")), (n.get("marker") or {}).get("value")])
        elif t == "blockgroup":
            out.append([[str(k), build(v["block"])] for k, v in n["items"].items()])
        else:
            out.append([build(x) for x in n.get("content") or []])
        return out

    return build(tree) if tree else []


def v_lists(tree):
    out = []

    def build(n):
        if n["_type"] == "list-item":
            return ["item", n["level"], flat(n["content"])]
        d = fields(n, "ordered", "start", "main_node")
        d["content"] = [build(x) for x in n["content"]]
        return d

    for n in walk(tree):
        if n["_type"] == "list" and n["main_node"]:
            out.append(build(n))
    return out


def header_ref(h):
    return {
        "level": h["level"], "id": h["internal_id"], "name": h["name"], "text": inline(h["content"]),
    }


def v_headers(tree):
    """Headers and tables of contents."""

    def entry(e):
        return [copied(e["header"]), [entry(x) for x in e["entries"]]]

    def copied(h):
        return header_ref(h) | fields(h, *ARGS)

    out = []
    for n in walk(tree):
        if n["_type"] == "header":
            out.append(["header", header_ref(n)])
        elif n["_type"] == "toc":
            out.append(
                [
                    "toc",
                    [copied(h) for h in n["plain_entries"]],
                    [entry(e) for e in n["nested_entries"]],
                ]
            )
    return out


def v_links(tree):
    return [
        [n["target_name"], header_ref(n["header"]) if n["header"] else None, inline(n["content"])]
        for n in select(tree, "macro-header")
    ]


def v_notes(tree):
    def note(f):
        return [f["name"], f["public_id"], v_full({"_type": "x", "content": f["content"]})]

    out = []
    for n in walk(tree, notes=False):
        if n["_type"] == "macro-footnote":
            out.append(["mention", note(n["footnote"])])
        elif n["_type"] == "footnotes":
            out.append(["list", [note(i["footnote"]) for i in n["footnotes"]]])
    return out


def v_groups(tree):
    out = []
    for n in walk(tree):
        if n["_type"] == "blockgroup":
            out.append(
                [
                    n["name"],
                    # In the order of the document.
                    [
                        [str(k), v["position"], v["block"]["_type"], v_full(v["block"])]
                        for k, v in n["items"].items()
                    ],
                ]
            )
    return out


def v_code(tree):
    out = []
    for n in walk(tree):
        if n["_type"] in ("raw", "include-raw"):
            out.append([n["_type"], [x["value"] for x in n["content"]]])
        elif n["_type"] == "source":
            out.append(
                [
                    "source",
                    n["language"],
                    [
                        [x["line_number"], x["line_content"], x["highlight_style"], (x["marker"] or {}).get("value")]
                        for x in n["content"]
                    ],
                ]
            )
    return out


def v_blocks(tree):
    out = [["block", v_full(n)] for n in select(tree, "block")]
    if out:
        # What blocks leave behind.
        out.append([n["start"] for n in select(tree, "list")])
    if any(n["kwargs"].get("isolate") == "false" for n in select(tree, "block")):
        # What the blocks share.
        out += v_notes(tree)
        out += [e for e in v_headers(tree) if e[0] == "toc"]
    return out


def v_includes(tree):
    out = []
    for n in walk(tree):
        if n["_type"] in ("include-mau", "include-raw", "include-image", "include"):
            out.append([n["_type"], n.get("uri"), n.get("ctype"), v_full(n)])
    return out
