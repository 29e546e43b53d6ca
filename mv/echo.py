"""Templates that echo every field of every element as JSON.

A child is rendered as `{...},`, so that the strings in which the library
joins children become JSON arrays, whatever white space is used to join them.
"""

import json

TYPES = (
    "text verbatim style macro macro-class macro-link macro-image macro-header macro-footnote macro-unicode "
    "macro-raw header label paragraph paragraph-line document block blockgroup blockgroup-item raw raw-line "
    "source source-line source-marker list list-item horizontal-rule include include-image include-mau "
    "include-raw toc toc-item footnote footnotes footnotes-item"
).split()

COMMON = "_type args kwargs tags internal_tags subtype _context parent".split()

# type: (plain fields, lists, dictionaries, single children, raw data)
FIELDS = {
    "text": ("value",),
    "verbatim": ("value",),
    "style": ("style", "content*"),
    "macro": ("name",),
    "macro-class": ("classes", "content*"),
    "macro-link": ("target", "content*"),
    "macro-image": ("uri", "alt_text", "width", "height"),
    "macro-header": ("target_name", "header&", "content*"),
    "macro-footnote": ("footnote&",),
    "macro-unicode": ("value",),
    "macro-raw": ("value",),
    "header": ("level", "internal_id", "name", "content*", "labels%"),
    "label": ("role", "content*"),
    "paragraph": ("content*", "labels%"),
    "paragraph-line": ("content*", "labels%"),
    "document": ("content*",),
    "block": ("classes", "content*", "labels%"),
    "blockgroup": ("name", "items%", "labels%"),
    "blockgroup-item": ("position", "block_data&", "block!"),
    "raw": ("classes", "content*", "labels%"),
    "raw-line": ("value",),
    "source": ("language", "classes", "content*", "labels%"),
    "source-line": ("line_number", "line_content", "highlight_style", "marker!"),
    "source-marker": ("value",),
    "list": ("ordered", "main_node", "start", "content*", "labels%"),
    "list-item": ("level", "content*"),
    "horizontal-rule": ("labels%",),
    "include": ("ctype", "labels%"),
    "include-image": ("uri", "alt_text", "classes", "labels%"),
    "include-mau": ("uri", "content*", "labels%"),
    "include-raw": ("uri", "content*", "labels%"),
    "toc": ("plain_entries*", "nested_entries*", "labels%"),
    "toc-item": ("header&", "entries*"),
    "footnote": ("name", "public_id", "internal_id", "content*"),
    "footnotes": ("footnotes*", "labels%"),
    "footnotes-item": ("footnote&",),
}


def templates():
    """name -> source, without extension."""
    out = {}
    for t in TYPES:
        parts = [f'"{f}":{{{{{f}|tojson}}}}' for f in COMMON]
        for f in FIELDS[t]:
            kind = f[-1] if f[-1] in "*%!&" else ""
            name = f.rstrip("*%!&")
            if kind == "*":
                parts.append(f'"{name}":[{{{{{name}}}}}null]')
            elif kind == "%":
                parts.append(
                    '"' + name + '":{ {% for k, v in ' + name + '.items() %}'
                    '{{k|tojson}}:[{{v}}null],{% endfor %}"":null}'
                )
            elif kind == "!":
                parts.append(f'"{name}":[{{{{{name}}}}}null]')
            else:
                parts.append(f'"{name}":{{{{{name}|tojson}}}}')
        out[t] = "{" + ",".join(parts) + "},"
    return out


def environment(extension=".j2"):
    return {"mau": {"visitor": {"templates": {"custom": {t + extension: s for t, s in templates().items()}}}}}


def decode(text):
    """The structure echoed by the templates."""
    if not text:
        return {}
    return clean(json.loads("[" + text + "null]"))[0]


def clean(o):
    if isinstance(o, list):
        if o and o[-1] is None:
            o = o[:-1]
        return [clean(i) for i in o]
    if isinstance(o, dict):
        t = o.get("_type")
        t = t if isinstance(t, str) else None
        out = {}
        specs = {f.rstrip("*%!&"): f for f in FIELDS.get(t, ())}
        for k, v in o.items():
            if k == "":
                continue
            f = specs.get(k, k)
            if k in ("args", "kwargs"):
                out[k] = v
            elif f.endswith("*"):
                if isinstance(v, str):
                    v = json.loads("[" + v + "null]")
                out[k] = clean(v)
            elif f.endswith("%"):
                d = {}
                for a, b in v.items():
                    if a == "" and b is None:
                        continue
                    if isinstance(b, str):
                        b = json.loads("[" + b + "null]")
                    d[a] = clean(b)[0]
                out[k] = d
            elif f.endswith("!"):
                if isinstance(v, str):
                    v = json.loads("[" + v + "null]")
                v = clean(v)
                out[k] = v[0] if v else {}
            elif f.endswith("&"):
                out[k] = clean(v) if isinstance(v, dict) else v
            else:
                out[k] = v
        return out
    return o
