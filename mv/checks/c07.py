"""Inline text."""

from mv import gen, views
from mv.core import Check, Kind
from mv.diff import Differential

differential = Differential(
    views.v_inline,
    codes=(),
    kinds="line lines long_word",
    profiles=[
        gen.focus("style", "verbatim", "escape", "literal", "lone", "oddity", "braces", lone=2, oddity=1.5, line=(2, 10), names=0.2),
        gen.focus("style", "verbatim", "escape", "literal", "lone", style=8, inline_depth=4, line=(2, 6), names=0.2),
        gen.focus("style", "verbatim", "list", "header", "label", "block", "klass", "link", label=0.5),
    ],
)

CHECK = Check(
    "C07",
    rule="documents from the generator; a case is non-trivial when the expected inline structure is not empty and not seen before",
    kinds=[Kind("differential", differential, 4000, 60000)],
    require=["events compared"],
)
