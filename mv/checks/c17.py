"""Footnotes."""

from mv import gen, views
from mv.core import Check, Kind
from mv.diff import Differential

differential = Differential(
    views.v_notes,
    codes=('undefined-footnote', 'duplicate-footnote'),
    kinds="footnotes",
    profiles=[
        gen.focus("footnote", "footnotes", "block", footnote=5, footnotes=3, block=8),
        gen.focus("footnote", "footnotes", "block", "mau", "header", footnote=5, footnotes=3, block=10, isolate_false=0.4, depth=3),
        gen.focus("footnote", "footnotes", "klass", "link", "style", "list", "label", "ifm", footnote=5, footnotes=2, klass=3, label=0.4),
    ],
)

CHECK = Check(
    "C17",
    rule="documents from the generator; a case is non-trivial when there are footnotes and they were not seen before",
    kinds=[Kind("differential", differential, 4000, 60000)],
    require=["events compared"],
)
