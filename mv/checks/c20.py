"""Blocks."""

from mv import gen, views
from mv.core import Check, Kind
from mv.diff import Differential

differential = Differential(
    views.v_blocks,
    codes=(),
    kinds="blocks nested",
    profiles=[
        gen.profile(depth=5, block=15, elements=(1, 4)),
        gen.focus("block", "header", "toc", "footnote", "footnotes", "headerlink", "group", "list", "vardef", "var", block=12, depth=4, isolate_false=0.4),
        # What a block can take from the document around it, and give to it.
        gen.focus("block", "list", "args", "label", "vardef", "var", "cond", block=10, list=8, vardef=3, depth=3, isolate_false=0.5, starts=0.7, line=(1, 2)),
    ],
)

CHECK = Check(
    "C20",
    rule="documents from the generator; a case is non-trivial when there are blocks and their content was not seen before",
    kinds=[Kind("differential", differential, 4000, 60000)],
    require=["events compared"],
)
