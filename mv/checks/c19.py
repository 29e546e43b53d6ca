"""Raw and source blocks."""

from mv import gen, views
from mv.core import Check, Kind
from mv.diff import Differential

differential = Differential(
    views.v_code,
    codes=('unknown-engine',),
    kinds="source repeated",
    profiles=[
        gen.focus("source", "raw", "rawfile", source=10, raw=6, rawfile=3),
        gen.focus("source", "raw", "block", "mau", "args", "cond", "group", source=10, raw=5, config=0.8),
    ],
)

CHECK = Check(
    "C19",
    rule="documents from the generator; a case is non-trivial when there are raw or source blocks and their content was not seen before",
    kinds=[Kind("differential", differential, 4000, 60000)],
    require=["events compared"],
)
