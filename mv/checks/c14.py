"""Lists."""

from mv import gen, views
from mv.core import Check, Kind
from mv.diff import Differential

differential = Differential(
    views.v_lists,
    codes=('bad-list-start', 'list-not-closed'),
    kinds="items lists",
    profiles=[
        gen.focus("list", list=20, line=(1, 2)),
        gen.focus("list", "block", "args", list=15, line=(1, 3), args=0.5),
        gen.focus("list", "block", list=10, block=8, line=(1, 3), isolate_false=0.6, starts=0.7),
        gen.focus("list", "cond", "mau", "label", "style", list=12, cond=0.2, mau=2),
    ],
)

CHECK = Check(
    "C14",
    rule="documents from the generator; a case is non-trivial when the expected lists are not empty and were not seen before",
    kinds=[Kind("differential", differential, 4000, 60000)],
    require=["events compared"],
)
