"""Block groups."""

from mv import gen, views
from mv.core import Check, Kind
from mv.diff import Differential

differential = Differential(
    views.v_groups,
    codes=('duplicate-position', 'undefined-group', 'missing-group'),
    kinds="group",
    profiles=[
        gen.focus("group", "block", group=8, block=8),
        gen.focus("group", "block", "mau", "cond", "args", group=6, block=10, depth=3, isolate_false=0.3),
    ],
)

CHECK = Check(
    "C18",
    rule="documents from the generator; a case is non-trivial when there are groups and they were not seen before",
    kinds=[Kind("differential", differential, 4000, 60000)],
    require=["events compared"],
)
