"""Structure."""

from mv import gen, views
from mv.core import Check, Kind
from mv.diff import Differential

differential = Differential(
    views.v_structure,
    codes=('unclosed-block', 'unclosed-comment'),
    kinds="apart lines long_word",
    profiles=[
        gen.profile(noise=0.5, tight=0.4),
        gen.profile(depth=5, block=15, elements=(1, 4), tight=0.4),
        gen.focus("header", "list", "rule", "comment", "vardef", "raw", "source", "block", comment=4, tight=0.5, unbalanced=0.15),
    ],
)

CHECK = Check(
    "C13",
    rule="documents from the generator; a case is non-trivial when the expected structure was not seen before",
    kinds=[Kind("differential", differential, 4000, 60000)],
    require=["events compared"],
)
