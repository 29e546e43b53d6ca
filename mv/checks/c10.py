"""Variables."""

from mv import gen, views
from mv.core import Check, Kind
from mv.diff import Differential

differential = Differential(
    views.v_text,
    codes=('undefined-variable', 'incomplete-variable', 'unfinished-variable', 'variable-without-value'),
    kinds="variables line",
    profiles=[
        gen.focus("var", "vardef", "braces", vardef=8, var=6, braces=2, envsize=(2, 6)),
        gen.focus("var", "vardef", "args", "label", "header", "list", "image", "custom", "cond", vardef=8, var=5, args=0.7, label=0.4, cond=0.4, image=3, custom=3, envsize=(2, 6)),
        gen.focus("var", "vardef", "block", "mau", "verbatim", vardef=6, var=6, mau=3, verbatim=3),
    ],
)

CHECK = Check(
    "C10",
    rule="documents from the generator; a case is non-trivial when the expected texts and values were not seen before",
    kinds=[Kind("differential", differential, 4000, 60000)],
    require=["events compared"],
)
