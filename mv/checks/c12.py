"""Conditions."""

from mv import gen, views
from mv.core import Check, Kind
from mv.diff import Differential

differential = Differential(
    views.v_elements,
    codes=('empty-condition', 'bad-condition', 'undefined-condition-variable', 'unsupported-operator'),
    kinds="conditions",
    profiles=[
        gen.focus("cond", "vardef", cond=0.8, vardef=6, envsize=(3, 6), poison=0.9),
        gen.focus("cond", "block", "list", "header", "source", "raw", "image", "mau", "toc", "footnotes", "group", cond=0.7, envsize=(3, 6), poison=0.9),
        gen.focus("cond", "args", "label", "block", "mau", cond=0.6, envsize=(3, 6), poison=0.9, label=0.4, args=0.5, mau=4),
    ],
)

CHECK = Check(
    "C12",
    rule="documents from the generator; a case is non-trivial when the expected elements were not seen before",
    kinds=[Kind("differential", differential, 4000, 60000)],
    require=["events compared"],
)
