"""Attachments."""

from mv import gen, views
from mv.core import Check, Kind
from mv.diff import Differential

differential = Differential(
    views.v_attach,
    codes=('boxed-and-inline', 'include-without-arguments'),
    kinds="labels arguments apart",
    profiles=[
        gen.focus("label", "args", "cond", "image", "custom", "rule", "toc", "raw", "source", "list", "header", "block", label=0.6, cond=0.4, args=0.7, attach_noise=0.5, doubled=0.2, toc=2),
        gen.focus("label", "args", "cond", "block", "mau", "group", "footnotes", label=0.7, args=0.6, attach_noise=0.4, block=8, mau=3),
        gen.profile(label=0.5, args=0.6, cond=0.3),
    ],
)

CHECK = Check(
    "C11",
    rule="documents from the generator; a case is non-trivial when the expected attachments were not seen before",
    kinds=[Kind("differential", differential, 4000, 60000)],
    require=["events compared"],
)
