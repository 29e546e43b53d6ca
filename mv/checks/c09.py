"""Arguments."""

from mv import gen, views
from mv.core import Check, Kind
from mv.diff import Differential

differential = Differential(
    views.v_args,
    codes=('unnamed-after-named', 'unclosed-quotes', 'two-subtypes', 'two-aliases', 'unknown-alias'),
    kinds="arguments",
    profiles=[
        gen.focus("args", "block", "header", "list", args=1, alias=0.5, config=0.9, envsize=(1, 4), label=0),
        gen.focus("args", "generic", "link", "imagem", "klass", generic=8),
        gen.focus("args", "image", "custom", "mau", image=6, custom=10, mau=2, args=1, alias=0.3, config=0.7),
        gen.profile(),
    ],
)

CHECK = Check(
    "C09",
    rule="documents from the generator; a case is non-trivial when the expected arguments were not seen before",
    kinds=[Kind("differential", differential, 4000, 60000)],
    require=["events compared"],
)
