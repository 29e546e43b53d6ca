"""Inline macros."""

from mv import gen, views
from mv.core import Check, Kind
from mv.diff import Differential

differential = Differential(
    views.v_macros,
    codes=('macro-missing-target', 'macro-missing-email', 'macro-missing-text', 'macro-missing-uri', 'macro-missing-name', 'macro-missing-value', 'macro-missing-header_id', 'macro-missing-true_case', 'bad-control-macro', 'bad-macro-condition', 'ifeval-missing-false', 'ifeval-undefined'),
    kinds="line classes arguments",
    profiles=[
        gen.focus("link", "mailto", "imagem", "klass", "rawm", "unicode", "generic", "ifm", "ifeval", "headerlink", "footnote", line=(2, 7), link=3, klass=3, ifm=3, generic=3),
        gen.focus("link", "klass", "ifm", "ifeval", "vardef", inline_depth=4, link=4, klass=4, ifm=4, ifeval=3, envsize=(2, 5)),
        gen.profile(),
    ],
)

CHECK = Check(
    "C08",
    rule="documents from the generator; a case is non-trivial when the expected list of macros is not empty and not seen before",
    kinds=[Kind("differential", differential, 4000, 60000)],
    require=["events compared"],
)
