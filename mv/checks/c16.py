"""Header links."""

from mv import gen, views
from mv.core import Check, Kind
from mv.diff import Differential

differential = Differential(
    views.v_links,
    codes=('undefined-header', 'duplicate-header', 'header-loop'),
    kinds="headers",
    profiles=[
        gen.focus("header", "headerlink", header=8, headerlink=8),
        gen.focus("header", "headerlink", "block", "mau", "klass", "link", "style", "footnote", header=6, headerlink=6, block=5, mau=2),
        gen.focus("header", "headerlink", "label", "list", "ifm", "toc", header=6, headerlink=6, label=0.5, toc=2),
        gen.focus("header", "headerlink", header=8, headerlink=8, many=0.3),
    ],
)

CHECK = Check(
    "C16",
    rule="documents from the generator; a case is non-trivial when there are links and they were not seen before",
    kinds=[Kind("differential", differential, 4000, 60000)],
    require=["events compared"],
)
