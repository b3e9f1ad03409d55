from .damage import P07
from .faults import P11, P14
from .filling import P13
from .history import P16
from .isolation import P18
from .gridding import P22
from .lifetimes import P15
from .merge import P08, P09
from .orbits import P21
from .parallel import P01, P02, P03, P04, P05
from .periods import P17
from .reject import P12
from .restart import P06
from .trees import P10

PROPS = {c.id: c for c in (P01, P02, P03, P04, P05, P06, P07, P08, P09, P10,
                           P11, P12, P13, P14, P15, P16, P17, P18, P21,
                           P22)}
