from . import core  # noqa: F401
from .core import Array, asarray, from_array, map_blocks  # noqa: F401
