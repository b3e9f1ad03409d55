"""A small model of dask: lazy arrays made of blocks, executed by a simulated
cluster (see `cluster`)."""
from . import array, cluster  # noqa: F401
