"""Lazy arrays.  Only what pyinterp uses is modelled: arrays cut along their
first axis, asarray, ravel, rechunk, map_blocks, sum and compute."""
import numpy

from .. import cluster


class Array:
    """blocks: tasks that produce the blocks, sizes: length of each block
    along the first axis (None: unknown)."""

    def __init__(self, blocks, sizes, shape, dtype):
        self.blocks = list(blocks)
        self.sizes = list(sizes)
        self.shape = tuple(shape)
        self.dtype = dtype

    @property
    def ndim(self):
        return len(self.shape)

    @property
    def numblocks(self):
        return (len(self.blocks), ) + (1, ) * (self.ndim - 1)

    @property
    def size(self):
        return int(numpy.prod(self.shape))

    def ravel(self):
        if self.ndim == 1:
            return self
        row = int(numpy.prod(self.shape[1:]))
        return Array([cluster.Task(_ravel, (b, )) for b in self.blocks],
                     [s * row for s in self.sizes], (self.size, ), self.dtype)

    @property
    def chunks(self):
        return (tuple(self.sizes), ) + tuple((n, ) for n in self.shape[1:])

    def flatten(self):
        return self.ravel()

    def reshape(self, *shape):
        if shape not in ((-1, ), ((-1, ), ), (self.size, )):
            raise NotImplementedError(f'reshape{shape}')
        return self.ravel()

    def rechunk(self, chunks='auto'):
        # the other axes are never cut in this model
        sizes = chunks
        if isinstance(sizes, dict):
            sizes = sizes.get(0, sizes.get(-self.ndim, self.sizes))
        elif isinstance(sizes, tuple) and len(sizes) == self.ndim and \
                self.ndim > 1:
            sizes = sizes[0]
        if sizes is None:
            return self
        if isinstance(sizes, str) or isinstance(sizes, int) and sizes < 0:
            sizes = [self.shape[0]]
        elif isinstance(sizes, int):
            n, m = divmod(self.shape[0], sizes)
            sizes = [sizes] * n + ([m] if m or not n else [])
        if list(sizes) == self.sizes:
            return self
        assert sum(sizes) == self.shape[0]
        blocks = []
        start = 0
        for n in sizes:
            parts = []
            pos = 0
            for b, s in zip(self.blocks, self.sizes):
                lo, hi = max(start, pos), min(start + n, pos + s)
                if lo < hi:
                    parts.append(cluster.Task(_slice,
                                              (b, lo - pos, hi - pos)))
                pos += s
            if not parts:
                parts = [cluster.Task(_slice, (self.blocks[0], 0, 0))]
            blocks.append(parts[0] if len(parts) == 1 else cluster.Task(
                _concatenate, tuple(parts)))
            start += n
        return Array(blocks, sizes, self.shape, self.dtype)

    def sum(self):
        """Sum of all the elements, by groups like a tree reduction."""
        return Array([cluster.Reduction(self.blocks)], [1], (),
                     self.dtype)

    def compute(self):
        result = cluster.current().run(self.blocks)
        if self.ndim == 0:
            return result[0]
        return numpy.concatenate(result)


def _ravel(a):
    return a.ravel()


def _slice(a, lo, hi):
    return a[lo:hi]


def _concatenate(*args):
    return numpy.concatenate(args)


def from_array(a, chunks):
    """chunks: lengths of the blocks along the first axis."""
    a = numpy.asarray(a)
    blocks, start = [], 0
    for n in chunks:
        blocks.append(cluster.Data(a[start:start + n]))
        start += n
    assert start == a.shape[0]
    return Array(blocks, chunks, a.shape, a.dtype)


def asarray(a):
    if isinstance(a, Array):
        return a
    a = numpy.asarray(a)
    return from_array(a, [a.shape[0]] if a.ndim else [])


def map_blocks(func, *args, dtype=None, drop_axis=(), **kwargs):
    arrays = [a for a in args if isinstance(a, Array)]
    shape = arrays[0].shape[0]
    for a in arrays:
        if a.shape[0] != shape:
            raise ValueError('Chunks do not add up to same value: '
                             f'{[x.shape for x in arrays]}')
    # unify the blocks
    cuts = set()
    for a in arrays:
        cuts.update(int(c) for c in numpy.cumsum(a.sizes))
    cuts = sorted(c for c in cuts)
    sizes = [b - a for a, b in zip([0] + cuts[:-1], cuts)]
    if len({tuple(a.sizes) for a in arrays}) > 1:
        sizes = [s for s in sizes if s] or [0]
        args = [a.rechunk(sizes) if isinstance(a, Array) else a for a in args]
    else:
        sizes = arrays[0].sizes
    blocks = []
    for i in range(len(sizes)):
        blocks.append(cluster.Task(
            func, tuple(a.blocks[i] if isinstance(a, Array) else a
                        for a in args), kwargs))
    ndim = arrays[0].ndim - len(drop_axis)
    return Array(blocks, [1] * len(blocks), (len(blocks), ) * max(ndim, 0),
                 dtype)
