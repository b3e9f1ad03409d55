"""A stand-in for xarray: labelled arrays without any processing."""
import numpy as np


class DataArray:

    def __init__(self, data, coords=None, dims=None, name=None, attrs=None):
        self.values = data if isinstance(data, np.ndarray) else \
            np.asarray(data)
        if isinstance(coords, dict) or coords is None:
            self.coords = dict(coords or {})
        else:
            # the coordinates without a name are in the order of the
            # dimensions
            self.coords = dict(zip(dims or (), coords))
        self.dims = tuple(dims or ())
        self.name = name
        self.attrs = dict(attrs or {})

    def __getattr__(self, name):
        # the attributes of the variable are attributes of the object
        attrs = self.__dict__.get('attrs', {})
        if name in attrs:
            return attrs[name]
        raise AttributeError(name)

    @property
    def shape(self):
        return self.values.shape

    @property
    def ndim(self):
        return self.values.ndim

    @property
    def data(self):
        return self.values

    @property
    def size(self):
        return self.values.size

    @property
    def sizes(self):
        return dict(zip(self.dims, self.shape))

    def get_axis_num(self, dim):
        return self.dims.index(dim)

    def to_numpy(self):
        return self.values

    def __array__(self, dtype=None, copy=None):
        return np.asarray(self.values, dtype)

    def __len__(self):
        return len(self.values)

    @property
    def dtype(self):
        return self.values.dtype

    def transpose(self, *dims):
        dims = dims or self.dims[::-1]
        if sorted(map(str, dims)) != sorted(map(str, self.dims)):
            raise ValueError(f'{dims} must be a permuted list of {self.dims}')
        return DataArray(
            np.transpose(self.values, [self.dims.index(d) for d in dims]),
            self.coords, dims, self.name, self.attrs)

    def __getitem__(self, key):
        return self.coords[key]


class Dataset:

    def __init__(self, data_vars=None, coords=None, attrs=None):
        self.variables = dict(data_vars or {})
        self.attrs = dict(attrs or {})

    def __getitem__(self, key):
        return self.variables[key]
