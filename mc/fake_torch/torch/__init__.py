"""A stand-in for PyTorch (not installed in the sandbox).

It has just what asta and the checks touch: a ``Tensor`` class with ``shape`` and
``dtype``, the ``Size`` tuple subclass, ``dtype`` objects.
"""


class dtype:  # pylint: disable=invalid-name
    def __init__(self, name):
        self.name = name

    def __repr__(self):
        return f"torch.{self.name}"

    def __reduce__(self):
        return self.name


class Size(tuple):
    def __repr__(self):
        return f"torch.Size({list(self)})"

    def __add__(self, other):
        return tuple(self) + tuple(other)

    def numel(self):
        out = 1
        for x in self:
            out *= x
        return out


uint8 = dtype("uint8")
int8 = dtype("int8")
int16 = dtype("int16")
int32 = dtype("int32")
int64 = dtype("int64")
float16 = dtype("float16")
float32 = dtype("float32")
float64 = dtype("float64")
complex64 = dtype("complex64")
bool = dtype("bool")  # pylint: disable=redefined-builtin
int = int32  # pylint: disable=redefined-builtin
long = int64
short = int16
half = float16
float = float32  # pylint: disable=redefined-builtin
double = float64


class Tensor:
    def __init__(self, shape=(), dtype=float32, **attrs):
        self._shape = Size(shape)
        self.dtype = dtype
        self.requires_grad = False
        for key, value in attrs.items():
            setattr(self, key, value)

    @property
    def shape(self):
        return self._shape

    @property
    def ndim(self):
        return len(self._shape)

    def size(self):
        return self._shape

    def dim(self):
        return len(self._shape)

    def numel(self):
        return self._shape.numel()

    def __repr__(self):
        return f"tensor(shape={tuple(self._shape)}, dtype={self.dtype})"


def zeros(*shape, dtype=float32):
    if len(shape) == 1 and isinstance(shape[0], tuple):
        shape = shape[0]
    return Tensor(shape, dtype)


ones = empty = zeros
