"""Which element types hold the values of which others."""
from . import terms as T
from .terms import App

GDAL = {1: 'uint8', 2: 'uint16', 3: 'int16', 4: 'uint32', 5: 'int32', 6: 'float32', 7: 'float64'}
ORDER = ('bool', 'uint8', 'int8', 'uint16', 'int16', 'uint32', 'int32', 'uint64', 'int64',
         'float16', 'float32', 'float64', 'complex64', 'complex128')
MANTISSA = {'float16': 11, 'float32': 24, 'float64': 53, 'complex64': 24, 'complex128': 53}
ALIAS = {'float': 'float64', 'int': 'int64', 'double': 'float64', 'single': 'float32', 'half': 'float16', 'bool_': 'bool',
         'float_': 'float64', 'int_': 'int64', 'ubyte': 'uint8', 'short': 'int16', 'ushort': 'uint16', 'intc': 'int32',
         'f4': 'float32', 'f8': 'float64', 'f2': 'float16', 'u1': 'uint8', 'i2': 'int16', 'u2': 'uint16', 'i4': 'int32',
         'u4': 'uint32', 'i8': 'int64', 'f': 'float32', 'd': 'float64', 'complex': 'complex128'}


def kind(name):
    return {'u': 'u', 'i': 'i', 'f': 'f', 'c': 'c', 'b': 'b'}.get(name[0])


def bits(name):
    """(digits, sign) of an integer type."""
    n = 1 if name == 'bool' else int(''.join(c for c in name if c.isdigit()))
    return (n - 1, True) if name[0] == 'i' else (n, False)


def holds(wide, name):
    """Whether each value of a type is one of the other type."""
    if wide == name:
        return True
    if name in MANTISSA:
        if wide not in MANTISSA or name[0] == 'c' and wide[0] != 'c':
            return False
        return MANTISSA[wide] >= MANTISSA[name]
    d, s = bits(name)
    if wide in MANTISSA:
        return d <= MANTISSA[wide]
    dw, sw = bits(wide)
    return dw >= d and (sw or not s)


def promote(names):
    """The type of a mix."""
    for c in ORDER:
        if all(holds(c, n) for n in names):
            return c
    return 'complex128' if any(n[0] == 'c' for n in names) else 'float64'


def resolve(t):
    """The name of a type that is given as a term, None if it depends on something else."""
    if isinstance(t, App) and t.op == 'dt' and t.args:
        if t.args[0] == 'promote':
            names = [resolve(x) for x in t.args[1:]]
            return promote(names) if names and None not in names else None
        if len(t.args) == 1 and isinstance(t.args[0], str):
            n = t.args[0].split('.')[-1].lstrip('<=|')
            n = ALIAS.get(n, n)
            return n if n in ORDER else None
    return None
