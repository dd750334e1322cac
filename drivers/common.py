"""Shared by the domain adapters."""
import itertools
import types

from future.utils import with_metaclass
from ngoschema.protocols import SchemaMetaclass
from ngoschema.exceptions import ConversionError, InvalidValue, ValidationError, InvalidOperation

_n = itertools.count()


def mk_class(schema, bases=(), name=None, **attrs):
    """class X(with_metaclass(SchemaMetaclass, *bases)): _schema = schema; attrs..."""
    d = {'_schema': schema} if schema is not None else {}
    d.update(attrs)
    base = with_metaclass(SchemaMetaclass, *bases)
    return types.new_class(name or 'VfCls%d' % next(_n), (base,), {}, lambda ns: ns.update(d))


def enc(v):
    """Python value -> tagged value of Values.tla"""
    if v is None:
        return ['n']
    if isinstance(v, bool):
        return ['b', v]
    if isinstance(v, int):
        return ['i', v]
    if isinstance(v, str):
        return ['s', v]
    if isinstance(v, (list, tuple)):
        return ['l', [enc(x) for x in v]]
    return ['o', type(v).__name__]


def dec(v):
    t = v[0]
    if t == 'n':
        return None
    if t in ('i', 's', 'b'):
        return v[1]
    if t == 'l':
        return [dec(x) for x in v[1]]
    raise ValueError(v)


def kind(er):
    if isinstance(er, (ConversionError, ValidationError)):
        return 'invalid'
    for t in (AttributeError, KeyError, IndexError, InvalidOperation):
        if isinstance(er, t):
            return t.__name__
    return type(er).__name__


def call(f, *args, **kw):
    """-> ["ok", encoded result] or ["err", kind]"""
    try:
        r = f(*args, **kw)
    except Exception as er:
        return ['err', kind(er)]
    return ['ok', enc(r)]
