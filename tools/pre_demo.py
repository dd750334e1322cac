PRE='''
import logging, types
from future.utils import with_metaclass
from ngoschema.protocols import SchemaMetaclass
logging.disable(logging.CRITICAL)
def mk(name, schema, lazy=False, bases=(), **kw):
    d = dict(kw, _schema=schema, _lazyLoading=lazy)
    return types.new_class(name, (with_metaclass(SchemaMetaclass, *bases),), {}, lambda ns: ns.update(d))
def raises(f, *a, **k):
    try:
        f(*a, **k)
    except Exception:
        return True
    return False
'''
