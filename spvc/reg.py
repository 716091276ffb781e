"""registry the spec files write into"""
from driver import Fn
from spec import macro, rec
FNS = {}
PROPS = {}      # property -> [function names]
def fn(name, *a, props=(), **k):
    f = Fn(name, *a, props=props, **k)
    FNS[name] = f
    for p in f.props: PROPS.setdefault(p, []).append(name)
    return f
LEVELS = {}
