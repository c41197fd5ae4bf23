"""The analyser with all of its models loaded."""
from . import terms as tm
from . import interp as ip
from . import loops, lib, lib2, lib3

for _m in (ip, loops, lib, lib2):
    for _n in ('index', 'truthy', 'kind', 'eq0', 'lt0'):
        if hasattr(_m, _n):
            setattr(_m, _n, getattr(tm, _n))
ip.lib = lib
