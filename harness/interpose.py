"""Replace a library function in every loaded lop module that refers to it."""
import sys
import contextlib


@contextlib.contextmanager
def interposed(fn, make):
    new = make(fn)
    hits = []
    for name, mod in list(sys.modules.items()):
        if mod is None or not (name == 'lop' or name.startswith('lop.')):
            continue
        for k, v in list(vars(mod).items()):
            if v is fn:
                setattr(mod, k, new)
                hits.append((mod, k))
    try:
        yield new
    finally:
        for mod, k in hits:
            setattr(mod, k, fn)


def serial_quadrature():
    """the adaptive quadratures evaluate their integrand in this process instead of a new pool of processes per call: same numbers, and the checks already use all cores"""
    import sys
    for name in ('lop.active_learning.AbsAcquisition', 'lop.active_learning.AbsBayesInfo'):
        mod = sys.modules.get(name)
        real = getattr(mod, 'quad_vec', None)
        if real is None or getattr(real, 'serial', False):
            continue

        def quad_vec(*a, real=real, **kw):
            if 'workers' in kw:
                kw['workers'] = 1
            return real(*a, **kw)
        quad_vec.serial = True
        mod.quad_vec = quad_vec
