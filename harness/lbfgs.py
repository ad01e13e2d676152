"""Records what scipy's L-BFGS-B is given: start, values and gradients, in order. It hooks scipy, not the code under test."""
import contextlib

import numpy as np
import scipy.optimize._lbfgsb_py as _l
import scipy.optimize._minimize as _m


@contextlib.contextmanager
def recorder(log, mark=None):
    """log gets dicts {search, kind ('f'|'g'|'start'), x, val, mark}; mark() is stored along with each call."""
    real = _l._minimize_lbfgsb
    count = [0]

    def wrapped(fun, x0, args=(), jac=None, *a, **kw):
        count[0] += 1
        n = count[0]
        log.append({"search": n, "kind": "start", "x": np.array(x0, float), "val": None, "mark": mark and mark()})

        def f(x, *args):
            x0 = np.array(x, float)
            v = fun(x, *args)
            log.append({"search": n, "kind": "f", "x": x0, "val": float(np.asarray(v).reshape(-1)[0]), "mark": mark and mark()})
            return v

        def g(x, *args):
            x0 = np.array(x, float)
            v = jac(x, *args)
            log.append({"search": n, "kind": "g", "x": x0, "val": np.array(v, float), "mark": mark and mark()})
            return v
        return real(f, x0, args, g if callable(jac) else jac, *a, **kw)
    _l._minimize_lbfgsb = _m._minimize_lbfgsb = wrapped
    try:
        yield log
    finally:
        _l._minimize_lbfgsb = _m._minimize_lbfgsb = real
