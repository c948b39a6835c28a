"""An ODE solver that gives up after a number of evaluations (imported before the package)."""

import scipy.integrate
from scipy.integrate._ivp.ivp import OdeResult

LIMIT = {"evaluations": None, "given up": 0}
_real = scipy.integrate.solve_ivp


class _GiveUp(Exception):
    pass


def solve_ivp(fun, t_span, y0, *args, **kw):
    limit = LIMIT["evaluations"]
    if limit is None:
        return _real(fun, t_span, y0, *args, **kw)
    left = [limit]

    def counted(*a):
        left[0] -= 1
        if left[0] < 0:
            raise _GiveUp
        return fun(*a)

    try:
        return _real(counted, t_span, y0, *args, **kw)
    except _GiveUp:
        LIMIT["given up"] += 1
        y = y0.reshape(-1, 1).copy()
        return OdeResult(t=t_span[:1], y=y, sol=None, t_events=None, y_events=None, nfev=limit, njev=0, nlu=0, status=-1, success=False,
                         message="simulated: the solver gives up")


scipy.integrate.solve_ivp = solve_ivp
