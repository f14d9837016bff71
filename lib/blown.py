"""Recognise runs that ended because the iteration diverged."""
import numpy as np


def blown(e):
    """Did a run raise the exception because the fields had become infinite or NaN?

    What a run does with non-finite fields is not specified: today the interpreted code
    complains about NaN, while compiled code may divide by zero.
    """
    if isinstance(e, ValueError) and "NaN" in str(e):
        return True
    if not isinstance(e, (ValueError, ArithmeticError)):
        return False
    tb = e.__traceback__
    while tb is not None:
        obj = tb.tb_frame.f_locals.get("self")
        if hasattr(obj, "omegas") and (wild(obj.omegas) or any(wild(v) for v in vars(obj).values())):
            return True
        tb = tb.tb_next
    return False


def wild(v):
    """A state array with non-finite or astronomical entries."""
    return isinstance(v, np.ndarray) and v.dtype.kind == "f" and v.size > 0 and not np.all(np.abs(v) < 1e50)
