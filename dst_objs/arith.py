"""Exact integer arithmetic shared by the user blocks and the reference interpreters."""
import numpy as np

MOD = 1009


def combine(state, coef, inputs):
    """Reference arithmetic shared with the reference interpreter: inputs is a list of (list of vectors|None)."""
    acc = state * coef + 1
    for group in inputs:
        acc = (acc * 31 + 7) % MOD
        for v in group:
            if v is None:
                acc = (acc * 17 + 3) % MOD
            else:
                for i, x in enumerate(v):
                    acc = (acc + (i + 1) * int(x)) % MOD
                acc = (acc * 13 + 5) % MOD
    return acc


def vector(acc, size, salt=0):
    return [(acc * (i + 3) + i * i + salt) % MOD for i in range(size)]


def tovec(val):
    if val is None:
        return None
    return [int(x) for x in np.atleast_1d(np.asarray(val)).ravel()]
