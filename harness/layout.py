"""The same array laid out differently in memory."""
import numpy as np
from hypothesis import strategies as st

KINDS = ['plain', 'plain', 'columns', 'strided', 'fixed']
layouts = st.sampled_from(KINDS)


def arrange(a, kind):
    if kind == 'plain':
        return a.copy()
    if kind == 'columns':
        return np.asfortranarray(a.copy())
    if kind == 'strided':   # every other element of a larger array
        big = np.full([2 * n for n in a.shape], 1234.5, a.dtype)
        big[tuple(slice(None, None, 2) for _ in a.shape)] = a
        return big[tuple(slice(None, None, 2) for _ in a.shape)]
    a = a.copy()
    a.setflags(write=False)
    return a
