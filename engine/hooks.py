"""Hooks: assumed contracts on callees, and scopes."""
import re
from .vm import compile_func
def lu_scope():
    """mark the dynamic extent of the banded LU factorisation/solution: divisions there are by pivots, which the contract
    requires to be non-zero (they are not proved non-zero for symbolic coordinates)"""
    fns={}
    def h(X,d,*a):
        nm=None
        g=X.ghost
        old=g.get('in_lu',0); g['in_lu']=old+1
        try: return X.raw(d,*a)
        finally: g['in_lu']=old
    h.scope=True
    return [(r'^(void )?intp::BandLU<.*>::(compute_impl|solve_in_place_impl)',h)]
