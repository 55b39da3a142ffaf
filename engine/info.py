"""Texts for the evidence files."""
import re
LEVEL={}
TRUST=['clang 18 front end and opt mem2reg (translation of the C++ source to LLVM IR; the same IR semantics is assumed of the compiler the user runs)',
 'engine/irparse.py, vm.py, loops.py (IR semantics, path and obligation generator, loop rule)','z3 4.x (linear and non-linear arithmetic)','engine/terms.py (exact rational-function normal form)',
 'the specification functions of engine/spec.py, m1*.py, m2*.py','Lean 4 kernel and Mathlib for the lemma on triangular factors (C06, C07)']
ASSUME=['double and float arithmetic is treated as exact real arithmetic (no rounding, overflow, NaN), except in the scenarios named any-rounding, where every inexact operation yields an unknown number',
 'memory allocation succeeds; sizes are small enough for their byte counts to fit in 60 bits','object lifetimes and aliasing as in the harness (distinct arguments do not alias)',
 'polynomial identities are decided by randomised identity testing modulo a 61-bit prime where the normal form is too large (counted separately as polynomial_identity_testing)']
WHERE=[(r'(BandMatrix|ExtendedBandMatrix)<.*(operator\(\)|main_bands_val|side_bands_val)','C08'),(r'Mesh<.*','C09'),(r'BandLU(Base)?<.*BandMatrix.*','C06 and C07'),(r'BSpline<.*(operator\(\)|derivative_at)','C02 and C03')]
def which(a):
    if 'intp::' not in a or re.match(r'.*\bstd::(__|upper_bound|copy|fill|_Destroy|vector)',a.split('(')[0].split('intp::')[0]): return None
    for p,c in WHERE:
        if re.search(p,a): return c
    return None
def assumed(ass): return ['assumed contract (standard library, C library or IR intrinsic): '+a for a in ass if which(a) is None]
def proved(ass): return ['%s: used by its contract here; its body is verified against that contract by the check of %s'%(a,which(a)) for a in ass if which(a)]
U='UNBOUNDED (any size, all values): '; B='BOUNDED stand-in (shapes enumerated, all data and coordinate values symbolic): '
BOUNDS={
 'C01':U+'one axis: knots, every coefficient of the interpolation equations, right-hand side, solve and storing of the control points, orders 0-3 (quick) / 0-5 (thorough), four kinds of axis, with and without closing point. '+B+'the composed statement f(x_i)=f_i for 1-4 dimensions, orders 0-5, axis lengths from the minimum to about 3*order+7 points.',
 'C02':U+'value of a spline with any number of knots and any position of the coordinate: 1D orders 0-4, 2D order 1. '+B+'1-3 dimensions, orders 0-5, repeated knots, wrong hints.',
 'C03':U+'1D orders 0-3, first and higher derivatives. '+B+'1-3 dimensions, mixed derivatives, all overloads.',
 'C04':U+'1D orders 0-3 any shift by periods. '+B+'mixed periodic and non-periodic axes in 2 and 3 dimensions.',
 'C05':B+'orders 0-5, 1-3 dimensions; the decision to throw is for all coordinates; the ends of the range are also shown for any rounding.',
 'C06':U+'factorisation, substitution, any n, lower and upper bandwidth; lemma A x = b from L U = A in Lean. '+B+'sizes up to 7 for containers, iterators and strides.',
 'C07':U+'factorisation, substitution of the cyclic solver, any n and bandwidths with p+q<n; lemma in Lean. '+B+'sizes up to 9.',
 'C08':U+'element access, independence, copies and product, any n and bandwidths. '+B+'sizes up to 7.',
 'C09':U+'index maps and axis iterators, any extents, 1-4 dimensions.',
 'C10':U+'memory obligations of evaluation (1D orders 0-3, 2D order 1), of the band solvers and matrices (any size) and of the construction of the equations (1 axis, orders 0-2). '+B+'construction, evaluation, derivatives and evaluators in 1-3 dimensions.',
 'C11':B+'1-3 dimensions, orders 0-5, with and without the cell layout.',
 'C12':B+'1-2 dimensions, all ways of producing a function, copies and moves of templates.',
 'C13':B+'every number of lines from 2 to 29 (quick) / 70 (thorough) in two dimensions, some shapes in one and three dimensions; the schedule is covered by disjointness of footprints and the join of all futures.',
 'C14':U+'knots, range and kept coordinates of one axis, any number of points, any coordinates, orders 0-7. '+B+'all constructors; ends exact for any rounding, n up to order+5.'}
