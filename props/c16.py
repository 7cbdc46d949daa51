"""Lagrange interpolation on 2D grids"""
from lib import lagrange
from lib.core import Sub

RULE = ('Grids of 1-6 distinct coordinates per direction (any order, negative, clustered or wide spacing), random nodal '
        'values, query points inside, outside and on nodes; exact rational oracle; non-trivial: at least two nodes in '
        'one direction and non-constant values.')
ASSUMPTIONS = ['coordinates within one direction are distinct']

SUBS = [Sub('oracle', lambda: lagrange.case(2), lagrange.check_oracle, 4000, 40000),
        Sub('nodal', lambda: lagrange.case(2), lagrange.check_nodal, 1500, 10000),
        Sub('polynomial', lambda: lagrange.poly(2), lagrange.check_poly, 1500, 10000),
        Sub('laws', lambda: lagrange.case(2), lagrange.check_laws, 1500, 10000),
        Sub('shapes', lambda: lagrange.mismatch(2), lagrange.check_mismatch, 400, 2000)]
