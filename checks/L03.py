"""Interval and dimension analysis by abstract interpretation of every library function:
integer variables carry intervals, containers their lengths, dynamic matrices their
dimensions. Every subscript, block, row, column, head, tail or segment whose position and
whose range the code itself determines is compared with the dimensions; so are the
dimensions of matrix products, sums and assignments that are known."""
from lib import *
import airun

MIN_OBLIGATIONS = 150
ASSUMPTIONS = ['a position that depends on measured data through a comparison of data is not an obligation of this check',
               'lengths of what callers hand in are unknown',
               'a solver is called with at least one correspondence']


def run(C):
    D = load()
    airun.report(C, D, ('bounds', 'dims'), 'position-inside', 'positions', ('bounds', 'dims'))
