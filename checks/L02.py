"""Definite assignment by abstract interpretation of every library function, in the
context of its own callers and with all values of data unknown: local variables, every
element of local arrays and fixed matrices, dynamic matrices and new[] arrays of unknown
size (as a whole), and the members of local objects are followed from construction;
reading one that some path leaves unassigned is reported. Loops of constant length are
followed pass by pass, others to a fixpoint after their first pass; a flag or return
value that tells the paths apart is kept."""
from lib import *
import airun

MIN_OBLIGATIONS = 300
ASSUMPTIONS = ['a solver is called with at least one correspondence',
               'functions that are not part of the library assign what they are handed by non-const reference or pointer',
               'a write at a position that is not known assigns every position it may denote',
               'storage copied whole (a matrix or object copied before it is filled) is not a read']


def run(C):
    D = load()
    airun.report(C, D, ('uninit',), 'assigned-before-read', 'reads', ('read',))
