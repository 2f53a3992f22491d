"""C03: triangular solves and triangular products equal their definition for all sixteen variants."""
import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
from bv import *
TRI = {'ftrsm', 'ftrmm', 'functor', 'delayed'}
def main():
    ck = Check('C03')
    prog = load(['d_seq', 'd_more', 'd_par', 'd_mp', 'd_misc', 'd_check'])
    cnt = report(ck, prog, lambda f, nm: nm in TRI, 'does not compute its definition')
    ck.require('definitions_verified', cnt['ok'], 40)
    ck.samples = ['ftrsm: B <- alpha op(A)^-1 B (or alpha B op(A)^-1) using only the designated triangle of A', 'recursive, iterative and parallel variants']
    ck.finish(explanation='modular dataflow analysis of each definition over the abstract domain of block values (non-commutative polynomials in the operand blocks, symbolic sizes); the abstract memory at every exit is compared with the specification; calls are replaced by the summary of the callee')
run(main)
