"""C02: products, sums and copies of matrices and vectors equal their definition, block by block."""
import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
from bv import *
from lanerun import run_lanes
TRI = {'ftrsm', 'ftrmm', 'functor', 'delayed'}
def main():
    ck = Check('C02')
    prog = load(['d_seq', 'd_more', 'd_par', 'd_mp', 'd_misc', 'd_check'])
    cnt = report(ck, prog, lambda f, nm: nm not in TRI, 'does not compute its definition')
    ck.require('definitions_verified', cnt['ok'], 40)
    lanes, und, paths, obs, its = run_lanes(ck, ['', ':x86-64'])
    ck.cov['elementwise_definitions_decided'] = lanes['ok'] + lanes['viol']; ck.cov['elementwise_undecided'] = sorted(und)[:10]
    ck.samples = ['fgemm: C <- alpha op(A) op(B) + beta C on exactly the m x n block of C', 'Winograd schedules on 2m x 2n x 2k blocks, all transposition flags']
    ck.finish(explanation='modular dataflow analysis of each definition over the abstract domain of block values (non-commutative polynomials in the operand blocks, symbolic sizes); the abstract memory at every exit is compared with the specification; calls are replaced by the summary of the callee; element-wise kernels by the generic-element analysis of C06')
run(main)
