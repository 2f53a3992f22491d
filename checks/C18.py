"""C18: symmetric updates and triangular inverses/products equal their definition on the triangle they own."""
import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
from bv import *
from tri import tri_fn, tri_groups
def main():
    ck = Check('C18')
    prog = load(['d_seq', 'd_more', 'd_par', 'd_mp', 'd_misc', 'd_check'])
    per = 2 if ck.tier == 'quick' else 8
    cnt = report(ck, prog, lambda f, nm: False, 'does not compute its definition', limit=120, fun=tri_fn, extra=tri_groups(prog, per), rule='tri')
    ck.require('definitions_verified', cnt['ok'], 8)
    ck.samples = ['fsyrk: the triangle of C becomes alpha op(A) op(A)^T + beta C', 'ftrtri: the triangle of A becomes its inverse, the other triangle and a unit diagonal are kept']
    ck.finish(explanation='modular dataflow analysis of each definition over block values, with square cells whose strict upper part, diagonal and strict lower part are tracked separately; the abstract memory at every exit is compared with the specification on the triangle the routine owns; calls are replaced by the summary of the callee')
run(main)
