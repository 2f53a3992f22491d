"""C19: delayed reductions are completed before a result is used or returned."""
import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
from bv import *
from reduced import *
def main():
    ck = Check('C19')
    prog = load(['d_seq', 'd_more', 'd_par', 'd_mp', 'd_misc', 'd_check'])
    cnt = report(ck, prog, lambda f, nm: red_class(f)[0] == 'mod' and nm not in RAW and f.name != 'WinogradAcc_3_23', 'leaves or uses unreduced elements', fun=red_fn, rule='unreduced', limit=200, per=4 if ck.tier == 'quick' else 8)
    ck.cov['operations_classified'] = ck.cov.pop('bounded_loops', 0); ck.cov.pop('flag_combinations', 0)
    ck.require('definitions_decided', cnt['ok'] + cnt['viol'], 60)
    ck.samples = ['fgemm (delayed): lazy product, then ScalAndReduce', 'ftrsm delayed: blocks updated over the integers, reduced before the next solve']
    ck.finish(explanation='typestate analysis of matrix blocks (reduced / reduction delayed) by abstract interpretation with symbolic sizes: operations over the delayed ring and calls with a lazy helper make their output unreduced, freduce and finit make it reduced; no operation over the field without a bounds-carrying helper may read an unreduced block and no routine over the field may return one')
run(main)
