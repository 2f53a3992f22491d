"""C04: concurrent tasks never touch the same data unordered."""
import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
from bv import *
from races import *
def main():
    ck = Check('C04')
    tot = {'ok': 0, 'undec': 0, 'viol': 0}; und = []; tasks = 0
    for tu in ('d_par', 'd_par:dataflow'):
        prog = load([tu])
        cnt = report(ck, prog, lambda f, nm: any(x[0] == 'omp' for x in walk(f.body)), 'lets conflicting tasks run unordered (%s synchronisation)' % ('dataflow' if 'dataflow' in tu else 'explicit'), fun=race_fn, rule='race' + ('-df' if 'dataflow' in tu else ''), limit=130)
        for k in tot: tot[k] += cnt[k]
        und += ck.cov['undecided']
        ck.cov['definitions_' + ('dataflow' if 'dataflow' in tu else 'explicit')] = cnt['ok'] + cnt['viol']
    ck.cov['tasks_analysed'] = ck.cov.pop('bounded_loops', 0)
    ck.cov['overlaps_not_decided'] = ck.cov.pop('flag_combinations', 0)
    ck.cov['undecided'] = und; ck.cov['definitions_undecided'] = tot['undec']
    ck.cov['definitions_checked'] = tot['ok'] + tot['viol']
    ck.require('definitions_decided', tot['ok'] + tot['viol'], 12)
    ck.samples = ['pfgemm 3-D split: the products into C and into its temporary, the wait, then the sum', 'parallel Winograd: 22 tasks, dependences per block or explicit waits']
    ck.finish(explanation='abstract interpretation of each task-parallel definition with the set of outstanding tasks (rectangles of each operand read and written, shared variables used and changed, dependences) in the state: every access is compared with the footprints of the tasks not ordered before it; nothing may be outstanding at return')
run(main)
