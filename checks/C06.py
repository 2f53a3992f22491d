"""C06: element-wise routines compute the reduced result, for every length, increment and alignment."""
import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
from core import *
from lanerun import run_lanes
def main():
    ck = Check('C06')
    archs = ['', ':x86-64', ':nehalem', ':avx512'] + ([':sandybridge'] if ck.tier == 'thorough' else [])
    cnt, und, paths, obs, its = run_lanes(ck, archs)
    ck.cov['definitions_undecided'] = cnt['undec']; ck.cov['undecided'] = sorted(und)[:20]
    ck.cov['paths'] = paths; ck.cov['loop_iterations_summarised'] = its
    ck.require('definitions_decided', cnt['ok'] + cnt['viol'], 300)
    ck.require('obligations', obs, 1000)
    ck.finish(explanation='abstract interpretation of one generic element (and one generic lane) of every loop of the element-wise kernels, in a linear domain partitioned by the comparisons the code makes: each written element is congruent to its definition and lies in the representation interval, positions are written once, in order, up to the length')
run(main)
