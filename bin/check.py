#!/usr/bin/env python3-vt
"""check.py ID [--tier quick|thorough]"""
import sys, os, importlib, argparse
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [ROOT + '/vlib', ROOT + '/checks']
sys.dont_write_bytecode = True
sys.setrecursionlimit(20000)
def main():
    ap = argparse.ArgumentParser(); ap.add_argument('id'); ap.add_argument('--tier', default=os.environ.get('VERIF_TIER') or 'quick')
    a = ap.parse_args()
    import report
    m = importlib.import_module('check_' + a.id.lower())
    rep = report.Report(a.id, a.tier, m.LEVEL)
    m.run(rep, a.tier)
    sys.exit(rep.finish())
main()
