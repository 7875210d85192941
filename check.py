#!/usr/bin/env python3
"""check.py <property id>: decide one property on /repo's current tree."""
import importlib, os, sys, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
import threading
threading.stack_size(512 * 1024 * 1024)
sys.setrecursionlimit(200000)
from engine import extract, report

def main(pid):
    m = importlib.import_module('checks.' + pid.lower())
    try:
        extract.load()
    except extract.ExtractError as e:
        print('cannot analyse /repo: %s' % e); return 2
    c = report.Check(pid, getattr(m, 'LEVEL', 'other'))
    try:
        m.check(c)
    except Exception as e:     # an anchor that cannot be analysed any more fails closed
        tb = traceback.format_exc()
        c.undecided('analysis', 'the analysis stopped: %s | %s' % (e, tb[-1200:]))
    return c.finish()

def entry(pid):
    r = []
    def go():
        try: r.append(main(pid))
        except BaseException:
            traceback.print_exc(); r.append(3)
    t = threading.Thread(target=go); t.start(); t.join()
    sys.stdout.flush()
    os._exit(r[0])
if __name__ == '__main__':
    entry(sys.argv[1])
