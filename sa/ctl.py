"""show why a control stays undecided"""
import sys, os, threading
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), 'specs'))
sys.setrecursionlimit(20000)
threading.stack_size(512*1024*1024)
import importlib, project, engine
from terms import *
def main():
    P = project.Project()
    S = importlib.import_module(sys.argv[1].lower()).S
    for i, o in enumerate(S.obs):
        if sys.argv[2] in o.name and o.wrong:
            mod = engine.harness(P, S, i, o)
            r = engine.decide_pair(P, mod, 'wrong', 'ref', o, o.opaque)
            print(o.name, r[0], r[2]); print('WRONG', show(r[5])[:1500]); print('REF  ', show(r[6])[:1500])
t = threading.Thread(target=main); t.start(); t.join()
