import sys, os, threading
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), 'specs'))
sys.setrecursionlimit(20000)
threading.stack_size(512*1024*1024)
import importlib, project, engine, interp as I, equiv
from terms import *
def main():
    pid, sub = sys.argv[1], sys.argv[2]
    P = project.Project()
    S = importlib.import_module(pid.lower()).S
    for i, o in enumerate(S.obs):
        if sub in o.name:
            mod = engine.harness(P, S, i, o)
            va, facts, ia = engine.evaluate(P, mod, 'impl', o, o.opaque)
            vb, _, ib = engine.evaluate(P, mod, 'ref', o, o.opaque)
            print('==', o.name)
            print('IMPL', show(va)[:6000])
            print('REF ', show(vb)[:6000])
            print('notes', ia.notes)
            print('used', list(ia.used))
            r, w, u = equiv.decide(va, vb, facts, ib, o.leaves)
            if '--as' in sys.argv:
                m = {}
                print('ASI', show(equiv.argsorted(va, m), 12)[:3000]); print('ASR', show(equiv.argsorted(vb, m), 12)[:3000])
            print(r, u)
            if '--root' in sys.argv:
                from terms import collect
                x = [t for t in collect(va, lambda t: t.op == 'lam')][0]; y = [t for t in collect(vb, lambda t: t.op == 'lam')][0]
                E = equiv.Equiv(ib, 3000)
                v, bx, _ = open_binder(x); _, by, _ = open_binder(y, v)
                print(show(bx[0], 14)); print(show(by[0], 14))
                print(E.compare(bx[0], by[0], facts), E.unk_reason, E.witness and engine.fmt_witness(E.witness))
            if w: print(engine.fmt_witness(w))
if "--dump" in sys.argv:
    import faulthandler; faulthandler.dump_traceback_later(40, exit=True)
t = threading.Thread(target=main); t.start(); t.join()
