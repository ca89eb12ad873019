"""Decides obligations: value-numbers both texts against the repository's current source and compares the graphs."""
import os
import sys
import time
import traceback
sys.setrecursionlimit(20000)
from terms import *
import interp as I
import equiv
import fold
import lin
from ob import body, parse_args
from lin import Facts

EQ, NEQ, UNK = equiv.EQ, equiv.NEQ, equiv.UNK


class Result:
    def __init__(self, ob):
        self.ob = ob
        self.verdict = None
        self.why = ''
        self.witness = ''
        self.used = {}
        self.notes = []
        self.wall = 0.0
        self.broken = None
        self.control = True


def harness(project, spec, idx, ob):
    names = ', '.join(n for n, t in parse_args(ob.args))
    src = spec.imports + '\n' + spec.helpers + '\n'
    src += f'def pre({names}):\n' + ''.join('    assume(' + p + ')\n' for p in ob.pre) + '    return 0\n'
    src += f'def impl({names}):\n' + body(ob.impl)
    src += f'def ref({names}):\n' + body(ob.ref)
    if ob.wrong:
        src += f'def wrong({names}):\n' + body(ob.wrong)
    name = f'%{spec.pid}_{idx}'
    return project.add_module(name, src, f'<obligation {spec.pid} {ob.name}>')


def check_imports(project, mod):
    bad = []
    for n, i in mod.imports.items():
        if project.resolve_name(mod, n) is None:
            bad.append(n)
    return bad


def evaluate(project, mod, which, ob, opaque):
    it = I.Interp(project, opaque, ob.budget)
    typ = {}
    args = []
    for n, t in parse_args(ob.args):
        args.append(sym(n, 'num' if t == 'timedelta' else t))
    st0 = I.State({}, [], Facts())
    it.run(mod.functions['pre'], args, st0)
    facts = it.facts0 = st0.facts
    st = I.State({}, [], facts)
    v = it.run(mod.functions[which], args, st)
    return v, facts, it


PENDING = []            # the graphs of the obligation being decided


def decide_pair(project, mod, a, b, ob, opaque, narrow=True):
    va, facts, ia = evaluate(project, mod, a, ob, opaque)
    vb, facts, ib = evaluate(project, mod, b, ob, opaque)
    if a == 'impl' and not PENDING:
        PENDING.append((va, vb, ib.facts0, ib, ia))
    r, w, u = equiv.decide(va, vb, facts, ib, ob.leaves, narrow)
    return r, w, u, ia, ib, va, vb


def fmt_witness(w):
    a, b, facts, why = w
    conds = [show(c) for c in facts.conds][-12:]
    s = f'current source yields {show(a)[:600]} where the property requires {show(b)[:600]}'
    if why:
        s += f' ({why})'
    if conds:
        s += '; on the path where ' + ' and '.join(c[:200] for c in conds)
    return s


POINTS = float(os.environ.get('VERIF_POINTS', '25'))


def refute(seconds=POINTS):
    """a point at which the graphs of the obligation being decided differ"""
    if not PENDING:
        return None
    va, vb, facts, ib, ia = PENDING[0]
    if vb.op == 'raise' or has_unk(va) and va.op == 'unk':
        return None
    try:
        return fold.refute(va, vb, facts, ib, seconds)
    except RecursionError:
        return None


SECOND = float(os.environ.get('VERIF_SECOND', '30'))
LEAKY = {'weekday', 'in', 'get', 'exists', 'at', 'year', 'keys', 'bisect_l', 'bisect_r'}


def ops(t):
    return {x.op for x in collect(t, lambda x: True)}


def run_ob(project, spec, idx, ob, want_terms=False):
    res = Result(ob)
    t0 = time.time()
    del PENDING[:]
    try:
        mod = harness(project, spec, idx, ob)
        bad = check_imports(project, mod)
        if bad:
            res.broken = 'entry point vanished: ' + ', '.join(bad)
            return res
        r, w, u, ia, ib, va, vb = decide_pair(project, mod, 'impl', 'ref', ob, ob.opaque)
        if want_terms:
            res.terms = (va, vb)
        res.used = dict(ia.used)
        res.notes = list(ia.notes)
        if r == NEQ and ob.opaque:
            # the same question with those functions looked into: within a time limit when they are used alike and nothing else looks into what they decide
            alike = ia.opaque_used == ib.opaque_used and not (ops(va) - ops(vb)) & LEAKY
            equiv.DEADLINE[0] = time.monotonic() + SECOND if alike else None
            try:
                r2, w2, u2, ia2, ib2, va2, vb2 = decide_pair(project, mod, 'impl', 'ref', ob, (), ia.opaque_used != ib.opaque_used)
            except equiv.Budget:
                r2, w2, u2, ia2, ib2 = UNK, None, 'time', ia, ib
            finally:
                equiv.DEADLINE[0] = None
            if r2 == EQ:
                r = EQ
            elif alike:
                pass
            else:
                r, w, u = r2, w2, u2
            res.used.update(ia2.used)
        if vb.op == 'raise' and 'raise' not in ob.ref and ('raise' not in spec.helpers or vb.args[0] in ('AttributeError', 'NameError', 'TypeError', 'KeyError')):
            res.broken = 'the reference always raises ' + str(vb.args[0])
        if lin.infeasible(ib.facts0):
            res.broken = 'contradictory preconditions'
        res.verdict = r
        if r == NEQ:
            res.witness = fmt_witness(w)
        elif r == UNK:
            res.why = str(u)
        if ob.wrong and r == EQ:
            rw = decide_pair(project, mod, 'wrong', 'ref', ob, ob.opaque)[0]
            if rw == EQ:
                res.broken = 'control obligation is not refuted (EQ)'
            elif rw != NEQ:
                res.notes.append('control obligation undecided')
                res.control = False
    except I.Undecided as e:
        res.verdict, res.why = UNK, 'analysis: ' + str(e)
    except equiv.Budget:
        res.verdict, res.why = UNK, 'case budget'
    except RecursionError:
        res.verdict, res.why = UNK, 'nesting depth'
    except Exception as e:
        res.verdict, res.why = UNK, f'internal {type(e).__name__}: {e}'
        res.notes.append(traceback.format_exc())
    if res.verdict == UNK and not res.broken:
        r = refute()
        if r:
            res.verdict, res.witness = NEQ, r
            res.used.update(PENDING[0][4].used)
    res.wall = time.time() - t0
    return res
