"""Verification-condition generator over LLVM IR.

Executes a proof harness symbolically (path by path, loops cut by invariants, calls either inlined, replaced by a
contract, or handled by an assumed library contract) and emits one SMT obligation per assertion and path.

Values     iN -> python int | z3 Int (signed value);  i1 -> bool | z3 Bool;  double/float -> FP(real, nan-flag)
           ptr -> Ptr(obj, off) (object identity, byte offset);  aggregates -> tuple
Memory     persistent log of typed writes above an uninterpreted initial memory, read-over-write resolved here.
"""
import z3, time, re, subprocess, os, sys
from fractions import Fraction
import llvm

class Unsupported(Exception): pass
class Limit(Exception): pass

I, R, BS = z3.IntSort(), z3.RealSort(), z3.BoolSort()
GLOB0 = -10**9          # object ids below this are globals / functions
STOR0 = 10**12          # object ids above this are ghost container storage

def isc(x): return isinstance(x, (int, bool, Fraction))
def zi(x): return z3.IntVal(x) if isinstance(x, int) and not isinstance(x, bool) else x
def zb(x): return z3.BoolVal(x) if isinstance(x, bool) else x
def zr(x):
    if isinstance(x, (int, Fraction)): return z3.RealVal(str(Fraction(x)))
    return x

class Ptr:
    __slots__ = ('o', 'f')
    def __init__(s, o, f): s.o = o; s.f = f
    def __repr__(s): return f'Ptr({s.o},{s.f})'
class FP:
    __slots__ = ('v', 'nan')
    def __init__(s, v, nan=False): s.v = v; s.nan = nan
    def __repr__(s): return f'FP({s.v}{",nan?" if s.nan is not False else ""})'
NULL = Ptr(0, 0)
class Undef:
    def __init__(s, ty): s.ty = ty

# ---------------------------------------------------------------- term helpers
def same(a, b):
    if isc(a) and isc(b): return a == b
    if isc(a) or isc(b): return False
    return a.eq(b)
def add(a, b):
    if isc(a) and isc(b): return a + b
    if isc(a) and a == 0: return b
    if isc(b) and b == 0: return a
    # flatten (t + c1) + c2
    if isc(b) and z3.is_add(a) and a.num_args() == 2 and z3.is_int_value(a.arg(1)):
        c = a.arg(1).as_long() + b
        return a.arg(0) if c == 0 else a.arg(0) + c
    if isc(a): return add(b, a)
    return a + b
def sub(a, b):
    if isc(b): return add(a, -b)
    if isc(a): return a - b
    if a.eq(b): return 0
    return a - b
def mul(a, b):
    if isc(a) and isc(b): return a * b
    if isc(b): a, b = b, a
    if isc(a):
        if a == 0: return 0
        if a == 1: return b
    return a * b
def norm(x):
    """z3 literal -> python"""
    if isc(x): return x
    if z3.is_int_value(x): return x.as_long()
    if z3.is_rational_value(x): return Fraction(x.numerator_as_long(), x.denominator_as_long())
    if z3.is_true(x): return True
    if z3.is_false(x): return False
    return x
def bnot(a): return (not a) if isinstance(a, bool) else (a.arg(0) if z3.is_not(a) else z3.Not(a))
def band(*xs):
    r = []
    for x in xs:
        if isinstance(x, bool):
            if not x: return False
        else: r.append(x)
    return True if not r else r[0] if len(r) == 1 else z3.And(*r)
def bor(*xs):
    r = []
    for x in xs:
        if isinstance(x, bool):
            if x: return True
        else: r.append(x)
    return False if not r else r[0] if len(r) == 1 else z3.Or(*r)
def ite(c, a, b):
    if isinstance(c, bool): return a if c else b
    if isinstance(a, Ptr): return Ptr(ite(c, a.o, b.o), ite(c, a.f, b.f))
    if isinstance(a, FP): return FP(ite(c, a.v, b.v) if not (isc(a.v) and isc(b.v) and a.v == b.v) else a.v, ite(c, a.nan, b.nan) if not (a.nan is False and b.nan is False) else False)
    if isinstance(a, tuple): return tuple(ite(c, x, y) for x, y in zip(a, b))
    if isinstance(a, Undef): return b
    if isinstance(b, Undef): return a
    if same(a, b): return a
    if isinstance(a, bool) or isinstance(b, bool) or z3.is_bool(a):
        if a is True and b is False: return c
        if a is False and b is True: return bnot(c)
        return z3.If(c, zb(a), zb(b))
    if isinstance(a, Fraction) or isinstance(b, Fraction) or (not isc(a) and a.sort() == R) or (not isc(b) and b.sort() == R):
        return z3.If(c, zr(a), zr(b))
    return z3.If(c, zi(a), zi(b))
def eq(a, b):
    if isc(a) and isc(b): return a == b
    if not isc(a) and not isc(b) and a.eq(b): return True
    if isinstance(a, bool) or isinstance(b, bool) or (not isc(a) and z3.is_bool(a)): return zb(a) == zb(b)
    # t + c == t + d
    if not isc(a) and not isc(b) and z3.is_int(a):
        r = norm(z3.simplify(a == b))
        return r
    return (zr(a) if isinstance(a, Fraction) else zi(a)) == (zr(b) if isinstance(b, Fraction) else zi(b))
def cmp_(op, a, b):
    if isc(a) and isc(b):
        return {'<': a < b, '<=': a <= b, '>': a > b, '>=': a >= b}[op]
    if not isc(a) and not isc(b) and a.eq(b): return op in ('<=', '>=')
    if isinstance(a, Fraction): a = zr(a)
    if isinstance(b, Fraction): b = zr(b)
    return {'<': a < b, '<=': a <= b, '>': a > b, '>=': a >= b}[op]
def lt(a, b): return cmp_('<', a, b)
def le(a, b): return cmp_('<=', a, b)

# ---------------------------------------------------------------- memory
class Mem:
    """persistent log. entry kinds:
       ('w', o, f, size, kind, val)  ('cp', o, f, n, srcmem, so, sf)  ('set', o, f, n, byteval)  ('hv', patterns, base)  ('root', base)"""
    __slots__ = ('par', 'e', 'cache', 'n')
    def __init__(s, par, e):
        s.par = par; s.e = e; s.cache = {}; s.n = (par.n + 1) if par else 0

class Base:
    cnt = 0
    def __init__(s, nalloc, tag=''):
        s.id = Base.cnt; Base.cnt += 1; s.nalloc = nalloc; s.tag = tag; s.fn = {}
    def get(s, kind, sort, o, f):
        k = s.fn.get(kind)
        if k is None:
            k = z3.Function(f'M{s.id}{s.tag}.{kind}', I, I, sort); s.fn[kind] = k
        return k(zi(o), zi(f))

class Frame:
    __slots__ = ('fn', 'env', 'blk', 'prev', 'ip', 'ret', 'loops', 'inv_entry', 'allocs')
    # ret: callback kind for result: ('inst', Inst) or None ; loops: dict header -> ctx
    def copy(s):
        r = Frame(); r.fn = s.fn; r.env = dict(s.env); r.blk = s.blk; r.prev = s.prev; r.ip = s.ip; r.ret = s.ret
        r.loops = dict(s.loops); r.inv_entry = s.inv_entry; r.allocs = list(s.allocs); return r

class State:
    __slots__ = ('pc', 'mem', 'frames', 'nalloc', 'exc', 'trace', 'ghost', 'writes', 'unroll')
    def copy(s):
        r = State(); r.pc = list(s.pc); r.mem = s.mem; r.frames = [f.copy() for f in s.frames]; r.nalloc = s.nalloc
        r.exc = s.exc; r.trace = list(s.trace); r.ghost = dict(s.ghost); r.writes = s.writes; r.unroll = dict(s.unroll)
        return r

def hasq(t, memo={}):
    k = t.get_id()
    if k in memo: return memo[k][1]
    r = z3.is_quantifier(t) or any(hasq(c) for c in t.children())
    memo[k] = (t, r); return r

def vars_in(t, acc, seen):
    if isc(t): return
    st = [t]
    while st:
        x = st.pop()
        i = x.get_id()
        if i in seen: continue
        seen.add(i)
        if z3.is_quantifier(x): st.append(x.body()); continue
        if z3.is_app(x):
            if x.decl().kind() == z3.Z3_OP_UNINTERPRETED: acc.add(x.decl().name())
            st.extend(x.children())

class Obl:
    def __init__(s, name, status, path, secs, backend, model=None, where=None, detail=None):
        s.name = name; s.status = status; s.path = path; s.secs = secs; s.backend = backend; s.model = model; s.where = where; s.detail = detail

def demangle(names):
    if not names: return {}
    p = subprocess.run(['c++filt'], input='\n'.join(names), capture_output=True, text=True)
    return dict(zip(names, p.stdout.split('\n')))

class Engine:
    def __init__(s, module, loops=None, contracts=None, handlers=None, opts=None):
        s.m = module
        s.loopspec = loops or []        # list of LoopSpec
        s.contracts = contracts or {}   # mangled/demangled name -> replacement function name
        s.handlers = dict(BUILTIN); s.handlers.update(handlers or {})
        s.opts = dict(max_unroll=40, feas_ms=3000, obl_ms=20000, max_paths=4000, check_mem=False, check_ovf=False, wall=600)
        s.opts.update(opts or {})
        s.fresh_n = 0; s.solver = z3.Solver(); s.solver.set('array.extensional', False); s.stack = []
        s.gid = {}; s.gname = {}
        s.obls = []; s.covers = {}; s.solver_s = 0.0; s.nqueries = 0
        s.funcs_seen = set(); s.assumptions = set(); s.handlers_used = set(); s.contracts_used = set()
        s.discovering = 0; s.quant = 0
        s.dropped = set()      # dropped houdini candidates
        s.cand_all = set()
        s.loop_mod = {}
        s.t0 = time.time()
        s.dem = demangle(module.names())
        s.nodes = []
        s.model_terms = []     # (label, term) to be evaluated in counterexamples
        s.mode = 'check'
        s.strs = {}

    # ------------------------------------------------ utilities
    def fresh(s, name, sort):
        if s.quant: raise Unsupported('fresh symbol under quantifier: ' + name)
        s.fresh_n += 1
        return z3.Const(f'{name}!{s.fresh_n}', sort)
    def assume(s, st, c):
        if isinstance(c, bool):
            if not c: st.pc.append(z3.BoolVal(False))
            return
        st.pc.append(c)
    def sync(s, pc):
        k = 0
        n = min(len(pc), len(s.stack))
        while k < n and s.stack[k] is pc[k]: k += 1
        if len(s.stack) > k:
            s.solver.pop(len(s.stack) - k); del s.stack[k:]
        for c in pc[k:]:
            s.solver.push(); s.stack.append(c)
            if not hasq(c): s.solver.add(c)
    def feasible(s, pc, c):
        if isinstance(c, bool): return c
        s.sync(pc)
        s.solver.set('timeout', 300 if hasq(c) else s.opts['feas_ms'])
        t = time.time(); r = s.solver.check(c); s.solver_s += time.time() - t; s.nqueries += 1
        if os.environ.get('VC_SLOW') and time.time() - t > 1:
            s.slow = getattr(s, 'slow', 0) + 1; x = z3.Solver(); x.add([f for f in pc if not hasq(f)]); x.add(c); open('%s/slow%d_%s.smt2' % (os.environ['VC_SLOW'], s.slow, r), 'w').write(x.to_smt2())
        return r != z3.unsat
    def entailed(s, st, c):
        if isinstance(c, bool): return c
        if hasq(c): return False
        s.sync(st.pc); s.solver.set('timeout', s.opts['feas_ms'])
        t = time.time(); r = s.solver.check(z3.Not(c)); s.solver_s += time.time() - t
        return r == z3.unsat

    def prove(s, pc, goal, ms=None, quick=False):
        """-> (status, backend, secs, model) status in proved/refuted/unknown"""
        if goal is True: return 'proved', 'syntactic', 0.0, None
        t0 = time.time()
        ms = ms or s.opts['obl_ms']
        g = z3.Not(zb(goal))
        s.nqueries += 1
        # cheap first attempt: incremental solver without the quantified assumptions
        def done(st, be, m=None):
            d = time.time() - t0; s.solver_s += d
            return st, be, d, m
        quants = any(hasq(c) for c in pc) or hasq(g)
        if s.opts.get('nla'):
            r = s.prove_nla(pc, g, ms)
            if r == z3.unsat: return done('proved', 'z3-nlsat')
        def mk(t, **k):
            x = z3.Solver(); x.set('timeout', int(t))
            for a, b in k.items(): x.set(a.replace('__', '.'), b)
            for c in pc: x.add(c)
            x.add(g); return x
        if not quants:
            sol = mk(ms); r = sol.check()
            if r == z3.unsat: return done('proved', 'z3')
            if r == z3.sat: return done('refuted', 'z3', sol.model())
            r, m = s.cvc5(mk(ms), ms)
            if r == 'unsat': return done('proved', 'cvc5')
            if r == 'sat': return done('refuted', 'cvc5', None)
            sol = mk(ms, smt__random_seed=7); r = sol.check()
            if r == z3.unsat: return done('proved', 'z3')
            if r == z3.sat: return done('refuted', 'z3', sol.model())
            return done('unknown', 'z3+cvc5')
        # quantified: pattern-driven instantiation only, then without the quantified hypotheses, then cvc5, then model-based instantiation
        if mk(min(ms, 5000), auto_config=False, smt__mbqi=False).check() == z3.unsat: return done('proved', 'z3')
        s2 = z3.Solver(); s2.set('timeout', min(ms, 2000))
        for c in pc:
            if not hasq(c): s2.add(c)
        s2.add(g)
        if s2.check() == z3.unsat: return done('proved', 'z3')
        r, m = s.cvc5(mk(ms), ms if not quick else ms / 3)
        if r == 'unsat': return done('proved', 'cvc5')
        if r == 'sat': return done('refuted', 'cvc5', None)
        if quick: return done('unknown', 'z3+cvc5')
        sol = mk(ms / 2); r = sol.check()
        if r == z3.unsat: return done('proved', 'z3')
        if r == z3.sat: return done('refuted', 'z3', sol.model())
        sol = mk(ms / 2, smt__random_seed=7, smt__mbqi=True); r = sol.check()
        if r == z3.unsat: return done('proved', 'z3')
        if r == z3.sat: return done('refuted', 'z3', sol.model())
        return done('unknown', 'z3+cvc5')

    def prove_nla(s, pc, g, ms):
        """ground nonlinear real: abstract UF applications by constants, then nlsat"""
        fs = [c for c in pc if not hasq(c)] + [g]
        memo = {}
        def ab(t):
            k = t.get_id()
            if k in memo: return memo[k][1]
            if z3.is_app(t) and t.num_args() > 0 and t.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                r = z3.Const('uf!%d' % k, t.sort())
            elif z3.is_app(t) and t.num_args() > 0:
                ch = [ab(c) for c in t.children()]
                r = t.decl()(*ch) if any(a is not b for a, b in zip(ch, t.children())) else t
            else: r = t
            memo[k] = (t, r); return r
        try:
            tac = z3.TryFor(z3.Then('simplify', 'solve-eqs', 'purify-arith', 'qfnra-nlsat') , ms)
            sol = tac.solver()
            for f in fs: sol.add(ab(f))
            return sol.check()
        except z3.Z3Exception:
            return z3.unknown

    def cvc5(s, sol, ms):
        try:
            txt = '(set-logic ALL)\n' + sol.to_smt2()
            p = subprocess.run(['cvc5', '--lang=smt2', f'--tlimit={ms}', '-q'] + s.opts.get('cvc5_args', []), input=txt, capture_output=True, text=True, timeout=ms / 1000 + 5)
            o = p.stdout.strip().split('\n')[0] if p.stdout else ''
            if o in ('sat', 'unsat'): return o, None
        except Exception: pass
        return 'unknown', None

    # ------------------------------------------------ globals
    def gobj(s, name):
        name = s.m.alias.get(name, name)
        if name not in s.gid:
            s.gid[name] = GLOB0 - 1 - len(s.gid); s.gname[s.gid[name]] = name
        return s.gid[name]

    # ------------------------------------------------ memory
    def kind_of(s, ty):
        k = ty.kind
        if k == 'int': return 'i%d' % (8 if ty.w == 1 else ty.w)
        if k in ('double', 'float', 'x86_fp80'): return 'f'
        if k == 'ptr': return 'p'
        raise Unsupported('memory kind of ' + repr(ty))

    def write(s, st, o, f, size, kind, val):
        st.mem = Mem(st.mem, ('w', o, f, size, kind, val))
        if st.writes is not None: st.writes.append((o, f, size))
    def eqo(s, a, b): return eq(a, b)
    def disjoint_obj(s, a, b):
        """syntactic: surely different objects"""
        if isc(a) and isc(b): return a != b
        return False

    def from_base(s, st, base, kind, o, f):
        if kind == 'p':
            po = base.get('po', I, o, f); pf = base.get('pf', I, o, f)
            if not s.quant:
                c = z3.Or(z3.And(po >= -base.nalloc, po < STOR0) if base.tag != 'L' else po >= -base.nalloc, po <= GLOB0)
                st.pc.append(c); st.pc.append(z3.Implies(po == 0, pf == 0))
            return Ptr(po, pf)
        if kind == 'f': return FP(base.get('f', R, o, f))
        if kind[0] == 'i':
            v = base.get(kind, I, o, f); w = int(kind[1:])
            if not s.quant: st.pc.append(z3.And(v >= -(1 << (w - 1)), v < (1 << (w - 1))))
            return v
        if kind.startswith('g:'):
            return base.get(kind, GSORT[kind[2:]], o, f)
        raise Unsupported('base read ' + kind)

    def global_read(s, st, kind, o, f, size):
        """constant initialisers of globals"""
        name = s.gname.get(o)
        gi = s.m.global_info(name)
        if gi is None: return None
        ty, ini, const = gi
        if ini is None: return None
        return s.init_at(st, ty, ini, f, kind, size)
    def init_at(s, st, ty, c, f, kind, size):
        if c[0] == 'zero' or c[0] == 'null':
            return s.zero_of(kind)
        if ty.kind == 'struct':
            for i in range(len(ty.els) - 1, -1, -1):
                if ty.offs[i] <= f and c[0] == 'agg':
                    return s.init_at(st, ty.els[i], c[2][i], f - ty.offs[i], kind, size)
        if ty.kind == 'array':
            i = f // ty.el.size
            if i >= ty.n: return None
            return s.init_at(st, ty.el, c[2][i], f - i * ty.el.size, kind, size)
        if f == 0:
            v = s.value(st, None, c)
            return v
        return None
    def zero_of(s, kind):
        if kind == 'p': return NULL
        if kind == 'f': return FP(Fraction(0))
        if kind[0] == 'i': return 0
        return None
    def kind_val_ok(s, kind, v):
        if kind == 'p': return isinstance(v, Ptr)
        if kind == 'f': return isinstance(v, FP)
        return not isinstance(v, (Ptr, FP, Undef, tuple))
    def fresh_kind(s, kind):
        if kind == 'p': return Ptr(s.fresh('uo', I), s.fresh('uf', I))
        if kind == 'f': return FP(s.fresh('u', R))
        if kind[0] == 'i': return s.fresh('u', I)
        return s.fresh('u', GSORT[kind[2:]])

    def read(s, st, mem, o, f, size, kind):
        # iterative walk collecting conditional layers
        layers = []       # (cond, value)
        key = (kind, o if isc(o) else o.get_id(), f if isc(f) else f.get_id())
        m = mem; visited = []
        while True:
            if key in m.cache and m.cache[key][3] == s.quant:
                val = m.cache[key][0]; break
            visited.append((m, len(layers)))
            e = m.e
            t = e[0]
            if t == 'w':
                _, wo, wf, ws, wk, wv = e
                if s.disjoint_obj(o, wo): m = m.par; continue
                if isc(f) and isc(wf):
                    if f + size <= wf or wf + ws <= f: m = m.par; continue
                    fe = (f == wf)
                    exact = fe and (size == ws)
                    oc = s.eqo(o, wo)
                    if oc is False: m = m.par; continue
                    v = wv if (exact and wk == kind) else s.convert(st, wk, ws, wv, kind, size) if exact else s.fresh_kind(kind)
                    c = oc
                else:
                    oc = s.eqo(o, wo)
                    if oc is False: m = m.par; continue
                    fc = eq(f, wf)
                    if fc is False: m = m.par; continue
                    if wk != kind:
                        # differently typed cell at symbolic offset: typed-memory assumption
                        s.assumptions.add('typed memory: accesses of different type at symbolic offsets never alias')
                        m = m.par; continue
                    c = band(oc, fc); v = wv
                if c is True: val = v; break
                layers.append((c, v)); m = m.par; continue
            if t == 'hv':
                _, pats, base = e
                c = False; skip = False
                for (po, pf, psz) in pats:
                    oc = True if po is None else s.eqo(o, po) if not s.disjoint_obj(o, po) else False
                    if oc is False: continue
                    if isinstance(po, type(None)) and isc(o) and o < 0 and (o < GLOB0 or False):
                        continue
                    if pf is None: fc = True
                    elif isc(pf) and isc(f): fc = not (f + size <= pf or pf + psz <= f)
                    else: fc = eq(f, pf)
                    c = bor(c, band(oc, fc))
                if c is False: m = m.par; continue
                v = s.from_base(st, base, kind, o, f)
                if c is True: val = v; break
                layers.append((c, v)); m = m.par; continue
            if t == 'cp':
                _, do, df, n, smem, so, sf = e
                if s.disjoint_obj(o, do): m = m.par; continue
                oc = s.eqo(o, do)
                if oc is False: m = m.par; continue
                rel = sub(f, df)
                inr = band(le(0, rel), lt(rel, n)) if n is not None else True
                if not isinstance(inr, bool):
                    inr = norm(z3.simplify(inr))
                if inr is False: m = m.par; continue
                v = s.read(st, smem, so, add(sf, rel), size, kind)
                c = band(oc, inr)
                if c is True: val = v; break
                layers.append((c, v)); m = m.par; continue
            if t == 'set':
                _, do, df, n, bv = e
                if s.disjoint_obj(o, do): m = m.par; continue
                oc = s.eqo(o, do)
                if oc is False: m = m.par; continue
                rel = sub(f, df)
                inr = band(le(0, rel), lt(rel, n)) if n is not None else True
                if not isinstance(inr, bool): inr = norm(z3.simplify(inr))
                if inr is False: m = m.par; continue
                if bv == 0: v = s.zero_of(kind)
                elif isinstance(bv, tuple): v = bv[1] if bv[0] == kind else s.zero_of(kind)
                else: v = s.fresh_kind(kind)
                if v is None: m = m.par; continue
                c = band(oc, inr)
                if c is True: val = v; break
                layers.append((c, v)); m = m.par; continue
            if t == 'root':
                if isc(o) and o < GLOB0:
                    v = None
                    gi = s.m.global_info(s.gname.get(o, '')) if isc(f) else None
                    if gi and (gi[2] or s.opts.get('globals_init')) and kind[0] != 'g':
                        v = s.global_read(st, kind, o, f, size)
                        if v is not None and not s.kind_val_ok(kind, v): v = None
                    val = v if v is not None else s.from_base(st, e[1], kind, o, f)
                elif isc(o) and o == 0 and False: val = None
                else: val = s.from_base(st, e[1], kind, o, f)
                break
            raise Unsupported('mem entry')
        keep = (o, f, layers)
        # build value and cache at visited nodes
        nl = len(layers)
        cur = val
        li = nl
        for mm, depth in reversed(visited):
            while li > depth:
                li -= 1; cur = ite(layers[li][0], layers[li][1], cur)
            mm.cache[key] = (cur, o, f, s.quant)
        while li > 0:
            li -= 1; cur = ite(layers[li][0], layers[li][1], cur)
        return cur

    def convert(s, st, wk, ws, wv, kind, size):
        if wk[0] == 'i' and kind == 'p' and wv == 0 and isc(wv): return NULL
        if wk == 'p' and kind == 'i64': return s.ptr2int(st, wv)
        if wk == 'i64' and kind == 'p': return s.int2ptr(st, wv)
        if wk[0] == 'i' and kind == 'f' and isc(wv) and wv == 0: return FP(Fraction(0))
        if s.quant and kind == 'p' and wk != 'p':   # other type in memory: an arbitrary function of the value
            a = wv.v if isinstance(wv, FP) else wv
            a = z3.RealVal(str(a)) if isinstance(wv, FP) and isc(a) else z3.IntVal(a) if isc(a) else a
            if not isinstance(a, tuple) and z3.is_expr(a):
                return Ptr(z3.Function('cvo_' + wk, a.sort(), I)(a), z3.Function('cvf_' + wk, a.sort(), I)(a))
        return s.fresh_kind(kind)

    def load(s, st, p, ty):
        if isinstance(p, Undef): p = Ptr(s.fresh('uo', I), 0)
        k = ty.kind
        if k == 'struct': return tuple(s.load(st, Ptr(p.o, add(p.f, ty.offs[i])), e) for i, e in enumerate(ty.els))
        if k == 'array' or k == 'vector': return tuple(s.load(st, Ptr(p.o, add(p.f, i * ty.el.size)), ty.el) for i in range(ty.n))
        v = s.read(st, st.mem, p.o, p.f, ty.size, s.kind_of(ty))
        if k == 'int' and ty.w == 1: return v if isinstance(v, bool) else (v != 0)
        if k == 'int' and not s.quant and not isc(v): s.ranged(st, v, ty.w)
        return v
    def ranged(s, st, v, w):
        """type range of a value read from the initial memory (the read may be cached from another path)"""
        todo = [v]
        while todo:
            t = todo.pop()
            if not z3.is_app(t): continue
            if t.decl().kind() == z3.Z3_OP_ITE: todo += [t.arg(1), t.arg(2)]; continue
            if t.decl().kind() != z3.Z3_OP_UNINTERPRETED or not t.num_args(): continue
            key = ('rg', t.get_id())
            if key in st.ghost: continue
            st.ghost[key] = t; st.pc.append(z3.And(t >= -(1 << (w - 1)), t < (1 << (w - 1))))
    def store(s, st, p, ty, v):
        if isinstance(p, Undef): raise Unsupported('store to undef')
        k = ty.kind
        if k == 'struct':
            for i, e in enumerate(ty.els): s.store(st, Ptr(p.o, add(p.f, ty.offs[i])), e, v[i] if not isinstance(v, Undef) else Undef(e))
            return
        if k in ('array', 'vector'):
            for i in range(ty.n): s.store(st, Ptr(p.o, add(p.f, i * ty.el.size)), ty.el, v[i] if not isinstance(v, Undef) else Undef(ty.el))
            return
        kd = s.kind_of(ty)
        if isinstance(v, Undef): v = s.fresh_kind(kd)
        if k == 'int' and ty.w == 1: v = s.b2i(v)
        s.write(st, p.o, p.f, ty.size, kd, v)
    def b2i(s, v):
        if isinstance(v, bool): return int(v)
        return z3.If(v, z3.IntVal(1), z3.IntVal(0))

    def alloc(s, st, size=None, tag=''):
        if s.quant: pass
        st.nalloc += 1
        o = -st.nalloc
        st.ghost[('size', o)] = size
        return Ptr(o, 0)

    def ptr2int(s, st, p):
        if isc(p.o) and p.o == 0: return p.f
        f = ADDR(zi(p.o), zi(p.f))
        if not s.quant:
            st.pc.append(z3.And(ADO(f) == zi(p.o), ADF(f) == zi(p.f), (f == 0) == (zi(p.o) == 0)))
        return f
    def int2ptr(s, st, v):
        if isc(v):
            if v == 0: return NULL
            return Ptr(0, v)
        if z3.is_app(v) and v.decl().name() == 'ADDR': return Ptr(norm(v.arg(0)), norm(v.arg(1)))
        return Ptr(ADO(v), ADF(v))

    # ------------------------------------------------ values
    def value(s, st, fr, o):
        t = o[0]
        if t == 'v': return fr.env[o[1]]
        if t == 'a': return fr.env[('a', o[1])]
        if t == 'c': return bool(o[1]) if o[2] == 1 else o[1]
        if t == 'f':
            x = o[1]
            if x != x: return FP(Fraction(0), True)
            if x in (float('inf'), float('-inf')):
                s.assumptions.add('infinity constants modelled as an unspecified real larger than every finite double')
                return FP(INF if x > 0 else -INF)
            if abs(x) >= 1.7976931348623157e308: return FP(DMAX if x > 0 else -DMAX)
            return FP(Fraction(repr(x)))
        if t == 'g': return Ptr(s.gobj(o[1]), 0)
        if t == 'null': return NULL
        if t == 'undef':
            ty = o[1]
            return s.undef(ty)
        if t == 'zero': return s.zero(o[1])
        if t == 'agg': return tuple(s.value(st, fr, x) for x in o[2])
        if t == 'ce':
            _, op, ty, ops, ex = o
            if op == 'gep':
                return s.gep(st, ex, [s.value(st, fr, x) for x in ops])
            if op in ('bitcast', 'addrspacecast'): return s.value(st, fr, ops[0])
            if op == 'ptrtoint': return s.ptr2int(st, s.value(st, fr, ops[0]))
            if op == 'inttoptr': return s.int2ptr(st, s.value(st, fr, ops[0]))
            raise Unsupported('constexpr ' + str(op))
        if t == 'md': return ('md', o[1])
        raise Unsupported('operand ' + str(o))
    def undef(s, ty):
        if ty.kind == 'struct': return tuple(s.undef(e) for e in ty.els)
        if ty.kind in ('array', 'vector'): return tuple(s.undef(ty.el) for _ in range(ty.n))
        if ty.kind == 'int' and ty.w == 1: return s.fresh('ub', BS) if not s.quant else False
        if ty.kind == 'int': return s.fresh('u', I) if not s.quant else 0
        if ty.kind in ('double', 'float'): return FP(s.fresh('u', R))
        if ty.kind == 'ptr': return Ptr(s.fresh('uo', I), s.fresh('uf', I)) if not s.quant else NULL
        return Undef(ty)
    def zero(s, ty):
        if ty.kind == 'struct': return tuple(s.zero(e) for e in ty.els)
        if ty.kind in ('array', 'vector'): return tuple(s.zero(ty.el) for _ in range(ty.n))
        if ty.kind == 'int': return False if ty.w == 1 else 0
        if ty.kind == 'ptr': return NULL
        return FP(Fraction(0))
    def gep(s, st, ty, vals):
        p = vals[0]
        if isinstance(p, Undef): return p
        off = p.f
        off = add(off, mul(vals[1], ty.size)) if not (isc(vals[1]) and vals[1] == 0) else off
        t = ty
        for ix in vals[2:]:
            if t.kind == 'struct': off = add(off, t.offs[ix]); t = t.els[ix]
            elif t.kind in ('array', 'vector'): off = add(off, mul(ix, t.el.size)); t = t.el
            else: raise Unsupported('gep into ' + repr(t))
        return Ptr(p.o, off)

    # integer helpers
    def wrap(s, v, w):
        if isc(v):
            v &= (1 << w) - 1
            return v - (1 << w) if v >> (w - 1) else v
        M = 1 << w; H = 1 << (w - 1)
        return z3.If(v >= H, v - M, z3.If(v < -H, v + M, v))
    def wrapmul(s, v, w):
        if isc(v): return s.wrap(v, w)
        H = 1 << (w - 1); M = 1 << w
        return z3.If(z3.And(v >= -H, v < H), v, (v + H) % M - H)
    def uns(s, v, w):
        if isc(v): return v & ((1 << w) - 1)
        return z3.If(v < 0, v + (1 << w), v)
    def sgn(s, v, w):   # unsigned value -> signed canonical
        if isc(v): return s.wrap(v, w)
        return z3.If(v >= (1 << (w - 1)), v - (1 << w), v)

    # ------------------------------------------------ running
    def start(s, fname, args=None):
        st = State(); st.pc = [INF > 0, DMAX > 0, INF > DMAX]; st.nalloc = 0; st.exc = None; st.trace = []; st.ghost = {}; st.writes = None; st.unroll = {}
        st.mem = Mem(None, ('root', Base(0)))
        st.frames = []
        s.push(st, s.m.func(fname), args or [], None)
        return st
    def push(s, st, fn, args, ret):
        if fn is None or fn.decl: raise Unsupported('no body: ' + (fn.name if fn else '?'))
        if len(st.frames) > 200: raise Unsupported('call depth')
        fr = Frame(); fr.fn = fn; fr.env = {('a', i): a for i, a in enumerate(args)}; fr.blk = 0; fr.prev = None; fr.ip = -1; fr.ret = ret; fr.loops = {}; fr.inv_entry = None; fr.allocs = []
        st.frames.append(fr)
        if not s.quant: s.funcs_seen.add(fn.name)

    def verify(s, fname, args=None):
        """run harness to completion; collects obligations in s.obls"""
        st = s.start(fname, args)
        s.cur_harness = fname
        s.npaths = 0
        for end in s.run(st):
            s.npaths += 1
            if end[0] == 'throw':
                s.oblige(end[1], False, 'no exception escapes ' + fname, None)
        return s

    def run(s, st0):
        """DFS over paths. yields ('ret', state, value) / ('throw', state)"""
        work = [st0]
        depth0 = len(st0.frames)
        n = 0
        while work:
            st = work.pop()
            n += 1
            if n > s.opts['max_paths']: raise Limit('too many paths')
            r = s.run_path(st, work, depth0)
            if r is not None: yield r

    def run_path(s, st, work, depth0):
        while True:
            if time.time() - s.t0 > s.opts['wall']: raise Limit('wall time')
            fr = st.frames[-1]
            blk = fr.fn.blocks[fr.blk]
            if fr.ip < 0:
                r = s.enter_block(st, fr, blk, work)
                if r == 'end': return None
                fr = st.frames[-1]; blk = fr.fn.blocks[fr.blk]
            ins = blk.insts[fr.ip]
            fr.ip += 1
            r = s.step(st, fr, ins, work)
            if r is None: continue
            if r[0] == 'next':      # replaced state
                st = r[1]; continue
            if r[0] == 'end': return None
            if r[0] == 'ret':
                v = r[1]
                done = st.frames.pop()
                if len(st.frames) < depth0: return ('ret', st, v)
                s.deliver(st, done.ret, v)
                continue
            if r[0] == 'throw':
                if s.unwind(st, depth0): continue
                return ('throw', st)

    def deliver(s, st, ret, v):
        fr = st.frames[-1]
        if ret is None: return
        kind, ins = ret
        if ins is not None:
            if ins.ty.kind != 'void': fr.env[ins.id] = v
            if ins.op == 'invoke': s.goto(st, fr, ins.x['normal'])
    def goto(s, st, fr, b):
        fr.prev = fr.blk; fr.blk = b; fr.ip = -1

    def unwind(s, st, depth0):
        """st.exc set. find handler; returns True if resumed in some frame, False if it escapes"""
        while len(st.frames) >= depth0 and st.frames:
            fr = st.frames[-1]
            ins = fr.fn.blocks[fr.blk].insts[fr.ip - 1]
            if ins.op == 'invoke':
                s.goto(st, fr, ins.x['unwind']); return True
            st.frames.pop()
            if len(st.frames) < depth0: return False
        return False

    # ------------------------------------------------ loops
    def loopinfo(s, fn):
        if fn.loops is not None: return fn.loops
        n = len(fn.blocks)
        dom = [set(range(n)) for _ in range(n)]; dom[0] = {0}
        # reverse postorder
        order, seen = [], set()
        def dfs(b):
            stk = [(b, iter(fn.blocks[b].succs))]; seen.add(b)
            while stk:
                x, it = stk[-1]
                for c in it:
                    if c not in seen:
                        seen.add(c); stk.append((c, iter(fn.blocks[c].succs))); break
                else:
                    order.append(x); stk.pop()
        dfs(0); order.reverse()
        ch = True
        while ch:
            ch = False
            for b in order:
                if b == 0: continue
                ps = [p for p in fn.blocks[b].preds if p in seen]
                d = set.intersection(*[dom[p] for p in ps]) | {b} if ps else {b}
                if d != dom[b]: dom[b] = d; ch = True
        loops = {}
        for b in order:
            for t in fn.blocks[b].succs:
                if t in dom[b]:
                    body = {t, b}; stk = [b]
                    while stk:
                        x = stk.pop()
                        if x == t: continue
                        for p in fn.blocks[x].preds:
                            if p in seen and p not in body: body.add(p); stk.append(p)
                    loops.setdefault(t, set()).update(body)
        fn.loops = {h: frozenset(b) for h, b in loops.items()}
        fn.loops = dict(sorted(fn.loops.items(), key=lambda kv: order.index(kv[0])))
        return fn.loops

    def spec_for(s, fn, header):
        d = s.dem.get(fn.name, fn.name)
        for sp in s.loopspec:
            if re.search(sp.fn, d) or re.search(sp.fn, fn.name):
                hs = list(s.loopinfo(fn).keys())
                if sp.index is None or hs.index(header) == sp.index: return sp
        return None

    def phis(s, blk): return [i for i in blk.insts if i.op == 'phi']

    def enter_block(s, st, fr, blk, work):
        lp = s.loopinfo(fr.fn)
        ph = s.phis(blk)
        vals = {}
        if fr.prev is not None:
            for i in ph:
                for b, o in i.x:
                    if b == fr.prev: vals[i.id] = s.value(st, fr, o); break
        # leaving loops: drop contexts
        for h in list(fr.loops):
            if blk.id not in lp[h]: del fr.loops[h]
        if blk.id in lp:
            body = lp[blk.id]
            sp = s.spec_for(fr.fn, blk.id)
            back = fr.prev in body
            if sp is None:
                key = (len(st.frames), fr.fn.name, blk.id)
                if not back: st.unroll[key] = 0
                else:
                    st.unroll[key] = st.unroll.get(key, 0) + 1
                    if st.unroll[key] > s.opts['max_unroll']:
                        raise Limit(f'loop without invariant in {s.dem.get(fr.fn.name, fr.fn.name)} exceeds {s.opts["max_unroll"]} iterations')
            elif back and blk.id in fr.loops:
                ctx = fr.loops[blk.id]
                if ctx['mode'] == 'disc':
                    ctx['out'].append(('back', st.writes)); return 'end'
                s.check_inv(st, fr, blk, sp, vals, ctx, 'preserved')
                return 'end'
            else:
                fr.env.update(vals); fr.ip = len(ph)
                s.enter_loop(st, fr, blk, sp, ph, vals)
                return None
        fr.env.update(vals)
        fr.ip = len(ph)
        return None

    def enter_loop(s, st, fr, blk, sp, ph, vals):
        lkey = (s.cur_harness, fr.fn.name, blk.id, len(st.frames))
        # --- fixpoint of modified cells
        mods = []
        entry = st.copy()
        for rnd in range(12):
            s0 = entry.copy()
            f0 = s0.frames[-1]
            n0 = s.fresh_n
            basecnt0 = Base.cnt
            s.havoc_loop(s0, f0, blk, ph, mods, vals, entry, lkey)
            s0.writes = []
            out = []
            f0.loops = dict(f0.loops); f0.loops[blk.id] = {'mode': 'disc', 'out': out}
            f0.ip = len(ph)
            s.discovering += 1
            writes_all = []
            try:
                s.run_disc(s0, blk, lambda w: writes_all.extend(w))
            finally:
                s.discovering -= 1
            new = []
            nal0 = entry.nalloc
            for (o, f, sz) in writes_all:
                pat = s.stabilise(o, f, sz, n0, basecnt0, nal0)
                if pat is None: continue
                if not any(s.covers_pat(q, pat) for q in mods + new): new.append(pat)
            if not new: break
            mods += new
        else:
            raise Limit('loop frame fixpoint')
        # --- invariants
        ctx = {'mode': 'inv', 'entry': entry, 'sp': sp}
        ctx['cands'] = s.candidates(st, fr, blk, sp, ph, vals, lkey, mods)
        s.check_inv(st, fr, blk, sp, vals, ctx, 'initially')
        s.havoc_loop(st, fr, blk, ph, mods, vals, entry, lkey)
        ctx['iters'] = s.iters_of(entry, entry.frames[-1], ph, vals, lkey, mods)
        if s.discovering == 0 or True:
            for key, fn_, args in ctx['cands']:
                if key in s.dropped: continue
                v = s.eval_inv(st, fr, blk, fn_, args, None, ctx)
                s.assume(st, v)
        fr.loops[blk.id] = ctx
        if st.writes is not None:
            st.writes.extend([(None if p[0] is None else p[0], p[1], p[2]) for p in mods])

    def run_disc(s, st0, blk, sink):
        depth0 = len(st0.frames)
        base_writes = st0.writes
        work = [st0]; n = 0
        hdr_frames = depth0
        while work:
            st = work.pop(); n += 1
            if n > 400: raise Limit('discovery paths')
            st.writes = list(st.writes)
            # run until back edge / loop exit / end
            while True:
                if time.time() - s.t0 > s.opts['wall']: raise Limit('wall time')
                fr = st.frames[-1]
                if len(st.frames) == hdr_frames and blk.id not in fr.loops and fr.ip < 0:
                    break
                if len(st.frames) == hdr_frames and fr.ip < 0:
                    lp = s.loopinfo(fr.fn)
                    if fr.blk not in lp[blk.id]: break     # left the loop
                b = fr.fn.blocks[fr.blk]
                if fr.ip < 0:
                    if s.enter_block(st, fr, b, work) == 'end': break
                    fr = st.frames[-1]; b = fr.fn.blocks[fr.blk]
                ins = b.insts[fr.ip]; fr.ip += 1
                r = s.step(st, fr, ins, work)
                if r is None: continue
                if r[0] == 'next': st = r[1]; continue
                if r[0] == 'end': break
                if r[0] == 'ret':
                    v = r[1]
                    if len(st.frames) == hdr_frames: break
                    d = st.frames.pop(); s.deliver(st, d.ret, v); continue
                if r[0] == 'throw':
                    if s.unwind(st, hdr_frames): continue
                    break
            sink(st.writes)

    def stabilise(s, o, f, sz, n0, b0, nal0):
        if isc(o) and o is not None and -10**8 < o < -nal0: return None   # allocated inside the loop
        def stable(t):
            if t is None: return False
            if isc(t): return True
            acc = set(); vars_in(t, acc, set())
            for v in acc:
                if '!' in v and v.rsplit('!', 1)[1].isdigit() and int(v.rsplit('!', 1)[1]) > n0: return False
                mm = re.match(r'M(\d+)', v)
                if mm and int(mm.group(1)) >= b0: return False
            return True
        so = o if stable(o) else None
        sf = f if stable(f) else None
        return (so, sf, sz)
    def covers_pat(s, q, p):
        def cov(a, b): return a is None or (b is not None and same(a, b))
        if not cov(q[0], p[0]): return False
        if q[1] is None: return True
        if p[1] is None: return False
        if isc(q[1]) and isc(p[1]) and q[2] is not None and p[2] is not None:
            return q[1] <= p[1] and p[1] + p[2] <= q[1] + q[2]
        return same(q[1], p[1])

    def iters_of(s, st, fr, ph, vals, lkey, mods): return []
    def havoc_iters(s, st, fr, its): pass
    def havoc_loop(s, st, fr, blk, ph, mods, vals, entry, lkey):
        its = s.iters_of(entry, entry.frames[-1], ph, vals, lkey, mods)
        for i in ph:
            fr.env[i.id] = s.fresh_ty(st, i.ty, 'phi' + (i.name or ''), vals.get(i.id))
            # candidate $sameobj: the pointer stays within its object, so its writes only touch that one
            if i.ty.kind == 'ptr' and (s.cur_harness, fr.fn.name, blk.id, '$sameobj', i.id) not in s.dropped and isinstance(vals.get(i.id), Ptr) and not (isc(vals[i.id].o) and vals[i.id].o == 0):
                st.pc.append(zb(eq(fr.env[i.id].o, vals[i.id].o))); fr.env[i.id] = Ptr(vals[i.id].o, fr.env[i.id].f)
        if mods:
            if os.environ.get('VC_MODS'): print('MODS', fr.fn.name, blk.id, mods, flush=True)
            st.mem = Mem(st.mem, ('hv', list(mods), Base(st.nalloc, 'L')))
        s.havoc_iters(st, fr, its, mods)

    def fresh_ty(s, st, ty, nm, like=None):
        k = ty.kind
        if k == 'int':
            if ty.w == 1: return s.fresh(nm, BS)
            v = s.fresh(nm, I); st.pc.append(z3.And(v >= -(1 << (ty.w - 1)), v < (1 << (ty.w - 1)))); return v
        if k in ('double', 'float'): return FP(s.fresh(nm, R))
        if k == 'ptr':
            # keep the object when the initial value's object is concrete and all writes are offsets: handled by candidates
            po, pf = s.fresh(nm + '.o', I), s.fresh(nm + '.f', I)
            st.pc.append(z3.Or(z3.And(po >= -st.nalloc), po <= GLOB0)); st.pc.append(z3.Implies(po == 0, pf == 0))
            return Ptr(po, pf)
        if k == 'struct': return tuple(s.fresh_ty(st, e, nm) for e in ty.els)
        raise Unsupported('havoc ' + repr(ty))

    def outer_phis(s, fr, blk):
        return [(('env', i.id), i.ty) for b in fr.fn.blocks if b.id in fr.loops and b.id != blk.id for i in b.insts if i.op == 'phi' and i.id in fr.env]
    def slot(s, st, fr, kind, ph, vals, lkey, mods): raise Unsupported('slot ' + kind)
    def candidates(s, st, fr, blk, sp, ph, vals, lkey, mods):
        """instantiate every candidate with all type-compatible tuples of loop-carried values"""
        out = []
        live = [(('phi', i.id), i.ty) for i in ph]
        allocs = [(('al', a[0]), a[1]) for a in fr.allocs]
        for fname in sp.invs:
            kinds = None
            if isinstance(fname, tuple): fname, kinds = fname
            fn = s.m.func(fname)
            if fn is None: raise Unsupported('no invariant function ' + fname)
            slots = []
            if kinds is not None:
                for kd in kinds: slots.append([l for l, ty in live if ty.kind == 'double'] if kd == 'double' else [l for l, ty in live if ty.kind == 'int' and ty.w == int(kd[3:])] if kd.startswith('int') else [l for l, ty in live + s.outer_phis(fr, blk) if ty.kind == 'int' and ty.w == int(kd[4:])] if kd.startswith('lint') else s.slot(st, fr, kd, ph, vals, lkey, mods))
            else:
              for t in fn.argtys:
                  if t.kind == 'ptr': opts_ = [l for l, ty in live if ty.kind == 'ptr'] + [l for l, ty in allocs]
                  else: opts_ = [l for l, ty in live if ty.kind == t.kind and ty.w == t.w]
                  slots.append(opts_)
            def rec(i, acc):
                if i == len(slots):
                    key = (s.cur_harness, fr.fn.name, blk.id, fname, tuple(acc)); out.append((key, fname, list(acc))); return
                for o in slots[i]:
                    if o in acc: continue
                    rec(i + 1, acc + [o])
            rec(0, [])
        # generic candidates: pointer phi keeps its object; integer phis monotone
        for i in ph:
            if i.ty.kind == 'ptr': out.append(((s.cur_harness, fr.fn.name, blk.id, '$sameobj', i.id), '$sameobj', [('phi', i.id)]))
            if i.ty.kind == 'int' and i.ty.w > 1:
                out.append(((s.cur_harness, fr.fn.name, blk.id, '$ge', i.id), '$ge', [('phi', i.id)]))
                out.append(((s.cur_harness, fr.fn.name, blk.id, '$le', i.id), '$le', [('phi', i.id)]))
        for key, loc, c, kind in s.iters_of(st, fr, ph, vals, lkey, mods):
            for bk, bv in s.bounds_of(st, fr, c, mods, s.read(st, st.mem, fr.env[loc[1]].o, 0, 8, 'p') if loc[0] == 'cell' else vals[loc[1]]):
                out.append(((s.cur_harness, fr.fn.name, blk.id, '$bound', (loc, bk)), '$bound', [loc, bv]))
            ev = s.read(st, st.mem, fr.env[loc[1]].o, 0, 8, 'p') if loc[0] == 'cell' else vals[loc[1]]
            if kind == 'mmap': out.append(((s.cur_harness, fr.fn.name, blk.id, '$lbound', loc), '$lbound', [loc, ev]))
        return out
    def bounds_of(s, *a): return []

    def eval_bound(s, st, fr, args, vals, w): return True
    def eval_inv(s, st, fr, blk, fname, args, vals, ctx):
        av = []
        if fname in ('$bound', '$lbound'): return s.eval_bound(st, fr, args, vals, fname)
        for a in args:
            if a[0] == 'phi': av.append(vals[a[1]] if vals is not None else fr.env[a[1]])
            elif a[0] == 'phicell':
                tmp = s.alloc(st, 8); s.write(st, tmp.o, 0, 8, 'p', vals[a[1]] if vals is not None else fr.env[a[1]]); av.append(tmp)
            elif a[0] == 'arg': av.append(fr.env[('a', a[1])])
            elif a[0] == 'const': av.append(a[1])
            else: av.append(fr.env[a[1]])
        if fname[0] == '$':
            e = ctx['entry'].frames[-1].env[args[0][1]]
            if fname == '$sameobj': return eq(av[0].o, e.o)
            if fname == '$ge': return cmp_('>=', av[0], e)
            if fname == '$le': return cmp_('<=', av[0], e)
        s.inv_ctx = ctx
        return s.pure(st, fname, av)

    def check_iters(s, st, fr, ctx, vals): pass
    def check_inv(s, st, fr, blk, sp, vals, ctx, when):
        if s.discovering: return
        if when == 'preserved': s.check_iters(st, fr, ctx, vals)
        for key, fname, args in ctx['cands']:
            s.cand_all.add(key)
            if key in s.dropped: continue
            st2 = st.copy()
            v = s.eval_inv(st2, st2.frames[-1], blk, fname, args, vals, ctx)
            r, be, secs, model = s.prove(st2.pc, v, ms=s.opts.get('inv_ms', 8000), quick=True)
            if r != 'proved':
                s.new_dropped.add(key)
                if os.environ.get('VC_DUMP'):
                    Engine.ndump_g = getattr(Engine, 'ndump_g', 0) + 1; s.ndump = Engine.ndump_g; os.makedirs(os.environ['VC_DUMP'], exist_ok=True)
                    sol = z3.Solver(); sol.add([c for c in st2.pc]); sol.add(z3.Not(zb(v)))
                    with open(os.path.join(os.environ['VC_DUMP'], 'inv_%s_%d.smt2' % (s.cur_harness, s.ndump)), 'w') as f: f.write('; %s %s %s %s %s\n' % (fname, r, when, fr.fn.name, key[3:]) + sol.to_smt2())
            else: s.inv_ok = getattr(s, 'inv_ok', 0) + 1

    # ------------------------------------------------ pure evaluation of a boolean spec function
    def pure(s, st, fname, args):
        """evaluate function to a single term by enumerating its paths (no side effects allowed)"""
        sub_ = State(); sub_.pc = list(st.pc); sub_.mem = st.mem; sub_.frames = []; sub_.nalloc = st.nalloc; sub_.exc = None; sub_.trace = []; sub_.ghost = dict(st.ghost); sub_.writes = None; sub_.unroll = {}
        n0 = len(st.pc)
        fn = s.m.func(fname)
        s.push(sub_, fn, args, None)
        res = []
        pend = s.new_side if hasattr(s, 'new_side') else None
        for end in s.run(sub_):
            if end[0] == 'throw': raise Unsupported('spec function throws')
            res.append((end[1].pc[n0:], end[2]))
        if len(res) == 1:
            conds, v = res[0]
            if s.quant == 0:
                for c in conds: st.pc.append(c)
                return v
            return v if not conds else ('guard', conds, v)
        if s.quant == 0:
            r = None
            for conds, v in res:
                cc = z3.And(*conds) if conds else True
                r = v if r is None else ite(cc, v, r)
            # path side conditions: at least one path holds
            st.pc.append(z3.Or(*[z3.And(*c) if c else z3.BoolVal(True) for c, _ in res]))
            return r
        return ('paths', res)
    def quant_term(s, st, fname, bound, args, exists=False):
        s.quant += 1
        try:
            r = s.pure(st, fname, args)
        finally: s.quant -= 1
        if isinstance(r, tuple) and r[0] == 'guard': r = ('paths', [(r[1], r[2])])
        if isinstance(r, tuple) and r[0] == 'paths':
            parts = []
            for conds, v in r[1]:
                cc = z3.And(*conds) if conds else z3.BoolVal(True)
                parts.append(z3.And(cc, zb(v)) if exists else z3.Implies(cc, zb(v)))
            body = z3.Or(*parts) if exists else z3.And(*parts)
        else: body = zb(r)
        return z3.Exists(bound, body) if exists else z3.ForAll(bound, body)

    # ------------------------------------------------ obligations
    def where(s, st):
        for fr in reversed(st.frames):
            b = fr.fn.blocks[fr.blk]
            i = b.insts[max(0, fr.ip - 1)]
            if i.file and '/repo/' in ('/' + i.file): return f'{i.file}:{i.line}'
        return None
    def oblige(s, st, cond, name, _=None):
        if s.discovering or s.quant: return
        if s.mode != 'check':
            return
        r, be, secs, model = s.prove(st.pc, cond)
        if r != 'proved' and os.environ.get('VC_DUMP'):
            sol = z3.Solver()
            for c in st.pc: sol.add(c)
            sol.add(z3.Not(zb(cond)))
            os.makedirs(os.environ['VC_DUMP'], exist_ok=True)
            with open(os.path.join(os.environ['VC_DUMP'], '%s_%d.smt2' % (s.cur_harness, len(s.obls))), 'w') as f: f.write('; ' + name + '\n' + sol.to_smt2())
        md = None
        if r == 'refuted' and model is not None:
            md = {}
            for lab, t in st.trace:
                try: md.setdefault(lab, []).append(str(model.eval(t, model_completion=True)))
                except Exception: pass
        s.obls.append(Obl(name, r, s.npaths, secs, be, md, s.where(st)))
        if s.opts.get('verbose'): print(f'   [{r}] {name} {secs:.2f}s {be}', flush=True)

    # ------------------------------------------------ stepping
    def step(s, st, fr, ins, work):
        o = ins.op
        h = STEP.get(o)
        if h is None: raise Unsupported('instruction ' + o)
        return h(s, st, fr, ins, work)

    def branch(s, st, fr, c, tb, fb, work):
        c = norm(c) if not isinstance(c, bool) else c
        if isinstance(c, bool):
            s.goto(st, fr, tb if c else fb); return None
        nc = bnot(c)
        ft = s.feasible(st.pc, c)
        ff = s.feasible(st.pc, nc) if ft else True
        if ft and ff:
            st2 = st.copy()
            st2.pc.append(nc); s.goto(st2, st2.frames[-1], fb); work.append(st2)
            st.pc.append(c); s.goto(st, fr, tb)
        elif ft: st.pc.append(c); s.goto(st, fr, tb)
        else: st.pc.append(nc); s.goto(st, fr, fb)
        return None

    def split(s, st, work, alts):
        """alts: list of (cond, fn(state)); continues with the first feasible one, queues others"""
        fe = [(c, f) for c, f in alts if c is True or (c is not False and s.feasible(st.pc, c))]
        if not fe: return ('end',)
        for c, f in fe[1:]:
            st2 = st.copy()
            s.assume(st2, c); f(st2); work.append(st2)
        c, f = fe[0]; s.assume(st, c); f(st)
        return None

    # ------------------------------------------------ calls
    def call(s, st, fr, ins, work):
        x = ins.x
        cal = x['callee']
        if cal[0] == 'g': name = cal[1]
        elif cal[0] == 'asm': return None
        else:
            p = s.value(st, fr, cal)
            name = s.resolve_fp(st, fr, ins, p)
        name = s.m.alias.get(name, name)
        if name.startswith('llvm.dbg') or name.startswith('llvm.lifetime') or name.startswith('llvm.experimental.noalias') : 
            return s.finish(st, fr, ins, None)
        args = [s.value(st, fr, a) if a[0] != 'md' else a for a in ins.ops]
        return s.invoke_name(st, fr, ins, work, name, args)

    def invoke_name(s, st, fr, ins, work, name, args):
        d = s.dem.get(name, name)
        rep = s.contracts.get(name) or s.contracts.get(d)
        if rep is None:
            for k, v in s.contracts.items():
                if k.startswith('~') and re.search(k[1:], d): rep = v; break
        if isinstance(rep, str) and rep[0] == '!': rep = rep[1:] if any(f.fn.name == name for f in st.frames) else None    # recursive calls only
        if rep is not None and not any(f.fn.name == rep for f in st.frames):
            s.contracts_used.add((d, rep if isinstance(rep, str) else 'handler'))
            if callable(rep):
                return s.do_handler(st, fr, ins, work, rep, args)
            s.push(st, s.m.func(rep), args, ('inst', ins)); return None
        h = s.handlers.get(name)
        if h is None:
            for k, v in s.handlers.items():
                if k[0] == '~' and re.search(k[1:], d): h = v; break
        if h is None and name.startswith('llvm.'):
            parts = name.split('.')
            for n in range(len(parts), 1, -1):
                h = s.handlers.get('.'.join(parts[:n]))
                if h: break
        if h is not None:
            if not s.quant: s.handlers_used.add(name)
            return s.do_handler(st, fr, ins, work, h, args)
        fn = s.m.func(name)
        if fn is None or fn.decl: raise Unsupported('call to external function ' + d)
        s.push(st, fn, args, ('inst', ins))
        return None
    def do_handler(s, st, fr, ins, work, h, args):
        r = h(s, st, ins, args, work)
        if isinstance(r, tuple) and len(r) == 2 and isinstance(r[0], str) and r[0] == '$': 
            c = r[1]
            if c == 'handled': return None
            if c == 'end': return ('end',)
            if c == 'throw': return ('throw',)
        return s.finish(st, st.frames[-1], ins, r)
    def finish(s, st, fr, ins, v):
        if ins.ty.kind != 'void' and v is not None: fr.env[ins.id] = v
        elif ins.ty.kind != 'void': fr.env[ins.id] = s.undef(ins.ty)
        if ins.op == 'invoke': s.goto(st, fr, ins.x['normal'])
        return None
    def resolve_fp(s, st, fr, ins, p):
        o = p.o if isc(p.o) else norm(z3.simplify(p.o))
        if isc(o) and o in s.gname: return s.gname[o]
        # virtual call on symbolic object: find through type.test info
        info = st.ghost.get(('vcall', id(ins)))
        vt = s.virtual_target(st, fr, ins)
        if vt: return vt
        raise Unsupported(f'indirect call in {s.dem.get(fr.fn.name)} line {ins.line}')
    def virtual_target(s, st, fr, ins):
        """callee = load(gep(vtable, k)); vtable = load(obj), preceded by llvm.type.test(vtable, !"_ZTS..")"""
        defs = {}
        for b in fr.fn.blocks:
            for i in b.insts: defs[i.id] = i
        cal = ins.x['callee']
        if cal[0] != 'v': return None
        ld = defs[cal[1]]
        if ld.op != 'load' or ld.ops[0][0] != 'v': return None
        g = defs[ld.ops[0][1]]
        slot = 0; vt = None
        if g.op == 'gep' and g.ops[1][0] == 'c':
            slot = g.ops[1][1] * (g.x.size or 1); vt = g.ops[0]
        elif g.op == 'load': vt = ('v', g.id)
        cls = None
        for b in fr.fn.blocks:
            for i in b.insts:
                if i.op == 'call' and i.x['callee'] in (('g', 'llvm.type.test'), ('g', 'llvm.public.type.test')) and i.ops[0] == vt: cls = i.ops[1][1]
        if cls is None: return None
        cn = cls[4:]
        ovr = s.opts.get('vcalls', {})
        dn = s.dem_type(cn)
        for k, v in ovr.items():
            if k == f'{dn}#{slot//8}': return v
        gi = s.m.global_info('_ZTV' + cn)
        tgt = None
        if gi and gi[1] and gi[1][0] == 'agg':
            arr = gi[1][2][0]
            e = arr[2][2 + slot // 8]
            if e[0] == 'g': tgt = e[1]
        for k, v in ovr.items():
            if tgt and k == s.dem.get(tgt, tgt): return v
        if tgt: s.assumptions.add(f'virtual call {dn} slot {slot//8} dispatched to the static type\'s implementation {s.dem.get(tgt,tgt)}')
        return tgt
    def dem_type(s, cn):
        p = subprocess.run(['c++filt', '-t', cn], capture_output=True, text=True); return p.stdout.strip()

    def cstr(s, p):
        name = s.gname.get(p.o)
        if name is None: return None
        gi = s.m.global_info(name)
        if not gi or not gi[1]: return None
        if gi[1][0] == 'zero': return ''
        b = bytes((x[1] & 255) for x in gi[1][2])
        off = p.f if isc(p.f) else 0
        return b[off:].split(b'\0')[0].decode('latin1')

ADDR = z3.Function('ADDR', I, I, I); ADO = z3.Function('ADO', I, I); ADF = z3.Function('ADF', I, I)
INF = z3.Real('INF'); DMAX = z3.Real('DMAX')
GSORT = {}

def ptr_eq(s, a, b):
    o = s.eqo(a.o, b.o)
    if o is False: return False
    return band(o, eq(a.f, b.f))

class LoopSpec:
    def __init__(s, fn, invs, index=None): s.fn = fn; s.invs = invs; s.index = index

# ==================================================================== instruction semantics
STEP = {}
def op(*names):
    def d(f):
        for n in names: STEP[n] = f
        return f
    return d

@op('ret')
def _(s, st, fr, ins, work): return ('ret', s.value(st, fr, ins.ops[0]) if ins.ops else None)
@op('br')
def _(s, st, fr, ins, work):
    if not ins.ops: s.goto(st, fr, ins.x[0]); return None
    return s.branch(st, fr, s.value(st, fr, ins.ops[0]), ins.x[0], ins.x[1], work)
@op('switch')
def _(s, st, fr, ins, work):
    v = s.value(st, fr, ins.ops[0]); d, cases = ins.x
    if isc(v):
        for c, b in cases:
            if c == v: s.goto(st, fr, b); return None
        s.goto(st, fr, d); return None
    alts = []
    for c, b in cases: alts.append((eq(v, c), (lambda b: lambda t: s.goto(t, t.frames[-1], b))(b)))
    alts.append((band(*[bnot(eq(v, c)) for c, _ in cases]), lambda t: s.goto(t, t.frames[-1], d)))
    return s.split(st, work, alts)
@op('unreachable')
def _(s, st, fr, ins, work):
    return ('end',)
@op('alloca')
def _(s, st, fr, ins, work):
    n = s.value(st, fr, ins.ops[0])
    p = s.alloc(st, mul(n, ins.x.size) if not (isc(n) and n == 1) else ins.x.size)
    fr.env[ins.id] = p; fr.allocs.append((ins.id, ins.x))
@op('load')
def _(s, st, fr, ins, work):
    p = s.value(st, fr, ins.ops[0])
    s_chk(s, st, p, ins.ty.size)
    fr.env[ins.id] = s.load(st, p, ins.ty)
@op('store')
def _(s, st, fr, ins, work):
    p = s.value(st, fr, ins.ops[1])
    s_chk(s, st, p, ins.x.size)
    s.store(st, p, ins.x, s.value(st, fr, ins.ops[0]))
def s_chk(s, st, p, size):
    cm = s.opts['check_mem']
    if not cm or s.quant or s.discovering or isinstance(p, Undef): return
    if isc(p.o) and isc(p.f):
        sz = st.ghost.get(('size', p.o))
        if p.o == 0: s.oblige(st, False, 'memory: null dereference')
        elif sz is not None and isc(sz) and not (0 <= p.f and p.f + size <= sz): s.oblige(st, False, 'memory: access inside the object')
        elif sz is not None and not isc(sz): s.oblige(st, band(le(0, p.f), le(add(p.f, size), sz)), 'memory: access inside the object')
        return
    if isc(p.o):
        sz = st.ghost.get(('size', p.o))
        if sz is not None: s.oblige(st, band(le(0, p.f), le(add(p.f, size), sz)), 'memory: access inside the object')
        return
    if not isc(p.f):
        s.oblige(st, z3.And(zi(p.o) != 0, zi(p.f) >= 0, zi(p.f) + size <= OSIZE(zi(p.o))), 'memory: access inside the object')
OSIZE = z3.Function('OSIZE', I, I)

@op('gep')
def _(s, st, fr, ins, work): fr.env[ins.id] = s.gep(st, ins.x, [s.value(st, fr, o) for o in ins.ops])
@op('bitcast')
def _(s, st, fr, ins, work):
    a = ins.x; b = ins.ty
    if a.kind == b.kind or (a.kind == 'ptr'): fr.env[ins.id] = s.value(st, fr, ins.ops[0]); return
    fr.env[ins.id] = s.undef(b); s.assumptions.add('bit reinterpretation modelled as an arbitrary value')
@op('freeze')
def _(s, st, fr, ins, work): fr.env[ins.id] = s.value(st, fr, ins.ops[0])
@op('select')
def _(s, st, fr, ins, work):
    c, a, b = [s.value(st, fr, o) for o in ins.ops]; fr.env[ins.id] = ite(norm(c), a, b)
@op('add', 'sub', 'mul')
def _(s, st, fr, ins, work):
    a, b = [s.value(st, fr, o) for o in ins.ops]; w = ins.ty.w; nsw, nuw = ins.x
    if isinstance(a, (bool,)) or (not isc(a) and z3.is_bool(a)): raise Unsupported('i1 arithmetic')
    f = {'add': add, 'sub': sub, 'mul': mul}[ins.op]
    if ins.op == 'sub' and all(not isc(x) and z3.is_app(x) and x.decl().name() == 'ADDR' for x in (a, b)):   # distance of two pointers
        d = sub(norm(a.arg(1)), norm(b.arg(1))); e = s.eqo(norm(a.arg(0)), norm(b.arg(0)))
        fr.env[ins.id] = d if e is True else (a - b) if e is False else ite(e, d, a - b); return
    v = f(a, b)
    if isc(v): fr.env[ins.id] = s.wrap(v, w); return
    if nsw:
        if s.opts['check_ovf']:
            s.oblige(st, z3.And(v >= -(1 << (w - 1)), v < (1 << (w - 1))), 'arithmetic: no signed overflow')
        fr.env[ins.id] = v
        s.assumptions.add('signed overflow excluded (undefined behaviour in C++)' if not s.opts['check_ovf'] else 'signed overflow proved absent')
        return
    # unsigned: exact wrap-around unless surely in range
    inr = z3.And(v >= -(1 << (w - 1)), v < (1 << (w - 1)))
    if w == 64 and s.opts.get('u64_nowrap', True):
        fr.env[ins.id] = v; s.assumptions.add('64-bit unsigned sums/products stay below 2^63 (no wrap-around of size_t)')
        return
    fr.env[ins.id] = s.wrapmul(v, w) if ins.op == 'mul' else s.wrap(v, w)
@op('udiv', 'urem')
def _(s, st, fr, ins, work):
    a, b = [s.value(st, fr, o) for o in ins.ops]; w = ins.ty.w
    a, b = s.uns(a, w), s.uns(b, w)
    if isc(a) and isc(b) and b != 0: fr.env[ins.id] = s.sgn(a // b if ins.op == 'udiv' else a % b, w); return
    v = zi(a) / zi(b) if ins.op == 'udiv' else zi(a) % zi(b)
    fr.env[ins.id] = s.sgn(v, w)
@op('sdiv', 'srem')
def _(s, st, fr, ins, work):
    a, b = [s.value(st, fr, o) for o in ins.ops]
    if isc(a) and isc(b) and b != 0:
        q = abs(a) // abs(b) * (1 if (a < 0) == (b < 0) else -1)
        fr.env[ins.id] = q if ins.op == 'sdiv' else a - q * b; return
    a, b = zi(a), zi(b)
    q = z3.If(a >= 0, a / b, -((-a) / b))
    fr.env[ins.id] = q if ins.op == 'sdiv' else a - q * b
@op('and', 'or', 'xor')
def _(s, st, fr, ins, work):
    a, b = [s.value(st, fr, o) for o in ins.ops]; w = ins.ty.w; o = ins.op
    if w == 1:
        fr.env[ins.id] = band(a, b) if o == 'and' else bor(a, b) if o == 'or' else (bnot(a) if b is True else bnot(b) if a is True else (b if a is False else a if b is False else norm(z3.Xor(zb(a), zb(b)))))
        return
    if isc(a) and isc(b):
        fr.env[ins.id] = a & b if o == 'and' else a | b if o == 'or' else a ^ b; return
    if isc(a): a, b = b, a
    if isc(b):
        if o == 'and' and b == 0: fr.env[ins.id] = 0; return
        if o == 'and' and b > 0 and (b & (b + 1)) == 0: fr.env[ins.id] = s.uns(a, w) % (b + 1); return
        if o in ('or', 'xor') and b == 0: fr.env[ins.id] = a; return
        if o == 'xor' and b == -1: fr.env[ins.id] = -1 - a; return
        if o == 'xor' and b == 1 and z3.is_app(a) and a.decl().kind() == z3.Z3_OP_ITE: fr.env[ins.id] = ite(a == 0, 1, 0); return
        if o == 'and' and b < 0 and ((-b) & (-b - 1)) == 0: fr.env[ins.id] = a - a % (-b); return
    if w <= 32:
        x, y = z3.Int2BV(zi(a), w), z3.Int2BV(zi(b), w)
        r = x & y if o == 'and' else x | y if o == 'or' else x ^ y
        fr.env[ins.id] = s.sgn(z3.BV2Int(r), w); return
    raise Unsupported('bit operation')
@op('shl', 'lshr', 'ashr')
def _(s, st, fr, ins, work):
    a, b = [s.value(st, fr, o) for o in ins.ops]; w = ins.ty.w
    if not isc(b): raise Unsupported('symbolic shift')
    if ins.op == 'shl':
        v = mul(a, 1 << b); nsw = ins.x[0]
        fr.env[ins.id] = s.wrap(v, w) if isc(v) else v if nsw or w == 64 else s.wrapmul(v, w)
    elif ins.op == 'ashr': fr.env[ins.id] = a >> b if isc(a) else a / (1 << b)
    else:
        u = s.uns(a, w); fr.env[ins.id] = u >> b if isc(u) else u / (1 << b)
@op('icmp')
def _(s, st, fr, ins, work):
    a, b = [s.value(st, fr, o) for o in ins.ops]; p, ty = ins.x
    if ty.kind == 'ptr':
        if isinstance(a, Undef) or isinstance(b, Undef): fr.env[ins.id] = s.fresh('ub', BS); return
        if p in ('eq', 'ne'):
            r = ptr_eq(s, a, b)
            if isc(b.o) and b.o == 0 and isc(b.f) and b.f == 0: r = s.eqo(a.o, 0)
            fr.env[ins.id] = r if p == 'eq' else bnot(r); return
        # relational on pointers: same object -> offsets
        if same(a.o, b.o): r = cmp_({'u': ''}.get(p[0], '') + {'lt': '<', 'le': '<=', 'gt': '>', 'ge': '>='}[p[1:]], a.f, b.f)
        else:
            r = z3.If(zi(a.o) == zi(b.o), cmp_({'lt': '<', 'le': '<=', 'gt': '>', 'ge': '>='}[p[1:]], zi(a.f), zi(b.f)), cmp_({'lt': '<', 'le': '<=', 'gt': '>', 'ge': '>='}[p[1:]], zi(a.o), zi(b.o)))
        fr.env[ins.id] = r; return
    if ty.w == 1:
        r = eq(a, b) if p in ('eq', 'ne') else None
        if r is None: raise Unsupported('i1 compare')
        fr.env[ins.id] = r if p == 'eq' else bnot(r); return
    if p == 'eq': fr.env[ins.id] = eq(a, b)
    elif p == 'ne': fr.env[ins.id] = bnot(eq(a, b))
    else:
        if p[0] == 'u': a, b = s.uns(a, ty.w), s.uns(b, ty.w)
        fr.env[ins.id] = cmp_({'lt': '<', 'le': '<=', 'gt': '>', 'ge': '>='}[p[1:]], a, b)
@op('fcmp')
def _(s, st, fr, ins, work):
    a, b = [s.value(st, fr, o) for o in ins.ops]; p = ins.x
    nan = bor(a.nan, b.nan)
    if p == 'ord': fr.env[ins.id] = bnot(nan); return
    if p == 'uno': fr.env[ins.id] = nan; return
    if p in ('true', 'false'): fr.env[ins.id] = p == 'true'; return
    k = p[1:]
    x, y = a.v, b.v
    if k == 'eq': r = eq(x, y)
    elif k == 'ne': r = bnot(eq(x, y))
    else: r = cmp_({'lt': '<', 'le': '<=', 'gt': '>', 'ge': '>='}[k], x, y)
    if nan is not False: r = band(r, bnot(nan)) if p[0] == 'o' else bor(r, nan)
    fr.env[ins.id] = r
def rnd(s, v): return v
@op('fadd', 'fsub', 'fmul', 'fdiv', 'frem')
def _(s, st, fr, ins, work):
    a, b = [s.value(st, fr, o) for o in ins.ops]
    if isinstance(a, tuple): fr.env[ins.id] = tuple(farith(s, st, ins.op, x, y) for x, y in zip(a, b)); return
    fr.env[ins.id] = farith(s, st, ins.op, a, b)
def farith(s, st, o, a, b):
    if isinstance(a, Undef) or isinstance(b, Undef): return FP(s.fresh('u', R))
    nan = bor(a.nan, b.nan); x, y = a.v, b.v
    s.assumptions.add('floating point arithmetic treated as exact real arithmetic')
    if o == 'fadd': return FP(add_r(x, y), nan)
    if o == 'fsub': return FP(add_r(x, neg_r(y)), nan)
    if o == 'fmul' and s.opts.get('umul') and not isc(x) and not isc(y): return FP(uf('umul', 2)(zr(x), zr(y)) + uf('umul', 2)(zr(y), zr(x)), nan)   # products as an arbitrary commutative function (weaker than multiplication: sound)
    if o == 'fmul': return FP(mul_r(x, y), nan)
    if o == 'fdiv':
        if isc(y):
            if y != 0: return FP(x / y if isc(x) else zr(x) / zr(y), nan)
            nan = bor(nan, eq(x, Fraction(0)))
            return FP(s.fresh('divz', R), nan)
        z = s.opts.get('div0', 'nan')
        if z == 'nan':
            nan = bor(nan, band(eq(x, Fraction(0)), eq(y, Fraction(0))))
        return FP(zr(x) / zr(y), nan)
    if o == 'frem':
        return FP(FMOD(zr(x), zr(y)), nan)
FMOD = z3.Function('FMOD', R, R, R)
def add_r(x, y):
    if isc(x) and isc(y): return x + y
    if isc(x) and x == 0: return y
    if isc(y) and y == 0: return x
    return zr(x) + zr(y)
def neg_r(x): return -x
def mul_r(x, y):
    if isc(x) and isc(y): return x * y
    for p, q in ((x, y), (y, x)):
        if isc(p):
            if p == 0: return Fraction(0)
            if p == 1: return q
    return zr(x) * zr(y)
@op('fneg')
def _(s, st, fr, ins, work):
    a = s.value(st, fr, ins.ops[0]); fr.env[ins.id] = FP(-a.v, a.nan) if not isinstance(a, tuple) else tuple(FP(-x.v, x.nan) for x in a)
@op('trunc')
def _(s, st, fr, ins, work):
    v = s.value(st, fr, ins.ops[0]); w = ins.ty.w
    if w == 1:
        if isc(v): fr.env[ins.id] = bool(v & 1); return
        if z3.is_app(v) and v.decl().kind() == z3.Z3_OP_ITE and isc(norm(v.arg(1))) and isc(norm(v.arg(2))):
            a, b = norm(v.arg(1)) & 1, norm(v.arg(2)) & 1
            if a and not b: fr.env[ins.id] = v.arg(0); return
        fr.env[ins.id] = v != 0; return     # valid bool objects hold 0 or 1
    if isc(v): fr.env[ins.id] = s.wrap(v, w); return
    H, M = 1 << (w - 1), 1 << w
    fr.env[ins.id] = z3.If(z3.And(v >= -H, v < H), v, (v + H) % M - H)
@op('zext')
def _(s, st, fr, ins, work):
    v = s.value(st, fr, ins.ops[0]); w = ins.x.w
    if w == 1: fr.env[ins.id] = s.b2i(v) if not isinstance(v, bool) else int(v); return
    fr.env[ins.id] = s.uns(v, w)
@op('sext')
def _(s, st, fr, ins, work):
    v = s.value(st, fr, ins.ops[0])
    if ins.x.w == 1: fr.env[ins.id] = ite(v, -1, 0); return
    fr.env[ins.id] = v
def ftrunc(x):
    if isc(x): return int(x)
    x = zr(x)
    return z3.If(x >= 0, z3.ToInt(x), -z3.ToInt(-x))
@op('fptosi', 'fptoui')
def _(s, st, fr, ins, work):
    a = s.value(st, fr, ins.ops[0]); w = ins.ty.w
    v = ftrunc(a.v)
    lo, hi = (-(1 << (w - 1)), 1 << (w - 1)) if ins.op == 'fptosi' else (0, 1 << w)
    if isc(v) and lo <= v < hi: fr.env[ins.id] = s.wrap(v, w); return
    u = s.fresh('cvt', I)
    st.pc.append(z3.And(u >= -(1 << (w - 1)), u < (1 << (w - 1))))
    ok = band(zi(v) >= lo, zi(v) < hi, bnot(a.nan))
    if ins.op == 'fptoui': v = s.sgn(v, w)
    fr.env[ins.id] = ite(ok, v, u)
    s.assumptions.add('out-of-range float-to-integer conversion yields an arbitrary integer')
@op('sitofp', 'uitofp')
def _(s, st, fr, ins, work):
    v = s.value(st, fr, ins.ops[0])
    if ins.x.w == 1: v = int(v) if isinstance(v, bool) else s.b2i(v)
    elif ins.op == 'uitofp': v = s.uns(v, ins.x.w)
    fr.env[ins.id] = FP(Fraction(v) if isc(v) else z3.ToReal(v))
@op('fptrunc', 'fpext')
def _(s, st, fr, ins, work): fr.env[ins.id] = s.value(st, fr, ins.ops[0])
@op('ptrtoint')
def _(s, st, fr, ins, work): fr.env[ins.id] = s.ptr2int(st, s.value(st, fr, ins.ops[0]))
@op('inttoptr')
def _(s, st, fr, ins, work): fr.env[ins.id] = s.int2ptr(st, s.value(st, fr, ins.ops[0]))
@op('extractvalue')
def _(s, st, fr, ins, work):
    v = s.value(st, fr, ins.ops[0])
    for i in ins.x: v = v[i]
    fr.env[ins.id] = v
@op('insertvalue')
def _(s, st, fr, ins, work):
    def setv(v, ix, x):
        if isinstance(v, Undef): v = s.undef(v.ty)
        l = list(v); l[ix[0]] = x if len(ix) == 1 else setv(l[ix[0]], ix[1:], x); return tuple(l)
    fr.env[ins.id] = setv(s.value(st, fr, ins.ops[0]), ins.x, s.value(st, fr, ins.ops[1]))
@op('extractelement')
def _(s, st, fr, ins, work):
    v, i = [s.value(st, fr, o) for o in ins.ops]; fr.env[ins.id] = v[i]
@op('insertelement')
def _(s, st, fr, ins, work):
    v, x, i = [s.value(st, fr, o) for o in ins.ops]; l = list(v); l[i] = x; fr.env[ins.id] = tuple(l)
@op('call', 'invoke')
def _(s, st, fr, ins, work): return s.call(st, fr, ins, work)
@op('resume')
def _(s, st, fr, ins, work): return ('throw',)
@op('landingpad')
def _(s, st, fr, ins, work):
    # selector: 0 for cleanup, k>0 when a clause matches the thrown type
    cleanup, clauses = ins.x
    ty, p = st.exc
    sel = 0
    for c in clauses:
        if c == ('null',): sel = s.tid(None); break
        if c[0] == 'g' and s.catches(c[1], ty): sel = s.tid(c[1]); break
    if sel == 0 and not cleanup:
        # no clause matches: keep unwinding
        return ('throw',)
    fr.env[ins.id] = (p, sel)
def _tid(s, name):
    if name is None: return 1
    return 2 + (abs(s.gobj(name)) - abs(GLOB0))
Engine.tid = _tid
def _catches(s, clause, thrown):
    if clause == thrown: return True
    if thrown is None: return False
    # walk typeinfo bases
    gi = s.m.global_info(thrown)
    if gi and gi[1] and gi[1][0] == 'agg':
        for e in gi[1][2][2:]:
            if e[0] == 'g' and s.catches(clause, e[1]): return True
    return False
Engine.catches = _catches

# ==================================================================== builtin library handlers
BUILTIN = {}
def hd(*names):
    def d(f):
        for n in names: BUILTIN[n] = f
        return f
    return d

@hd('vc_assume')
def _(s, st, ins, a, work):
    c = a[0]
    if c is False: return ('$', 'end')
    if c is not True:
        if not hasq(c) and not s.feasible(st.pc, c): return ('$', 'end')
        st.pc.append(c)
@hd('vc_assert')
def _(s, st, ins, a, work):
    s.oblige(st, norm(a[0]), s.cstr(a[1]) or 'assert')
    if a[0] is not True and a[0] is not False and not s.opts.get('no_assume_asserts'): st.pc.append(zb(a[0]))
@hd('vc_cover')
def _(s, st, ins, a, work):
    n = s.cstr(a[0])
    if s.discovering: return
    if s.covers.get(n): return
    sol = z3.Solver(); sol.set('timeout', 5000)
    for c in st.pc: sol.add(c)
    r = sol.check()
    if r != z3.sat:
        # quantified hypotheses often make z3 answer unknown; then require the ground part to be satisfiable
        # and 'false' not to be provable
        sol2 = z3.Solver(); sol2.set('timeout', 5000)
        for c in st.pc:
            if not hasq(c): sol2.add(c)
        ok = r != z3.unsat and sol2.check() == z3.sat
    else: ok = True
    s.covers[n] = ok
@hd('vc_nondet_int', 'vc_nondet_long', 'vc_nondet_uint', 'vc_nondet_size')
def _(s, st, ins, a, work):
    v = s.fresh_ty(st, ins.ty, 'nd')
    nm = s.cstr(a[0]) if a else 'int'
    st.trace.append((nm or 'int', v))
    if s.handlers: pass
    return v
@hd('vc_nondet_size')
def _(s, st, ins, a, work):
    v = s.fresh_ty(st, ins.ty, 'nd'); st.pc.append(v >= 0); st.trace.append((s.cstr(a[0]) or 'size', v)); return v
@hd('vc_nondet_bool')
def _(s, st, ins, a, work):
    v = s.fresh('nd', BS); st.trace.append((s.cstr(a[0]) if a else 'bool', v)); return v
@hd('vc_nondet_double')
def _(s, st, ins, a, work):
    v = s.fresh('nd', R); st.trace.append((s.cstr(a[0]) if a else 'double', v)); return FP(v)
@hd('vc_nondet_ptr')
def _(s, st, ins, a, work):
    o = s.fresh('ndp', I); st.pc.append(z3.And(o >= 0, o < STOR0)); st.trace.append((s.cstr(a[0]) if a else 'ptr', o))
    return Ptr(o, 0)
@hd('vc_fixed_object')
def _(s, st, ins, a, work): return Ptr(10**6 + a[0], 0)
@hd('vc_new_object')
def _(s, st, ins, a, work): return s.alloc(st, a[0])
@hd('vc_havoc')
def _(s, st, ins, a, work):
    p, n = a
    st.mem = Mem(st.mem, ('hv', [(p.o, p.f if isc(n) else None, n if isc(n) else None)], Base(st.nalloc, 'H')))
    if st.writes is not None: st.writes.append((p.o, p.f if isc(n) else None, n if isc(n) else None))
@hd('vc_ptr_int')
def _(s, st, ins, a, work): return a[0].o
@hd('vc_same')
def _(s, st, ins, a, work): return band(eq(a[0].o, a[1].o), eq(a[0].f, a[1].f))
def _quant(kind, exists):
    def h(s, st, ins, a, work):
        fnp, ctx = a[0], a[1]
        name = s.gname[fnp.o]
        s.qn = getattr(s, 'qn', 0) + 1
        b = z3.Const(f'q{s.qn}', R if kind == 'double' else I)
        arg = Ptr(b, 0) if kind == 'ptr' else FP(b) if kind == 'double' else b
        return s.quant_term(st, name, [b], [arg, ctx], exists)
    return h
for _k in ('ptr', 'int', 'long', 'double'):
    BUILTIN[f'vc_forall_{_k}'] = _quant(_k, False); BUILTIN[f'vc_exists_{_k}'] = _quant(_k, True)
def _quant2(exists, k1, k2):
    def h(s, st, ins, a, work):
        fnp, ctx = a[0], a[1]
        name = s.gname[fnp.o]
        s.qn = getattr(s, 'qn', 0) + 2
        b1, b2 = z3.Int(f'q{s.qn-1}'), z3.Int(f'q{s.qn}')
        mk = lambda k, b: Ptr(b, 0) if k == 'ptr' else b
        return s.quant_term(st, name, [b1, b2], [mk(k1, b1), mk(k2, b2), ctx], exists)
    return h
BUILTIN['vc_forall_int2'] = _quant2(False, 'int', 'int'); BUILTIN['vc_forall_ptr2'] = _quant2(False, 'ptr', 'ptr')
BUILTIN['vc_forall_ptrint'] = _quant2(False, 'ptr', 'int')

# memory / C++ runtime
@hd('_Znwm', '_Znam', 'malloc')
def _(s, st, ins, a, work): return s.alloc(st, a[0])
@hd('_ZdlPv', '_ZdaPv', '_ZdlPvm', '_ZdaPvm', 'free')
def _(s, st, ins, a, work): return None
@hd('llvm.memcpy', 'llvm.memmove', 'memcpy', 'memmove')
def _(s, st, ins, a, work):
    d, sr, n = a[0], a[1], a[2]
    if isc(n) and n == 0: return d
    st.mem = Mem(st.mem, ('cp', d.o, d.f, n, st.mem, sr.o, sr.f))
    if st.writes is not None: st.writes.append((d.o, d.f if isc(n) else None, n if isc(n) else None))
    return d
@hd('llvm.memset', 'memset')
def _(s, st, ins, a, work):
    d, v, n = a[0], a[1], a[2]
    st.mem = Mem(st.mem, ('set', d.o, d.f, n, v if isc(v) else None))
    if st.writes is not None: st.writes.append((d.o, d.f if isc(n) else None, n if isc(n) else None))
    return d
@hd('llvm.assume')
def _(s, st, ins, a, work): return None
@hd('llvm.type.test', 'llvm.public.type.test')
def _(s, st, ins, a, work): return True
@hd('llvm.expect')
def _(s, st, ins, a, work): return a[0]
@hd('llvm.stacksave')
def _(s, st, ins, a, work): return NULL
@hd('llvm.stackrestore', 'llvm.donothing', 'llvm.trap', 'llvm.prefetch')
def _(s, st, ins, a, work): return None
@hd('llvm.is.constant')
def _(s, st, ins, a, work): return False
@hd('llvm.objectsize')
def _(s, st, ins, a, work): return -1
@hd('llvm.eh.typeid.for')
def _(s, st, ins, a, work):
    p = a[0]
    if isc(p.o) and p.o in s.gname: return s.tid(s.gname[p.o])
    return 1
@hd('__cxa_allocate_exception')
def _(s, st, ins, a, work): return s.alloc(st, a[0])
@hd('__cxa_free_exception', '__cxa_end_catch', '__cxa_guard_release', '__cxa_guard_abort')
def _(s, st, ins, a, work): return None
@hd('__cxa_guard_acquire')
def _(s, st, ins, a, work): return 1
@hd('__cxa_begin_catch')
def _(s, st, ins, a, work): return a[0]
@hd('__cxa_throw')
def _(s, st, ins, a, work):
    st.exc = (s.gname.get(a[1].o), a[0]); return ('$', 'throw')
@hd('__cxa_rethrow')
def _(s, st, ins, a, work): return ('$', 'throw')
@hd('__cxa_atexit')
def _(s, st, ins, a, work): return 0
@hd('_ZSt9terminatev', 'abort', '__clang_call_terminate')
def _(s, st, ins, a, work):
    s.oblige(st, False, 'program does not abort'); return ('$', 'end')
@hd('__assert_fail')
def _(s, st, ins, a, work):
    s.oblige(st, False, 'assert(%s) holds' % s.cstr(a[0])); return ('$', 'end')
@hd('__dynamic_cast')
def _(s, st, ins, a, work):
    r = s.opts.get('dyncast')
    if r: return r(s, st, ins, a, work)
    raise Unsupported('dynamic_cast')
@hd('vc_throw')
def _(s, st, ins, a, work):
    st.exc = ('vc_exception', NULL); return ('$', 'throw')

# math
UF1 = {}
def uf(name, n=1):
    k = (name, n)
    if k not in UF1: UF1[k] = z3.Function(name, *([R] * (n + 1)))
    return UF1[k]
@hd('sqrt', 'llvm.sqrt', 'sqrtf')
def _(s, st, ins, a, work):
    x = a[0]
    if isc(x.v) and x.v in (0, 1): return FP(x.v, x.nan)
    f = uf('sqrt')(zr(x.v))
    if not s.quant and not s.opts.get('umul'): st.pc.append(z3.Implies(zr(x.v) >= 0, z3.And(f >= 0, f * f == zr(x.v))))
    neg = lt(x.v, Fraction(0))
    return FP(f, bor(x.nan, neg) if s.opts.get('sqrt_nan') else x.nan)
@hd('fabs', 'llvm.fabs', 'fabsf')
def _(s, st, ins, a, work):
    x = a[0]
    return FP(abs(x.v) if isc(x.v) else z3.If(x.v >= 0, x.v, -x.v), x.nan)
@hd('floor', 'llvm.floor', 'floorf')
def _(s, st, ins, a, work):
    x = a[0]
    return FP(Fraction(x.v.__floor__()) if isc(x.v) else z3.ToReal(z3.ToInt(x.v)), x.nan)
@hd('ceil', 'llvm.ceil', 'ceilf')
def _(s, st, ins, a, work):
    x = a[0]
    return FP(Fraction(x.v.__ceil__()) if isc(x.v) else -z3.ToReal(z3.ToInt(-x.v)), x.nan)
@hd('round', 'llvm.round', 'roundf')
def _(s, st, ins, a, work):
    x = a[0]; v = zr(x.v)
    h = z3.RealVal('1/2')
    return FP(z3.If(v >= 0, z3.ToReal(z3.ToInt(v + h)), -z3.ToReal(z3.ToInt(-v + h))), x.nan)
@hd('trunc', 'llvm.trunc')
def _(s, st, ins, a, work):
    x = a[0]; t = ftrunc(x.v); return FP(Fraction(t) if isc(t) else z3.ToReal(t), x.nan)
@hd('llvm.fmuladd', 'llvm.fma', 'fma')
def _(s, st, ins, a, work): return farith(s, st, 'fadd', farith(s, st, 'fmul', a[0], a[1]), a[2])
# output streams: printing has no effect on the state
@hd('~^(std::basic_ostream<char, std::char_traits<char> >& )?(std::operator<< <std::char_traits<char> >\\(|std::ostream::operator<<\\(|std::basic_ostream<char, std::char_traits<char> >::operator<<\\()', '~^std::ostream& std::ostream::_M_insert')
def _(s, st, ins, a, work): return a[0]
@hd('fmod')
def _(s, st, ins, a, work):
    x, y = zr(a[0].v), zr(a[1].v); r = FMOD(x, y)
    if not s.quant:
        k = s.fresh('fmodk', I)
        ay = z3.If(y >= 0, y, -y)
        st.pc.append(z3.Implies(y != 0, z3.And(r == x - z3.ToReal(k) * y, z3.If(x >= 0, z3.And(r >= 0, r < ay), z3.And(r <= 0, r > -ay)))))
    return FP(r, bor(a[0].nan, a[1].nan))
@hd('pow', 'llvm.pow', 'powf', 'llvm.powi')
def _(s, st, ins, a, work):
    e = a[1].v if isinstance(a[1], FP) else a[1]
    nan = a[0].nan
    if isc(e) and e == 2: return FP(mul_r(a[0].v, a[0].v), nan)
    if isc(e) and e == 1: return a[0]
    if isc(e) and e == 0: return FP(Fraction(1))
    return FP(uf('pow', 2)(zr(a[0].v), zr(e)), nan)
def _unary(n, ax=None):
    def h(s, st, ins, a, work):
        x = zr(a[0].v); f = uf(n)(x)
        if ax and not s.quant: st.pc.append(ax(x, f))
        return FP(f, a[0].nan)
    return h
for _n in ('exp', 'log', 'tan', 'asin', 'acos', 'atan', 'log10', 'log2', 'cbrt'):
    BUILTIN[_n] = BUILTIN['llvm.' + _n] = _unary(_n, (lambda x, f: z3.And(f > 0, z3.Implies(x == 0, f == 1))) if _n == 'exp' else None)
BUILTIN['sin'] = BUILTIN['llvm.sin'] = _unary('sin', lambda x, f: f * f + uf('cos')(x) * uf('cos')(x) == 1)
BUILTIN['cos'] = BUILTIN['llvm.cos'] = _unary('cos', lambda x, f: f * f + uf('sin')(x) * uf('sin')(x) == 1)
@hd('atan2')
def _(s, st, ins, a, work): return FP(uf('atan2', 2)(zr(a[0].v), zr(a[1].v)), bor(a[0].nan, a[1].nan))
@hd('abs', 'llvm.abs', 'labs')
def _(s, st, ins, a, work): return abs(a[0]) if isc(a[0]) else z3.If(a[0] >= 0, a[0], -a[0])
@hd('llvm.smax')
def _(s, st, ins, a, work): return ite(cmp_('>=', a[0], a[1]), a[0], a[1])
@hd('llvm.smin')
def _(s, st, ins, a, work): return ite(cmp_('<=', a[0], a[1]), a[0], a[1])
@hd('llvm.umax')
def _(s, st, ins, a, work): w = ins.ty.w; return ite(cmp_('>=', s.uns(a[0], w), s.uns(a[1], w)), a[0], a[1])
@hd('llvm.umin')
def _(s, st, ins, a, work): w = ins.ty.w; return ite(cmp_('<=', s.uns(a[0], w), s.uns(a[1], w)), a[0], a[1])
@hd('llvm.minnum', 'fmin')
def _(s, st, ins, a, work): return ite(cmp_('<=', a[0].v, a[1].v), a[0], a[1])
@hd('llvm.maxnum', 'fmax')
def _(s, st, ins, a, work): return ite(cmp_('>=', a[0].v, a[1].v), a[0], a[1])
def _isnan(s, st, ins, a, work): return a[0].nan if ins.ty.w == 1 else ite(a[0].nan, 1, 0)
BUILTIN['isnan'] = BUILTIN['__isnan'] = _isnan
@hd('llvm.is.fpclass')
def _(s, st, ins, a, work):
    m = a[1]
    if m == 3: return a[0].nan
    if m == 516: return False
    if m == 504 or m == 0x1f8: return bnot(a[0].nan)
    raise Unsupported('fpclass %d' % m)
def _zero_ovf(opn):
    def h(s, st, ins, a, work):
        f = {'add': add, 'sub': sub, 'mul': mul}[opn]; v = f(a[0], a[1]); return (v, False)
    return h
for _o in ('umul', 'smul', 'uadd', 'sadd', 'usub', 'ssub'):
    BUILTIN[f'llvm.{_o}.with.overflow'] = _zero_ovf(_o[1:])

def houdini(mk, fname, verbose=False, max_rounds=12):
    """mk() -> fresh Engine.  Iterates until the candidate invariants are inductive, then checks the obligations."""
    dropped = set()
    rounds = 0
    first = mk()
    tot = 0.0
    while True:
        e = first if rounds == 0 else mk()
        e.dropped = set(dropped); e.new_dropped = set(); e.mode = 'inv' if rounds < max_rounds else 'check'
        if not e.loopspec:
            e.mode = 'check'
        e.verify(fname)
        tot += e.solver_s
        rounds += 1
        if e.mode == 'check' and not e.loopspec: break
        if not e.new_dropped:
            # inductive: now the real run
            e2 = mk(); e2.dropped = set(dropped); e2.new_dropped = set(); e2.mode = 'check'
            e2.verify(fname)
            if e2.new_dropped:
                dropped |= e2.new_dropped; continue
            e2.solver_s += tot; e = e2; break
        if verbose:
            for k in e.new_dropped: print('   drop', k)
        so = {k for k in e.new_dropped if k[3] == '$sameobj'}     # they shape the loop state: drop them before the others
        dropped |= so or e.new_dropped
        if rounds > max_rounds: raise Limit('invariant inference did not converge')
    if os.environ.get('VC_KEPT'):
        for k in sorted(e.cand_all - dropped, key=str): print('KEPT', k, flush=True)
    e.kept = e.cand_all - dropped; e.dropped_all = dropped
    return e
