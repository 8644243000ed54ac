"""gv engine: verification-condition generation by symbolic execution of LLVM IR with function-level merging."""
import z3, time, sys, re, struct, os, math
from fractions import Fraction
from . import llvmc
from .llvmc import Module, Val, demangle
sys.setrecursionlimit(100000)

class Unsupported(Exception): pass
class LoopBound(Exception):
    def __init__(s, key, msg): super().__init__(msg); s.key = key
class Budget(Exception): pass

class Ptr:
    __slots__ = ("obj", "off")
    def __init__(s, obj, off=0): s.obj = obj; s.off = off
    def __repr__(s): return f"&{s.obj}+{s.off}"
    def __eq__(s, o): return isinstance(o, Ptr) and s.obj == o.obj and (s.off is o.off or (isinstance(s.off, int) and isinstance(o.off, int) and s.off == o.off) or (not isinstance(s.off, int) and not isinstance(o.off, int) and s.off.eq(o.off)))
    def __hash__(s): return hash(s.obj)
NULL = Ptr(0, 0)
class FnPtr:
    __slots__ = ("name",)
    def __init__(s, n): s.name = n
    def __repr__(s): return f"fn:{s.name}"
    def __eq__(s, o): return isinstance(o, FnPtr) and o.name == s.name
    def __hash__(s): return hash(s.name)
class PtrInt:
    __slots__ = ("p", "add")
    def __init__(s, p, add=0): s.p = p; s.add = add
    def __repr__(s): return f"int({s.p})"
    def __eq__(s, o): return isinstance(o, PtrInt) and o.p == s.p and s.add == o.add
    def __hash__(s): return hash(s.p)
class Cat:
    "bytes made of several memory cells: parts = [(rel offset, size, value, ty kind)]; size total"
    __slots__ = ("parts", "size")
    def __init__(s, parts, size): s.parts = parts; s.size = size
    def __repr__(s): return f"Cat{s.parts}"
class Opq:
    "an opaque first-class value (ghost values carried by models)"
    __slots__ = ("kind", "x")
    def __init__(s, kind, x): s.kind = kind; s.x = x
    def __repr__(s): return f"opq:{s.kind}:{s.x}"
UNDEF = Opq('undef', None); TRUE = z3.BoolVal(True)

class Obj:
    __slots__ = ("id", "size", "cells", "kind", "name", "lazy", "owner", "ro", "tag", "ghost", "arr")
    def clone(s, owner):
        o = Obj(); o.id = s.id; o.size = s.size; o.cells = dict(s.cells); o.kind = s.kind; o.name = s.name; o.lazy = s.lazy; o.owner = owner; o.ro = s.ro; o.tag = s.tag; o.ghost = s.ghost; o.arr = s.arr
        return o

GV_SLOW = float(os.environ.get('GV_SLOW', 0))
class State:
    __slots__ = ("pc", "mem", "tok", "ghost", "trace", "exc", "globals", "held", "symloops", "dead", "notes", "facts", "freed")
    def __init__(s):
        s.pc = []; s.mem = {}; s.tok = object(); s.ghost = {}; s.trace = (); s.exc = (); s.globals = {}; s.held = (); s.symloops = {}; s.dead = None; s.notes = (); s.facts = (); s.freed = frozenset()
    def fork(s):
        t = State.__new__(State)
        t.pc = list(s.pc); t.mem = dict(s.mem); t.tok = object(); s.tok = object()
        t.ghost = dict(s.ghost); t.trace = s.trace; t.exc = s.exc; t.globals = dict(s.globals); t.held = s.held; t.symloops = dict(s.symloops); t.dead = s.dead; t.notes = s.notes; t.facts = s.facts; t.freed = s.freed
        return t
    def w(s, oid):
        o = s.mem[oid]
        if o.owner is not s.tok:
            o = o.clone(s.tok); s.mem[oid] = o
        return o

class Outs(list): pass   # list of (state, kind, value)

def is_sym(v): return isinstance(v, z3.ExprRef)

STD_BASES = {
 '_ZTISt9exception': [], '_ZTISt11logic_error': ['_ZTISt9exception'], '_ZTISt13runtime_error': ['_ZTISt9exception'],
 '_ZTISt12domain_error': ['_ZTISt11logic_error'], '_ZTISt16invalid_argument': ['_ZTISt11logic_error'], '_ZTISt12length_error': ['_ZTISt11logic_error'],
 '_ZTISt12out_of_range': ['_ZTISt11logic_error'], '_ZTISt11range_error': ['_ZTISt13runtime_error'], '_ZTISt14overflow_error': ['_ZTISt13runtime_error'],
 '_ZTISt15underflow_error': ['_ZTISt13runtime_error'], '_ZTISt9bad_alloc': ['_ZTISt9exception'], '_ZTISt8bad_cast': ['_ZTISt9exception'],
 '_ZTISt12future_error': ['_ZTISt11logic_error'], '_ZTISt12system_error': ['_ZTISt13runtime_error'], '_ZTISt17bad_function_call': ['_ZTISt9exception'],
 '_ZTISt18bad_optional_access': ['_ZTISt9exception'], '_ZTISt12bad_weak_ptr': ['_ZTISt9exception'], '_ZTISt20bad_array_new_length': ['_ZTISt9bad_alloc'],
}

class Obligation:
    __slots__ = ("contract", "label", "kind", "status", "backend", "ms", "model", "loc", "reason", "inputs", "trace")

class Engine:
    def __init__(self, module, arith='bv', fp='fp', models=None, budget_s=300, loop_limit=70, overflow=True, contract="?"):
        self.m = module; self.arith = arith; self.fp = fp
        self.models = models or {}; self.regex_models = []
        self.nobj = 1; self.nfresh = 0; self.varsets = {}
        self.obls = []; self.contract = contract
        self.t0 = time.time(); self.budget = budget_s
        self.loop_limit = loop_limit; self.overflow = overflow
        self.solver = z3.Solver(); self.solver.set("timeout", 4000)
        self.sstack = []  # pc terms pushed
        self.iv = {}; self.dem = {}; self.model_cache = {}
        self.nq = 0; self.tq = 0.0; self.ninstr = 0
        self.inputs = []  # (name, kind, term)
        self.covers = {}; self.reached = {}
        self.fns_used = set(); self.models_used = set()
        self.curloc = (None, 0); self.cuts = {}
        self.stop_on_fail = False
        self.bool_terms = {}
        self.hooks = {}
        self.obl_timeout = 20000
        self.side_every = True
        self.cutspec = None
        self.ghostinfo = {}
        self.fnstack = []
        self.rm = z3.RNE()
        self.bounded_notes = set(); self.exc_ti = {}; self.quots = {}; self._base_obj = 0; self._rett = None; self.covering = False; self.nframes = 0; self.ncovered = 0; self._layouts = {}; self._deadslots = {}; self.drift = set(); self.atomic = False; self.watch = {}; self.acc = {}; self.edges = set(); self._fkind = {}; self.symc = {}; self.cutspec = getattr(self, 'cutspec', None)
    # ------------------------------------------------------------ basic helpers
    def fresh_name(self, p): self.nfresh += 1; return f"{p}!{self.nfresh}"
    def new_obj(self, st, size, kind, name="", lazy=False):
        o = Obj(); o.id = self.nobj; self.nobj += 1; o.size = size; o.cells = {}; o.kind = kind; o.name = name; o.lazy = lazy; o.owner = st.tok; o.ro = False; o.tag = None; o.ghost = None; o.arr = None
        st.mem[o.id] = o; return o
    def mkint(self, name, w):
        if self.arith == 'bv': return z3.BitVec(name, w)
        t = z3.Int(name); self.setiv(t, -(1 << (w - 1)), (1 << (w - 1)) - 1); return t
    def fresh_int(self, st, w, p="v", lo=None, hi=None):
        if w == 1: return z3.Bool(self.fresh_name(p))
        t = self.mkint(self.fresh_name(p), w)
        if self.arith == 'int':
            L, H = -(1 << (w - 1)), (1 << (w - 1)) - 1
            if lo is not None: L = lo
            if hi is not None: H = hi
            self.setiv(t, L, H); st.pc.append(z3.And(t >= L, t <= H))
        else:
            if lo is not None: st.pc.append(t >= lo)
            if hi is not None: st.pc.append(t <= hi)
        return t
    def setiv(self, t, lo, hi): self.iv[t.get_id()] = (lo, hi, t)
    def getiv(self, t, w):
        if isinstance(t, int): s = self.sgn(t, w); return (s, s)
        r = self.iv.get(t.get_id())
        if r: return r[0], r[1]
        return (-(1 << (w - 1)), (1 << (w - 1)) - 1)
    @staticmethod
    def sgn(x, w): x &= (1 << w) - 1; return x - (1 << w) if x >> (w - 1) else x
    def term(self, v, w):
        "z3 term of an int value"
        if isinstance(v, int):
            if w == 1: return z3.BoolVal(bool(v))
            return z3.BitVecVal(v, w) if self.arith == 'bv' else z3.IntVal(self.sgn(v, w))
        if isinstance(v, bool): return self.term(int(v), w)
        if isinstance(v, Cat): return self.term(self.cat_int(v), w)
        if v is UNDEF: raise Unsupported("arithmetic on uninitialised value")
        if not is_sym(v): raise Unsupported(f"not an integer: {v}")
        return v
    def boolterm(self, v):
        if isinstance(v, (int, bool)): return z3.BoolVal(bool(v))
        if is_sym(v) and z3.is_bool(v): return v
        if is_sym(v) and z3.is_bv(v): return z3.Extract(0, 0, v) == 1
        if is_sym(v) and z3.is_int(v): # an i1 kept in a byte
            b = self.bool_terms.get(v.get_id())
            return b[0] if b is not None else self.term(self.trunc(None, v, 8, 1), 1)
        if v is UNDEF: raise Unsupported("branch on uninitialised value")
        raise Unsupported(f"bool of {v}")
    def norm(self, t, w):
        "concretise a z3 term if it is a literal"
        if z3.is_bv_value(t): return t.as_long()
        if z3.is_int_value(t): return t.as_long() & ((1 << w) - 1)
        if z3.is_true(t): return 1
        if z3.is_false(t): return 0
        return t
    def simp(self, t, w):
        return self.norm(z3.simplify(t), w)
    # ------------------------------------------------------------ solver
    def sync(self, pc):
        s = self.sstack; n = 0; m = min(len(s), len(pc))
        while n < m and s[n] is pc[n]: n += 1
        if len(s) > n:
            self.solver.pop(len(s) - n); del s[n:]
        for t in pc[n:]:
            self.solver.push(); self.solver.add(t); s.append(t)
    def check(self, st, extra=None, timeout=None):
        if time.time() - self.t0 > self.budget: raise Budget(f"time budget of {self.budget}s exhausted")
        self.nq += 1; t = time.time()
        self.sync(st.pc)
        if extra is None: r = self.solver.check()
        else:
            self.solver.push(); self.solver.add(extra); r = self.solver.check(); self.solver.pop()
        self.tq += time.time() - t
        if GV_SLOW and time.time() - t > GV_SLOW: print('slow', round(time.time() - t, 2), r, self.curloc, sys._getframe(1).f_code.co_name, sys._getframe(2).f_code.co_name, sys._getframe(2).f_lineno, str(extra)[:150].replace(chr(10), ' '))
        return r
    def feasible(self, st, cond):
        c = z3.simplify(cond)
        if z3.is_true(c): return True
        if z3.is_false(c): return False
        return self.check(st, cond) != z3.unsat
    def valid(self, st, cond):
        c = z3.simplify(cond)
        if z3.is_true(c): return True
        if z3.is_false(c) : return False
        return self.check(st, z3.Not(cond)) == z3.unsat
    def fork_bool(self, st, cond):
        "list of (state, truth) for a condition"
        if isinstance(cond, (int, bool)): return [(st, bool(cond))]
        c = z3.simplify(cond)
        if z3.is_true(c): return [(st, True)]
        if z3.is_false(c): return [(st, False)]
        nt = z3.Not(c)
        ft = self.check(st, c) != z3.unsat
        ff = self.check(st, nt) != z3.unsat if ft else True
        if ft and ff:
            s2 = st.fork(); st.pc.append(c); s2.pc.append(nt)
            return [(st, True), (s2, False)]
        if ft: return [(st, True)]
        return [(st, False)]
    def concrete_off(self, st, v, what):
        if isinstance(v, int): return v
        raise Unsupported("symbolic " + what)
    # ------------------------------------------------------------ obligations
    def oblige(self, st, cond, label, kind):
        "obligation: pc => cond. Returns after assuming cond (or marks failure)."
        self.reached[label] = self.reached.get(label, 0) + 1
        if isinstance(cond, (int, bool)): c = z3.BoolVal(bool(cond))
        else: c = z3.simplify(cond)
        o = Obligation(); o.contract = self.contract; o.label = label; o.kind = kind; o.loc = self.curloc; o.model = None; o.reason = None; o.inputs = None; o.trace = None
        t = time.time()
        if z3.is_true(c):
            o.status = 'discharged'; o.backend = 'simplify'; o.ms = 0; self.obls.append(o); return True
        r = self.check_full(st, z3.Not(c), o)
        o.ms = int(1000 * (time.time() - t))
        self.obls.append(o)
        if o.status == 'discharged':
            if not z3.is_false(c): st.pc.append(c)
            else: st.dead = True
            return True
        if kind not in ('ensures',) or True:
            # go on under the assumption, if it is consistent
            if self.check(st, c) == z3.unsat: st.dead = True
            else: st.pc.append(c)
        return False
    def check_full(self, st, neg, o):
        if time.time() - self.t0 > self.budget: raise Budget(f"time budget of {self.budget}s exhausted")
        self.nq += 1
        r = self.check(st, neg)   # incremental first (cheap)
        if r == z3.unsat:
            o.status = 'discharged'; o.backend = 'z3'; return r
        if self.fp == 'real' and r == z3.unknown and relax_check(list(st.pc) + [neg], 8000):
            o.status = 'discharged'; o.backend = 'z3-nlsat'; return z3.unsat
        s = z3.Solver(); s.set("timeout", self.obl_timeout)
        for t in st.pc: s.add(t)
        s.add(neg)
        r = s.check()
        if r == z3.unsat: o.status = 'discharged'; o.backend = 'z3'; return r
        if r == z3.sat:
            m = s.model(); o.status = 'failed'; o.backend = 'z3'; o.model = m
            o.inputs = self.model_inputs(m); o.reason = 'counterexample'
            return r
        # second back end
        r2 = cvc5_check(s, self.obl_timeout)
        if r2 == 'unsat': o.status = 'discharged'; o.backend = 'cvc5'; return z3.unsat
        o.status = 'unknown'; o.backend = 'z3+cvc5'; o.reason = f"z3: {s.reason_unknown()}; cvc5: {r2}"
        return r
    def model_inputs(self, m):
        out = []
        for name, kind, term in self.inputs:
            try:
                v = m.eval(term, model_completion=True)
                if z3.is_bv_value(v): out.append((name, kind, v.as_long()))
                elif z3.is_int_value(v): out.append((name, kind, v.as_long()))
                elif z3.is_true(v) or z3.is_false(v): out.append((name, kind, int(z3.is_true(v))))
                elif z3.is_fp(v):
                    bv = z3.simplify(z3.fpToIEEEBV(v)); out.append((name, kind, bv.as_long()))
                elif z3.is_rational_value(v):
                    out.append((name, kind, float(v.as_fraction())))
                elif z3.is_algebraic_value(v): out.append((name, kind, float(v.approx(20).as_fraction())))
                elif z3.is_string_value(v): out.append((name, kind, v.as_string()))
                else: out.append((name, kind, str(v)))
            except Exception as e: out.append((name, kind, None))
        return out
    def fail(self, st, label, kind):
        "unconditional failure of an obligation on a feasible path"
        if self.check(st) == z3.unsat: st.dead = True; return
        self.oblige(st, z3.BoolVal(False), label, kind); st.dead = True
    # ------------------------------------------------------------ memory
    def getobj(self, st, p, what):
        if not isinstance(p, Ptr): raise Unsupported(f"{what} through {p}")
        if p.obj == 0:
            self.fail(st, f"no null dereference ({what})", "safety"); return None
        o = st.mem.get(p.obj)
        if o is None:
            self.fail(st, f"no access to a dead object ({what})", "safety"); return None
        return o
    def cell_ty(self, v):
        return None
    def load(self, st, p, t):
        if t.k in ('struct', 'array', 'vec'):
            n = t.n if t.k != 'struct' else len(t.elems)
            out = []
            for j in range(n):
                et = t.elems[j] if t.k == 'struct' else t.elems
                off = t.offs[j] if t.k == 'struct' else j * et.size
                out.append(self.load(st, self.padd(p, off), et))
            return tuple(out)
        if isinstance(p, PtrIte): return self.load_ite(st, p, t)
        o = self.getobj(st, p, "load")
        if o is None: return UNDEF
        size = t.size if t.k != 'int' else (t.w + 7) // 8
        off = p.off
        h = self.hooks.get('access')
        if h: h(self, st, o, off, size, False)
        if not isinstance(off, int):
            off = self.try_concrete(st, off)
            if not isinstance(off, int): return self.load_sym(st, o, off, size, t)
        if o.size is not None and isinstance(o.size, int) and (off < 0 or off + size > o.size):
            self.fail(st, "in-bounds load", "safety"); return UNDEF
        if o.size is not None and not isinstance(o.size, int):
            self.oblige(st, z3.And(off >= 0, off + size <= o.size), "in-bounds load", "safety")
        if o.arr is not None: return self.arr_load(st, o, off, size, t)
        c = o.cells.get(off)
        if c is not None and c[0] == size: return self.conv(st, c[1], t)
        return self.load_slow(st, o, off, size, t)
    def try_concrete(self, st, off):
        s = z3.simplify(off)
        if z3.is_bv_value(s): return self.sgn(s.as_long(), 64)
        if z3.is_int_value(s): return s.as_long()
        return off
    def conv(self, st, v, t):
        "convert a stored value to the loaded type"
        if t.k == 'int':
            if isinstance(v, int): return v
            if is_sym(v):
                if z3.is_fp(v): return z3.fpToIEEEBV(v)
                if z3.is_bv(v) and v.size() != t.w: return self.simp(z3.Extract(t.w - 1, 0, v), t.w)
                if z3.is_bool(v):
                    return self.zext(v, 1, t.w) if t.w != 1 else v
                return v
            if isinstance(v, (Ptr, FnPtr)): return PtrInt(v) if v != NULL else 0
            if isinstance(v, float): return struct.unpack('<Q', struct.pack('<d', v))[0] if t.w == 64 else struct.unpack('<I', struct.pack('<f', v))[0]
            return v
        if t.k == 'ptr':
            if v == 0 and isinstance(v, int): return NULL
            if isinstance(v, PtrInt) and v.add == 0: return v.p
            return v
        if t.k in ('double', 'float'):
            if isinstance(v, int):
                return struct.unpack('<d', v.to_bytes(8, 'little'))[0] if t.k == 'double' else struct.unpack('<f', v.to_bytes(4, 'little'))[0]
            if is_sym(v) and z3.is_bv(v): return z3.simplify(z3.fpBVToFP(v, z3.Float64() if t.k == 'double' else z3.Float32()))
            if isinstance(v, Cat): return self.conv(st, self.cat_int(v), t)
            return v
        return v
    def load_slow(self, st, o, off, size, t):
        cells = o.cells; parts = []; cur = off; end = off + size
        # containing cell?
        for k in range(off, off - 32, -1):
            c = cells.get(k)
            if c is not None and k + c[0] > off:
                if k + c[0] >= end:
                    return self.conv(st, self.sub_bytes(c[1], c[0], off - k, size), t)
                break
        first = True; missing = False
        while cur < end:
            c = cells.get(cur)
            if c is not None and cur + c[0] <= end:
                parts.append((cur - off, c[0], c[1])); cur += c[0]; continue
            # cell starting before cur?
            hit = None
            for k in range(cur, cur - 32, -1):
                c = cells.get(k)
                if c is not None and k + c[0] > cur: hit = (k, c); break
            if hit:
                k, c = hit; n = min(k + c[0], end) - cur
                parts.append((cur - off, n, self.sub_bytes(c[1], c[0], cur - k, n))); cur += n; continue
            missing = True; cur += 1
        if not parts:
            if o.lazy:
                v = self.fresh_of(st, t, o, off)
                self.put(st, o.id, off, size, v); return v
            return self.undef_of(st, t)
        if missing and t.k != 'int': 
            if o.lazy: raise Unsupported("partially initialised lazy load")
            return UNDEF
        if missing:
            # padding or partially uninitialised: keep as Cat
            return Cat(parts, size)
        if len(parts) == 1 and parts[0][1] == size: return self.conv(st, parts[0][2], t)
        c = Cat(parts, size)
        if t.k == 'int' and all(isinstance(x[2], int) for x in parts): return self.cat_int(c)
        if t.k == 'ptr': raise Unsupported("pointer assembled from bytes")
        if t.k in ('double', 'float'): return self.conv(st, c, t)
        return c
    def undef_of(self, st, t):
        return UNDEF
    def fresh_of(self, st, t, o=None, off=None):
        nm = f"{o.name}.{off}" if o is not None else "u"
        h = self.hooks.get('lazy')
        if h and o is not None:
            v = h(self, st, o, off, t)
            if v is not None: return v
        if t.k == 'int': return self.fresh_int(st, t.w, nm)
        if t.k == 'double': return self.fresh_fp(st, nm, 64)
        if t.k == 'float': return self.fresh_fp(st, nm, 32)
        if t.k == 'ptr':
            n = self.new_obj(st, None, 'lazy', nm + ".*", lazy=True); return Ptr(n.id, 0)
        raise Unsupported("fresh of " + t.k)
    def fresh_fp(self, st, nm, w):
        if self.fp == 'real': return z3.Real(self.fresh_name(nm))
        return z3.FP(self.fresh_name(nm), z3.Float64() if w == 64 else z3.Float32())
    def sub_bytes(self, v, size, rel, n):
        if rel == 0 and n == size: return v
        if isinstance(v, int): return (v >> (8 * rel)) & ((1 << (8 * n)) - 1)
        if isinstance(v, Cat):
            parts = []
            for (ro, s, x) in v.parts:
                a, b = max(ro, rel), min(ro + s, rel + n)
                if a < b: parts.append((a - rel, b - a, self.sub_bytes(x, s, a - ro, b - a)))
            if len(parts) == 1 and parts[0][1] == n: return parts[0][2]
            return Cat(parts, n)
        if is_sym(v):
            if z3.is_bool(v): v = self.zext(v, 1, size * 8)
            if z3.is_fp(v): v = z3.fpToIEEEBV(v)
            if z3.is_bv(v): return self.simp(z3.Extract(8 * (rel + n) - 1, 8 * rel, v), 8 * n)
            if z3.is_int(v):
                u = self.uns(v, size * 8); r = u / (1 << (8 * rel)) if rel else u
                r = r % (1 << (8 * n)); return self.from_uns(r, 8 * n)
        if isinstance(v, float): return self.sub_bytes(struct.unpack('<Q', struct.pack('<d', v))[0], 8, rel, n)
        if v is UNDEF: return UNDEF
        if v == NULL: return 0
        raise Unsupported(f"bytes of {v}")
    def cat_int(self, c):
        "integer value of a Cat"
        size = c.size; w = size * 8
        parts = sorted(c.parts)
        if all(isinstance(x, int) for _, _, x in parts) and sum(s for _, s, _ in parts) == size:
            r = 0
            for ro, s, x in parts: r |= x << (8 * ro)
            return r
        cur = 0; segs = []
        for ro, s, x in parts:
            if ro > cur: segs.append((ro - cur, None))
            segs.append((s, x)); cur = ro + s
        if cur < size: segs.append((size - cur, None))
        if self.arith == 'bv':
            ts = []
            for s, x in segs:
                if x is None or x is UNDEF: x = z3.BitVec(self.fresh_name("pad"), 8 * s)
                elif isinstance(x, Cat): x = self.cat_int(x)
                if is_sym(x) and z3.is_bool(x): x = self.zext(x, 1, 8 * s)
                if is_sym(x) and z3.is_fp(x): x = z3.fpToIEEEBV(x)
                if isinstance(x, float): x = struct.unpack('<Q', struct.pack('<d', x))[0]
                ts.append(self.term(x, 8 * s))
            return self.simp(z3.Concat(*reversed(ts)), w)
        r = 0; sh = 0
        for s, x in segs:
            if x is None or x is UNDEF: raise Unsupported("integer with uninitialised bytes")
            if isinstance(x, Cat): x = self.cat_int(x)
            u = x if isinstance(x, int) else self.uns(x, 8 * s)
            r = r + u * (1 << sh); sh += 8 * s
        return self.from_uns(r, w)
    def put(self, st, oid, off, size, v):
        o = st.w(oid); cells = o.cells
        c = cells.get(off)
        if c is not None and c[0] == size: cells[off] = (size, v); return
        # remove / split overlapping cells
        end = off + size
        for k in [k for k in cells if k < end and k + cells[k][0] > off]:
            s, x = cells.pop(k)
            if k < off: cells[k] = (off - k, self.sub_bytes(x, s, 0, off - k))
            if k + s > end: cells[end] = (k + s - end, self.sub_bytes(x, s, end - k, k + s - end))
        if isinstance(v, Cat):
            for ro, s, x in v.parts: cells[off + ro] = (s, x)
        elif v is UNDEF: pass
        else: cells[off] = (size, v)
    def store(self, st, p, v, t):
        if isinstance(v, tuple) or t.k in ('struct', 'array', 'vec'):
            n = t.n if t.k != 'struct' else len(t.elems)
            if v is UNDEF: return
            for j in range(n):
                et = t.elems[j] if t.k == 'struct' else t.elems
                off = t.offs[j] if t.k == 'struct' else j * et.size
                self.store(st, self.padd(p, off), v[j], et)
            return
        if isinstance(p, PtrIte): raise Unsupported("store through merged pointer")
        o = self.getobj(st, p, "store")
        if o is None: return
        size = t.size if t.k != 'int' else (t.w + 7) // 8
        off = p.off
        h = self.hooks.get('access')
        if h: h(self, st, o, off, size, True)
        if o.ro:
            self.fail(st, "no store to constant", "safety"); return
        if not isinstance(off, int):
            off = self.try_concrete(st, off)
            if not isinstance(off, int): return self.store_sym(st, o, off, size, v, t)
        if o.size is not None and isinstance(o.size, int) and (off < 0 or off + size > o.size):
            self.fail(st, "in-bounds store", "safety"); return
        if o.size is not None and not isinstance(o.size, int):
            self.oblige(st, z3.And(off >= 0, off + size <= o.size), "in-bounds store", "safety")
        if o.arr is not None: raise Unsupported("store into abstract array")
        if t.k == 'int' and is_sym(v) and z3.is_bool(v) and t.w == 1: v = self.zext(v, 1, 8)
        self.put(st, o.id, off, size, v)
    def arr_load(self, st, o, off, size, t):
        "object backed by a z3 array of fixed-size elements: o.arr = (array term, elem size)"
        arr, es = o.arr
        if size != es: raise Unsupported("abstract array access size")
        idx = off if es == 1 else (off // es if isinstance(off, int) else off / es)
        if isinstance(idx, int): idx = z3.BitVecVal(idx, 64) if self.arith == 'bv' else z3.IntVal(idx)
        return self.simp(z3.Select(arr, idx), size * 8)
    def load_sym(self, st, o, off, size, t):
        if o.arr is not None:
            if o.size is not None:
                sz_ = o.size if not isinstance(o.size, int) else (z3.BitVecVal(o.size, 64) if self.arith == 'bv' else o.size)
                self.oblige(st, z3.And(off >= 0, off < sz_), "in-bounds load", "safety")
            return self.arr_load(st, o, off, size, t)
        if not isinstance(o.size, int) or o.size // size > 512: raise Unsupported("symbolic offset into large object")
        cand = list(range(0, o.size - size + 1, size))
        if self.oblige(st, z3.Or(*[off == c for c in cand]), "in-bounds indexed load", "safety") is False and st.dead: return UNDEF
        r = None; miss = []
        vals = []
        for c in cand:
            cell = o.cells.get(c)
            v = None
            if cell is not None and cell[0] == size: v = cell[1]
            else:
                try: v = self.load_slow(st, o, c, size, t)
                except Unsupported: v = None
            if v is None or v is UNDEF or isinstance(v, Cat) or isinstance(v, (Ptr, FnPtr, PtrInt)):
                miss.append(c); continue
            vals.append((c, v))
        if miss:
            ok = z3.Or(*[off == c for c, _ in vals]) if vals else z3.BoolVal(False)
            if not self.valid(st, ok): raise Unsupported("indexed load may hit an uninitialised or pointer cell")
        if t.k == 'int':
            if len(vals) > 16 and self.arith == 'bv' and size == 1:
                pass
            r = self.term(vals[-1][1], t.w)
            for c, v in reversed(vals[:-1]): r = z3.If(off == c, self.term(v, t.w), r)
            return self.simp(r, t.w)
        raise Unsupported("symbolic offset load of " + t.k)
    def store_sym(self, st, o, off, size, v, t):
        if not isinstance(o.size, int) or o.size // size > 256: raise Unsupported("symbolic offset store into large object")
        cand = list(range(0, o.size - size + 1, size))
        self.oblige(st, z3.Or(*[off == c for c in cand]), "in-bounds indexed store", "safety")
        if st.dead: return
        if t.k != 'int': raise Unsupported("symbolic offset store of " + t.k)
        cand = [c for c in cand if self.feasible(st, off == c)]
        for c in cand:
            cell = o.cells.get(c)
            old = cell[1] if cell and cell[0] == size else None
            if old is None:
                if len(cand) == 1: nv = v
                else: old = self.fresh_int(st, t.w, "uninit"); nv = self.ite(off == c, v, old, t.w)
            else: nv = self.ite(off == c, v, old, t.w)
            self.put(st, o.id, c, size, nv)
    def ite(self, c, a, b, w):
        return self.simp(z3.If(c, self.term(a, w), self.term(b, w)), w)
    def padd(self, p, off):
        if isinstance(p, PtrIte): return PtrIte([(c, self.padd(q, off)) for c, q in p.alts])
        if not isinstance(p, Ptr):
            if isinstance(p, FnPtr) and isinstance(off, int) and off == 0: return p
            if p is UNDEF: return UNDEF
            raise Unsupported(f"pointer arithmetic on {p}")
        if isinstance(off, int) and off == 0: return p
        if p.obj == 0:
            if isinstance(off, int): return Ptr(0, (p.off + off)) if isinstance(p.off, int) else p
        if isinstance(p.off, int) and isinstance(off, int): return Ptr(p.obj, p.off + off)
        a = p.off; b = off
        if self.arith == 'bv':
            if isinstance(a, int): a = z3.BitVecVal(a, 64)
            if isinstance(b, int): b = z3.BitVecVal(b, 64)
        return Ptr(p.obj, a + b)
    def memcpy(self, st, d, s, n):
        if not isinstance(n, int): raise Unsupported("memcpy of symbolic length")
        if n == 0: return
        so = self.getobj(st, s, "memcpy source"); 
        if so is None: return
        do = self.getobj(st, d, "memcpy destination")
        if do is None: return
        a, b = s.off, d.off
        if not (isinstance(a, int) and isinstance(b, int)): raise Unsupported("memcpy at symbolic offset")
        h = self.hooks.get('access')
        if h: h(self, st, so, a, n, False); h(self, st, do, b, n, True)
        for o, x, w in ((so, a, "source"), (do, b, "destination")):
            if isinstance(o.size, int) and (x < 0 or x + n > o.size): self.fail(st, f"in-bounds memcpy {w}", "safety"); return
        if so.lazy: raise_if = None
        parts = []
        for k in sorted(so.cells):
            c = so.cells[k]
            lo, hi = max(k, a), min(k + c[0], a + n)
            if lo < hi: parts.append((lo - a, hi - lo, self.sub_bytes(c[1], c[0], lo - k, hi - lo)))
        if so.lazy and sum(p[1] for p in parts) < n:
            # materialise by 8-byte words then retry as integers
            raise Unsupported("memcpy from lazily initialised object")
        do = st.w(do.id); cells = do.cells; end = b + n
        for k in [k for k in cells if k < end and k + cells[k][0] > b]:
            sz_, x = cells.pop(k)
            if k < b: cells[k] = (b - k, self.sub_bytes(x, sz_, 0, b - k))
            if k + sz_ > end: cells[end] = (k + sz_ - end, self.sub_bytes(x, sz_, end - k, k + sz_ - end))
        for ro, sz_, x in parts: cells[b + ro] = (sz_, x)
    def memset(self, st, d, byte, n):
        if not isinstance(n, int): raise Unsupported("memset of symbolic length")
        o = self.getobj(st, d, "memset")
        if o is None or n == 0: return
        if not isinstance(d.off, int): raise Unsupported("memset at symbolic offset")
        if isinstance(o.size, int) and d.off + n > o.size: self.fail(st, "in-bounds memset", "safety"); return
        h = self.hooks.get('access')
        if h: h(self, st, o, d.off, n, True)
        k = 0
        while k < n:
            s = 8 if n - k >= 8 and (d.off + k) % 8 == 0 else (4 if n - k >= 4 and (d.off + k) % 4 == 0 else 1)
            if isinstance(byte, int): self.put(st, o.id, d.off + k, s, int.from_bytes(bytes([byte & 255]) * s, 'little'))
            else:
                s = 1; self.put(st, o.id, d.off + k, 1, byte)
            k += s
    # ------------------------------------------------------------ integer ops
    def uns(self, v, w):
        "int mode: unsigned value of a signed-canonical term"
        if isinstance(v, int): return v & ((1 << w) - 1)
        lo, hi = self.getiv(v, w)
        if lo >= 0: return v
        if hi < 0: return v + (1 << w)
        return z3.If(v < 0, v + (1 << w), v)
    def from_uns(self, r, w):
        if isinstance(r, int): return r & ((1 << w) - 1)
        h = 1 << (w - 1)
        r = z3.simplify(r)
        if z3.is_int_value(r): return r.as_long() & ((1 << w) - 1)
        return z3.If(r >= h, r - (1 << w), r)
    def wrap(self, st, r, lo, hi, w, what):
        "int mode: canonicalise r (true value in [lo,hi])"
        h = 1 << (w - 1)
        if lo >= -h and hi < h:
            self.setiv(r, lo, hi); return r
        if st is not None and self.check(st, z3.Not(z3.And(r >= -h, r < h))) == z3.unsat:
            self.setiv(r, max(lo, -h), min(hi, h - 1)); return r
        t = (r + h) % (1 << w) - h
        return t
    def binop(self, st, op, w, a, b, nsw=False, nuw=False):
        if isinstance(a, Cat): a = self.cat_int(a)
        if isinstance(b, Cat): b = self.cat_int(b)
        if a is UNDEF or b is UNDEF: 
            return UNDEF
        M = (1 << w) - 1
        if isinstance(a, int) and isinstance(b, int):
            if op == 'add': r = a + b
            elif op == 'sub': r = a - b
            elif op == 'mul': r = a * b
            elif op == 'and': return a & b
            elif op == 'or': return a | b
            elif op == 'xor': return a ^ b
            elif op == 'shl': return (a << b) & M if b < w else 0
            elif op == 'lshr': return a >> b if b < w else 0
            elif op == 'ashr': return (self.sgn(a, w) >> min(b, w - 1)) & M
            elif op in ('udiv', 'urem', 'sdiv', 'srem'):
                if b == 0: self.fail(st, "no division by zero", "safety"); return UNDEF
                if op == 'udiv': return a // b
                if op == 'urem': return a % b
                x, y = self.sgn(a, w), self.sgn(b, w)
                q = abs(x) // abs(y); q = -q if (x < 0) != (y < 0) else q
                if op == 'sdiv':
                    if q >= 1 << (w - 1): self.fail(st, "no signed division overflow", "safety"); return UNDEF
                    return q & M
                return (x - q * y) & M
            else: raise Unsupported(op)
            if nsw and self.overflow and op in ('add', 'sub', 'mul'):
                x, y = self.sgn(a, w), self.sgn(b, w)
                e = x + y if op == 'add' else x - y if op == 'sub' else x * y
                if not -(1 << (w - 1)) <= e < (1 << (w - 1)): self.fail(st, "no signed overflow", "overflow"); return r & M
            return r & M
        if w == 1:
            x, y = self.boolterm(a), self.boolterm(b)
            if op == 'and': return self.simp(z3.And(x, y), 1)
            if op == 'or': return self.simp(z3.Or(x, y), 1)
            if op in ('xor', 'add', 'sub'): return self.simp(z3.Xor(x, y), 1)
            raise Unsupported(op + " i1")
        if isinstance(a, (PtrInt, Ptr, FnPtr)) or isinstance(b, (PtrInt, Ptr, FnPtr)): return self.ptr_binop(st, op, w, a, b)
        x, y = self.term(a, w), self.term(b, w)
        if z3.is_bool(x): x = self.term(self.zext(x, 1, w), w)
        if z3.is_bool(y): y = self.term(self.zext(y, 1, w), w)
        if self.arith == 'bv':
            if nsw and self.overflow and op in ('add', 'sub', 'mul'):
                if op == 'add': c = z3.And(z3.BVAddNoOverflow(x, y, True), z3.BVAddNoUnderflow(x, y))
                elif op == 'sub': c = z3.And(z3.BVSubNoOverflow(x, y), z3.BVSubNoUnderflow(x, y, True))
                else: c = z3.And(z3.BVMulNoOverflow(x, y, True), z3.BVMulNoUnderflow(x, y))
                self.oblige(st, c, "no signed overflow", "overflow")
            if op == 'add': r = x + y
            elif op == 'sub': r = x - y
            elif op == 'mul': r = x * y
            elif op == 'and': r = x & y
            elif op == 'or': r = x | y
            elif op == 'xor': r = x ^ y
            elif op == 'shl': r = x << y
            elif op == 'lshr': r = z3.LShR(x, y)
            elif op == 'ashr': r = x >> y
            elif op in ('udiv', 'urem', 'sdiv', 'srem'):
                if not isinstance(b, int) or b == 0: self.oblige(st, y != 0, "no division by zero", "safety")
                if st.dead: return UNDEF
                if op == 'sdiv' and (not isinstance(b, int) or b == M): self.oblige(st, z3.Not(z3.And(x == (1 << (w - 1)), y == M)), "no signed division overflow", "safety")
                r = {'udiv': lambda: z3.UDiv(x, y), 'urem': lambda: z3.URem(x, y), 'sdiv': lambda: x / y, 'srem': lambda: z3.SRem(x, y)}[op]()
            else: raise Unsupported(op)
            return self.simp(r, w)
        # ---- int mode
        la, ha = self.getiv(a, w); lb, hb = self.getiv(b, w); h = 1 << (w - 1)
        if op in ('add', 'sub', 'mul'):
            if op == 'add': r = x + y; lo, hi = la + lb, ha + hb
            elif op == 'sub': r = x - y; lo, hi = la - hb, ha - lb
            else:
                r = x * y; cs = [la * lb, la * hb, ha * lb, ha * hb]; lo, hi = min(cs), max(cs)
            r = z3.simplify(r)
            if z3.is_int_value(r): return r.as_long() & M
            if lo >= -h and hi < h: self.setiv(r, lo, hi); return r
            if nsw and self.overflow:
                self.oblige(st, z3.And(r >= -h, r < h), "no signed overflow", "overflow")
                self.setiv(r, max(lo, -h), min(hi, h - 1)); return r
            return self.wrap(st, r, lo, hi, w, op)
        if op in ('sdiv', 'srem'):
            if not isinstance(b, int) or b == 0:
                self.oblige(st, y != 0, "no division by zero", "safety")
                if st.dead: return UNDEF
            if not isinstance(b, int) and la == -h: self.oblige(st, z3.Not(z3.And(x == -h, y == -1)), "no signed division overflow", "safety")
            yc = self.sgn(b, w) if isinstance(b, int) else None
            if yc is not None and yc > 0:
                if la >= 0: q = x / yc
                elif ha <= 0: q = -((-x) / yc)
                else: q = z3.If(x >= 0, x / yc, -((-x) / yc))
                if op == 'sdiv':
                    self.setiv(q, -((-la) // yc) if la < 0 else la // yc, ha // yc if ha >= 0 else -((-ha) // yc)); return q
                r = x - yc * q
                self.setiv(r, -(min(yc - 1, -la)) if la < 0 else 0, min(yc - 1, ha) if ha > 0 else 0); return r
            ax = z3.If(x >= 0, x, -x); ay = z3.If(y >= 0, y, -y)
            q = ax / ay; q = z3.If((x >= 0) == (y >= 0), q, -q)
            if op == 'sdiv':
                m = max(abs(la), abs(ha)); self.setiv(q, -m, m); return q
            r = x - y * q; self.setiv(r, min(la, 0), max(ha, 0)); return r
        if op in ('udiv', 'urem'):
            if not isinstance(b, int) or b == 0: self.oblige(st, y != 0, "no division by zero", "safety")
            if st.dead: return UNDEF
            ux, uy = self.uns(a, w), self.uns(b, w)
            if isinstance(ux, int): ux = z3.IntVal(ux)
            r = ux / uy if op == 'udiv' else ux % uy
            if la >= 0:
                if op == 'udiv': self.setiv(r, 0, ha)
                else: self.setiv(r, 0, (hb - 1) if hb > 0 and lb >= 0 else ha)
                return r
            if isinstance(b, int) and b >= 2 : 
                if op == 'udiv': self.setiv(r, 0, M // b)
                else: self.setiv(r, 0, b - 1)
                if self.getiv(r, w)[1] < h: return r
            return self.from_uns(r, w)
        if op in ('shl', 'lshr', 'ashr') and isinstance(b, int):
            if op == 'shl':
                r = x * (1 << b); return self.wrap(st, r, la << b, ha << b, w, op)
            if op == 'ashr': r = x / (1 << b); self.setiv(r, la >> b, ha >> b); return r
            u = self.uns(a, w); r = u / (1 << b)
            lo = 0; hi = (ha >> b) if la >= 0 else (M >> b)
            self.setiv(r, lo, hi); return r if hi < h else self.from_uns(r, w)
        if op == 'and' and isinstance(a, int): a, b, x, y, la, ha, lb, hb = b, a, y, x, lb, hb, la, ha
        if op == 'and' and isinstance(b, int):
            if b == 0: return 0
            if b == M: return a
            if (b & (b + 1)) == 0:
                r = x % (b + 1); self.setiv(r, 0, b); return r
            nb = (~b) & M
            if (nb & (nb + 1)) == 0: # clear low bits
                r = x - x % (nb + 1); self.setiv(r, la - nb, ha); return r
        if op == 'xor' and isinstance(b, int) and b == M:
            r = -x - 1; self.setiv(r, -ha - 1, -la - 1); return r
        if op in ('or', 'xor', 'add') and isinstance(a, int) and a == 0: return b
        if op in ('or', 'xor') and isinstance(b, int) and b == 0: return a
        if la >= 0 and lb >= 0 and ha <= 1 and hb <= 1 and op in ('and', 'or', 'xor'):
            p, q = x == 1, y == 1
            r = z3.If({'and': z3.And, 'or': z3.Or, 'xor': z3.Xor}[op](p, q), z3.IntVal(1), z3.IntVal(0)); self.setiv(r, 0, 1); return r
        bx, by = z3.Int2BV(x, w), z3.Int2BV(y, w)
        r = {'and': lambda: bx & by, 'or': lambda: bx | by, 'xor': lambda: bx ^ by, 'shl': lambda: bx << by, 'lshr': lambda: z3.LShR(bx, by), 'ashr': lambda: bx >> by}[op]()
        return z3.BV2Int(r, True)
    def ptr_binop(self, st, op, w, a, b):
        def pi(v):
            if isinstance(v, (Ptr, FnPtr)): return PtrInt(v)
            return v
        a, b = pi(a), pi(b)
        if op == 'sub' and isinstance(a, PtrInt) and isinstance(b, PtrInt):
            if isinstance(a.p, Ptr) and isinstance(b.p, Ptr) and a.p.obj == b.p.obj:
                x, y = a.p.off, b.p.off
                if isinstance(x, int) and isinstance(y, int): return (x + a.add - y - b.add) & ((1 << w) - 1)
                return self.binop(st, 'sub', 64, x if not isinstance(x, int) else x & ((1 << 64) - 1), y if not isinstance(y, int) else y & ((1 << 64) - 1))
            raise Unsupported("difference of unrelated pointers")
        if isinstance(a, PtrInt) and isinstance(b, int):
            if op == 'add': 
                if isinstance(a.p, Ptr): return PtrInt(self.padd(a.p, self.sgn(b, 64)))
                return PtrInt(a.p, a.add + self.sgn(b, 64))
            if op == 'sub': return self.ptr_binop(st, 'add', w, a, (-b) & ((1 << 64) - 1))
            if op == 'and':
                if b in (1, 3, 7, 15): 
                    if isinstance(a.p, FnPtr): return a.add & b
                    if isinstance(a.p.off, int): return a.p.off & b
                nb = (~b) & ((1 << 64) - 1)
                if nb in (1, 3, 7, 15) and isinstance(a.p, Ptr) and isinstance(a.p.off, int) and a.p.off & nb == 0: return a
        if isinstance(b, PtrInt) and isinstance(a, int) and op in ('add', 'and', 'or'): return self.ptr_binop(st, op, w, b, a)
        if op == 'or' and isinstance(b, int) and b == 0: return a
        raise Unsupported(f"integer {op} on pointers")
    def icmp(self, st, pred, t, a, b):
        if t.k == 'ptr' or isinstance(a, (Ptr, FnPtr, PtrInt, PtrIte)) or isinstance(b, (Ptr, FnPtr, PtrInt, PtrIte)): return self.pcmp(st, pred, a, b)
        w = t.w
        if isinstance(a, Cat): a = self.cat_int(a)
        if isinstance(b, Cat): b = self.cat_int(b)
        if a is UNDEF or b is UNDEF: return UNDEF
        if isinstance(a, int) and isinstance(b, int):
            if pred[0] == 's': a, b = self.sgn(a, w), self.sgn(b, w)
            p = pred if pred in ('eq', 'ne') else pred[1:]
            return int({'eq': a == b, 'ne': a != b, 'lt': a < b, 'le': a <= b, 'gt': a > b, 'ge': a >= b}[p])
        if w == 1:
            x, y = self.boolterm(a), self.boolterm(b)
            if pred == 'eq': return self.simp(x == y, 1)
            if pred == 'ne': return self.simp(z3.Xor(x, y), 1)
            raise Unsupported("i1 order")
        x, y = self.term(a, w), self.term(b, w)
        if z3.is_bool(x): x = self.term(self.zext(x, 1, w), w)
        if z3.is_bool(y): y = self.term(self.zext(y, 1, w), w)
        def consts(v): # a case distinction over constants (an ordering, a flag)
            return is_sym(v) and z3.is_app_of(v, z3.Z3_OP_ITE) and all(z3.is_int_value(u) or z3.is_bv_value(u) or consts(u) for u in v.children()[1:])
        if t.w == w and (consts(x) and isinstance(b, int) or consts(y) and isinstance(a, int)):
            def push(v):
                if is_sym(v) and z3.is_app_of(v, z3.Z3_OP_ITE): return z3.If(v.arg(0), push(v.arg(1)), push(v.arg(2)))
                n = v.as_long() & ((1 << w) - 1)
                return z3.BoolVal(bool(self.icmp(st, pred, t, n, b) if consts(x) else self.icmp(st, pred, t, a, n)))
            return self.simp(push(x if consts(x) else y), 1)
        if pred == 'eq': r = x == y
        elif pred == 'ne': r = x != y
        elif self.arith == 'bv':
            r = {'ugt': lambda: z3.UGT(x, y), 'uge': lambda: z3.UGE(x, y), 'ult': lambda: z3.ULT(x, y), 'ule': lambda: z3.ULE(x, y),
                 'sgt': lambda: x > y, 'sge': lambda: x >= y, 'slt': lambda: x < y, 'sle': lambda: x <= y}[pred]()
        else:
            if pred[0] == 'u':
                if self.getiv(a, w)[0] < 0 or self.getiv(b, w)[0] < 0: x, y = self.uns(a, w), self.uns(b, w)
            p = pred[1:]
            if isinstance(x, int): x = z3.IntVal(x)
            r = x > y if p == 'gt' else x >= y if p == 'ge' else x < y if p == 'lt' else x <= y
        return self.simp(r, 1)
    def pcmp(self, st, pred, a, b):
        def nz(v):
            if isinstance(v, PtrInt): return v.p
            if isinstance(v, int) and v == 0: return NULL
            return v
        a, b = nz(a), nz(b)
        if isinstance(a, PtrIte) or isinstance(b, PtrIte):
            if not isinstance(a, PtrIte): a = PtrIte([(z3.BoolVal(True), a)])
            if not isinstance(b, PtrIte): b = PtrIte([(z3.BoolVal(True), b)])
            r = z3.Or(*[z3.And(c, d, self.boolterm(self.pcmp(st, pred, p, q))) for c, p in a.alts for d, q in b.alts])
            return self.simp(r, 1)
        if a is UNDEF or b is UNDEF: return UNDEF
        if isinstance(a, FnPtr) or isinstance(b, FnPtr):
            e = a == b
            if pred == 'eq': return int(e)
            if pred == 'ne': return int(not e)
            raise Unsupported("order of function pointers")
        if not (isinstance(a, Ptr) and isinstance(b, Ptr)): raise Unsupported(f"compare {a} {b}")
        if a.obj == b.obj:
            x, y = a.off, b.off
            if isinstance(x, int) and isinstance(y, int):
                return int({'eq': x == y, 'ne': x != y, 'lt': x < y, 'le': x <= y, 'gt': x > y, 'ge': x >= y}[pred if pred in ('eq', 'ne') else pred[1:]])
            x = self.term(x & ((1 << 64) - 1), 64) if isinstance(x, int) else x
            y = self.term(y & ((1 << 64) - 1), 64) if isinstance(y, int) else y
            p = pred if pred in ('eq', 'ne') else pred[1:]
            r = {'eq': lambda: x == y, 'ne': lambda: x != y, 'lt': lambda: x < y, 'le': lambda: x <= y, 'gt': lambda: x > y, 'ge': lambda: x >= y}[p]()
            return self.simp(r, 1)
        if pred == 'eq': return 0
        if pred == 'ne': return 1
        # std::less on unrelated pointers: arbitrary but consistent order
        r = a.obj < b.obj
        p = pred[1:]
        return int(r if p in ('lt', 'le') else not r)
    def zext(self, v, w1, w2):
        if isinstance(v, Cat): v = self.cat_int(v)
        if isinstance(v, int): return v
        if v is UNDEF: return UNDEF
        if is_sym(v) and z3.is_bool(v):
            if self.arith == 'bv': r = z3.If(v, z3.BitVecVal(1, w2), z3.BitVecVal(0, w2))
            else: r = z3.If(v, z3.IntVal(1), z3.IntVal(0)); self.setiv(r, 0, 1)
            self.bool_terms[r.get_id()] = (v, r)
            return r
        if self.arith == 'bv': return self.simp(z3.ZeroExt(w2 - w1, v), w2)
        return self.uns(v, w1)
    def sext(self, v, w1, w2):
        if isinstance(v, Cat): v = self.cat_int(v)
        if isinstance(v, int): return self.sgn(v, w1) & ((1 << w2) - 1)
        if v is UNDEF: return UNDEF
        if z3.is_bool(v): return self.ite(v, (1 << w2) - 1, 0, w2)
        if self.arith == 'bv': return self.simp(z3.SignExt(w2 - w1, v), w2)
        return v
    def trunc(self, st, v, w1, w2):
        if isinstance(v, Cat): v = self.cat_int(v)
        if isinstance(v, int): return v & ((1 << w2) - 1)
        if v is UNDEF: return UNDEF
        if isinstance(v, PtrInt): raise Unsupported("truncated pointer")
        if is_sym(v) and z3.is_bool(v): 
            if w2 == 1: return v
            return self.zext(v, 1, w2)
        if w2 == 1:
            b = self.bool_terms.get(v.get_id())
            if b is not None: return b[0]
            if self.arith == 'bv': return self.simp(z3.Extract(0, 0, v) == 1, 1)
            if self.getiv(v, w1) == (0, 1): return self.simp(v == 1, 1)
            return self.simp(v % 2 == 1, 1)
        if self.arith == 'bv': return self.simp(z3.Extract(w2 - 1, 0, v), w2)
        lo, hi = self.getiv(v, w1); h = 1 << (w2 - 1)
        if lo >= -h and hi < h: return v
        return self.wrap(st, v, lo, hi, w2, 'trunc')
    # ------------------------------------------------------------ floating point
    def fterm(self, v, k):
        s = z3.Float64() if k == 'double' else z3.Float32()
        if isinstance(v, float):
            if self.fp == 'real':
                if math.isinf(v) or math.isnan(v): raise Unsupported("inf/nan in real mode")
                f = Fraction(v); return z3.RealVal(f"{f.numerator}/{f.denominator}")
            return z3.FPVal(v, s)
        if isinstance(v, int): return self.fterm(float(v), k)
        if v is UNDEF: raise Unsupported("floating op on uninitialised value")
        return v
    def fbin(self, st, op, t, a, b):
        k = t.k
        if isinstance(a, float) and isinstance(b, float) and k == 'double':
            try:
                if op == 'fadd': return a + b
                if op == 'fsub': return a - b
                if op == 'fmul': return a * b
                if op == 'fdiv' and b != 0: return a / b
            except OverflowError: pass
        if self.fp == 'real':
            for p, q in ((a, b), (b, a)):
                if isinstance(p, float) and (math.isnan(p) or math.isinf(p)):
                    if math.isnan(p): return p
                    if op == 'fadd' and not isinstance(q, float): return p
                    if op == 'fsub' and not isinstance(q, float): return p if p is a else -p
                    raise Unsupported("arithmetic on infinity in real mode")
        x, y = self.fterm(a, k), self.fterm(b, k)
        if self.fp == 'real':
            return z3.simplify({'fadd': lambda: x + y, 'fsub': lambda: x - y, 'fmul': lambda: x * y}[op]())
        r = {'fadd': lambda: z3.fpAdd(self.rm, x, y), 'fsub': lambda: z3.fpSub(self.rm, x, y), 'fmul': lambda: z3.fpMul(self.rm, x, y), 'fdiv': lambda: z3.fpDiv(self.rm, x, y), 'frem': lambda: z3.fpRem(x, y)}[op]()
        return z3.simplify(r)
    def real_div(self, st, a, b, k):
        """real mode: list of (state, quotient). Division by zero gives inf (either sign: the sign of the zero is not tracked) or NaN."""
        if isinstance(a, float) and isinstance(b, float) and b != 0 and not (math.isinf(a) or math.isnan(a) or math.isinf(b) or math.isnan(b)):
            q = Fraction(a) / Fraction(b)
            if Fraction(float(q)) == q: return [(st, float(q))]
        x, y = self.fterm(a, k), self.fterm(b, k)
        out = []
        for s2, t in self.fork_bool(st, y != 0):
            if t:
                r = z3.Real(self.fresh_name("quot")); s2.pc.append(r * y == x); self.quots[r.get_id()] = (x, y, r); out.append((s2, r))
            else:
                for s3, z in self.fork_bool(s2, x == 0):
                    if z: out.append((s3, math.nan))
                    else: s4 = s3.fork(); out += [(s3, math.inf), (s4, -math.inf)]
        return out
    def fcmp(self, st, pred, t, a, b):
        k = t.k
        if isinstance(a, float) and isinstance(b, float):
            un = math.isnan(a) or math.isnan(b)
            base = {'oeq': a == b, 'ogt': a > b, 'oge': a >= b, 'olt': a < b, 'ole': a <= b, 'one': a != b and not un, 'ord': not un, 'uno': un,
                    'ueq': un or a == b, 'ugt': un or a > b, 'uge': un or a >= b, 'ult': un or a < b, 'ule': un or a <= b, 'une': a != b, 'true': True, 'false': False}
            return int(base[pred])
        if self.fp == 'real':
            for p, q, flip in ((a, b, False), (b, a, True)):
                if isinstance(p, float) and (math.isnan(p) or math.isinf(p)):
                    if math.isnan(p): return int(pred[0] == 'u' or pred == 'true') if pred not in ('ord', 'uno') else int(pred == 'uno')
                    x = 1 if p > 0 else -1
                    if flip: x = -x     # sign of (a - b)
                    return int({'eq': False, 'ne': True, 'gt': x > 0, 'ge': x > 0, 'lt': x < 0, 'le': x < 0, 'rd': True, 'no': False}[pred[1:]])
        x, y = self.fterm(a, k), self.fterm(b, k)
        if self.fp == 'real' and pred[1:] in ('eq', 'ne', 'gt', 'ge', 'lt', 'le'):
            # a quotient n/d against a value: cross-multiplied by cases on the sign of d (d != 0 holds here)
            for p, q, flip in ((x, y, False), (y, x, True)):
                neg = False
                if self.quots and z3.is_app(p) and p.decl().kind() == z3.Z3_OP_UMINUS: p = p.arg(0); neg = True
                elif self.quots and z3.is_mul(p) and p.num_args() == 2 and z3.is_rational_value(p.arg(0)) and p.arg(0).as_fraction() == -1: p = p.arg(1); neg = True
                if is_sym(p) and p.get_id() in self.quots:
                    n, d, _ = self.quots[p.get_id()]
                    if neg: n = -n
                    op = pred[1:]
                    if flip: op = {'gt': 'lt', 'ge': 'le', 'lt': 'gt', 'le': 'ge'}.get(op, op)
                    m = q * d
                    f = {'eq': lambda u, v: u == v, 'ne': lambda u, v: u != v, 'gt': lambda u, v: u > v, 'ge': lambda u, v: u >= v, 'lt': lambda u, v: u < v, 'le': lambda u, v: u <= v}[op]
                    if op in ('eq', 'ne'): return self.simp(f(n, m), 1)
                    return self.simp(z3.Or(z3.And(d > 0, f(n, m)), z3.And(d < 0, f(m, n))), 1)
        if self.fp == 'real':
            un = z3.BoolVal(False)
            cmpx = {'eq': x == y, 'gt': x > y, 'ge': x >= y, 'lt': x < y, 'le': x <= y, 'ne': x != y}
            if pred in ('ord',): return self.simp(z3.Not(un), 1)
            if pred in ('uno',): return self.simp(un, 1)
            base = cmpx[pred[1:]]
            r = z3.And(z3.Not(un), base) if pred[0] == 'o' else z3.Or(un, base)
            return self.simp(r, 1)
        un = z3.Or(z3.fpIsNaN(x), z3.fpIsNaN(y))
        m = {'oeq': lambda: z3.fpEQ(x, y), 'ogt': lambda: z3.fpGT(x, y), 'oge': lambda: z3.fpGEQ(x, y), 'olt': lambda: z3.fpLT(x, y), 'ole': lambda: z3.fpLEQ(x, y),
             'one': lambda: z3.And(z3.Not(un), z3.Not(z3.fpEQ(x, y))), 'ord': lambda: z3.Not(un), 'uno': lambda: un, 'une': lambda: z3.Not(z3.fpEQ(x, y)),
             'ueq': lambda: z3.Or(un, z3.fpEQ(x, y)), 'ugt': lambda: z3.Not(z3.fpLEQ(x, y)), 'uge': lambda: z3.Not(z3.fpLT(x, y)), 'ult': lambda: z3.Not(z3.fpGEQ(x, y)), 'ule': lambda: z3.Not(z3.fpGT(x, y)),
             'true': lambda: z3.BoolVal(True), 'false': lambda: z3.BoolVal(False)}
        return self.simp(m[pred](), 1)
    def itofp(self, v, w, k, signed):
        if isinstance(v, Cat): v = self.cat_int(v)
        if isinstance(v, int):
            x = self.sgn(v, w) if signed else v
            f = float(x)
            if k == 'float': f = struct.unpack('<f', struct.pack('<f', f))[0]
            return f
        if v is UNDEF: return UNDEF
        if z3.is_bool(v): v = self.zext(v, 1, w)
        if self.fp == 'real':
            t = v if self.arith == 'int' else z3.BV2Int(v, signed)
            if self.arith == 'int' and not signed: t = self.uns(v, w)
            return z3.ToReal(t)
        s = z3.Float64() if k == 'double' else z3.Float32()
        if self.arith == 'int': return z3.fpRealToFP(self.rm, z3.ToReal(v if signed else self.uns(v, w)), s)
        return z3.simplify(z3.fpSignedToFP(self.rm, v, s) if signed else z3.fpUnsignedToFP(self.rm, v, s))
    def fptoi(self, st, v, k, w, signed):
        if isinstance(v, float):
            x = math.trunc(v)
            if not (-(1 << (w - 1)) <= x < (1 << (w - 1)) if signed else 0 <= x < (1 << w)): self.fail(st, "float to int in range", "overflow"); return UNDEF
            return x & ((1 << w) - 1)
        if v is UNDEF: return UNDEF
        if self.fp == 'real':
            fl = z3.ToInt(v); r = z3.If(v >= 0, fl, -z3.ToInt(-v))
            if self.overflow: self.oblige(st, z3.And(r >= -(1 << (w - 1)), r < (1 << (w - 1))), "float to int in range", "overflow")
            if self.arith == 'bv': return z3.Int2BV(r, w)
            return r
        s = z3.Float64() if k == 'double' else z3.Float32()
        if self.overflow:
            lo = z3.FPVal(-float(1 << (w - 1)) if signed else 0.0, s); hi = z3.FPVal(float(1 << (w - 1)) if signed else float(1 << w), s)
            if not signed: c = z3.And(z3.fpGT(v, z3.FPVal(-1.0, s)), z3.fpLT(v, hi))
            elif w == 32 and k == 'double': c = z3.And(z3.fpGT(v, z3.FPVal(-2147483649.0, s)), z3.fpLT(v, hi))
            else: c = z3.And(z3.fpGEQ(v, lo), z3.fpLT(v, hi))
            self.oblige(st, c, "float to int in range", "overflow")
        r = z3.fpToSBV(z3.RTZ(), v, z3.BitVecSort(w)) if signed else z3.fpToUBV(z3.RTZ(), v, z3.BitVecSort(w))
        if self.arith == 'int': r = z3.BV2Int(r, signed)
        return self.simp(r, w)
    # ------------------------------------------------------------ operands & globals
    def gobj(self, st, name):
        a = self.m.alias.get(name)
        if a: name = a
        p = st.globals.get(name)
        if p is not None: return p
        if name in self.m.fns: return FnPtr(name)
        g = self.m.globals.get(name)
        if g is None: raise Unsupported("global " + name)
        gid = self.global_ids(name)
        o = Obj(); o.id = gid; o.size = g.t.size if not g.decl else None; o.cells = {}; o.kind = 'global'; o.name = name; o.lazy = g.decl; o.owner = st.tok; o.ro = False; o.tag = None; o.ghost = None; o.arr = None
        st.mem[gid] = o
        p = Ptr(gid, 0); st.globals[name] = p
        if not g.decl:
            init = llvmc.GetInit(g.ref)
            if init: self.init_const(st, p, self.m.val(init), g.t)
            st.mem[gid].ro = g.const
        return p
    _gids = None
    def global_ids(self, name):
        if self._gids is None: self._gids = {}
        if name not in self._gids: self._gids[name] = self.nobj; self.nobj += 1
        return self._gids[name]
    def init_const(self, st, p, v, t):
        if v.k in ('zero', 'null') and t.k in ('struct', 'array'):
            n = t.size
            o = st.w(p.obj)
            if n <= 4096: self.zero_fill(st, p, t)
            else: o.lazy = True
            return
        if v.k == 'undef': return
        if v.k == 'agg':
            for j, e in enumerate(v.x):
                et = t.elems[j] if t.k == 'struct' else t.elems
                off = t.offs[j] if t.k == 'struct' else j * et.size
                self.init_const(st, self.padd(p, off), e, et)
            return
        if v.k == 'str':
            for j, b in enumerate(v.x): st.w(p.obj).cells[p.off + j] = (1, b)
            return
        self.put(st, p.obj, p.off, t.size if t.k != 'int' else (t.w + 7) // 8, self.const(st, v))
    def zero_fill(self, st, p, t):
        if t.k == 'struct':
            for e, o in zip(t.elems, t.offs): self.zero_fill(st, self.padd(p, o), e)
        elif t.k == 'array':
            for j in range(t.n): self.zero_fill(st, self.padd(p, j * t.elems.size), t.elems)
        else:
            z = NULL if t.k == 'ptr' else 0.0 if t.k in ('double', 'float') else 0
            self.put(st, p.obj, p.off, t.size if t.k != 'int' else (t.w + 7) // 8, z)
    def const(self, st, v):
        k = v.k
        if k == 'c': return v.x
        if k == 'null': return NULL if v.t.k == 'ptr' else 0
        if k == 'g': return self.gobj(st, v.x)
        if k == 'fn': return FnPtr(v.x)
        if k == 'other' and 'operand' not in v.x and '!' in v.x: return UNDEF   # metadata
        if k == 'alias': return self.gobj(st, v.x)
        if k == 'undef': return UNDEF if v.t is None or v.t.k not in ('struct', 'array') else tuple([UNDEF] * (v.t.n if v.t.k == 'array' else len(v.t.elems)))
        if k == 'f': return v.x
        if k == 'zero': return self.zero_of(v.t)
        if k == 'agg': return tuple(self.const(st, e) for e in v.x)
        if k == 'str': return tuple(v.x)
        if k == 'ce':
            op, ops, x = v.x
            if op == 'gep':
                return self.gep(st, x, self.const(st, ops[0]), [(self.const(st, o), o.t.w) for o in ops[1:]])
            if op == 'inttoptr':
                c = self.const(st, ops[0]); return self.conv(st, c, v.t) if not isinstance(c, int) or c == 0 else Ptr(0, c)
            if op == 'ptrtoint':
                c = self.const(st, ops[0]); return PtrInt(c) if c != NULL else 0
            if op in ('bitcast', 'addrspacecast'): return self.const(st, ops[0])
            if op in ('add', 'sub', 'mul', 'and', 'or', 'xor', 'shl'): return self.binop(st, op, v.t.w, self.const(st, ops[0]), self.const(st, ops[1]))
            if op == 'trunc': return self.trunc(st, self.const(st, ops[0]), ops[0].t.w, v.t.w)
            raise Unsupported("constant expr " + op)
        raise Unsupported(f"operand {v}")
    def zero_of(self, t):
        if t.k == 'struct': return tuple(self.zero_of(e) for e in t.elems)
        if t.k in ('array', 'vec'): return tuple(self.zero_of(t.elems) for _ in range(t.n))
        if t.k == 'ptr': return NULL
        if t.k in ('double', 'float'): return 0.0
        return 0
    def gep(self, st, t, p, idx):
        off = 0; symoff = None; first = True
        def addoff(sz, i, w):
            nonlocal off, symoff
            if isinstance(i, Cat): i = self.cat_int(i)
            if isinstance(i, int): off += self.sgn(i, w) * sz
            else:
                if i is UNDEF: raise Unsupported("index is uninitialised")
                if self.arith == 'bv':
                    x = z3.SignExt(64 - w, i) if w < 64 else i
                    x = x * sz if sz != 1 else x
                else: x = i * sz if sz != 1 else i
                symoff = x if symoff is None else symoff + x
        i0, w0 = idx[0]; addoff(t.size, i0, w0); cur = t
        for i, w in idx[1:]:
            if cur.k == 'struct': off += cur.offs[i]; cur = cur.elems[i]
            else: addoff(cur.elems.size, i, w); cur = cur.elems
        if isinstance(p, Opq): raise Unsupported(f"gep on {p}")
        r = self.padd(p, off)
        if symoff is not None: r = self.padd(r, symoff)
        if isinstance(r, Ptr) and not isinstance(r.off, int):
            s = z3.simplify(r.off)
            if z3.is_bv_value(s): r = Ptr(r.obj, self.sgn(s.as_long(), 64))
            elif z3.is_int_value(s): r = Ptr(r.obj, s.as_long())
            else: r = Ptr(r.obj, s)
        return r
    # ------------------------------------------------------------ calls
    def find_model(self, name):
        r = self.model_cache.get(name, 0)
        if r != 0: return r
        r = self.models.get(name)
        if r is None:
            d = self.demname(name)
            for rx, mdl in self.regex_models:
                if rx.match(d): r = mdl; break
        self.model_cache[name] = r
        return r
    def demname(self, name):
        d = self.dem.get(name)
        if d is None: d = demangle(name).replace("[abi:cxx11]", "").replace("__cxx11::", ""); self.dem[name] = d
        return d
    def call(self, st, name, args, ins=None):
        "returns Outs"
        a = self.m.alias.get(name)
        if a: name = a
        mdl = self.find_model(name)
        if mdl is not None:
            self.models_used.add(name)
            r = mdl(self, st, args, ins, name)
            if isinstance(r, Outs): return r
            return Outs([(st, 'ret', r)])
        fn = self.m.fns.get(name)
        if fn is None or fn.decl:
            raise Unsupported("external function " + self.demname(name))
        return self.run_fn(st, fn, args)
    def call_ptr(self, st, fp, args, ins=None):
        if isinstance(fp, FnPtr): return self.call(st, fp.name, args, ins)
        h = self.hooks.get('indirect')
        if h:
            r = h(self, st, fp, args, ins)
            if r is not None: return r
        if fp == NULL:
            self.fail(st, "no call through null", "safety"); return Outs()
        raise Unsupported(f"indirect call through {fp}")
    def live(self, outs): return Outs([o for o in outs if not o[0].dead])
    def run_fn(self, st, fn, args):
        blocks = self.m.blocks(fn)
        self.fns_used.add(fn.name)
        if len(self.fnstack) > 150: raise Unsupported("recursion depth")
        self.fnstack.append(fn.name)
        base_pc = len(st.pc); saved = self.curloc; base_obj = self.nobj
        pre_ghost = st.ghost; pre_trace = st.trace; pre_mem_ids = None
        try:
            regs = {}
            if len(args) < len(fn.params): raise Unsupported(f"arity of {fn.name}")
            for (pid, t), a in zip(fn.params, args): regs[pid] = a
            if fn.vararg: regs['va'] = args[len(fn.params):]
            outs = self.exec_blocks(st, fn, regs)
        finally:
            self.fnstack.pop()
        self.curloc = saved
        self._rett = fn.ret
        if len(outs) > 1: self._base_obj = base_obj; outs = self.merge_outs(outs, base_pc)
        return outs
    # ------------------------------------------------------------ merging
    def merge_outs(self, outs, base):
        rets = [o for o in outs if o[1] == 'ret']; rest = [o for o in outs if o[1] != 'ret']
        if len(rets) < 2: return outs
        acc = []
        for o in rets:
            for i, a in enumerate(acc):
                m = self.merge2(a, o, base)
                if m is not None: acc[i] = m; break
            else: acc.append(o)
        return Outs(acc + rest)
    def merge_val(self, c, a, b):
        "value if c then a else b; None if impossible"
        if a is b: return a
        if type(a) is type(b) and not is_sym(a):
            try:
                if a == b: return a
            except Exception: pass
        if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b):
            out = []
            for x, y in zip(a, b):
                m = self.merge_val(c, x, y)
                if m is None: return None
                out.append(m)
            return tuple(out)
        fa, fb = isinstance(a, float), isinstance(b, float)
        if (fa or (is_sym(a) and (z3.is_fp(a) or z3.is_real(a)))) and (fb or (is_sym(b) and (z3.is_fp(b) or z3.is_real(b)))):
            if fa and fb: return None
            ref = a if not fa else b
            k = 'float' if z3.is_fp(ref) and ref.sort() == z3.Float32() else 'double'
            return z3.If(c, self.fterm(a, k), self.fterm(b, k))
        if is_sym(a) or is_sym(b):
            if is_sym(a) and is_sym(b):
                if a.eq(b): return a
                if a.sort() != b.sort(): return None
                r = z3.If(c, a, b)
            else:
                ref, oth = (a, b) if is_sym(a) else (b, a)
                if not isinstance(oth, int): return None
                if z3.is_bv(ref): t = z3.BitVecVal(oth, ref.size())
                elif z3.is_bool(ref): t = z3.BoolVal(bool(oth))
                else: return None   # width unknown in int mode
                r = z3.If(c, a, t) if is_sym(a) else z3.If(c, t, b)
            if z3.is_int(r):
                i1, i2 = self.iv.get(a.get_id()), self.iv.get(b.get_id())
                if i1 and i2: self.setiv(r, min(i1[0], i2[0]), max(i1[1], i2[1]))
            return z3.simplify(r) if not z3.is_int(r) else r
        return None
    def merge2(self, A, B, base, regs=None):
        a, ra, va = A[0], A[1], A[2]; b, vb = B[0], B[2]
        if a.trace is not b.trace and a.trace != b.trace: return None
        if a.exc != b.exc or a.held != b.held or a.ghost.keys() != b.ghost.keys(): return None
        gm = {}
        for k in a.ghost:
            x, y = a.ghost[k], b.ghost[k]
            if x is not y:
                try:
                    if not (type(x) is type(y) and not is_sym(x) and x == y):
                        gx = z3.IntVal(x) if type(x) is int else x; gy = z3.IntVal(y) if type(y) is int else y
                        if is_sym(gx) and is_sym(gy) and gx.sort() == gy.sort(): gm[k] = (gx, gy); continue
                        return None
                except Exception: return None
        n = base; m = min(len(a.pc), len(b.pc))
        while n < m and a.pc[n] is b.pc[n]: n += 1
        ca = z3.And(*a.pc[n:]) if len(a.pc) > n else z3.BoolVal(True)
        cb = z3.And(*b.pc[n:]) if len(b.pc) > n else z3.BoolVal(True)
        if va is None and vb is None: v = None
        else:
            v = self.merge_ret(ca, va, vb, self._rett)
            if v is None: return None
        if regs is not None:
            for k in regs[0]:
                x, y = regs[0][k], regs[1][k]
                if x is y: continue
                v = self.merge_ret(ca, x, y, regs[2].get(k))
                if v is None: return None
                regs[3][k] = v
            v = None
        newcells = []
        # a global first touched on one side has its initial content on the other; other objects created on one side only are unreachable from the other
        for x, y in ((a, b), (b, a)):
            for nme in [g for g in y.globals if g not in x.globals]: self.gobj(x, nme)
        allids = set(a.mem) | set(b.mem)
        add = []
        for oid in allids:
            x, y = a.mem.get(oid), b.mem.get(oid)
            if x is y: continue
            if x is None or y is None:
                o = x or y
                if oid in (b if x else a).freed: return None
                if o.kind in ('global', 'lazy') or oid >= self._base_obj:
                    if o.kind not in ('alloca', 'byval'): add.append(o)
                    continue
                return None
            if x.size is not y.size and x.size != y.size: return None
            if x.ghost is not y.ghost and x.ghost != y.ghost: return None
            if x.cells.keys() != y.cells.keys():
                return None
            ch = {}
            for off in x.cells:
                cx, cy = x.cells[off], y.cells[off]
                if cx is cy: continue
                if cx[0] != cy[0]: return None
                mv = self.merge_cell(ca, cx[1], cy[1], cx[0])
                if mv is None: return None
                ch[off] = (cx[0], mv)
            if ch: newcells.append((oid, ch))
        # commit into a
        a.freed = a.freed | b.freed
        del a.pc[n:]
        a.pc.append(z3.simplify(z3.Or(ca, cb)))
        if z3.is_true(a.pc[-1]): a.pc.pop()
        a.tok = object()
        for oid, ch in newcells: a.w(oid).cells.update(ch)
        for o in add: a.mem[o.id] = o
        for k, (x, y) in gm.items(): a.ghost[k] = z3.If(ca, x, y)
        for nme, p in b.globals.items(): a.globals.setdefault(nme, p)
        for k, x in b.symloops.items():
            if isinstance(x, int): a.symloops[k] = max(x, a.symloops.get(k, 0))
        for k, x in list(a.symloops.items()) if regs else ():
            if isinstance(x, tuple) and b.symloops.get(k) is not x: y = b.symloops.get(k, ()); a.symloops[k] = tuple(z for z in x if any(z is u for u in y))
        if b.notes is not a.notes: a.notes = a.notes + tuple(x for x in b.notes if x not in a.notes)
        return (a, 'ret', v)
    def merge_ret(self, c, a, b, t):
        v = self.merge_val(c, a, b)
        if v is not None: return v
        if t is None: return None
        if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b) and t.k in ('struct', 'array', 'vec'):
            out = []
            for j in range(len(a)):
                v = self.merge_ret(c, a[j], b[j], t.elems[j] if t.k == 'struct' else t.elems)
                if v is None: return None
                out.append(v)
            return tuple(out)
        if t.k == 'int':
            if isinstance(a, Cat):
                try: a = self.cat_int(a)
                except Unsupported: return None
            if isinstance(b, Cat):
                try: b = self.cat_int(b)
                except Unsupported: return None
            if (isinstance(a, int) or is_sym(a)) and (isinstance(b, int) or is_sym(b)): return self._ite_int(c, a, b, t.w)
        if t.k in ('double', 'float') and (isinstance(a, float) or is_sym(a)) and (isinstance(b, float) or is_sym(b)):
            return z3.If(c, self.fterm(a, t.k), self.fterm(b, t.k))
        return None
    def _ite_int(self, c, a, b, w):
        if w is None: return None
        r = z3.If(c, self.term(a, w), self.term(b, w))
        if w > 1 and self.arith == 'int':
            la, ha = self.getiv(a, w); lb, hb = self.getiv(b, w); self.setiv(r, min(la, lb), max(ha, hb))
            return r
        return self.simp(r, w)
    def merge_cell(self, c, a, b, size):
        v = self.merge_val(c, a, b)
        if v is not None: return v
        ints = (isinstance(a, int) or (is_sym(a) and not z3.is_fp(a) and not z3.is_real(a))) and (isinstance(b, int) or (is_sym(b) and not z3.is_fp(b) and not z3.is_real(b)))
        if ints:
            if is_sym(a) and z3.is_bool(a): a = self.zext(a, 1, size * 8)
            if is_sym(b) and z3.is_bool(b): b = self.zext(b, 1, size * 8)
            return self._ite_int(c, a, b, size * 8)
        return None
    # ------------------------------------------------------------ joins inside a function (monitor proofs)
    def layout(self, fn):
        "block order (loop bodies before what follows them), blocks with several predecessors, registers alive at block entry, register types"
        c = self._layouts.get(fn.name)
        if c: return c
        bl = fn._blocks; loops = self.m.loop_headers(fn); succ = {}; pred = {}; types = {p: t for p, t in fn.params}
        for b, l in bl.items():
            t = l[-1]
            succ[b] = list(t.x) if t.op == 'br' else [t.x[0]] + [q[1] for q in t.x[1]] if t.op == 'switch' else [t.x[1], t.x[2]] if t.op == 'invoke' else []
            for q in succ[b]: pred.setdefault(q, set()).add(b)
            for I in l: types[I.id] = I.t
        def leaves(b, q): return sum(b in body and q not in body for body in loops.values())
        post = []; seen = {fn.entry}; stack = [(fn.entry, iter(sorted(succ[fn.entry], key=lambda q: -leaves(fn.entry, q))))]
        while stack:
            b, it = stack[-1]
            for q in it:
                if q not in seen: seen.add(q); stack.append((q, iter(sorted(succ[q], key=lambda r: -leaves(q, r))))); break
            else: post.append(b); stack.pop()
        order = {b: i for i, b in enumerate(reversed(post))}
        back = {h: max(order.get(b, 0) for b in body) + 0.5 for h, body in loops.items()}
        def regs_of(v): return [v.x] if isinstance(v, Val) and v.k == 'r' else []
        use = {}; dfn = {}; phi = {}
        for b, l in bl.items():
            U = set(); D = set()
            for I in l:
                if I.op == 'phi':
                    for p, v in I.x.items(): phi.setdefault(p, set()).update(regs_of(v))
                else:
                    xs = list(I.ops) + ([I.x] if isinstance(I.x, Val) else [q for q in I.x if isinstance(q, Val)] if isinstance(I.x, (tuple, list)) else [])
                    for v in xs: U.update(r for r in regs_of(v) if r not in D)
                D.add(I.id)
            use[b], dfn[b] = U, D
        live = {b: set(use[b]) for b in bl}; ch = True
        while ch:
            ch = False
            for b in bl:
                o = set(phi.get(b, ()))
                for q in succ[b]: o |= live[q]
                n = use[b] | (o - dfn[b])
                if n != live[b]: live[b] = n; ch = True
        # locals whose address is only loaded from, stored to and passed on: where are they read before they are written? (passing one on reads it, unless for a result)
        allocas = {I.id: I for l in bl.values() for I in l if I.op == 'alloca' and not I.ops[0].k == 'r'}; slots = set(allocas); alias = {a: (a, True) for a in allocas}; ch = True
        while ch:
            ch = False
            for l in bl.values():
                for I in l:
                    if I.op == 'gep' and I.id not in alias and I.ops[0].k == 'r' and I.ops[0].x in alias: a, whole = alias[I.ops[0].x]; alias[I.id] = (a, whole and all(o.k == 'c' and o.x == 0 or o.k == 'zero' for o in I.ops[1:])); ch = True
        def uses(I):
            "(slots read, slots written, slots whose address is kept)"
            at = lambda v: alias.get(v.x) if isinstance(v, Val) and v.k == 'r' else None
            if I.op == 'gep': return (), (), [a[0] for v in I.ops[1:] if (a := at(v))]
            if I.op in ('load', 'store'):
                p = at(I.ops[-1]); kept = [a[0] for v in I.ops[:-1] if (a := at(v))]
                if p is None: return (), (), kept
                if I.op == 'load': return [p[0]], (), kept
                return (), [p[0]] if p[1] and not I.x and I.ops[0].t.size == allocas[p[0]].x.size else (), kept
            if I.op in ('call', 'invoke'):
                if I.x[0].k == 'fn' and I.x[0].x.startswith('llvm.lifetime'): return (), [a[0] for v in I.ops if (a := at(v)) and a[1]], ()
                if I.x[0].k == 'fn' and I.x[0].x.startswith(('llvm.memcpy', 'llvm.memmove', 'llvm.memset')) and I.ops[2].k == 'c' and (a := at(I.ops[0])) and a[1] and I.ops[2].x == allocas[a[0]].x.size: return [q[0] for v in I.ops[1:2] if (q := at(v))], [a[0]], ()
                w = [a[0]] if I.nuw and (a := at(I.ops[I.nsw])) and a[1] else []
                return [a[0] for k, v in enumerate(I.ops) if (a := at(v)) and not (w and k == I.nsw)], w, ()
            ops = list(I.ops) + ([I.x] if isinstance(I.x, Val) else list(I.x.values()) if I.op == 'phi' else [q for q in I.x if isinstance(q, Val)] if isinstance(I.x, (tuple, list)) else [])
            return (), (), [a[0] for v in ops if (a := at(v))]
        rd = {b: set() for b in bl}; wr = {b: set() for b in bl}
        for b, l in bl.items():
            for I in l:
                r, w, kept = uses(I); slots -= set(kept); rd[b] |= {x for x in r if x not in wr[b]}; wr[b] |= set(w)
        lv = {b: set(rd[b]) for b in bl}; ch = True
        while ch:
            ch = False
            for b in bl:
                n = set(rd[b])
                for q in succ[b]: n |= lv[q] - wr[b]
                if n != lv[b]: lv[b] = n; ch = True
        jb = {b for b in bl if len(pred.get(b, ())) > 1 or any(leaves(p, b) for p in pred.get(b, ()))}
        self._deadslots[fn.name] = {b: slots - lv[b] for b in jb | set(loops)}
        c = self._layouts[fn.name] = (order, jb, back, live, types)
        return c
    def join(self, items, live, types, base, frame, inside):
        acc = []
        for st, regs, n in items:
            if st.dead: continue
            for i, (a, ra, na) in enumerate(acc):
                if n != na: continue
                ks = {k for k in live if k in ra and k in regs}
                if any(ra.get(k) != regs.get(k) for k in ('#f', 'allocas', 'va', 'exc')): continue
                if any(a.symloops.get(('cover', frame, h)) is not st.symloops.get(('cover', frame, h)) for h in inside): continue
                out = {k: v for k, v in ra.items() if isinstance(k, str) or k in ks}
                m = self.merge2((a, 'ret', None), (st, 'ret', None), base, ({k: ra[k] for k in ks}, {k: regs[k] for k in ks}, types, out))
                if m is not None: acc[i] = (m[0], out, n); break
            else: acc.append((st, regs, n))
        return acc
    # ------------------------------------------------------------ the interpreter
    def exec_blocks(self, st, fn, regs, start=None, prev=None, stop=None):
        """Runs from block `start` (default entry). Blocks in `stop` end a path with kind 'stop' and value (block, prev, regs)."""
        blocks = fn._blocks; m = self.m
        loops = m.loop_headers(fn)
        outs = Outs(); allocas = []
        work = [(st, regs, start or fn.entry, prev, 0)]
        first = True; parked = {}; joins = self.covering and not stop and self.cutspec is None
        if joins: order, jb, back, live, rtypes = self.layout(fn); base_pc = len(st.pc); base_obj = self.nobj
        while work or parked:
            resume = False
            if joins and (parked or len(work) > 1):
                w = min(range(len(work)), key=lambda j: (order.get(work[j][2], 0), -j)) if work else None
                q = min(parked) if parked else None
                if w is None or q is not None and q[0] < order.get(work[w][2], 0):
                    blk = q[1]; items = parked.pop(q); self._base_obj = base_obj
                    if len(items) > 1 and len(q) == 2: items = self.join(items, live[blk] | {I.id for I in blocks[blk] if I.op == 'phi'}, rtypes, base_pc, items[0][1].get('#f'), [h for h, body in loops.items() if blk in body])
                    if len(items) > 1: parked[q[0], blk, 1] = parked.get((q[0], blk, 1), []) + items[1:]
                    if not items: continue
                    st, regs, idx = items[0]; prev = None; resume = True
                else: st, regs, blk, prev, idx = work.pop(w)
            else: st, regs, blk, prev, idx = work.pop()
            if st.dead: continue
            while True:  # block loop
                if idx == 0 and joins and not resume and blk in jb and not first and (work or parked):
                    n = 0; vals = []
                    while blocks[blk][n].op == 'phi': vals.append((blocks[blk][n].id, self.ev(st, regs, blocks[blk][n].x[prev]))); n += 1
                    for k, v in vals: regs[k] = v
                    b = blk in back and order.get(prev, 0) >= order[blk]
                    if blk in back and not b and (fn.name, blk) in st.symloops: del st.symloops[(fn.name, blk)]; st.symloops.pop(('cover', regs.get('#f'), blk), None)
                    self.drop_dead(st, regs, fn.name, blk); parked.setdefault((back[blk] if b else order[blk], blk), []).append((st, regs, n)); break
                if resume and self.covering and blk in loops and idx == 0:
                    resume = False
                    if self.covered(st, regs, blk, blocks[blk], prev, fn.name): break
                elif idx == 0:
                    if stop and blk in stop and not first:
                        outs.append((st, 'stop', (blk, prev, regs))); break
                    first = False
                    if self.covering and blk in loops:
                        if prev not in loops[blk] and (fn.name, blk) in st.symloops:  # entered anew
                            del st.symloops[(fn.name, blk)]; st.symloops.pop(('cover', regs.get('#f'), blk), None)
                        if self.covered(st, regs, blk, blocks[blk], prev, fn.name): break
                    if blk in loops and self.cutspec is not None and prev is not None and (fn.name, blk) in self.cuts and prev not in loops[blk]:
                        # loop reached from outside: handled by its invariant
                        r = self.cutspec(self, st, fn, regs, blk, prev, loops[blk])
                        if r is not None:
                            for (s2, kind, x) in r:
                                if kind == 'goto': work.append((s2, x[0], x[1], x[2], 0))
                                else: outs.append((s2, kind, x))
                            break
                resume = False; lst = blocks[blk]; n = len(lst); nxt = None; ended = False
                if idx == 0:
                    # phis
                    if lst[0].op == 'phi':
                        vals = []; j = 0
                        while lst[j].op == 'phi':
                            vals.append((lst[j].id, self.ev(st, regs, lst[j].x[prev]))); j += 1
                        for k, v in vals: regs[k] = v
                        idx = j
                while idx < n:
                    I = lst[idx]; idx += 1; op = I.op
                    self.ninstr += 1
                    if I.line: self.curloc = (I.file, I.line)
                    if op == 'load':
                        if I.x: self.atomic = True
                        regs[I.id] = self.load(st, self.ev(st, regs, I.ops[0]), I.t); self.atomic = False
                        if I.x:
                            h = self.hooks.get('atomic')
                            if h:
                                r = h(self, st, 'load', self.ev(st, regs, I.ops[0]), regs[I.id], I)
                                if r is not None: regs[I.id] = r
                        if st.dead: ended = True; break
                    elif op == 'store':
                        p = self.ev(st, regs, I.ops[1]); v = self.ev(st, regs, I.ops[0])
                        if I.x and 'atomic' in self.hooks: self.hooks['atomic'](self, st, 'store', p, v, I)
                        if I.x: self.atomic = True
                        self.store(st, p, v, I.ops[0].t); self.atomic = False
                        if st.dead: ended = True; break
                    elif op == 'gep':
                        regs[I.id] = self.gep(st, I.x, self.ev(st, regs, I.ops[0]), [(self.ev(st, regs, o), o.t.w) for o in I.ops[1:]])
                    elif op == 'call' or op == 'invoke':
                        cv, nd, ud = I.x
                        args = [self.ev(st, regs, o) for o in I.ops]
                        if I.byval: self.copy_byval(st, args, I.byval)
                        if cv.k == 'fn': rs = self.intrinsic(st, cv.x, args, I) if cv.x.startswith('llvm.') else self.call(st, cv.x, args, I)
                        elif cv.k == 'alias': rs = self.call(st, cv.x, args, I)
                        else:
                            fp = self.ev(st, regs, cv)
                            rs = self.call_ptr(st, fp, args, I)
                        if len(rs) == 1 and rs[0][1] == 'ret' and not rs[0][0].dead:
                            st = rs[0][0]; regs[I.id] = rs[0][2]
                            if nd is not None: nxt = nd; break
                            continue
                        k = 0
                        for (s2, kind, v) in rs:
                            if s2.dead: continue
                            if kind == 'ret':
                                r2 = dict(regs); r2[I.id] = v
                                if nd is not None: work.append((s2, r2, nd, blk, 0))
                                else: work.append((s2, r2, blk, prev, idx))
                            elif kind == 'throw':
                                if ud is not None:
                                    r2 = dict(regs); r2['exc'] = v
                                    work.append((s2, r2, ud, blk, 0))
                                else: self.pop_frame(s2, regs); outs.append((s2, 'throw', v))
                            else: outs.append((s2, kind, v))
                        ended = True; break
                    elif op == 'br':
                        if not I.ops: nxt = I.x[0]; break
                        c = self.ev(st, regs, I.ops[0])
                        if isinstance(c, int): nxt = I.x[0] if c else I.x[1]; break
                        c = self.boolterm(c)
                        alts = self.fork_bool(st, c)
                        if len(alts) == 1:
                            nxt = I.x[0] if alts[0][1] else I.x[1]; break
                        # symbolic fork: loop accounting
                        hdr = None
                        for h_, body in loops.items():
                            if blk in body and ((I.x[0] in body) != (I.x[1] in body)): hdr = h_
                        if hdr is not None:
                            key = (fn.name, hdr)
                            cnt = st.symloops.get(key, 0) + 1
                            if cnt > self.loop_limit: raise LoopBound(key, f"loop in {self.demname(fn.name)} needs more than {self.loop_limit} iterations")
                            for s2, _ in alts: s2.symloops[key] = cnt
                        (s1, t1), (s2, t2) = alts
                        work.append((s2, dict(regs), I.x[0] if t2 else I.x[1], blk, 0))
                        st = s1; nxt = I.x[0] if t1 else I.x[1]; break
                    elif op == 'ret':
                        v = self.ev(st, regs, I.ops[0]) if I.ops else None
                        self.pop_frame(st, regs); outs.append((st, 'ret', v)); ended = True; break
                    elif op == 'alloca':
                        cnt = self.ev(st, regs, I.ops[0])
                        if not isinstance(cnt, int): raise Unsupported("dynamic alloca")
                        o = self.new_obj(st, I.x.size * cnt, 'alloca', f"{fn.name[:20]}:{I.line}"); regs[I.id] = Ptr(o.id, 0)
                        regs.setdefault('allocas', []); regs['allocas'] = regs['allocas'] + [o.id]
                    elif op == 'icmp':
                        regs[I.id] = self.icmp(st, I.x, I.ops[0].t, self.ev(st, regs, I.ops[0]), self.ev(st, regs, I.ops[1]))
                    elif op in ('add', 'sub', 'mul', 'udiv', 'sdiv', 'urem', 'srem', 'and', 'or', 'xor', 'shl', 'lshr', 'ashr'):
                        regs[I.id] = self.binop(st, op, I.t.w, self.ev(st, regs, I.ops[0]), self.ev(st, regs, I.ops[1]), I.nsw, I.nuw)
                        if st.dead: ended = True; break
                    elif op == 'zext': regs[I.id] = self.zext(self.ev(st, regs, I.ops[0]), I.ops[0].t.w, I.t.w)
                    elif op == 'sext': regs[I.id] = self.sext(self.ev(st, regs, I.ops[0]), I.ops[0].t.w, I.t.w)
                    elif op == 'trunc': regs[I.id] = self.trunc(st, self.ev(st, regs, I.ops[0]), I.ops[0].t.w, I.t.w)
                    elif op == 'ptrtoint':
                        v = self.ev(st, regs, I.ops[0]); regs[I.id] = PtrInt(v) if isinstance(v, (Ptr, FnPtr)) and v != NULL else (0 if v == NULL else v)
                    elif op == 'inttoptr':
                        v = self.ev(st, regs, I.ops[0])
                        regs[I.id] = v.p if isinstance(v, PtrInt) else (NULL if isinstance(v, int) and v == 0 else (Ptr(0, v) if isinstance(v, int) else v))
                    elif op in ('bitcast', 'freeze', 'addrspacecast'):
                        v = self.ev(st, regs, I.ops[0])
                        regs[I.id] = v if I.ops[0].t.k == I.t.k else self.conv(st, v, I.t)
                    elif op == 'select':
                        c = self.ev(st, regs, I.ops[0]); a = self.ev(st, regs, I.ops[1]); b = self.ev(st, regs, I.ops[2])
                        if isinstance(c, int): regs[I.id] = a if c else b
                        else:
                            c = self.boolterm(c); v = None
                            if I.t.k == 'int': 
                                if not (isinstance(a, (PtrInt, Opq)) or isinstance(b, (PtrInt, Opq))): v = self._ite_int(c, self.cat_int(a) if isinstance(a, Cat) else a, self.cat_int(b) if isinstance(b, Cat) else b, I.t.w)
                            elif I.t.k in ('double', 'float'): v = z3.If(c, self.fterm(a, I.t.k), self.fterm(b, I.t.k))
                            else: v = self.merge_val(c, a, b)
                            if v is None:
                                alts = self.fork_bool(st, c)
                                for s2, t2 in alts[1:]:
                                    r2 = dict(regs); r2[I.id] = a if t2 else b; work.append((s2, r2, blk, prev, idx))
                                st = alts[0][0]; v = a if alts[0][1] else b
                            regs[I.id] = v
                    elif op == 'switch':
                        v = self.ev(st, regs, I.ops[0])
                        if isinstance(v, Cat): v = self.cat_int(v)
                        dflt, cases = I.x
                        if isinstance(v, int):
                            nxt = dflt
                            for cval, tgt in cases:
                                if cval == v: nxt = tgt; break
                            break
                        w = I.ops[0].t.w; t = self.term(v, w); others = []
                        targets = []
                        for cval, tgt in cases:
                            c = t == self.term(cval, w); others.append(z3.Not(c))
                            targets.append((c, tgt))
                        targets.append((z3.And(*others) if others else z3.BoolVal(True), dflt))
                        feas = [(c, tg) for c, tg in targets if self.feasible(st, c)]
                        for c, tg in feas[1:]:
                            s2 = st.fork(); s2.pc.append(c); work.append((s2, dict(regs), tg, blk, 0))
                        if not feas: ended = True; break
                        st.pc.append(feas[0][0]); nxt = feas[0][1]; break
                    elif op == 'fdiv' and self.fp == 'real':
                        alts = self.real_div(st, self.ev(st, regs, I.ops[0]), self.ev(st, regs, I.ops[1]), I.t.k)
                        for s2, v2 in alts[1:]:
                            r2 = dict(regs); r2[I.id] = v2; work.append((s2, r2, blk, prev, idx))
                        st, regs[I.id] = alts[0]
                    elif op in ('fadd', 'fsub', 'fmul', 'fdiv', 'frem'):
                        regs[I.id] = self.fbin(st, op, I.t, self.ev(st, regs, I.ops[0]), self.ev(st, regs, I.ops[1]))
                    elif op == 'fneg':
                        v = self.ev(st, regs, I.ops[0]); regs[I.id] = -v if isinstance(v, float) or self.fp == 'real' else z3.fpNeg(v)
                    elif op == 'fcmp':
                        regs[I.id] = self.fcmp(st, I.x, I.ops[0].t, self.ev(st, regs, I.ops[0]), self.ev(st, regs, I.ops[1]))
                    elif op in ('sitofp', 'uitofp'): regs[I.id] = self.itofp(self.ev(st, regs, I.ops[0]), I.ops[0].t.w, I.t.k, op == 'sitofp')
                    elif op in ('fptosi', 'fptoui'): regs[I.id] = self.fptoi(st, self.ev(st, regs, I.ops[0]), I.ops[0].t.k, I.t.w, op == 'fptosi')
                    elif op in ('fpext', 'fptrunc'):
                        v = self.ev(st, regs, I.ops[0])
                        if isinstance(v, float): 
                            if op == 'fptrunc': v = struct.unpack('<f', struct.pack('<f', v))[0]
                            regs[I.id] = v
                        elif self.fp == 'real': regs[I.id] = v
                        else: regs[I.id] = z3.fpFPToFP(self.rm, v, z3.Float64() if I.t.k == 'double' else z3.Float32())
                    elif op == 'extractvalue':
                        v = self.ev(st, regs, I.ops[0])
                        for k in I.x: v = v[k] if not (v is UNDEF) else UNDEF
                        regs[I.id] = v
                    elif op == 'insertvalue':
                        v = self.ev(st, regs, I.ops[0])
                        regs[I.id] = self.insval(v, I.ops[0].t, self.ev(st, regs, I.ops[1]), I.x)
                    elif op == 'landingpad':
                        r = self.landing(st, regs.get('exc'), I)
                        if r is None:
                            self.pop_frame(st, regs); outs.append((st, 'throw', regs['exc'])); ended = True; break
                        regs[I.id] = r
                    elif op == 'resume':
                        self.pop_frame(st, regs); outs.append((st, 'throw', regs.get('exc'))); ended = True; break
                    elif op == 'unreachable':
                        if self.check(st) != z3.unsat: self.fail(st, "no undefined behaviour (unreachable reached)", "safety")
                        ended = True; break
                    elif op == 'atomicrmw':
                        p = self.ev(st, regs, I.ops[0]); v = self.ev(st, regs, I.ops[1]); t = I.ops[1].t
                        old = self.load(st, p, t)
                        if 'atomic' in self.hooks:
                            r = self.hooks['atomic'](self, st, 'rmw', p, (old, v), I)
                            if r is not None: old = r
                        ops = {0: 'xchg', 1: 'add', 2: 'sub', 3: 'and', 5: 'or', 6: 'xor'}
                        k = ops.get(I.x)
                        if k is None: raise Unsupported("atomicrmw")
                        nv = v if k == 'xchg' else self.binop(st, k, t.w, old, v)
                        self.store(st, p, nv, t); regs[I.id] = old
                    elif op == 'cmpxchg':
                        p = self.ev(st, regs, I.ops[0]); e = self.ev(st, regs, I.ops[1]); nv = self.ev(st, regs, I.ops[2]); t = I.ops[1].t
                        old = self.load(st, p, t); c = self.icmp(st, 'eq', t, old, e)
                        alts = self.fork_bool(st, c if isinstance(c, int) else self.boolterm(c))
                        for s2, tv in alts[1:]:
                            r2 = dict(regs); r2[I.id] = (old, int(tv))
                            if tv: self.store(s2, p, nv, t)
                            work.append((s2, r2, blk, prev, idx))
                        st, tv = alts[0]
                        if tv: self.store(st, p, nv, t)
                        regs[I.id] = (old, int(tv))
                    elif op == 'fence': pass
                    else: raise Unsupported("instruction " + op)
                if ended or nxt is None: break
                prev = blk; blk = nxt; idx = 0
        return outs
    def covered(self, st, regs, blk, code, prev, fname):
        """Coinduction at loop heads: the state equals one met earlier at this head on this path (same memory, locks and ghost
        state, weaker path condition there), so everything reachable from here has been explored from there. A loop whose exit is
        decided symbolically is generalised once two visits in a row changed the same cells by the same amounts (cell += d): the cells become
        c + t*d for an arbitrary t >= 1, and the next visit must be the same with t + 1 (an inductive invariant, checked by the solver)."""
        if code[0].op == 'phi': return False
        f = regs.get('#f')
        if f is None: self.nframes += 1; f = regs['#f'] = self.nframes
        key = ('cover', f, blk); snaps = st.symloops.get(key, ())
        if not snaps: st.symloops[('entry', f, blk)] = self.nfresh
        nsym = st.symloops.get((fname, blk), 0)
        self.drop_dead(st, regs, fname, blk)
        for oid, off in self.drift if snaps else ():
            c = st.mem[oid].cells.get(off) if oid in st.mem else None; l = snaps[0][0][oid].cells.get(off) if oid in snaps[0][0] else None
            if c is None or l is None or not is_sym(c[1]) or any(oid in m[0] and m[0][oid].cells.get(off) is c for m in snaps[1:]): continue
            v = z3.Int(self.fresh_name("later")); lo = self.iterm(l[1], 8)
            if lo is None or not self.valid(st, c[1] >= lo): continue
            r = self.getiv(c[1], 64); self.setiv(v, *r); st.pc += [v >= r[0], v <= r[1], v >= lo]; st.w(oid).cells[off] = (8, v); st.tok = object()
        self.settle(st)
        for k, (mem, exc, ghost, ns, gen, npc, nf) in enumerate(snaps):
            if exc != st.exc or ghost != st.ghost: continue
            diff = []; ok = True
            for oid, o in mem.items():
                n = st.mem.get(oid)
                if n is o: continue
                if n is None: ok = False; break
                if n.size is not o.size and n.size != o.size: ok = False; break
                if not cell_diff(o.cells, n.cells, oid, diff, o.kind == 'alloca' and not o.lazy):
                    ok = False
                    if os.environ.get('GV_DEBUG') == '2': print('layout', self.demname(fname)[:40], self.curloc[1], 'snap', k, n.name, [(x, str(o.cells.get(x))[:40], str(n.cells.get(x))[:40]) for x in set(o.cells) | set(n.cells) if (o.cells.get(x) or (0,))[0] != (n.cells.get(x) or (0,))[0]][:6])
                    break
            if ok and any(o.kind in ('global', 'lazy') and not o.ro and oid not in mem for oid, o in st.mem.items()): ok = False
            if not ok: continue
            if not diff:
                self.ncovered += 1; return True
            if gen is None and k and self.alpha(st, mem, diff, npc, st.symloops[('entry', f, blk)]):
                self.ncovered += 1; return True
            if os.environ.get('GV_DEBUG') == '2' and k == len(snaps) - 1: print('head', self.demname(fname)[:40], self.curloc[1], 'snap', k, 'gen' if gen else '', [(st.mem[o].name[-20:], off, sz, str(a)[:60].replace(chr(10), ''), str(b)[:60].replace(chr(10), '')) for o, off, sz, a, b in diff])
            if gen is not None:
                t, cells, bounds, hav = gen
                sub = [(t, t + 1)] if t is not None else []; fine = True
                for oid, off, sz, a, b in diff:
                    if (oid, off) in hav:
                        y = self.iterm(b, sz)
                        if y is None: fine = False; break
                        sub.append((hav[(oid, off)], y))
                    elif not self.is_next(st, t, cells.get((oid, off)), sz, b): fine = False; break
                if fine and all(self.valid(st, z3.substitute(c, *sub)) for c in bounds):
                    self.ncovered += 1; self.bounded_notes.discard(None); return True
                if any((x[0], x[1]) not in hav and (x[0], x[1]) not in cells for x in diff): continue  # another state of this loop, explored on its own
                raise LoopBound(key, f"loop in {self.demname(fname)}: no inductive invariant found (cells {[(st.mem[o].name, off) for o, off, *_ in diff][:4]})")
            if k == len(snaps) - 1 and nsym > ns and self.arith == 'int' and self.generalise(st, None, mem, diff, key, exc, ghost, nsym, npc, nf): return False
            if k == len(snaps) - 1 and nsym > ns and self.arith == 'int' and len(snaps) > 1 and snaps[k - 1][3] < ns and self.generalise(st, snaps[k - 1], mem, diff, key, exc, ghost, nsym, npc, nf): return False
        st.tok = object()
        st.symloops[key] = snaps[-7:] + ((dict(st.mem), st.exc, dict(st.ghost), nsym, None, len(st.pc), self.nfresh),)
        return False
    def fkind(self, f):
        "where a function comes from: contract unit (e: the contract itself or a thread body it runs), stubs, or the code under contract"
        k = self._fkind.get(f)
        if k is None:
            file = ''
            fn = self.m.fns.get(f)
            if fn is not None and not fn.decl: file = next((I.file for b in self.m.blocks(fn).values() for I in b if I.file), '') or ''
            r = '/' + os.path.realpath(file) if file.startswith('/') else '/' + file
            k = 'r' if f.startswith(('_ZN3Val', '_ZNK3Val', '_ZN4Item', '_ZNK4Item')) else 'e' if f.startswith('gvc_') or 'gv_on_thread' in f or 'gv_body' in f else 's' if f.startswith('gv_') or 'EvItems' in f or 'FifoItems' in f or 'MapItems' in f or '/contracts/stubs/' in r or '/gv/include/' in r else 'g' if '/contracts/' in r else 'r' if file else '?'
            self._fkind[f] = k
        return k
    def gcells(self, st, n): return st.mem[st.globals[n].obj].cells if n in st.globals else {}
    def opof(self, st):
        op = self.gcells(st, '_ZN2gv2opE').get(0, (4, 0))[1]
        if not isinstance(op, int): raise Unsupported("operation")
        return op
    def lockname(self, st, l):
        if not isinstance(l, Ptr) or not isinstance(l.off, int): raise Unsupported("which mutex is held")
        w = self.watch.get(l.obj)
        return ('this', l.off - w[0]) if w else (st.mem[l.obj].name or str(l.obj), l.off)
    def note(self, st, obj, off, size, write, stub=False):
        "an access to watched memory by the code under contract: which bytes, under which mutexes, in which operation"
        w = self.watch.get(obj)
        if w is None or self.atomic or not isinstance(off, int): return
        fs = list(self.fnstack)
        if stub:
            while fs and self.fkind(fs[-1]) in 's?': fs.pop()
        ks = [self.fkind(f) for f in fs]; i = max((j for j, k in enumerate(ks) if k in 'gse'), default=-1)
        if i == len(ks) - 1 or (i >= 0 and ks[i] != 'e' and not (ks[i] == 'g' and all(k in 'eg' for k in ks[:i]))): return # by the contract itself, a stub or a callback
        op = self.opof(st)
        if not op: return
        h = self.gcells(st, '_ZN2gv4heldE'); n = h.get(0, (4, 0))[1]; solo = self.gcells(st, '_ZN2gv4soloE').get(0, (1, 0))[1]
        if not isinstance(n, int): raise Unsupported("number of mutexes held")
        locks = [self.lockname(st, h[8 + 8 * k][1]) for k in range(n)]
        key = (op, off - w[0], size, 'w' if write else 'r', tuple(sorted(locks)), bool(is_sym(solo) or solo) and not is_sym(solo))
        if key not in self.acc: self.acc[key] = (self.curloc, next((d for d in map(self.demname, reversed(fs)) if d.startswith('tc::sdk')), self.demname(fs[-1]))[:100])
    def syms(self, t):
        r = self.symc.get(t.get_id())
        if r is None:
            todo = [t]; seen = set(); out = set()
            while todo:
                x = todo.pop(); i = x.get_id()
                if i in seen: continue
                seen.add(i)
                if i in self.symc: out |= self.symc[i][0]; continue
                if z3.is_app(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED: out.add(x.decl().name())
                todo += x.children()
            r = self.symc[t.get_id()] = (out, t)
        return r[0]
    def drop_facts(self, st):
        if len(st.pc) < 3 or self.check(st) != z3.sat: return
        roots = set(); seen = set()
        def add(v):
            if v is None or isinstance(v, (int, str, bytes, float)): return
            if is_sym(v):
                roots.update(self.syms(v)); b = self.bool_terms.get(v.get_id())
                if b is not None: roots.update(self.syms(b[0]))
            elif isinstance(v, (tuple, list, set, frozenset)):
                for y in v: add(y)
            elif isinstance(v, dict):
                for y in v.values(): add(y)
            elif id(v) not in seen:
                seen.add(id(v))
                for k in getattr(v, '__slots__', None) or vars(v): add(getattr(v, k, None))
        for o in st.mem.values(): add(o.size); add(o.cells); add(o.arr); add(o.ghost)
        add(st.ghost); add(st.exc)
        comp = [(i, self.syms(c)) for i, c in enumerate(st.pc)]; ch = True
        while ch:
            ch = False; rest = []
            for i, u in comp:
                if not u.isdisjoint(roots): roots |= u; ch = True
                elif u: rest.append((i, u))
            comp = rest
        if os.environ.get('GV_DEBUG') == '3': print('dropped', self.curloc, len(comp), 'of', len(st.pc), sum(len(str(st.pc[i])) for i, u in comp), sum(len(str(c)) for c in st.pc))
        for i, u in comp: st.pc[i] = TRUE
    def drop_dead(self, st, regs, fname, blk):
        for r in self._deadslots.get(fname, {}).get(blk, ()):
            p = regs.get(r)
            if isinstance(p, Ptr) and p.obj in st.mem and st.mem[p.obj].cells: st.w(p.obj).cells.clear()
    def settle(self, st):
        "cells whose value the path condition determines (ghost flags of merged paths) get that value"
        model = None
        for oid, o in list(st.mem.items()):
            for off, (sz, v) in list(o.cells.items()):
                if not (is_sym(v) and (z3.is_bool(v) or z3.is_int(v)) and v.num_args() and (z3.is_bool(v) or z3.is_app_of(v, z3.Z3_OP_ITE))): continue
                if model is None:
                    if self.check(st) != z3.sat: return
                    model = self.solver.model()
                x = model.eval(v, model_completion=True)
                if not (z3.is_int_value(x) or z3.is_true(x) or z3.is_false(x)) or not self.valid(st, v == x): continue
                n = int(z3.is_true(x)) if z3.is_bool(v) else x.as_long() & ((1 << sz * 8) - 1)
                st.w(oid).cells[off] = (sz, n)
    def alpha(self, st, mem, diff, npc, nf):
        """The state is an instance of one met earlier at this loop head: it is that state with other values for symbols introduced since the loop was
        entered (no register of this or a calling frame can hold those), and these values satisfy all that was assumed of the symbols there."""
        def mine(u): n = str(u).rsplit('!', 1)[-1]; return n.isdigit() and int(n) > nf
        eqs = []
        for oid, off, sz, a, b in diff:
            if not is_sym(a): return False
            if not is_sym(b):
                if not isinstance(b, int) or isinstance(b, bool): return False
                b = z3.BoolVal(bool(b & 1)) if z3.is_bool(a) else z3.IntVal(self.sgn(b, sz * 8)) if z3.is_int(a) else None
                if b is None: return False
            if a.sort() != b.sort(): return False
            eqs.append((a, b))
        sub = {}; todo = eqs; progress = True
        def unmapped(x): return [u for u in z3util_vars(x) if mine(u) and u.get_id() not in sub]
        def put(u, y):
            sub[u.get_id()] = (u, y); return True
        while todo and progress:
            progress = False; rest = []
            for a, b in todo:
                us = unmapped(a)
                if not us: continue
                if z3.is_const(a): put(a, b); progress = True; continue
                if z3.is_int(a) and len(us) == 1 and (q := self.solve_for(z3.substitute(a, *sub.values()) if sub else a, us[0], b)) is not None: put(us[0], q); progress = True; continue
                if not z3.is_int(a) or z3.is_app_of(a, z3.Z3_OP_ITE):
                    if a.decl().eq(b.decl()) and a.num_args() == b.num_args(): rest += list(zip(a.children(), b.children())); progress = True
                    elif not z3.is_int(a): return False
                    continue
                rest.append((a, b))
            todo = rest
        pairs = list(sub.values())
        if not pairs: return False
        for a, b in eqs:
            if unmapped(a): return False
            if not self.valid(st, z3.substitute(a, *pairs) == b): return False
        def match(p, q, new):
            if p.num_args() == 0 and z3.is_app(p) and p.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                y = sub.get(p.get_id()) or new.get(p.get_id())
                if y is not None: return y[1].eq(q)
                if p.eq(q): return True
                if not mine(p) or p.sort() != q.sort(): return False
                new[p.get_id()] = (p, q); return True
            return z3.is_app(p) and z3.is_app(q) and p.decl().eq(q.decl()) and p.num_args() == q.num_args() and all(match(x, y, new) for x, y in zip(p.children(), q.children()))
        mapped = {i for i, (u, y) in sub.items() if not u.eq(y)}; more = True
        while more and mapped:  # symbols no cell holds any more (the scan of the cells below makes sure of that) take the values that played their part this time
            more = False
            for c in st.pc[:npc]:
                vs = self.varset(c)
                if mapped.isdisjoint(vs) or not any(u.get_id() not in sub for u in z3util_vars(c) if mine(u)): continue
                if self.valid(st, z3.substitute(c, *sub.values())): continue
                for d in reversed(st.pc):
                    new = {}
                    if match(c, d, new) and new: sub.update(new); mapped |= set(new); more = True; break
        pairs = list(sub.values())
        moved = {i for i, (u, y) in sub.items() if not u.eq(y)}; changed = {(oid, off) for oid, off, *_ in diff}
        def holds(v):
            if is_sym(v): return not moved.isdisjoint(self.varset(v))
            if isinstance(v, Ptr): return holds(v.off)
            if isinstance(v, PtrInt): return holds(v.p) or holds(v.add)
            if isinstance(v, Cat): return any(holds(p[2]) for p in v.parts)
            if isinstance(v, (int, float, FnPtr)) or v is UNDEF or v is None: return False
            return True
        for oid, o in mem.items():
            if holds(o.size): return False
            for off, c in o.cells.items():
                if (oid, off) not in changed and not isinstance(c[1], int) and holds(c[1]): return False
        for u, y in pairs:
            if z3.is_int(u):
                r = self.iv.get(u.get_id())
                if r:
                    l = self.iv.get(y.get_id()); l = (y.as_long(),) * 2 if z3.is_int_value(y) else l
                    if not (l and l[0] >= r[0] and l[1] <= r[1]) and not self.valid(st, z3.And(y >= r[0], y <= r[1])): return False
        for c in st.pc[:npc]:
            if not moved.isdisjoint(self.varset(c)) and not self.valid(st, z3.substitute(c, *pairs)):
                if os.environ.get('GV_DEBUG') == '2': print('no instance:', c, pairs)
                return False
        return True
    def varset(self, e):
        r = self.varsets.get(e.get_id())
        if r is None: r = self.varsets[e.get_id()] = (frozenset(v.get_id() for v in z3util_vars(e)), e)
        return r[0]
    def solve_for(self, a, u, b):
        "q with a[u := q] == b, for a linear in u with a single monomial as its factor"
        pa, pb = poly(a), poly(b)
        if pa is None or pb is None: return None
        i = u.get_id(); at = [m for m in pa if i in m]
        if len(at) != 1 or at[0].count(i) != 1: return None
        f = list(at[0]); f.remove(i); k = pa.pop(at[0]); q = z3.IntVal(0); names = {x.get_id(): x for x in z3util_vars(a) + z3util_vars(b)}; d = dict(pb)
        for m, c in pa.items(): d[m] = d.get(m, 0) - c
        for m, c in d.items():
            if not c: continue
            g = list(m)
            for x in f:
                if x not in g: return None
                g.remove(x)
            if c % k: return None
            t = z3.IntVal(c // k)
            for x in g: t = t * names[x]
            q = q + t
        return z3.simplify(q, som=True)
    def iterm(self, v, sz):
        if isinstance(v, int) and not isinstance(v, bool): return z3.IntVal(self.sgn(v, sz * 8))
        return v if is_sym(v) and z3.is_int(v) else None
    def generalise(self, st, before, mem, diff, key, exc, ghost, nsym, npc, nf):
        prev = {}
        if before is not None:
            bmem, bexc, bghost, bns, bgen, bpc, bnf = before
            if bgen is not None or bexc != exc or bghost != ghost: return False
        for oid, o in bmem.items() if before else ():
            n = mem.get(oid); d0 = []
            if n is o: continue
            if n is None or not cell_diff(o.cells, n.cells, oid, d0): return False
            for x in d0: prev[x[:3]] = x[3:]
        if before and set(prev) != {x[:3] for x in diff}: return False
        t = z3.Int(self.fresh_name("iterations")); cells = {}; new = []; hav = {}; bounds = []
        for oid, off, sz, a, b in diff:
            x, y = self.iterm(a, sz), self.iterm(b, sz)
            if x is None or y is None: return False
            isnew = is_sym(y) and any(int(nm.rsplit('!', 1)[1]) > nf for nm in map(str, z3util_vars(y)) if nm.rsplit('!', 1)[-1].isdigit())
            if before is None:
                if not isnew or z3.is_int_value(x) or {str(v) for v in z3util_vars(x)} & {str(v) for v in z3util_vars(y)}: return False
                px, py = x, y + 1
            d = z3.simplify(y - x, som=True)
            if before: px, py = prev[(oid, off, sz)]; px, py = self.iterm(px, sz), self.iterm(py, sz)
            if px is None or py is None: return False
            e = z3.simplify(py - px - d, som=True)
            if before is None or sz == 1 or not (z3.is_int_value(e) and e.as_long() == 0) and not self.valid(st, e == 0):
                # a value that is new in every iteration (a reading, an arbitrary element): it becomes an arbitrary value within the bounds that hold now
                if not isnew: return False
                v = z3.Int(self.fresh_name("value")); lo, hi = self.getiv(y, sz * 8); self.setiv(v, lo, hi); hav[(oid, off)] = v; new.append((oid, off, sz, v))
                bounds += [v >= lo, v <= hi] + [c(v) for c in (lambda u: u >= x, lambda u: u <= x) if self.valid(st, c(y))]
                continue
            g = z3.simplify(x + t * d)
            cells[(oid, off)] = (x, d, g); new.append((oid, off, sz, g))
        # bounds the loop test gave for the cells: g <= B (counting up) or g >= B, part of the invariant when they hold now
        todo = list(reversed(st.pc[npc:])); done = set()
        while todo and len(done) < 60:
            c = todo.pop()
            if c.get_id() in done: continue
            done.add(c.get_id())
            if z3.is_not(c) or z3.is_and(c) or z3.is_or(c): todo += c.children(); continue
            if c.num_args() != 2 or not z3.is_int(c.arg(0)): continue
            e = c.arg(0) - c.arg(1)
            for (oid, off), (x, d, g) in cells.items():
                vs = {str(v) for v in z3util_vars(x)}; unit = z3.is_int_value(d) and abs(d.as_long()) == 1
                if not unit and not self.valid(st, d >= 1): continue
                for B in [z3.simplify(w, som=True) for w in ((x - e, x + e) if unit else (x - e, x + e, x + d - e, x + d + e))]:
                    if vs & {str(v) for v in z3util_vars(B)} or z3.is_int_value(B): continue
                    if unit: ks = [(lambda v: v <= B) if d.as_long() == 1 else (lambda v: v >= B)]
                    else: ks = [lambda v: v < B, lambda v: v <= B, lambda v: v - d < B, lambda v: v - d <= B]
                    for kk in ks:
                        if len(bounds) < 12 and self.valid(st, kk(x + d)): bounds.append(z3.simplify(kk(g), som=True)); break
        if os.environ.get('GV_DEBUG'): print('generalise', key, [(st.mem[o].name, off, str(x), str(d)) for (o, off), (x, d, g) in cells.items()], [(st.mem[o].name, off, str(v)) for (o, off), v in hav.items()], [str(b) for b in bounds], [str(c) for c in st.pc[npc:]][:12])
        st.pc.append(t >= 1); st.pc += bounds
        for oid, off, sz, g in new:
            w = sz * 8; self.setiv(g, -(1 << (w - 1)), (1 << (w - 1)) - 1)
            # the machine value stays in range: checked in each generic iteration by its own arithmetic, assumed here for the value reached
            st.pc.append(z3.And(g >= -(1 << (w - 1)), g <= (1 << (w - 1)) - 1))
            st.w(oid).cells[off] = (sz, g)
        st.tok = object()
        st.symloops[key] = st.symloops.get(key, ()) + ((dict(st.mem), exc, dict(ghost), nsym, (t, cells, bounds, hav), len(st.pc), self.nfresh),)
        return True
    def is_next(self, st, t, cell, sz, b):
        if cell is None: return False
        x, d, g = cell; y = self.iterm(b, sz)
        if y is None: return False
        want = x + (t + 1) * d
        e = z3.simplify(y - want, som=True)
        if z3.is_int_value(e) and e.as_long() == 0: return True
        return self.valid(st, y == want)
    def pop_frame(self, st, regs):
        for oid in regs.get('allocas', ()): st.mem.pop(oid, None)
    def copy_byval(self, st, args, byval):
        for j, size in byval:
            p = args[j]
            o = self.new_obj(st, size, 'byval', 'byval')
            self.memcpy(st, Ptr(o.id, 0), p, size); args[j] = Ptr(o.id, 0)
    def insval(self, v, t, x, idx):
        if v is UNDEF: v = tuple([UNDEF] * (len(t.elems) if t.k == 'struct' else t.n))
        l = list(v)
        if len(idx) == 1: l[idx[0]] = x
        else: l[idx[0]] = self.insval(l[idx[0]], t.elems[idx[0]] if t.k == 'struct' else t.elems, x, idx[1:])
        return tuple(l)
    def ev(self, st, regs, v):
        if v.k == 'r':
            try: return regs[v.x]
            except KeyError: raise Unsupported("undefined register (path merge)")
        if v.k == 'c': return v.x
        return self.const(st, v)
    # ------------------------------------------------------------ exceptions
    def ti_bases(self, name):
        if name in STD_BASES: return STD_BASES[name]
        g = self.m.globals.get(name)
        if g is None or g.decl: return []
        v = self.m.val(llvmc.GetInit(g.ref))
        return [e.x for e in v.x if e.k == 'g' and e.x.startswith('_ZTI')] if v.k == 'agg' else []
    def ti_match(self, thrown, catch):
        if thrown == catch: return True
        return any(self.ti_match(b, catch) for b in self.ti_bases(thrown))
    def typeid(self, name):
        if not hasattr(self, '_tids'): self._tids = {}
        return self._tids.setdefault(name, len(self._tids) + 1)
    def landing(self, st, exc, I):
        "exc = (objptr, typeinfo name or None=unknown). Returns (ptr, selector) or None if the pad does not stop it"
        clauses, cleanup = I.x
        obj, ti = exc
        for kind, c in clauses:
            if kind == 'catch':
                if c.k == 'null': return (obj, self.typeid(None))
                if ti is None: raise Unsupported("typed catch of an unknown exception")
                if self.ti_match(ti, c.x): return (obj, self.typeid(c.x))
            else:
                return (obj, (1 << 32) - 1)
        if cleanup: return (obj, 0)
        return None
    # ------------------------------------------------------------ llvm intrinsics
    def intrinsic(self, st, name, args, I):
        R = lambda v=None: Outs([(st, 'ret', v)])
        n = name.split('.')
        b = n[1]
        if b == 'lifetime':
            p = args[-1]
            if self.covering and isinstance(p, Ptr) and p.obj in st.mem and p.off == 0:
                o = st.w(p.obj)
                if o.kind == 'alloca': o.cells.clear()
            return R()
        if b in ('dbg', 'assume', 'experimental', 'invariant', 'stackrestore', 'prefetch', 'donothing', 'var'): return R()
        if b == 'stacksave': return R(NULL)
        if b in ('memcpy', 'memmove'): self.memcpy(st, args[0], args[1], args[2]); return R()
        if b == 'memset': self.memset(st, args[0], args[1], args[2]); return R()
        if b == 'expect': return R(args[0])
        if b == 'is' and n[2] == 'constant': return R(0)
        if b == 'eh' and n[2] == 'typeid': 
            p = args[0]
            nm = None if p == NULL else st.mem[p.obj].name
            return R(self.typeid(nm))
        if b == 'threadlocal': return R(args[0])
        if b == 'trap' or b == 'ubsantrap' or b == 'debugtrap':
            self.fail(st, "no trap", "safety"); return R()
        w = I.t.w if I.t.k == 'int' else None
        if len(n) > 2 and n[2] == 'with':
            op = b[1:]; sgnd = b[0] == 's'; t = I.t.elems[0]; w = t.w
            a, c = args
            if isinstance(a, int) and isinstance(c, int):
                x, y = (self.sgn(a, w), self.sgn(c, w)) if sgnd else (a, c)
                e = x + y if op == 'add' else x - y if op == 'sub' else x * y
                ov = not (-(1 << (w - 1)) <= e < (1 << (w - 1))) if sgnd else not 0 <= e < (1 << w)
                return R((e & ((1 << w) - 1), int(ov)))
            if self.arith == 'bv':
                x, y = self.term(a, w), self.term(c, w)
                if op == 'add': ok = z3.BVAddNoOverflow(x, y, sgnd); ok = z3.And(ok, z3.BVAddNoUnderflow(x, y)) if sgnd else ok; r = x + y
                elif op == 'sub': ok = z3.BVSubNoUnderflow(x, y, sgnd); ok = z3.And(ok, z3.BVSubNoOverflow(x, y)) if sgnd else ok; r = x - y
                else: ok = z3.BVMulNoOverflow(x, y, sgnd); ok = z3.And(ok, z3.BVMulNoUnderflow(x, y)) if sgnd else ok; r = x * y
                return R((self.simp(r, w), self.simp(z3.Not(ok), 1)))
            x, y = (self.term(a, w), self.term(c, w)) if sgnd else (self.uns(a, w), self.uns(c, w))
            e = x + y if op == 'add' else x - y if op == 'sub' else x * y
            e = e if is_sym(e) else z3.IntVal(e)
            lo, hi = (-(1 << (w - 1)), (1 << (w - 1)) - 1) if sgnd else (0, (1 << w) - 1)
            ok = z3.And(e >= lo, e <= hi)
            r = z3.If(ok, e if sgnd else self.from_uns(e, w), z3.Int(self.fresh_name("wrapped")))
            return R((r, self.simp(z3.Not(ok), 1)))
        if b in ('smax', 'smin', 'umax', 'umin'):
            c = self.icmp(st, {'smax': 'sgt', 'smin': 'slt', 'umax': 'ugt', 'umin': 'ult'}[b], I.t, args[0], args[1])
            if isinstance(c, int): return R(args[0] if c else args[1])
            return R(self._ite_int(c, args[0], args[1], w))
        if b == 'abs':
            c = self.icmp(st, 'slt', I.t, args[0], 0); neg = self.binop(st, 'sub', w, 0, args[0], True)
            if isinstance(c, int): return R(neg if c else args[0])
            return R(self._ite_int(c, neg, args[0], w))
        if b == 'fabs':
            v = args[0]
            if isinstance(v, float): return R(abs(v))
            return R(z3.If(v >= 0, v, -v) if self.fp == 'real' else z3.fpAbs(v))
        if b in ('ctlz', 'cttz', 'ctpop') and isinstance(args[0], int):
            x = args[0]
            if b == 'ctpop': return R(bin(x).count('1'))
            if x == 0: return R(w)
            return R(w - x.bit_length() if b == 'ctlz' else (x & -x).bit_length() - 1)
        if b == 'fmuladd' or b == 'fma':
            return R(self.fbin(st, 'fadd', I.t, self.fbin(st, 'fmul', I.t, args[0], args[1]), args[2]))
        if b in ('floor', 'ceil', 'trunc', 'sqrt', 'rint', 'nearbyint', 'round'):
            v = args[0]
            if self.fp != 'real' and not isinstance(v, float):
                if b == 'sqrt': return R(z3.fpSqrt(self.rm, v))
                return R(z3.fpRoundToIntegral({'floor': z3.RTN(), 'ceil': z3.RTP(), 'trunc': z3.RTZ(), 'round': z3.RNA()}.get(b, self.rm), v))
            if isinstance(v, float): return R({'floor': math.floor, 'ceil': math.ceil, 'trunc': math.trunc, 'sqrt': math.sqrt, 'round': round, 'rint': round, 'nearbyint': round}[b](v) * 1.0)
        raise Unsupported("intrinsic " + name)

def z3util_vars(e):
    out = {}; seen = set(); todo = [e]
    while todo:
        x = todo.pop()
        if x.get_id() in seen: continue
        seen.add(x.get_id())
        if z3.is_const(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED: out[x.get_id()] = x
        todo += x.children()
    return list(out.values())

def same_val(a, b):
    if a is b: return True
    if is_sym(a) and is_sym(b): return a.eq(b)
    if is_sym(a) or is_sym(b): return False
    if isinstance(a, Cat) and isinstance(b, Cat): return a.size == b.size and len(a.parts) == len(b.parts) and all(x[:2] == y[:2] and same_val(x[2], y[2]) for x, y in zip(a.parts, b.parts))
    if type(a) is not type(b): return False
    try: return bool(a == b)
    except Exception: return False
def poly(e):
    "the sum of products a term is, over its uninterpreted constants: {sorted ids: coefficient}; None if it is something else"
    if z3.is_int_value(e): return {(): e.as_long()} if e.as_long() else {}
    if z3.is_const(e) and e.decl().kind() == z3.Z3_OP_UNINTERPRETED: return {(e.get_id(),): 1}
    k = e.decl().kind()
    if k not in (z3.Z3_OP_ADD, z3.Z3_OP_MUL, z3.Z3_OP_SUB, z3.Z3_OP_UMINUS): return None
    ps = [poly(c) for c in e.children()]
    if any(p is None for p in ps): return None
    if k == z3.Z3_OP_MUL:
        out = {(): 1}
        for p in ps:
            nxt = {}
            for m, c in out.items():
                for n, d in p.items(): x = tuple(sorted(m + n)); nxt[x] = nxt.get(x, 0) + c * d
            out = nxt
    else:
        out = {}
        for j, p in enumerate(ps):
            sg = -1 if k == z3.Z3_OP_UMINUS or (k == z3.Z3_OP_SUB and j) else 1
            for m, c in p.items(): out[m] = out.get(m, 0) + sg * c
    return {m: c for m, c in out.items() if c}
def cell_diff(a, b, oid, diff, local=False):
    "collects cells of equal place and size with different values; False if the layouts differ"
    if local: b = {k: c for k, c in b.items() if k in a or any(k < j + a[j][0] and j < k + c[0] for j in a)} if len(b) > len(a) else b  # never read there before it is written
    if a.keys() != b.keys() or any(c[0] != b[k][0] for k, c in a.items()): a, b = zero_bytes(a), zero_bytes(b)
    if len(a) != len(b): return False
    for k, c in a.items():
        d = b.get(k)
        if d is None or d[0] != c[0]: return False
        if not same_val(c[1], d[1]): diff.append((oid, k, c[0], c[1], d[1]))
    return True
def zero_bytes(a):
    out = {}
    for k, c in a.items():
        if c[0] > 1 and (c[1] == NULL if isinstance(c[1], Ptr) else type(c[1]) is int and c[1] == 0): out.update((k + j, (1, 0)) for j in range(c[0]))
        else: out[k] = c
    return out
def same_cells(a, b):
    if len(a) != len(b): return False
    for k, c in a.items():
        d = b.get(k)
        if d is None or d[0] != c[0] or not same_val(c[1], d[1]): return False
    return True
class PtrIte:
    __slots__ = ("alts",)
    def __init__(s, alts): s.alts = alts

class _NoRelax(Exception): pass
def relax_reals(asserts):
    "weaker problem over the reals: integer variables become real, floor becomes a fresh value with its bounds. unsat here implies unsat there."
    cache = {}; extra = []; n = [0]
    def fl(t):
        n[0] += 1; d = z3.Real(f"floor!{n[0]}"); extra.append(z3.And(d <= t, t < d + 1, z3.Implies(t >= 0, d >= 0), z3.Implies(t >= 1, d >= 1), z3.Implies(t < 0, d <= -1))); return d
    def go(e):
        r = cache.get(e.get_id())
        if r is not None: return r[0]
        k = e.decl().kind(); ch = e.children()
        if z3.is_int_value(e): r = z3.RealVal(e.as_long())
        elif z3.is_rational_value(e) or z3.is_algebraic_value(e): r = e
        elif z3.is_const(e):
            if z3.is_int(e): r = z3.Real('r!' + e.decl().name())
            elif z3.is_real(e) or z3.is_bool(e): r = e
            else: raise _NoRelax()
        else:
            c = [go(x) for x in ch]
            if k == z3.Z3_OP_TO_REAL: r = c[0]
            elif k == z3.Z3_OP_TO_INT: r = fl(c[0])
            elif k == z3.Z3_OP_IDIV and z3.is_int_value(ch[1]) and ch[1].as_long() > 0: r = fl(c[0] / c[1])
            elif k == z3.Z3_OP_MOD and z3.is_int_value(ch[1]) and ch[1].as_long() > 0: r = c[0] - c[1] * fl(c[0] / c[1])
            elif k == z3.Z3_OP_ADD: r = sum(c[1:], c[0])
            elif k == z3.Z3_OP_SUB: 
                r = c[0]
                for x in c[1:]: r = r - x
            elif k == z3.Z3_OP_UMINUS: r = -c[0]
            elif k == z3.Z3_OP_MUL:
                r = c[0]
                for x in c[1:]: r = r * x
            elif k == z3.Z3_OP_DIV: r = c[0] / c[1]
            elif k == z3.Z3_OP_POWER: r = c[0] ** c[1]
            elif k == z3.Z3_OP_LE: r = c[0] <= c[1]
            elif k == z3.Z3_OP_LT: r = c[0] < c[1]
            elif k == z3.Z3_OP_GE: r = c[0] >= c[1]
            elif k == z3.Z3_OP_GT: r = c[0] > c[1]
            elif k == z3.Z3_OP_EQ or k == z3.Z3_OP_IFF: r = c[0] == c[1]
            elif k == z3.Z3_OP_DISTINCT and len(c) == 2: r = c[0] != c[1]
            elif k == z3.Z3_OP_AND: r = z3.And(*c)
            elif k == z3.Z3_OP_OR: r = z3.Or(*c)
            elif k == z3.Z3_OP_NOT: r = z3.Not(c[0])
            elif k == z3.Z3_OP_IMPLIES: r = z3.Implies(c[0], c[1])
            elif k == z3.Z3_OP_XOR: r = z3.Xor(c[0], c[1])
            elif k == z3.Z3_OP_ITE: r = z3.If(c[0], c[1], c[2])
            else: raise _NoRelax()
        cache[e.get_id()] = (r, e)
        return r
    out = [go(a) for a in asserts]
    return out + extra
def relax_check(asserts, timeout):
    try: rs = relax_reals(asserts)
    except _NoRelax: return None
    for mk in (lambda: z3.Then('simplify', 'purify-arith', 'nlsat').solver(), lambda: z3.Solver()):
        try:
            s = mk(); s.set('timeout', timeout)
            for r in rs: s.add(z3.simplify(r, som=True))
            if s.check() == z3.unsat: return True
        except z3.Z3Exception: pass
    return None

def cvc5_check(solver, timeout_ms):
    try:
        import cvc5
        s2 = z3.Solver(); s2.add(solver.assertions()); txt = s2.to_smt2()
        for a in ('bvudiv', 'bvurem', 'bvsdiv', 'bvsrem', 'bvsmod'): txt = txt.replace(a + '_i', a)
        for op in ('bvsmul_noovfl', 'bvsmul_noudfl', 'bvumul_noovfl'):
            if op in txt: return 'skipped (' + op + ')'
        tm = cvc5.TermManager() if hasattr(cvc5, 'TermManager') else None
        slv = cvc5.Solver(tm) if tm else cvc5.Solver()
        slv.setOption("tlimit-per", str(timeout_ms))
        ip = cvc5.InputParser(slv)
        ip.setStringInput(cvc5.InputLanguage.SMT_LIB_2_6, "(set-logic ALL)\n" + txt, "q")
        sm = ip.getSymbolManager(); res = None
        while True:
            c = ip.nextCommand()
            if c.isNull(): break
            r = c.invoke(slv, sm)
            if r and str(r).strip() in ('sat', 'unsat', 'unknown'): res = str(r).strip()
            elif r and 'error' in str(r): return 'error ' + str(r)[:100]
        return res or 'none'
    except Exception as e:
        return f"error {type(e).__name__}: {str(e)[:100]}"
