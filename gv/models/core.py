"""Models of gv intrinsics and of the C/C++ runtime (the external boundary every contract shares)."""
import z3, re
from ..engine import *

def cstr(E, st, p):
    o = st.mem[p.obj]; out = []; k = p.off
    while True:
        c = o.cells.get(k)
        if c is None or not isinstance(c[1], int): raise Unsupported("non-constant C string")
        if c[0] != 1:
            raise Unsupported("C string in wide cells")
        if c[1] == 0: break
        out.append(c[1]); k += 1
    return bytes(out).decode('latin1')

def ret(st, v=None): return Outs([(st, 'ret', v)])

def m_any(w, signed):
    def f(E, st, args, I, name):
        nm = cstr(E, st, args[0]); lo, hi = (-(1 << (w - 1)), (1 << (w - 1)) - 1)
        if E.arith == 'int' and not signed and w == 64: raise Unsupported("u64 input in int mode")
        if E.arith == 'int' and not signed:
            # canonical form is signed: unsigned inputs of w bits below 2^(w-1) only are non-negative; represent by wrap
            t = E.fresh_int(st, w, nm)
        else: t = E.fresh_int(st, w, nm)
        E.inputs.append((nm, ('i' if signed else 'u') + str(w), t))
        return t
    return f
def m_any_bool(E, st, args, I, name):
    nm = cstr(E, st, args[0]); t = z3.Bool(E.fresh_name(nm)); E.inputs.append((nm, 'b', t)); return t
def m_any_range(E, st, args, I, name):
    nm = cstr(E, st, args[0]); lo, hi = E.sgn(args[1], 64), E.sgn(args[2], 64)
    if E.arith == 'int': t = E.fresh_int(st, 64, nm, lo, hi)
    else: t = E.fresh_int(st, 64, nm, z3.BitVecVal(lo, 64), z3.BitVecVal(hi, 64))
    E.inputs.append((nm, 'i64', t)); return t
def m_any_fp(w):
    def f(E, st, args, I, name):
        nm = cstr(E, st, args[0]); t = E.fresh_fp(st, nm, w); E.inputs.append((nm, 'f' + str(w), t)); return t
    return f
def m_assume(E, st, args, I, name):
    c = args[0]
    if isinstance(c, int):
        if not c: st.dead = True
        return None
    c = z3.simplify(E.boolterm(c))
    if z3.is_true(c): return None
    if z3.is_false(c) or E.check(st, c) == z3.unsat: st.dead = True; return None
    st.pc.append(c)
def m_assert(E, st, args, I, name):
    lb = cstr(E, st, args[1]); c = args[0]
    if not isinstance(c, int): c = E.boolterm(c)
    E.oblige(st, c, lb, 'ensures')
def m_cover(E, st, args, I, name):
    lb = cstr(E, st, args[0]); E.covers.setdefault(lb, 0)
    if E.check(st) == z3.sat: E.covers[lb] += 1

def m_new(E, st, args, I, name):
    n = args[0]
    o = E.new_obj(st, n if isinstance(n, int) else None, 'heap', 'new')
    if not isinstance(n, int): o.size = n
    return Ptr(o.id, 0)
def m_delete(E, st, args, I, name):
    p = args[0]
    if p == NULL: return None
    if not isinstance(p, Ptr): raise Unsupported("delete of " + repr(p))
    o = st.mem.get(p.obj)
    if o is None: E.fail(st, "no double free", "safety"); return None
    if o.kind not in ('heap', 'lazy') or p.off != 0:
        E.fail(st, "delete of a pointer not obtained from new", "safety"); return None
    h = E.hooks.get('free')
    if h: h(E, st, o)
    st.mem.pop(p.obj, None)
def m_malloc(E, st, args, I, name): return m_new(E, st, args, I, name)
def m_alloc_exc(E, st, args, I, name):
    o = E.new_obj(st, args[0], 'exc', 'exception'); return Ptr(o.id, 0)
def m_throw(E, st, args, I, name):
    ti = st.mem[args[1].obj].name if isinstance(args[1], Ptr) and args[1].obj else None
    return Outs([(st, 'throw', (args[0], ti))])
def m_begin_catch(E, st, args, I, name):
    p = args[0]; st.exc = st.exc + ((p, E.exc_ti.get(p.obj) if isinstance(p, Ptr) else None),); return p
def m_end_catch(E, st, args, I, name):
    st.exc = st.exc[:-1]; return None
def m_rethrow(E, st, args, I, name):
    if not st.exc: E.fail(st, "rethrow without exception", "safety"); return Outs()
    p, ti = st.exc[-1]; return Outs([(st, 'throw', (p, ti))])
def m_terminate(E, st, args, I, name):
    if E.check(st) != z3.unsat: E.fail(st, "the process does not terminate (std::terminate/abort)", "safety")
    st.dead = True
    return Outs()
def m_nop(E, st, args, I, name): return None
def m_ret0(E, st, args, I, name): return 0
def m_guard_acquire(E, st, args, I, name):
    v = E.load(st, args[0], _I8); 
    if v is UNDEF: v = 0
    if isinstance(v, int): return 0 if v & 1 else 1
    raise Unsupported("symbolic guard")
def m_guard_release(E, st, args, I, name):
    E.put(st, args[0].obj, args[0].off, 1, 1)
class _T: pass
_I8 = _T(); _I8.k = 'int'; _I8.w = 8; _I8.size = 1; _I8.elems = None; _I8.n = None; _I8.offs = None
def ity(w):
    t = _T(); t.k = 'int'; t.w = w; t.size = (w + 7) // 8; t.elems = None; t.n = None; t.offs = None; return t
I64 = ity(64); I32 = ity(32); I8 = _I8
PTY = _T(); PTY.k = 'ptr'; PTY.w = None; PTY.size = 8; PTY.elems = None; PTY.n = None; PTY.offs = None

def m_memcmp(E, st, args, I, name):
    a, b, n = args
    if not isinstance(n, int): raise Unsupported("memcmp of symbolic length")
    res = 0
    diff = []
    for k in range(n):
        x = E.load(st, E.padd(a, k), I8); y = E.load(st, E.padd(b, k), I8)
        diff.append((x, y))
    if all(isinstance(x, int) and isinstance(y, int) for x, y in diff):
        for x, y in diff:
            if x != y: return (1 if x > y else -1) & 0xffffffff
        return 0
    r = E.term(0, 32)
    for x, y in reversed(diff):
        tx, ty = E.term(x, 8), E.term(y, 8)
        if E.arith == 'bv': lt, gt = z3.ULT(tx, ty), z3.UGT(tx, ty)
        else:
            ux, uy = E.uns(x, 8), E.uns(y, 8); ux = z3.IntVal(ux) if isinstance(ux, int) else ux; uy = z3.IntVal(uy) if isinstance(uy, int) else uy
            lt, gt = ux < uy, ux > uy
        r = z3.If(lt, E.term(0xffffffff, 32), z3.If(gt, E.term(1, 32), r))
    if E.arith == 'int': E.setiv(r, -1, 1)
    return r
def m_memchr(E, st, args, I, name):
    p, ch, n = args
    if not isinstance(n, int): raise Unsupported("memchr of symbolic length")
    out = Outs(); cur = st; c = E.trunc(st, ch, 32, 8)
    for k in range(n):
        x = E.load(cur, E.padd(p, k), I8)
        e = E.icmp(cur, 'eq', I8, x, c); nxt = None
        for s2, tv in E.fork_bool(cur, e if isinstance(e, int) else E.boolterm(e)):
            if tv: out.append((s2, 'ret', E.padd(p, k)))
            else: nxt = s2
        if nxt is None: return out
        cur = nxt
    out.append((cur, 'ret', NULL)); return out
def m_memcpy(E, st, args, I, name): E.memcpy(st, args[0], args[1], args[2]); return args[0]
def m_memset(E, st, args, I, name): E.memset(st, args[0], E.trunc(st, args[1], 32, 8), args[2]); return args[0]
def m_strlen(E, st, args, I, name):
    k = 0; p = args[0]
    while True:
        x = E.load(st, E.padd(p, k), I8)
        if not isinstance(x, int): raise Unsupported("strlen of a symbolic string")
        if x == 0: return k
        k += 1
def throw_std(ti):
    def f(E, st, args, I, name):
        o = E.new_obj(st, 16, 'exc', 'exception'); E.exc_ti[o.id] = ti
        return Outs([(st, 'throw', (Ptr(o.id, 0), ti))])
    return f
def m_cxa_throw(E, st, args, I, name):
    p = args[0]; ti = st.mem[args[1].obj].name
    E.exc_ti[p.obj] = ti
    return Outs([(st, 'throw', (p, ti))])

def m_sqrt(E, st, args, I, name):
    v = args[0]
    if isinstance(v, float) and v >= 0: return math.sqrt(v)
    if E.fp == 'real':
        x = E.fterm(v, 'double')
        if not E.valid(st, x >= 0): raise Unsupported("square root of a possibly negative real")
        y = z3.Real(E.fresh_name("sqrt")); st.pc.append(z3.And(y >= 0, y * y == x)); return y
    return z3.fpSqrt(E.rm, E.fterm(v, 'double'))
def m_fabs(E, st, args, I, name):
    v = args[0]
    if isinstance(v, float): return abs(v)
    return z3.If(v >= 0, v, -v) if E.fp == 'real' else z3.fpAbs(v)
def put_string(E, st, dst, chars):
    "constructs a std::string (libstdc++ SSO layout) at dst from a list of byte values, at most 15"
    assert len(chars) <= 15
    buf = E.padd(dst, 16)
    E.put(st, dst.obj, dst.off, 8, buf); E.put(st, dst.obj, dst.off + 8, 8, len(chars))
    for k, c in enumerate(chars): E.put(st, dst.obj, dst.off + 16 + k, 1, c)
    E.put(st, dst.obj, dst.off + 16 + len(chars), 1, 0)
def m_to_string(w, signed):
    def f(E, st, args, I, name):
        dst, v = args[0], args[1]
        if isinstance(v, int):
            txt = str(E.sgn(v, w) if signed else v)
            if len(txt) > 15: raise Unsupported("to_string of a long number")
            put_string(E, st, dst, [ord(c) for c in txt]); return ret(st)
        if E.arith != 'int' and w != 32: raise Unsupported("to_string of a symbolic 64-bit value")
        t = E.term(v, w); out = Outs(); cur = st
        x = z3.SignExt(32, t) if E.arith == 'bv' and signed else z3.ZeroExt(32, t) if E.arith == 'bv' else (t if signed else E.uns(t, w))
        lt = (lambda a, b: a < b)
        num = (lambda k: z3.BitVecVal(k, 64)) if E.arith == 'bv' else (lambda k: z3.IntVal(k))
        for neg in ((False, True) if signed else (False,)):
            a = -x if neg else x
            for nd in range(1, 11 if w == 32 else 15):
                lo, hi = (10 ** (nd - 1) if nd > 1 else (1 if neg else 0)), 10 ** nd
                c = z3.And(lt(x, num(0)) if neg else z3.Not(lt(x, num(0))), z3.Not(lt(a, num(lo))), lt(a, num(hi)))
                if E.check(st, c) == z3.unsat: continue
                s2 = st.fork(); s2.pc.append(c); ds = [E.fresh_int(s2, 8, "digit") for _ in range(nd)]; tot = num(0)
                for d in ds:
                    s2.pc.append(z3.And(d >= 48, d <= 57)); tot = tot * 10 + ((z3.ZeroExt(56, d) if E.arith == 'bv' else d) - 48)
                s2.pc.append(tot == a)
                put_string(E, s2, dst, ([45] if neg else []) + ds); out.append((s2, 'ret', None))
        return out
    return f
def m_havoc(E, st, args, I, name):
    "forget the n bytes at p: they are read as arbitrary values from here on"
    p, n = args
    o = st.w(p.obj); o.lazy = True
    for k in [k for k, c in o.cells.items() if k + c[0] > p.off and k < p.off + n]:
        if k < p.off or k + o.cells[k][0] > p.off + n: raise Unsupported("havoc of part of a cell")
        del o.cells[k]
def m_shared(E, st, args, I, name):
    "the scalars in the n bytes at p that are not known exactly may have been changed by other threads: they become arbitrary values"
    p, n = args; o = st.mem[p.obj]
    for k, c in list(o.cells.items()):
        if p.off <= k and k + c[0] <= p.off + n and c[0] == 8 and is_sym(c[1]) and z3.is_int(c[1]): st.w(p.obj).cells[k] = (8, E.fresh_int(st, 64, "shared"))
def m_forget(E, st, args, I, name):
    "what the path condition says about values nothing in memory depends on any more is dropped (this only adds behaviours)"
    E.drop_facts(st)
def m_watch(E, st, args, I, name):
    "accesses to these bytes are recorded with the mutexes held"
    p, n = args; E.watch[p.obj] = (p.off, p.off + n)
    E.hooks['access'] = lambda E, st, o, off, size, write: E.note(st, o.id, off, size, write) if o.id in E.watch else None
def m_access(E, st, args, I, name):
    "a container (a stub) is read or written"
    E.note(st, args[0].obj, args[0].off, args[1], bool(args[2]), True)
def m_edge(E, st, args, I, name):
    "a mutex is taken while another is held"
    if E.opof(st): E.edges.add((E.lockname(st, args[0]), E.lockname(st, args[1])))
def m_prune(E, st, args, I, name):
    st.dead = True; return Outs()
def m_split(E, st, args, I, name):
    "case distinction: the two cases stay separate paths (they are not merged when functions return)"
    c = args[0]
    if isinstance(c, int): return c
    out = Outs()
    for s2, v in E.fork_bool(st, E.boolterm(c)):
        s2.trace = s2.trace + ((E.fresh_name('case'), int(v)),); out.append((s2, 'ret', int(v)))
    return out
def m_merge(E, st, args, I, name):
    "the case distinctions made so far no longer keep paths apart"
    st.trace = ()
def m_tag(E, st, args, I, name):
    "the case distinctions made so far no longer keep paths apart, this number does"
    if not isinstance(args[0], int): raise Unsupported("gv_tag")
    st.trace = (('tag', args[0]),)
def m_drift(E, st, args, I, name):
    "at loop heads the value at p may be any value from the one it had when the loop was entered on (a clock that goes on)"
    E.drift.add((args[0].obj, args[0].off))
def m_multiple(E, st, args, I, name):
    "a is a multiple of b: decided on the polynomials where possible (every monomial of a has the factor b), case by case for merged paths"
    a, b = (E.term(x, 64) for x in args)
    if E.arith != 'int': raise Unsupported("gv_multiple")
    left = [64]
    def ite(t):
        if z3.is_app_of(t, z3.Z3_OP_ITE): return t
        for c in t.children() if z3.is_app(t) and z3.is_int(t) else ():
            r = ite(c)
            if r is not None: return r
    def go(t, b):
        c = ite(t)
        if c is not None and left[0] > 0:
            left[0] -= 1
            x, y = go(z3.substitute(t, (c, c.arg(1))), b), go(z3.substitute(t, (c, c.arg(2))), b)
            return True if x is True and y is True else z3.If(c.arg(0), x, y)
        if z3.is_app_of(b, z3.Z3_OP_ITE) and left[0] > 0:
            left[0] -= 1; x, y = go(t, b.arg(1)), go(t, b.arg(2))
            return True if x is True and y is True else z3.If(b.arg(0), x, y)
        if z3.is_int_value(b) and b.as_long() == 0: return z3.BoolVal(False)
        var = b.num_args() == 0 and b.decl().kind() == z3.Z3_OP_UNINTERPRETED
        p = z3.simplify(t, som=True); mono = p.children() if z3.is_add(p) else [p]
        if var and all((z3.is_int_value(m) and m.as_long() == 0) or m.eq(b) or (z3.is_mul(m) and any(f.eq(b) for f in m.children())) for m in mono): return True
        if __import__('os').environ.get('GV_DEBUG'): print('multiple?', p, '|', b)
        return z3.And(b != 0, p % b == 0)
    r = go(a if is_sym(a) else z3.IntVal(a), b if is_sym(b) else z3.IntVal(b))
    return 1 if r is True else E.simp(r, 1)
def m_unsupported(E, st, args, I, name): raise Unsupported(cstr(E, st, args[0]))
def m_current_exception(E, st, args, I, name):
    E.put(st, args[0].obj, args[0].off, 8, st.exc[-1][0] if st.exc else NULL)
def m_rethrow_exception(E, st, args, I, name):
    p = E.load(st, args[0], PTY)
    if not isinstance(p, Ptr) or p == NULL: E.fail(st, "rethrow without exception", "safety"); return Outs()
    return Outs([(st, 'throw', (p, E.exc_ti.get(p.obj)))])
def m_init_exception(E, st, args, I, name):
    E.exc_ti[args[0].obj] = st.mem[args[1].obj].name if isinstance(args[1], Ptr) and args[1].obj else None
    return args[0]
def m_exception_ptr(E, st, args, I, name): E.put(st, args[0].obj, args[0].off, 8, args[1])
MODELS = {
 '__cxa_init_primary_exception': m_init_exception, '_ZNSt15__exception_ptr13exception_ptrC1EPv': m_exception_ptr, '_ZNSt15__exception_ptr13exception_ptrC2EPv': m_exception_ptr,
 '_ZSt17current_exceptionv': m_current_exception, '_ZSt17rethrow_exceptionNSt15__exception_ptr13exception_ptrE': m_rethrow_exception,
 '_ZNSt15__exception_ptr13exception_ptr9_M_addrefEv': m_nop, '_ZNSt15__exception_ptr13exception_ptr10_M_releaseEv': m_nop,
 'gv_unsupported': m_unsupported, 'gv_multiple': m_multiple, 'gv_split': m_split, 'gv_merge': m_merge, 'gv_tag': m_tag, 'gv_drift': m_drift,
 'gv_havoc': m_havoc, 'gv_prune': m_prune, 'gv_watch': m_watch, 'gv_access': m_access, 'gv_edge': m_edge, 'gv_forget': m_forget, 'gv_shared': m_shared,
 'sqrt': m_sqrt, 'fabs': m_fabs,
 'gv_any_i8': m_any(8, True), 'gv_any_u8': m_any(8, False), 'gv_any_i16': m_any(16, True), 'gv_any_u16': m_any(16, False),
 'gv_any_i32': m_any(32, True), 'gv_any_u32': m_any(32, False), 'gv_any_i64': m_any(64, True), 'gv_any_u64': m_any(64, False),
 'gv_any_bool': m_any_bool, 'gv_any_range': m_any_range, 'gv_any_f64': m_any_fp(64), 'gv_any_f32': m_any_fp(32),
 'gv_assume': m_assume, 'gv_assert': m_assert, 'gv_cover': m_cover,
 '_Znwm': m_new, '_Znam': m_new, '_ZnwmSt11align_val_t': m_new, '_ZnwmRKSt9nothrow_t': m_new, 'malloc': m_malloc,
 '_ZdlPv': m_delete, '_ZdlPvm': m_delete, '_ZdaPv': m_delete, '_ZdaPvm': m_delete, '_ZdlPvSt11align_val_t': m_delete, '_ZdlPvmSt11align_val_t': m_delete, 'free': m_delete,
 '__cxa_allocate_exception': m_alloc_exc, '__cxa_free_exception': m_nop, '__cxa_throw': m_cxa_throw, '__cxa_begin_catch': m_begin_catch,
 '__cxa_end_catch': m_end_catch, '__cxa_rethrow': m_rethrow, '_ZSt9terminatev': m_terminate, '__clang_call_terminate': m_terminate, 'abort': m_terminate,
 '__cxa_atexit': m_ret0, '__cxa_guard_acquire': m_guard_acquire, '__cxa_guard_release': m_guard_release, '__cxa_guard_abort': m_nop,
 '__cxa_pure_virtual': m_terminate, '_ZSt21__glibcxx_assert_failPKciS0_S0_': m_terminate, '__assert_fail': m_terminate,
 'memcmp': m_memcmp, 'bcmp': m_memcmp, 'memchr': m_memchr, 'memcpy': m_memcpy, 'memmove': m_memcpy, 'memset': m_memset, 'strlen': m_strlen,
}
REGEX = [
 (re.compile(r"std::__throw_length_error\("), throw_std('_ZTISt12length_error')), (re.compile(r"std::__throw_out_of_range"), throw_std('_ZTISt12out_of_range')),
 (re.compile(r"std::__throw_bad_function_call\("), throw_std('_ZTISt17bad_function_call')), (re.compile(r"std::__throw_bad_optional_access\("), throw_std('_ZTISt19bad_optional_access')),
 (re.compile(r"std::__throw_logic_error\("), throw_std('_ZTISt11logic_error')), (re.compile(r"std::__throw_runtime_error\("), throw_std('_ZTISt13runtime_error')),
 (re.compile(r"std::__throw_bad_alloc\("), throw_std('_ZTISt9bad_alloc')), (re.compile(r"std::__throw_bad_array_new_length\("), throw_std('_ZTISt20bad_array_new_length')),
 (re.compile(r"std::__throw_system_error\("), throw_std('_ZTISt12system_error')), (re.compile(r"std::__throw_bad_cast\("), throw_std('_ZTISt8bad_cast')),
 (re.compile(r"std::__throw_future_error\("), throw_std('_ZTISt12future_error')), (re.compile(r"std::__throw_bad_weak_ptr\("), throw_std('_ZTISt12bad_weak_ptr')),
 (re.compile(r"std::(runtime_error|logic_error|domain_error|invalid_argument|out_of_range|length_error|range_error|overflow_error|bad_alloc|exception)::~?(runtime_error|logic_error|domain_error|invalid_argument|out_of_range|length_error|range_error|overflow_error|bad_alloc|exception)\("), m_nop),
 (re.compile(r"std::random_device::(_M_init|_M_fini)\("), m_nop), (re.compile(r"std::random_device::_M_getval\("), lambda E, st, args, I, name: E.fresh_int(st, 32, "entropy")),
 (re.compile(r"^std::to_string\(int\)"), m_to_string(32, True)), (re.compile(r"^std::to_string\(unsigned int\)"), m_to_string(32, False)),
 (re.compile(r"^std::to_string\(long( long)?\)"), m_to_string(64, True)), (re.compile(r"^std::to_string\(unsigned long( long)?\)"), m_to_string(64, False)),
]
