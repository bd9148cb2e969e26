"""Contracts of external functions: harness intrinsics, C/C++ runtime, libm, and the opaque (logging/stream) functions."""
import re, math
import z3
from vals import *
import vcgen
from vcgen import Throw, Prune, Forks

FTY = {'': 'f64', 'f': 'f32', 'l': 'f80'}

class Natives:
    CALLED = object()
    def __init__(self, eng):
        self.e = eng
        self.tab = {}
        for k in dir(self):
            if k.startswith('n_'): self.tab[k[2:]] = getattr(self, k)
        T = self.tab
        for nm, t in dict(i8='i8', u8='i8', i16='i16', u16='i16', i32='i32', u32='i32', i64='i64', u64='i64', f32='f32', f64='f64').items():
            T['vs_' + nm] = (lambda t: lambda st, fr, ins, fn, a: self.inp(st, a, t))(t)
        T['vs_len'] = T['vs_u64']
        for nm, t in dict(i32='i32', f64='f64', f32='f32', i64='i64', u8='i8').items():
            T['vs_arr_' + nm] = (lambda t: lambda st, fr, ins, fn, a: self.inp_arr(st, a, t))(t)
        for n in ('_Znwm', '_Znam', 'malloc', '_ZnwmRKSt9nothrow_t'): T[n] = self.new_
        T['_ZnwmSt11align_val_t'] = self.new_
        for n in ('_ZdlPv', '_ZdaPv', '_ZdlPvm', '_ZdaPvm', 'free', '_ZdlPvSt11align_val_t', '_ZdlPvmSt11align_val_t'): T[n] = self.del_
        for n in ('pthread_mutex_lock', 'pthread_mutex_unlock', 'pthread_mutex_init', 'pthread_mutex_destroy', 'pthread_mutex_trylock', 'pthread_cond_init', 'pthread_cond_destroy',
                  'pthread_cond_signal', 'pthread_cond_broadcast', 'pthread_rwlock_wrlock', 'pthread_rwlock_rdlock', 'pthread_rwlock_unlock', 'pthread_mutexattr_init', 'pthread_mutexattr_settype', 'pthread_mutexattr_destroy'
                  , 'pthread_condattr_init', 'pthread_condattr_setclock', 'pthread_condattr_destroy'):
            T[n] = lambda st, fr, ins, fn, a: 0
        for n in ('_ZNSt18condition_variable10notify_oneEv', '_ZNSt18condition_variable10notify_allEv', '_ZNSt18condition_variableC1Ev', '_ZNSt18condition_variableD1Ev', '_ZNSt18condition_variableC2Ev', '_ZNSt18condition_variableD2Ev', '__cxa_atexit', '__cxa_thread_atexit',
                  '_ZNSt8ios_base4InitC1Ev', '_ZNSt8ios_base4InitD1Ev'):
            T[n] = lambda st, fr, ins, fn, a: 0
        for n in ('_ZSt9terminatev', '__clang_call_terminate', 'abort', '__cxa_pure_virtual', '__cxa_bad_cast', 'exit'): T[n] = self.term
        for n, ti in {'_ZSt20__throw_length_errorPKc': '_ZTISt12length_error', '_ZSt20__throw_out_of_rangePKc': '_ZTISt12out_of_range', '_ZSt24__throw_out_of_range_fmtPKcz': '_ZTISt12out_of_range',
                      '_ZSt17__throw_bad_allocv': '_ZTISt9bad_alloc', '_ZSt28__throw_bad_array_new_lengthv': '_ZTISt9bad_alloc', '_ZSt19__throw_logic_errorPKc': '_ZTISt11logic_error', '_ZSt25__throw_bad_function_callv': '_ZTISt17bad_function_call',
                      '_ZSt20__throw_system_errori': '_ZTISt12system_error', '_ZSt24__throw_invalid_argumentPKc': '_ZTISt16invalid_argument', '_ZSt21__throw_runtime_errorPKc': '_ZTISt13runtime_error', '_ZSt16__throw_bad_castv': '_ZTISt8bad_cast'}.items():
            T[n] = (lambda ti: lambda st, fr, ins, fn, a: self.throw(st, Ptr(st.new(64, 'exc'), 0), ti))(ti)

    def find(self, name, fn):
        h = self.tab.get(name)
        if h and not (fn is not None and fn.blocks is not None and (name.startswith('pthread_') or 'condition_variable' in name or '6chrono3_V2' in name or name.startswith('_ZSt') and '__throw_' in name)): return h
        if name.startswith('llvm.'):
            h = self.llvm(name)
            if h: return h
            raise Unsupported('intrinsic ' + name)
        m = re.match(r'^(exp|exp2|expm1|log|log10|log2|log1p|pow|sin|cos|tan|asin|acos|atan|atan2|sinh|cosh|tanh|sqrt|fabs|floor|ceil|trunc|fmod|round|rint|nearbyint|hypot|cbrt|fmin|fmax|copysign|nextafter|lgamma|erf|tgamma|ldexp|frexp|scalbn|lround|llround)(f|l)?$', name)
        if m and (fn is None or fn.blocks is None): return self.libm(m.group(1), FTY[m.group(2) or ''])
        if fn is not None and fn.blocks is not None: return None
        if self.e.model_for(fn) is not None: return None
        for rx, kind in self.e.opaque:
            if rx.search(fn.d): return self.opaque_fn(fn, kind)
        return None

    # ---------------------------------------------------------------- harness intrinsics
    def cstr(self, st, p):
        if not isinstance(p, Ptr): return 'x'
        r = st.mem.get(p.r) or self.e.base.mem[p.r]; o = p.o; s = ''
        while True:
            c = self.e.byte(st, r, o)
            if not isinstance(c, int) or c == 0: return s
            s += chr(c); o += 1
    def inp(self, st, a, t):
        n = self.cstr(st, a[0]); v = self.e.fresh(t, n)
        st.inputs.append(('v', n, t, v)); return v
    def n_vs_bool(self, st, fr, ins, fn, a):
        n = self.cstr(st, a[0]); v = self.e.fresh('i1', n)
        st.inputs.append(('v', n, 'i1', v)); return v
    def inp_arr(self, st, a, t):
        n = self.cstr(st, a[0]); cnt = a[1]; w = tsize(t)
        rid = st.new(simp(bv(cnt, 64) * w), n)
        r = st.mem[rid]; self.e.make_array(r, t); r.heap = 'heap'
        st.inputs.append(('arr', n, t, cnt, r.arr))
        return Ptr(rid, 0)
    def n_vs_choice(self, st, fr, ins, fn, a):
        """all values 0..n-1 explored one by one: a finite, exhaustive case split"""
        n = self.cstr(st, a[0]); k = a[1]
        if not isinstance(k, int): raise Unsupported('symbolic choice count')
        sts = []
        for i in reversed(range(k)):
            s = st if i == 0 else st.fork()
            s.inputs.append(('v', n, 'i64', i))
            self.finish(s, ins, i)
            sts.append(s)
        if not sts: raise Prune()
        raise Forks(sts)
    def n_vs_uf_i32(self, st, fr, ins, fn, a):
        B = z3.BitVecSort(32)
        return z3.Function('vs_uf_i32', B, B, B)(bv(a[0], 32), bv(a[1], 32))
    def finish(self, s, ins, v):
        self.e.finish_call(s, s.frames[-1], ins, v)
    def n_vs_assume(self, st, fr, ins, fn, a):
        c = simp(boolz(a[0]))
        if isinstance(c, int):
            if not c: raise Prune()
            return None
        if not self.e.feasible(st, c): raise Prune()
        self.e.assume(st, c); return None
    def n_vs_assert(self, st, fr, ins, fn, a):
        label = self.cstr(st, a[1])
        c = simp(boolz(a[0]))
        ok = self.e.prove(st, c, label)
        if ok is True: 
            if not isinstance(c, int) and not vcgen.has_quant(c): pass
            return None
        if isinstance(c, int): raise Prune()
        if not self.e.feasible(st, c): raise Prune()
        self.e.assume(st, c); return None
    def n_vs_cover(self, st, fr, ins, fn, a):
        """non-vacuity: the path condition here must be satisfiable at least once"""
        l = 'cover:' + self.cstr(st, a[0])
        if self.e.covers.get(l, 0) == 0:
            s = z3.Solver(); s.set('timeout', 8000)
            for c in st.pc: s.add(c)
            r = s.check()
            if r == z3.sat: self.e.covers[l] = 1
            else: self.e.covers.setdefault(l, 0 if r == z3.unsat else -1)
        else: self.e.covers[l] += 1
        return None
    def n_vs_is_symbolic(self, st, fr, ins, fn, a): return 1
    def n_vs_block(self, st, fr, ins, fn, a): raise Prune()
    def n_vs_log(self, st, fr, ins, fn, a): return None
    def n_vs_dbg_f64(self, st, fr, ins, fn, a): print('DBG', a); return None
    def n_vs_dbg_u64(self, st, fr, ins, fn, a): print('DBG', a); return None
    def n_vs_fresh_mem(self, st, fr, ins, fn, a):
        return Ptr(st.new(a[0], 'mem'), 0)
    def n_vs_ensure_concrete(self, st, fr, ins, fn, a):
        return a[0] if isinstance(a[0], int) else self.e.conc_val(st, a[0])
    def quant(self, st, a, exists):
        e = self.e
        lo, hi, fnp, ctx = a
        if isinstance(lo, int) and isinstance(hi, int) and hi - lo <= 24 and lo <= hi:
            acc = []
            for i in range(lo, hi): acc.append(boolz(self.pure(st, fnp, ctx, i, None)))
            r = (z3.Or if exists else z3.And)(*acc) if acc else z3.BoolVal(not exists)
            return simp(r)
        i = e.fresh('i64', 'q')
        rng = z3.And(z3.ULE(bv(lo, 64), i), z3.ULT(i, bv(hi, 64)))
        b = boolz(self.pure(st, fnp, ctx, i, rng))
        if exists: return z3.Exists([i], z3.And(rng, b))
        return z3.ForAll([i], z3.Implies(rng, b))
    def pure(self, st, fnp, ctx, i, rng):
        """value of a specification lambda, path merged; memory effects are discarded"""
        e = self.e
        s = st.fork(); base = len(s.frames)
        if rng is not None: s.pc.append(rng)
        n0 = len(s.pc)
        p = e.resolve(s, fnp, 'call'); name = (s.mem.get(p.r) or e.base.mem[p.r]).fn
        e.call(s, name, [ctx, i], kind=('sub',))
        s.ghost['subbase'] = base + 1; s.ghost.pop('subret', None)
        done = e.explore([s], stop=lambda q: len(q.frames) <= base)
        out = []
        for q in done:
            c = [x for x in q.pc[n0:]]
            v = z3.BoolVal(False) if q.exc is not None else boolz(q.ghost.get('subret'))
            out.append(z3.And(*c, v))
        if not out: return 0
        r = z3.Or(*out) if len(out) > 1 else out[0]
        return simp(r)
    def n_vs_forall_impl(self, st, fr, ins, fn, a): return self.quant(st, a, False)
    def n_vs_exists_impl(self, st, fr, ins, fn, a): return self.quant(st, a, True)

    # ---------------------------------------------------------------- memory
    def new_(self, st, fr, ins, fn, a):
        n = a[0]
        if isinstance(n, int):
            rid = st.new(n, 'heap')
        else:
            rid = st.new(n, 'heap'); st.mem[rid].kind = 'lazy'
        st.mem[rid].heap = 'heap'
        return Ptr(rid, 0)
    def n_calloc(self, st, fr, ins, fn, a):
        if not all(isinstance(x, int) for x in a): raise Unsupported('symbolic calloc')
        rid = st.new(a[0] * a[1], 'heap', 0); st.mem[rid].heap = 'heap'; return Ptr(rid, 0)
    def del_(self, st, fr, ins, fn, a):
        p = a[0]
        if isinstance(p, int) and p == 0: return None
        if p is UNDEF: raise Unsupported('delete of undefined')
        p = self.e.resolve(st, p, 'delete')
        r = st.mem[p.r]
        if not r.alive: self.e.prove(st, False, 'memory safety (double free)', 'mem'); raise Prune()
        r = st.wr(p.r); r.alive = False; r.cells = {}; r.arr = None
        return None
    def n_memcmp(self, st, fr, ins, fn, a):
        n = a[2]
        if not isinstance(n, int): n = self.e.conc_val(st, n)
        res = 0
        x = self.e.resolve(st, a[0]) if n else None; y = self.e.resolve(st, a[1]) if n else None
        out = z3.BitVecVal(0, 32)
        for k in reversed(range(n)):
            b1 = self.e.load(st, Ptr(x.r, self.e.oadd(x.o, k)), 'i8'); b2 = self.e.load(st, Ptr(y.r, self.e.oadd(y.o, k)), 'i8')
            b1, b2 = bv(b1, 8), bv(b2, 8)
            out = z3.If(b1 == b2, out, z3.If(z3.ULT(b1, b2), z3.BitVecVal(-1, 32), z3.BitVecVal(1, 32)))
        return simp(out)
    n_bcmp = n_memcmp
    def n_memchr(self, st, fr, ins, fn, a):
        n = a[2]
        if not isinstance(n, int): n = self.e.conc_val(st, n)
        if n == 0: return 0
        p = self.e.resolve(st, a[0])
        for k in range(n):
            b = self.e.load(st, Ptr(p.r, self.e.oadd(p.o, k)), 'i8')
            if not isinstance(b, int) or not isinstance(a[1], int): raise Unsupported('memchr')
            if b == a[1] & 255: return Ptr(p.r, p.o + k)
        return 0
    def n_strlen(self, st, fr, ins, fn, a):
        p = self.e.resolve(st, a[0]); k = 0
        while True:
            b = self.e.load(st, Ptr(p.r, self.e.oadd(p.o, k)), 'i8')
            if not isinstance(b, int): raise Unsupported('symbolic strlen')
            if b == 0: return k
            k += 1
    def n_strcmp(self, st, fr, ins, fn, a):
        p = self.e.resolve(st, a[0]); q = self.e.resolve(st, a[1]); k = 0
        while True:
            b = self.e.load(st, Ptr(p.r, p.o + k), 'i8'); c = self.e.load(st, Ptr(q.r, q.o + k), 'i8')
            if not isinstance(b, int) or not isinstance(c, int): raise Unsupported('symbolic strcmp')
            if b != c: return mask(-1 if b < c else 1, 32)
            if b == 0: return 0
            k += 1
    def n_memcpy(self, st, fr, ins, fn, a):
        self.e.copy_bytes(st, a[0], a[1], a[2]) if isinstance(a[2], int) else self.e.copy_sym(st, a[0], a[1], a[2])
        return a[0]
    n_memmove = n_memcpy
    def n_memset(self, st, fr, ins, fn, a):
        self.e.set_bytes(st, a[0], a[1] & 255 if isinstance(a[1], int) else simp(z3.Extract(7, 0, a[1])), a[2]); return a[0]

    # ---------------------------------------------------------------- C++ runtime
    def n___cxa_allocate_exception(self, st, fr, ins, fn, a):
        rid = st.new(max(a[0], 1) if isinstance(a[0], int) else 256, 'exc'); return Ptr(rid, 0)
    def n___cxa_free_exception(self, st, fr, ins, fn, a): return None
    def throw(self, st, p, ti):
        d = dict(st.ghost.get('exc_of', {})); d[p.r] = (p, ti); st.ghost['exc_of'] = d
        raise Throw((p, ti))
    def n___cxa_throw(self, st, fr, ins, fn, a):
        ti = self.name_of(st, a[1])
        self.throw(st, a[0], ti)
    def name_of(self, st, p):
        for n, rid in self.e.grid.items():
            if isinstance(p, Ptr) and rid == p.r: return n
        return '?'
    def n___cxa_begin_catch(self, st, fr, ins, fn, a):
        p = a[0]
        st.caught.append(st.ghost['exc_of'][p.r]); return p
    def n___cxa_end_catch(self, st, fr, ins, fn, a):
        if st.caught: st.caught.pop()
        return None
    def n___cxa_get_exception_ptr(self, st, fr, ins, fn, a): return a[0]
    def n___cxa_rethrow(self, st, fr, ins, fn, a):
        raise Throw(st.caught[-1])
    def n___cxa_guard_acquire(self, st, fr, ins, fn, a):
        b = self.e.load(st, a[0], 'i8')
        return 0 if b == 1 else 1
    def n___cxa_guard_release(self, st, fr, ins, fn, a):
        self.e.store(st, a[0], 1, 'i8'); return None
    def n___cxa_guard_abort(self, st, fr, ins, fn, a): return None
    def n___cxa_demangle(self, st, fr, ins, fn, a): return 0
    def n__ZSt18uncaught_exceptionv(self, st, fr, ins, fn, a): return 0
    def n__ZSt19uncaught_exceptionsv(self, st, fr, ins, fn, a): return 0
    def n__ZSt17current_exceptionv(self, st, fr, ins, fn, a):
        # sret exception_ptr : store the exception object pointer
        self.e.store(st, a[0], st.caught[-1][0] if st.caught else 0, 'p'); return None
    def n__ZSt17rethrow_exceptionNSt15__exception_ptr13exception_ptrE(self, st, fr, ins, fn, a):
        p = self.e.load(st, a[0], 'p')
        raise Throw(st.ghost['exc_of'][p.r])
    def n__ZNSt15__exception_ptr13exception_ptr9_M_addrefEv(self, st, fr, ins, fn, a): return None
    def n__ZNSt15__exception_ptr13exception_ptr10_M_releaseEv(self, st, fr, ins, fn, a): return None
    def term(self, st, fr, ins, fn, a):
        self.e.prove(st, False, 'no terminate/abort', 'exc'); raise Prune()
    def n___assert_fail(self, st, fr, ins, fn, a):
        self.e.prove(st, False, 'no assertion failure in the code', 'exc'); raise Prune()
    def n___dynamic_cast(self, st, fr, ins, fn, a):
        e = self.e
        p, src, dst = a[0], a[1], a[2]
        if isinstance(p, int) and p == 0: return 0
        p = e.resolve(st, p, 'dynamic_cast')
        vp = e.resolve(st, e.load(st, p, 'p'), 'vptr')
        off = e.load(st, Ptr(vp.r, vp.o - 16), 'i64'); ti = e.load(st, Ptr(vp.r, vp.o - 8), 'p')
        whole = Ptr(p.r, p.o + sext(off, 64)); tn = self.name_of(st, ti); dn = self.name_of(st, dst); sn = self.name_of(st, src)
        # find all subobjects of type dn inside the complete object
        subs = []
        def walk(t, o, path):
            subs.append((t, o))
            for b, bo in e.bases(t):
                if bo is None: raise Unsupported('virtual base in dynamic_cast')
                walk(b, o + bo, path + [b])
        walk(tn, 0, [])
        c = sorted({o for t, o in subs if t == dn})
        if not c: return 0
        if len(c) > 1: raise Unsupported('ambiguous dynamic_cast')
        return Ptr(whole.r, whole.o + c[0])
    def n__ZNKSt9type_infoeqERKS_(self, st, fr, ins, fn, a): return int(a[0].r == a[1].r)
    def n_vs_guard(self, st, fr, ins, fn, a):
        if a[0] == 0 or isinstance(a[0], int): st.ghost.pop('guards', None); return
        p = self.e.resolve(st, a[0], 'guard'); h = self.e.resolve(st, a[2], 'guard')
        st.ghost['guards'] = st.ghost.get('guards', ()) + ((p.r, p.o, p.o + a[1], h),)
    # waiting on a condition variable blocks: the sequential contract ends the path
    def n__ZNSt18condition_variable4waitERSt11unique_lockISt5mutexE(self, st, fr, ins, fn, a):
        h = st.ghost.get('wait', 0); raise Prune()
    def n_pthread_cond_wait(self, st, fr, ins, fn, a): raise Prune()
    def n_pthread_cond_timedwait(self, st, fr, ins, fn, a):
        return 110
    n_pthread_cond_clockwait = n_pthread_cond_timedwait
    def n_clock_gettime(self, st, fr, ins, fn, a): raise Unsupported('clock')
    def n__ZNSt6chrono3_V212system_clock3nowEv(self, st, fr, ins, fn, a): 
        v = self.e.fresh('i64', 'now'); self.e.assume(st, z3.And(v >= 0, v < (1 << 60))); self.e.assumed['std::chrono clock: arbitrary time'] = 'nondet'; return v
    n__ZNSt6chrono3_V212steady_clock3nowEv = n__ZNSt6chrono3_V212system_clock3nowEv
    def n_pthread_self(self, st, fr, ins, fn, a): return 77
    def n___cxa_throw_bad_array_new_length(self, st, fr, ins, fn, a): self.throw(st, Ptr(st.new(64, 'exc'), 0), '_ZTISt9bad_alloc')
    def n___cxa_call_terminate(self, st, fr, ins, fn, a): return self.term(st, fr, ins, fn, a)
    def n_getrandom(self, st, fr, ins, fn, a):
        # entropy for identifiers (names of parameters): content never matters to a contract
        self.set(st, a[0], a[1]); return a[1]
    def set(self, st, p, n): self.e.set_bytes(st, p, 90, n)
    def n_fesetround(self, st, fr, ins, fn, a): return 0
    def n___errno_location(self, st, fr, ins, fn, a):
        rid = st.new(4, 'errno', 0); return Ptr(rid, 0)

    # ---------------------------------------------------------------- opaque
    def opaque_fn(self, fn, kind):
        e = self.e
        def h(st, fr, ins, f, a):
            e.assumed[(f.d[:140] if f else '?')] = 'opaque:' + kind
            if f is not None and f.sret and isinstance(a[0], Ptr):
                if 'basic_string' in f.sret and f.sretsize == 32:
                    q = a[0]
                    e.store(st, q, Ptr(q.r, q.o + 16), 'p'); e.store(st, Ptr(q.r, q.o + 8), 0, 'i64'); e.store(st, Ptr(q.r, q.o + 16), 0, 'i8')
                return None
            if kind == 'noop':
                t = ins['t']
                if t == 'void': return None
                if t == 'p' :
                    if a and (isinstance(a[0], Ptr)): return a[0]
                    return Ptr(st.new(4096, 'opaque'), 0)
                return e.fresh(t, 'opq')
            if kind == 'zero':
                return e.zero(ins['t']) if ins['t'] != 'void' else None
            if kind == 'havoc':
                return e.fresh(ins['t'], 'opq') if ins['t'] != 'void' else None
            if kind == 'block': raise Prune()
            raise Unsupported('opaque kind ' + kind)
        return h

    # ---------------------------------------------------------------- llvm intrinsics
    def llvm(self, name):
        e = self.e
        p = name.split('.')
        k = p[1]
        sfx = p[-1]
        def fpty(s): return {'f64': 'f64', 'f32': 'f32', 'f80': 'f80'}[s]
        if k in ('memcpy', 'memmove'): return lambda st, fr, ins, fn, a: self.n_memcpy(st, fr, ins, fn, a) and None
        if k == 'memset': return lambda st, fr, ins, fn, a: self.n_memset(st, fr, ins, fn, a) and None
        if k in ('trap', 'ubsantrap', 'debugtrap'):
            def trap(st, fr, ins, fn, a):
                kindn = {0: 'add overflow', 12: 'mul overflow', 13: 'neg overflow', 15: 'arithmetic overflow', 21: 'sub overflow', 5: 'float cast overflow', 3: 'division overflow', 20: 'shift', 8: 'invalid builtin', 22: 'type mismatch'}.get(a[0] if a else -1, f'{a}')
                kindn = {0: 'add overflow', 3: 'division overflow', 5: 'float cast overflow'}.get(a[0] if a else -1, 'arithmetic overflow')
                e.prove(st, False, 'no arithmetic undefined behaviour (' + kindn + ')', 'ub'); raise Prune()
            return trap
        if k == 'eh': 
            def tid(st, fr, ins, fn, a):
                if isinstance(a[0], int): return e.typeid('*')
                return e.typeid(self.name_of(st, a[0]))
            return tid
        if k in ('stacksave',): return lambda st, fr, ins, fn, a: 0
        if k in ('stackrestore', 'va_start', 'va_end', 'prefetch', 'invariant', 'assume', 'var', 'dbg'): return lambda st, fr, ins, fn, a: None
        if k in ('expect', 'launder', 'strip', 'threadlocal', 'ssa'): return lambda st, fr, ins, fn, a: a[0]
        if k == 'objectsize': return lambda st, fr, ins, fn, a: mask(-1, 64)
        if k == 'is' and p[2] == 'constant': return lambda st, fr, ins, fn, a: 0
        if k in ('umul', 'uadd', 'usub', 'smul', 'sadd', 'ssub') and p[2] == 'with':
            def ov(st, fr, ins, fn, a):
                w = width(ins['at'][0]); sg = k[0] == 's'
                x, y = a
                if isinstance(x, int) and isinstance(y, int):
                    if sg: x, y = sext(x, w), sext(y, w)
                    r = {'mul': x * y, 'add': x + y, 'sub': x - y}[k[1:]]
                    lo, hi = (-(1 << w - 1), (1 << w - 1) - 1) if sg else (0, (1 << w) - 1)
                    return [mask(r, w), int(not lo <= r <= hi)]
                x, y = bv(x, w), bv(y, w)
                if k[1:] == 'mul':
                    if sg and e.divs:
                        r = e.mulq(x, y, w, True) or e.mulq(y, x, w, True)
                        if r is not None: return r
                    if sg: o = z3.Or(z3.Not(z3.BVMulNoOverflow(x, y, True)), z3.Not(z3.BVMulNoUnderflow(x, y)))
                    else: o = z3.Not(z3.BVMulNoOverflow(x, y, False))
                    return [simp(x * y), simp(o)]
                ex = (z3.SignExt if sg else z3.ZeroExt)
                r = {'add': lambda: x + y, 'sub': lambda: x - y}[k[1:]]()
                if k[1:] == 'add': o = z3.ULT(r, x) if not sg else z3.And((x < 0) == (y < 0), (r < 0) != (x < 0))
                else: o = z3.ULT(x, y) if not sg else z3.And((x < 0) != (y < 0), (r < 0) != (x < 0))
                return [simp(r), simp(o)]
            return ov
        if k in ('umax', 'umin', 'smax', 'smin'):
            def mm(st, fr, ins, fn, a):
                w = width(ins['t']); x, y = a
                c = e.icmp(st, {'umax': 'ugt', 'umin': 'ult', 'smax': 'sgt', 'smin': 'slt'}[k], x, y, ins['t'])
                if isinstance(c, int): return x if c else y
                return simp(z3.If(c, bv(x, w), bv(y, w)))
            return mm
        if k == 'abs':
            def ab(st, fr, ins, fn, a):
                w = width(ins['t']); x = a[0]
                if isinstance(x, int): return mask(abs(sext(x, w)), w)
                return simp(z3.If(x < 0, -x, x))
            return ab
        if k in ('usub', 'uadd', 'ssub', 'sadd') and p[2] == 'sat':
            def sat(st, fr, ins, fn, a):
                w = width(ins['t']); x, y = bv(a[0], w), bv(a[1], w)
                if k == 'usub': return simp(z3.If(z3.ULT(x, y), z3.BitVecVal(0, w), x - y))
                if k == 'uadd': return simp(z3.If(z3.ULT(x + y, x), z3.BitVecVal(-1, w), x + y))
                raise Unsupported('sat')
            return sat
        if k in ('ctpop', 'ctlz', 'cttz', 'bswap', 'bitreverse', 'fshl', 'fshr'):
            def bits(st, fr, ins, fn, a):
                w = width(ins['t']); x = a[0]
                if k in ('fshl', 'fshr'):
                    s_ = a[2]
                    if not isinstance(s_, int): raise Unsupported(k)
                    s_ %= w; c = z3.Concat(bv(a[0], w), bv(a[1], w))
                    c = c << s_ if k == 'fshl' else z3.LShR(c, s_)
                    return simp(z3.Extract(2 * w - 1, w, c) if k == 'fshl' else z3.Extract(w - 1, 0, c))
                if isinstance(x, int):
                    if k == 'ctpop': return bin(x).count('1')
                    if k == 'ctlz': return w - x.bit_length()
                    if k == 'cttz': return (x & -x).bit_length() - 1 if x else w
                    if k == 'bswap': return int.from_bytes(x.to_bytes(w // 8, 'little'), 'big')
                if k == 'ctpop': return simp(z3.Sum([z3.ZeroExt(w - 1, z3.Extract(i, i, x)) for i in range(w)]))
                if k == 'ctlz':
                    r = z3.BitVecVal(w, w)
                    for i in range(w): r = z3.If(z3.Extract(i, i, x) == 1, z3.BitVecVal(w - 1 - i, w), r)
                    return simp(r)
                raise Unsupported(k)
            return bits
        if k in ('fabs', 'floor', 'ceil', 'trunc', 'sqrt', 'round', 'rint', 'nearbyint', 'copysign', 'minnum', 'maxnum', 'pow', 'exp', 'log', 'sin', 'cos', 'exp2', 'log2', 'log10', 'fma', 'fmuladd', 'powi', 'minimum', 'maximum', 'roundeven'):
            if k in ('fma', 'fmuladd'):
                def fma(st, fr, ins, fn, a):
                    t = ins['t']; return fpconst(z3.fpFMA(RNE, fp(a[0], t), fp(a[1], t), fp(a[2], t)), t) if k == 'fma' else e.fbin(st, 'fadd', e.fbin(st, 'fmul', a[0], a[1], t), a[2], t)
                return fma
            nm = {'minnum': 'fmin', 'maxnum': 'fmax', 'roundeven': 'rint'}.get(k, k)
            return lambda st, fr, ins, fn, a: self.libm(nm, ins['t'])(st, fr, ins, fn, a)
        if k == 'is' and p[2] == 'fpclass':
            def cls(st, fr, ins, fn, a):
                t = ins['at'][0]; m = a[1]; x = fp(a[0], t)
                cs = []
                neg = z3.fpIsNegative(x); pos = z3.fpIsPositive(x)
                if m & 3: cs.append(z3.fpIsNaN(x))
                for bit, s, f in ((4, neg, z3.fpIsInf), (8, neg, z3.fpIsNormal), (16, neg, z3.fpIsSubnormal), (32, neg, z3.fpIsZero), (64, pos, z3.fpIsZero), (128, pos, z3.fpIsSubnormal), (256, pos, z3.fpIsNormal), (512, pos, z3.fpIsInf)):
                    if m & bit: cs.append(z3.And(s, f(x)))
                return simp(z3.Or(*cs))
            return cls
        if k == 'vector' and p[2] == 'reduce':
            def red(st, fr, ins, fn, a):
                op = p[3]
                v = a[-1]
                if op in ('add', 'and', 'or', 'xor', 'mul'):
                    r = v[0]
                    et = ins['t']
                    for x in v[1:]: r = e.ibin(st, op, r, x, et)
                    return r
                raise Unsupported('vector reduce ' + op)
            return red
        return None

    # ---------------------------------------------------------------- libm
    def libm(self, f, t):
        e = self.e
        S = FPS.get(t)
        def h(st, fr, ins, fn, a):
            T = t
            if any(x is UNDEF for x in a): return UNDEF
            if f == 'fabs':
                if isinstance(a[0], float): return abs(a[0])
                return fpconst(z3.fpAbs(fp(a[0], T)), T)
            if f in ('floor', 'ceil', 'trunc', 'round', 'rint', 'nearbyint'):
                if 'round_' + T in e.fpuf and not isinstance(a[0], float): e.approx.add(f); return e.uf(f + '_' + T, S, S)(fp(a[0], T))
                return fpconst(z3.fpRoundToIntegral({'floor': RTN, 'ceil': RTP, 'trunc': RTZ, 'round': RNA, 'rint': RNE, 'nearbyint': RNE}[f], fp(a[0], T)), T)
            if f == 'sqrt':
                if isinstance(a[0], float) and a[0] >= 0 and T == 'f64': return math.sqrt(a[0])
                if 'sqrt' in e.fpuf: return self.ufm(st, f, T, a)
                return fpconst(z3.fpSqrt(RNE, fp(a[0], T)), T)
            if f in ('fmin', 'fmax'):
                x, y = fp(a[0], T), fp(a[1], T)
                lt = z3.fpLT(x, y) if f == 'fmin' else z3.fpGT(x, y)
                return fpconst(z3.If(z3.fpIsNaN(x), y, z3.If(z3.fpIsNaN(y), x, z3.If(lt, x, y))), T)
            if f == 'copysign':
                x, y = fp(a[0], T), fp(a[1], T)
                return fpconst(z3.If(z3.fpIsNegative(y), z3.fpNeg(z3.fpAbs(x)), z3.fpAbs(x)), T)
            if f == 'fmod':
                if isinstance(a[0], float) and isinstance(a[1], float): return e.fbin(st, 'frem', a[0], a[1], T)
            return self.ufm(st, f, T, a)
        return h
    def ufm(self, st, f, t, a):
        """libm by (weak, trusted) contract: a deterministic function of its arguments with the stated axioms"""
        e = self.e; S = FPS[t]
        e.assumed[f'libm {f}'] = 'uninterpreted + axioms'
        if f in ('ldexp', 'scalbn'):
            F = e.uf(f'{f}_{t}', S, z3.BitVecSort(32), S); return F(fp(a[0], t), bv(a[1], 32))
        if f in ('frexp', 'lround', 'llround'): raise Unsupported(f)
        F = e.uf(f'{f}_{t}', *([S] * len(a)), S); e.approx.add(f)
        xs = [fp(x, t) for x in a]
        r = F(*xs)
        x = xs[0]; ax = []
        one = fp(1.0, t) if t != 'f80' else z3.fpFPToFP(RNE, fp(1.0, 'f64'), F80)
        zero = z3.fpPlusZero(S)
        if f == 'exp':
            ax += [z3.fpIsNaN(r) == z3.fpIsNaN(x), z3.Implies(z3.Not(z3.fpIsNaN(x)), z3.fpGEQ(r, zero)), z3.Implies(z3.fpGEQ(x, zero), z3.fpGEQ(r, one)), z3.Implies(z3.fpLEQ(x, zero), z3.fpLEQ(r, one))]
        elif f == 'sqrt':
            ax += [z3.Implies(z3.fpGEQ(x, zero), z3.fpGEQ(r, zero))]
        elif f in ('sin', 'cos', 'tanh', 'erf'):
            ax += [z3.Implies(z3.Not(z3.Or(z3.fpIsNaN(x), z3.fpIsInf(x))), z3.And(z3.fpLEQ(r, one), z3.fpGEQ(r, z3.fpNeg(one))))]
        elif f == 'log':
            ax += [z3.Implies(z3.fpGEQ(x, one), z3.fpGEQ(r, zero))]
        for c in ax: st.pc.append(z3.simplify(c))
        return r
