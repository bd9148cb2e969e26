"""VC generator: forward symbolic execution (strongest postcondition) of the LLVM IR that clang produced from /repo's
current sources.  Every vs_assert in a contract harness is a named obligation, discharged by z3 / cvc5 on every path."""
import json, re, sys, time, math, struct, os, subprocess, tempfile
import z3
from vals import *

class Throw(Exception):
    def __init__(self, exc): self.exc = exc
class Prune(Exception):
    """path ends (blocked / infeasible / assume false)"""
class BoundHit(Exception): pass
class Forks(Exception):
    def __init__(self, states): self.states = states
class Budget(Exception): pass

class Fn:
    def __init__(self, name, d):
        self.name = name; self.d = d.get('d', name); self.ret = d['ret']; self.args = d['args']; self.va = d.get('va', False)
        self.blocks = d.get('blocks'); self.nv = d.get('nv', 0); self.noreturn = 'noreturn' in d.get('attrs', [])
        self._loops = None; self.sret = d.get('sret'); self.sretsize = d.get('sretsize')
    def succs(self, b):
        t = self.blocks[b][-1]
        if t['o'] == 'br': return t['s']
        if t['o'] == 'switch': return [t['def']] + [c[1] for c in t['cases']]
        if t['o'] == 'invoke': return t['s']
        return []
    def loops(self):
        """header -> set of blocks (natural loops)"""
        if self._loops is not None: return self._loops
        n = len(self.blocks); preds = [[] for _ in range(n)]
        for b in range(n):
            for s in self.succs(b): preds[s].append(b)
        # dominators
        order = []; seen = set(); st = [(0, iter(self.succs(0)))]; seen.add(0)
        while st:
            b, it = st[-1]
            for s in it:
                if s not in seen: seen.add(s); st.append((s, iter(self.succs(s)))); break
            else: order.append(b); st.pop()
        rpo = order[::-1]; idx = {b: i for i, b in enumerate(rpo)}
        idom = {0: 0}; ch = True
        while ch:
            ch = False
            for b in rpo[1:]:
                new = None
                for p in preds[b]:
                    if p in idom:
                        if new is None: new = p
                        else:
                            a, c = new, p
                            while a != c:
                                while idx[a] > idx[c]: a = idom[a]
                                while idx[c] > idx[a]: c = idom[c]
                            new = a
                if idom.get(b) != new: idom[b] = new; ch = True
        def dom(a, b):
            while True:
                if a == b: return True
                if b == 0: return False
                b = idom[b]
        L = {}
        for b in rpo:
            for s in self.succs(b):
                if dom(s, b):
                    body = L.setdefault(s, {s}); stk = [b]
                    while stk:
                        x = stk.pop()
                        if x not in body: body.add(x); stk.extend(p for p in preds[x] if p in idx)
        self._loops = L
        return L

class Frame:
    __slots__ = ('fn', 'env', 'b', 'i', 'prev', 'res', 'allocas', 'visits', 'kind', 'unw', 'lps')
    def __init__(self, fn):
        self.fn = fn; self.env = [None] * fn.nv; self.b = 0; self.i = 0; self.prev = -1; self.res = -1
        self.allocas = []; self.visits = None; self.kind = None; self.unw = None; self.lps = None
    def copy(self):
        f = Frame.__new__(Frame)
        f.fn = self.fn; f.env = list(self.env); f.b = self.b; f.i = self.i; f.prev = self.prev; f.res = self.res
        f.allocas = list(self.allocas); f.visits = dict(self.visits) if self.visits else None; f.kind = self.kind; f.unw = self.unw; f.lps = list(self.lps) if self.lps else None
        return f

_rid = [1]
class State:
    __slots__ = ('frames', 'mem', 'owned', 'pc', 'inputs', 'caught', 'nsteps', 'choices', 'exc', 'ghost', 'notes', 'trace')
    def __init__(self):
        self.frames = []; self.mem = {}; self.owned = set(); self.pc = []; self.inputs = []; self.caught = []; self.nsteps = 0
        self.choices = []; self.exc = None; self.ghost = {}; self.notes = (); self.trace = ()
    def fork(self):
        s = State.__new__(State)
        s.frames = [f.copy() for f in self.frames]; s.mem = dict(self.mem); s.owned = set(); self.owned = set()
        s.pc = list(self.pc); s.inputs = list(self.inputs); s.caught = list(self.caught); s.nsteps = self.nsteps
        s.choices = list(self.choices); s.exc = self.exc; s.ghost = dict(self.ghost); s.notes = self.notes; s.trace = self.trace
        return s
    def wr(self, rid):
        if rid not in self.owned:
            self.mem[rid] = self.mem[rid].copy(); self.owned.add(rid)
        return self.mem[rid]
    def new(self, size, name='', default=None):
        rid = _rid[0]; _rid[0] += 1
        self.mem[rid] = Region(size, name, default); self.owned.add(rid)
        return rid

def has_quant(e, cache={}):
    k = e.get_id()
    if k in cache and cache[k][0] is not None and cache[k][0].eq(e): return cache[k][1]
    r = False; seen = set(); st = [e]
    while st:
        x = st.pop()
        if z3.is_quantifier(x) and not x.is_lambda(): r = True; break
        i = x.get_id()
        if i in seen: continue
        seen.add(i); st.extend(x.children())
    if len(cache) > 50000: cache.clear()
    cache[k] = (e, r)
    return r

class Engine:
    def __init__(self, mod, cfg=None):
        self.cfg = cfg or {}; self.fsites = {}
        self.mod = mod
        self.fns = {n: Fn(n, d) for n, d in mod['functions'].items()}
        self.globals = mod['globals']
        self.grid = {}      # global name -> rid
        self.frid = {}      # function name -> rid
        self.base = State() # holds globals
        self.solver = z3.Solver(); self.sstack = []
        import order
        self.ordenc = order.Order(); self.osolver = z3.Solver(); self.ostack = []; self.osolver.set('timeout', 1000); self.xcheck = self.cfg.get('xcheck', 25)
        self.solver.set('timeout', self.cfg.get('feas_ms', 1500))
        self.obl = {}       # label -> dict(status counts)
        self.cex = []       # failed obligations
        self.covers = {}
        self.bounded = {}   # location -> unroll
        self.undecided = [] # reasons
        self.stats = dict(paths=0, steps=0, queries=0, solver_s=0.0, vcs=0, forks=0)
        self.fresh_n = 0
        self.backends = {}
        self.assumed = {}   # contracts used (external functions by contract)
        self.entered = {}   # functions executed (under proof)
        self.unroll = self.cfg.get('unroll', 40)
        self.t_end = time.time() + self.cfg.get('time', 600)
        self.maxpaths = self.cfg.get('maxpaths', 200000)
        self.hcache = {}
        self.opaque = [(re.compile(r), k) for r, k in self.cfg.get('opaque', [])]
        self.models = [(re.compile(r), m) for r, m in self.cfg.get('models', [])]
        self.loopmode = self.cfg.get('loops', 'unroll')
        self.concretize_max = 64
        self.quiet = 0
        self.ufs = {}
        self.fpuf = self.cfg.get('fpuf', ()); self.approx = set(); self.ufmem = {}; self.divs = {}; self.widened = {}
        import natives
        self.nat = natives.Natives(self)
        import loops
        self.loopeng = loops.Loops(self)

    # ------------------------------------------------------------------ fresh values
    def fresh(self, t, name='f'):
        self.fresh_n += 1
        n = f'{name}!{self.fresh_n}'
        if isinstance(t, dict):
            if t['k'] == 'a': raise Unsupported('fresh big array')
            return [self.fresh(e[1], name) for e in t['e']]
        if t == 'i1': return z3.Bool(n)
        if t == 'p': return z3.BitVec(n, 64)
        if t in FPS: return z3.Const(n, FPS[t])
        return z3.BitVec(n, width(t))

    # ------------------------------------------------------------------ solver
    def sync(self, pc):
        s = self.sstack; k = 0
        while k < len(s) and k < len(pc) and s[k] is pc[k]: k += 1
        if len(s) > k:
            self.solver.pop(len(s) - k); del s[k:]
        for c in pc[k:]:
            self.solver.push()
            if not has_quant(c): self.solver.add(c)
            s.append(c)
    def check(self, st, extra):
        """sat / unsat / unknown of path condition (quantified parts dropped) and extra"""
        if time.time() > self.t_end: raise Budget('time budget')
        t = time.time(); self.stats['queries'] += 1
        r = self.ocheck(st.pc, extra)
        self.last = 'z3-order'
        if r is not None and self.xcheck > 0:
            # the first answers are checked against the floating-point solver
            self.xcheck -= 1; self.sync(st.pc); self.solver.push(); self.solver.add(extra); q = self.solver.check(); self.solver.pop()
            if q != z3.unknown and q != r: raise Unsupported('order encoding disagrees with the floating-point solver')
        if r is not None: self.stats['solver_s'] += time.time() - t; return r
        self.last = 'z3-incremental'
        self.sync(st.pc)
        self.solver.push(); self.solver.add(extra)
        r = self.solver.check()
        self.solver.pop()
        dt = time.time() - t; self.stats['solver_s'] += dt
        if dt > 1 and getattr(self, 'debug', 0): print('SLOW %.1f' % dt, r, str(extra)[:400].replace('\n', ' '), self.where(st)[:2], len(st.pc))
        return r
    def ocheck(self, pc, extra):
        """floating-point comparisons as comparisons of integers (order.py); None: no answer this way"""
        s = self.ostack; k = 0; s_ = self.osolver
        while k < len(s) and k < len(pc) and s[k][0] is pc[k]: k += 1
        if len(s) > k: s_.pop(len(s) - k); del s[k:]
        for c in pc[k:]:
            fp_ = ex = False
            s_.push()
            if not has_quant(c):
                fp_ = self.ordenc.has_fp(c); t, ex, sd = self.ordenc.enc(c); s_.add(t, *sd)
            pf, pe = (s[-1][1], s[-1][2]) if s else (False, True)
            s.append((c, pf or fp_, pe and ex))
        fp_, ex = (s[-1][1], s[-1][2]) if s else (False, True)
        if not (fp_ or self.ordenc.has_fp(extra)): return None
        t, x2, sd = self.ordenc.enc(extra)
        if not (ex and x2): return None
        s_.push(); s_.add(t, *sd); r = s_.check(); s_.pop()
        return None if r == z3.unknown else r
    def assume(self, st, c):
        c = simp(boolz(c))
        if isinstance(c, int):
            if not c: raise Prune()
            return
        if z3.is_and(c):
            for x in c.children(): self.assume(st, x)
            return
        st.pc.append(c)
    def feasible(self, st, c):
        c = simp(c)
        if isinstance(c, int): return bool(c)
        for p in st.pc:
            if p.eq(c): return True
        n = simp(z3.Not(c))
        for p in st.pc:
            if not isinstance(n, int) and p.eq(n): return False
        if has_quant(c): return True
        return self.check(st, c) != z3.unsat
    def branch(self, st, c):
        """returns (can_true, can_false)"""
        c = simp(boolz(c))
        if isinstance(c, int): return bool(c), not c, c
        t = self.feasible(st, c)
        if not t: return False, True, c
        f = self.feasible(st, z3.Not(c))
        return t, f, c
    def must(self, st, c):
        """is c implied by the path condition"""
        c = simp(boolz(c))
        if isinstance(c, int): return bool(c)
        return not self.feasible(st, z3.Not(c))

    # ------------------------------------------------------------------ obligations
    def prove(self, st, cond, label, kind='assert'):
        o = self.obl.setdefault(label, dict(proved=0, failed=0, unknown=0, kind=kind, solver_s=0.0, trivial=0))
        c = simp(boolz(cond))
        self.stats['vcs'] += 1
        if isinstance(c, int) and c: o['proved'] += 1; o['trivial'] += 1; return True
        t0 = time.time()
        neg = z3.BoolVal(True) if isinstance(c, int) else z3.Not(c)
        r, model = self.discharge(st, neg)
        o['solver_s'] += time.time() - t0
        if r == 'unsat': o['proved'] += 1; return True
        if r == 'sat':
            o['failed'] += 1
            self.record_cex(st, label, neg, model)
            return False
        o['unknown'] += 1
        self.undecided.append(f'{label}: solver gave no answer')
        self.keep_unknown(st, label, neg)
        return None
    def keep_unknown(self, st, label, neg):
        if self.cfg.get('debug'):
            s = z3.Solver()
            for c in st.pc: s.add(c)
            s.add(neg); open('/tmp/unk.smt2', 'w').write('(set-logic ALL)\n' + s.sexpr() + '\n(check-sat)\n'); print('UNKNOWN', label, 'in /tmp/unk.smt2')
    def discharge(self, st, neg, small=True):
        pc = st.pc
        quant = any(has_quant(c) for c in pc) or has_quant(neg)
        t = time.time()
        if not quant:
            r = self.check(st, neg)
            if r == z3.unsat: self.backends[self.last] = self.backends.get(self.last, 0) + 1; return 'unsat', None
            if r == z3.sat:
                self.sync(st.pc); self.solver.push(); self.solver.add(neg)
                if self.solver.check() == z3.sat:
                    m = self.solver.model(); self.solver.pop()
                    return 'sat', m
                self.solver.pop()
        # portfolio: z3 (in process), z3 4.8 and cvc5 as separate processes; the first definite answer counts
        tmo = self.cfg.get('vc_s', 40)
        s = z3.Solver()
        for c in pc: s.add(c)
        s.add(neg)
        procs = self.portfolio(s, tmo)
        r = z3.unknown; who = None; t1 = time.time(); slice_ = 2000
        try:
            while time.time() - t1 < tmo and time.time() < self.t_end + 10:
                s.set('timeout', int(min(slice_, max(100, 1000 * (tmo - (time.time() - t1))))))
                r = s.check(); self.stats['queries'] += 1
                if r != z3.unknown: who = 'z3'; break
                slice_ *= 2
                for n, p in list(procs.items()):
                    if p.poll() is not None:
                        out = p.stdout.read().split('\n')[0].strip(); del procs[n]
                        if out == 'unsat': r = z3.unsat; who = n; break
                        if out == 'sat': slice_ = tmo * 1000; s.set('timeout', int(tmo * 1000)); r = s.check(); who = 'z3'; break
                if who: break
        finally:
            for p in procs.values():
                try: p.kill(); p.wait()
                except Exception: pass
            if procs is not None and self._pf:
                try: os.unlink(self._pf)
                except OSError: pass
        self.stats['solver_s'] += time.time() - t
        if r == z3.unsat: self.backends[who] = self.backends.get(who, 0) + 1; return 'unsat', None
        if r == z3.sat: return 'sat', s.model()
        return 'unknown', None
    _pf = None
    def portfolio(self, s, tmo):
        procs = {}
        try:
            txt = s.sexpr()
            if len(txt) > 3000000: return procs
            with tempfile.NamedTemporaryFile('w', suffix='.smt2', delete=False) as f: f.write('(set-logic ALL)\n' + txt + '\n(check-sat)\n'); self._pf = f.name
            for n, cmd in (('z3-4.8', ['z3', f'-T:{int(tmo)}', self._pf]), ('cvc5', ['cvc5', '--fp-exp', f'--tlimit={int(tmo*1000)}', self._pf])):
                try: procs[n] = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True)
                except OSError: pass
        except Exception: pass
        return procs
    def record_cex(self, st, label, neg, model):
        # prefer small inputs
        vals = self.model_inputs(st, model)
        self.cex.append(dict(label=label, inputs=vals, trace=self.where(st)))
    def model_inputs(self, st, m):
        out = []
        def ev(v, t):
            if isinstance(v, (int, float)): pass
            elif t in FPS:
                e = m.eval(v, model_completion=True)
                v = fpconst(e, t)
                if not isinstance(v, float): return str(v)
            else:
                e = simp(m.eval(v, model_completion=True))
                v = e if isinstance(e, int) else 0
            if t in ('f32', 'f64'):
                if math.isnan(v): return 'nan'
                return '0x%x' % f2bits(v, t)
            return str(v)
        for it in st.inputs:
            if it[0] == 'arr':
                _, name, t, n, arr = it
                nn = int(ev(n, 'i64')) if not isinstance(n, int) else n
                xs = []
                w = tsize(t)
                for k in range(min(nn, 64)): xs.append(ev(z3.Select(arr, z3.BitVecVal(k * w, 64)), t))
                out.append([name, 'arr:' + t, nn, xs])
            else:
                _, name, t, v = it
                out.append([name, t, ev(v, t)])
        return out
    def where(self, st):
        w = []
        for f in reversed(st.frames[-8:]):
            ins = f.fn.blocks[f.b][min(f.i, len(f.fn.blocks[f.b]) - 1)]
            w.append(f"{f.fn.d[:160]}:{ins.get('l','?')}")
        return w

    # ------------------------------------------------------------------ globals / constants
    def region_of_fn(self, st, name):
        if name not in self.frid:
            rid = self.base.new(0, name); r = self.base.mem[rid]; r.kind = 'fn'; r.fn = name; r.const = True
            self.frid[name] = rid
        rid = self.frid[name]
        if rid not in st.mem: st.mem[rid] = self.base.mem[rid]
        return rid
    def gptr(self, st, name, off=0):
        if name in self.fns: return Ptr(self.region_of_fn(st, name), off)
        if name not in self.grid:
            g = self.globals.get(name)
            rid = self.base.new(0, name); self.grid[name] = rid
            r = self.base.mem[rid]
            if g is None or g['ext']:
                r.size = max(g['size'] if g else 0, 4096); r.const = False; r.kind = 'cells'; r.default = None
                r.heap = 'ext'
                if name.startswith('_ZTI'):
                    nm = name[4:].encode() + b'\0'; nr = self.base.new(len(nm), name + '.name'); q = self.base.mem[nr]; q.const = True
                    for k_, x_ in enumerate(nm): q.cells[k_] = (1, 'i8', x_)
                    r.cells[8] = (8, 'p', Ptr(nr, 0)); st.mem[nr] = q
            else:
                r.size = g['size']; r.const = g['const']
                cells = r.cells
                for off_, c in g['init']:
                    if c[0] == 'zero':
                        r.default = 0
                    elif c[0] == 'bytes':
                        bs = bytes.fromhex(c[1])
                        for k, x in enumerate(bs): cells[off_ + k] = (1, 'i8', x)
                    else:
                        t = self.ctype(c)
                        v = self.const(self.base, c)
                        self.put_cells(cells, off_, v, t)
                if any(c[0] != 'zero' for _, c in g['init']) and r.default is None: r.default = 0
        rid = self.grid[name]
        if rid not in st.mem: st.mem[rid] = self.base.mem[rid]
        return Ptr(rid, off)
    def put_cells(self, cells, off, v, t):
        if isinstance(t, dict):
            for (o, et), x in zip(t['e'], v): self.put_cells(cells, off + o, x, et)
        else: cells[off] = (tsize(t), t, v)
    def ctype(self, c):
        k = c[0]
        if k in ('i', 'f', 'u', 'z', 'agg'): return c[1]
        if k in ('n', 'g', 'ce+'): return 'p'
        if k == 'ce': return c[2]
        raise Unsupported('const type ' + str(c)[:80])
    def const(self, st, c):
        k = c[0]
        if k == 'i': return int(c[2])
        if k == 'f':
            b = int(c[2], 16)
            if c[1] == 'f80': return f80_from_bits(b)
            return bits2f(b, c[1])
        if k == 'n': return 0
        if k == 'g': return self.gptr(st, c[1], c[2])
        if k == 'ce+':
            p = self.const(st, c[1])
            if isinstance(p, Ptr): return Ptr(p.r, p.o + c[2])
            return mask(p + c[2], 64)
        if k == 'u':
            if isinstance(c[1], dict): return self.undef_agg(c[1])
            return UNDEF
        if k == 'z': return self.zero(c[1])
        if k == 'agg': return [self.const(st, x) for x in c[2]]
        if k == 'ce':
            op = c[1]; a = [self.const(st, x) for x in c[3]]
            if op in ('ptrtoint', 'inttoptr', 'bitcast'): 
                if op == 'ptrtoint': return addr_of(a[0])
                return a[0]
            if op == 'sub': return mask(self.i2(a[0]) - self.i2(a[1]), width(c[2]))
            if op == 'add': return mask(self.i2(a[0]) + self.i2(a[1]), width(c[2]))
            if op == 'trunc': return mask(a[0], width(c[2]))
            if op == 'icmp':
                r = self.icmp(st, c[4], a[0], a[1], 'p')
                return r
            raise Unsupported('constexpr ' + op)
        if k in ('m', 'asm'): return None
        raise Unsupported('const ' + str(c)[:80])
    def i2(self, v): return addr_of(v)
    def zero(self, t):
        if isinstance(t, dict):
            if t['k'] == 'a': raise Unsupported('big zero array')
            return [self.zero(e[1]) for e in t['e']]
        if t in ('f32', 'f64'): return 0.0
        if t == 'f80': return z3.fpPlusZero(F80)
        return 0
    def undef_agg(self, t):
        if isinstance(t, dict): return [self.undef_agg(e[1]) for e in t['e']]
        return UNDEF
    def val(self, st, fr, o, t=None):
        if isinstance(o, int): v = fr.env[o]
        else:
            v = self.const(st, o)
        if v is UNDEF:
            if t is None: return v
            if t == 'i1': return self.fresh('i1', 'undef')
            if isinstance(t, str) and t != 'x' and t != 'void':
                v = self.fresh(t, 'undef')
        return v

    # ------------------------------------------------------------------ memory
    def resolve(self, st, p, what='access'):
        """pointer value -> Ptr (or raises/forks)"""
        if isinstance(p, Ptr): return p
        if isinstance(p, int):
            r = (p >> BASE_SHIFT) - 1
            if r >= 0 and r in st.mem: return Ptr(r, p & ((1 << BASE_SHIFT) - 1))
            self.prove(st, False, f'memory safety ({what} through null or invalid pointer)', 'mem')
            raise Prune()
        e = simp(p)
        if isinstance(e, int): return self.resolve(st, e, what)
        # find feasible region
        self.sync(st.pc); self.solver.push()
        r = self.solver.check()
        if r != z3.sat: self.solver.pop(); raise Unsupported('pointer resolution')
        v = self.solver.model().eval(e, model_completion=True).as_long(); self.solver.pop()
        rid = (v >> BASE_SHIFT) - 1
        c = z3.Extract(63, BASE_SHIFT, e) == z3.BitVecVal(v >> BASE_SHIFT, 64 - BASE_SHIFT)
        if rid < 0 or rid not in st.mem:
            # is there any feasible value inside a known region?
            raise Unsupported('unresolvable symbolic pointer')
        if not self.must(st, c):
            k = st.ghost.get('ptrforks', 0)
            if k > 40: raise Unsupported('pointer enumeration too large')
            st.ghost['ptrforks'] = k + 1
            s2 = st.fork(); self.assume(s2, z3.Not(c)); self.assume(st, c)
            raise Forks([st, s2])
        off = simp(e - z3.BitVecVal((rid + 1) << BASE_SHIFT, 64))
        return Ptr(rid, off)

    def inb(self, st, p, n, what):
        r = st.mem.get(p.r)
        if r is None:
            # region created on base after fork
            if p.r in self.base.mem: st.mem[p.r] = self.base.mem[p.r]; r = st.mem[p.r]
            else: raise Unsupported('unknown region')
        if not r.alive:
            self.prove(st, False, f'memory safety ({what} after lifetime end)', 'mem'); raise Prune()
        if r.kind == 'fn': raise Unsupported('data access to function')
        if isinstance(p.o, int) and isinstance(r.size, int) and isinstance(n, int):
            if p.o < 0 or p.o + n > r.size:
                if r.heap == 'ext': raise Unsupported('access beyond external object ' + r.name)
                self.prove(st, False, f'memory safety ({what} out of bounds)', 'mem'); raise Prune()
            return r
        o = bv(p.o, 64) if not isinstance(p.o, int) else z3.BitVecVal(p.o & M64, 64)
        sz = bv(r.size, 64); nn = bv(n, 64)
        c = z3.And(z3.ULE(nn, sz), z3.ULE(o, sz - nn))
        if not self.must(st, c):
            ok = self.prove(st, c, f'memory safety ({what} out of bounds)', 'mem')
            self.assume(st, c)
            if self.check(st, z3.BoolVal(True)) == z3.unsat: raise Prune()
        return r

    def conc_off(self, st, p, r, size):
        """make the offset into a cell region concrete, forking over feasible values"""
        if isinstance(p.o, int): return p
        o = simp(p.o)
        if isinstance(o, int): return Ptr(p.r, o)
        self.sync(st.pc); self.solver.push()
        if self.solver.check() != z3.sat: self.solver.pop(); raise Unsupported('offset enumeration')
        v = self.solver.model().eval(o, model_completion=True).as_long(); self.solver.pop()
        c = o == z3.BitVecVal(v, 64)
        if not self.must(st, c):
            n = st.ghost.get('conc', 0)
            if n > 4000: raise Unsupported('offset enumeration too large')
            s2 = st.fork(); self.assume(s2, z3.Not(c)); self.assume(st, c)
            raise Forks([st, s2])
        return Ptr(p.r, v)

    def load(self, st, p, t):
        if isinstance(t, dict):
            if t['k'] == 'a': raise Unsupported('big array load')
            p = self.resolve(st, p, 'load')
            return [self.load(st, Ptr(p.r, self.oadd(p.o, o)), et) for o, et in t['e']]
        p = self.resolve(st, p, 'load')
        n = tsize(t)
        if 'guards' in st.ghost: self.guards(st, p, n)
        r = self.inb(st, p, n, 'load')
        if r.kind == 'lazy':
            return self.fresh(t, 'uninit')
        if r.kind == 'array': return self.arr_load(st, r, p, t)
        p = self.conc_off(st, p, r, n)
        return self.cell_load(st, r, p.o, t)
    def guards(self, st, p, n):
        for r, lo, hi, h in st.ghost['guards']:
            if p.r == r and isinstance(p.o, int) and p.o < hi and p.o + n > lo:
                held = self.cell_load(st, st.mem[h.r], h.o, 'i32')
                c = held > 0 if isinstance(held, int) else held != 0
                self.prove(st, c, 'lock discipline (shared state is accessed only while the lock is held)', 'assert')
    def oadd(self, a, b):
        if isinstance(a, int) and isinstance(b, int): return a + b
        return simp(bv(a, 64) + bv(b, 64)) if not (isinstance(a, int)) else simp(z3.BitVecVal(a & M64, 64) + bv(b, 64))
    def arr_load(self, st, r, p, t):
        n = tsize(t)
        if n != r.w: raise Unsupported(f'array access width {n} vs {r.w}')
        o = bv(p.o, 64)
        if not self.must(st, z3.URem(o, z3.BitVecVal(r.w, 64)) == 0) : raise Unsupported('misaligned array access')
        e = z3.Select(r.arr, z3.simplify(o))
        e = z3.simplify(e)
        if t == r.et: return fpconst(e, t) if t in ('f32', 'f64') else simp(e)
        return from_bits(simp(to_bits(e, r.et)), t)
    def cell_load(self, st, r, off, t):
        n = tsize(t)
        c = r.cells.get(off)
        if c is not None and c[0] == n:
            if c[1] == t: 
                if c[2] is UNDEF: return UNDEF
                return c[2]
            if c[2] is UNDEF: return UNDEF
            if t == 'f80' or c[1] == 'f80': raise Unsupported('f80 reinterpretation')
            b = to_bits(c[2], c[1])
            if t == 'p' or c[1] == 'p':
                if t == 'p': return c[2] if not isinstance(b, int) else self.toptr(st, b)
                return b
            return from_bits(b, t)
        if t == 'f80': 
            if c is None and r.default == 0: return z3.fpPlusZero(F80)
            raise Unsupported('partial f80 load')
        # assemble from bytes
        bs = []
        for k in range(n):
            bs.append(self.byte(st, r, off + k))
        if any(b is UNDEF for b in bs):
            if all(b is UNDEF for b in bs): return UNDEF
            bs = [self.fresh('i8', 'undef') if b is UNDEF else b for b in bs]
        if all(isinstance(b, int) for b in bs):
            v = 0
            for k, b in enumerate(bs): v |= b << 8 * k
        else:
            v = z3.Concat(*[bv(b, 8) for b in reversed(bs)]) if n > 1 else bs[0]
            v = simp(v)
        if t == 'p': return self.toptr(st, v)
        return from_bits(v, t)
    def toptr(self, st, v):
        if isinstance(v, int):
            r = (v >> BASE_SHIFT) - 1
            if r >= 0 and (r in st.mem or r in self.base.mem):
                if r not in st.mem: st.mem[r] = self.base.mem[r]
                return Ptr(r, v & ((1 << BASE_SHIFT) - 1))
        return v
    def byte(self, st, r, off):
        for d in range(16):
            c = r.cells.get(off - d)
            if c is not None:
                if c[0] > d:
                    if c[2] is UNDEF: return UNDEF
                    if c[1] == 'f80': raise Unsupported('f80 bytes')
                    b = to_bits(c[2], c[1])
                    if isinstance(b, int): return b >> 8 * d & 255
                    return simp(z3.Extract(8 * d + 7, 8 * d, b))
                break
        if r.default == 0: return 0
        return UNDEF
    def store(self, st, p, v, t):
        if isinstance(t, dict):
            p = self.resolve(st, p, 'store')
            for (o, et), x in zip(t['e'], v): self.store(st, Ptr(p.r, self.oadd(p.o, o)), x, et)
            return
        p = self.resolve(st, p, 'store')
        n = tsize(t)
        if 'guards' in st.ghost: self.guards(st, p, n)
        r = self.inb(st, p, n, 'store')
        if r.const and not r.heap: 
            self.prove(st, False, 'memory safety (store to constant)', 'mem'); raise Prune()
        if r.kind == 'lazy':
            r = st.wr(p.r); self.make_array(r, t)
        if r.kind == 'array':
            if n != r.w: raise Unsupported('array store width')
            o = bv(p.o, 64)
            if not self.must(st, z3.URem(o, z3.BitVecVal(r.w, 64)) == 0): raise Unsupported('misaligned array access')
            if v is UNDEF: v = self.fresh(t, 'undef')
            if t != r.et: v = from_bits(to_bits(v, t), r.et)
            r = st.wr(p.r)
            r.arr = z3.Store(r.arr, z3.simplify(o), self.zterm(v, r.et))
            return
        p = self.conc_off(st, p, r, n)
        r = st.wr(p.r)
        self.cell_store(st, r, p.o, v, t)
    def zterm(self, v, t):
        if t in FPS: return fp(v, t)
        if t == 'i1': return boolz(v)
        if t == 'p': return bv(addr_of(v), 64)
        return bv(v, width(t))
    def sort(self, t):
        if t in FPS: return FPS[t]
        if t == 'p': return BV64
        return z3.BitVecSort(tsize(t) * 8)
    def make_array(self, r, t):
        r.kind = 'array'; r.w = tsize(t); r.et = t if t != 'i1' else 'i8'
        self.fresh_n += 1
        r.arr = z3.Array(f'A!{self.fresh_n}', BV64, self.sort(r.et))
    def cell_store(self, st, r, off, v, t):
        n = tsize(t)
        cells = r.cells
        c = cells.get(off)
        if c is not None and c[0] == n:
            cells[off] = (n, t, v); return
        # split overlapping cells
        for o in range(off - 15, off + n):
            c = cells.get(o)
            if c is not None and o + c[0] > off:
                if o >= off and o + c[0] <= off + n: del cells[o]; continue
                bs = [(o + k, self.byte(st, r, o + k)) for k in range(c[0])]
                del cells[o]
                for oo, b in bs:
                    if not (off <= oo < off + n): cells[oo] = (1, 'i8', b)
        cells[off] = (n, t, v)
    def copy_bytes(self, st, dst, src, n):
        """memcpy/memmove with concrete length"""
        if n == 0: return
        dst = self.resolve(st, dst, 'memcpy'); src = self.resolve(st, src, 'memcpy')
        rs = self.inb(st, src, n, 'memcpy source'); rd = self.inb(st, dst, n, 'memcpy destination')
        if rs.kind in ('array', 'lazy') or rd.kind in ('array', 'lazy'):
            return self.copy_sym(st, dst, src, n)
        src = self.conc_off(st, src, rs, 1); dst = self.conc_off(st, dst, rd, 1)
        out = []; k = 0
        so = src.o
        while k < n:
            c = rs.cells.get(so + k)
            if c is not None and k + c[0] <= n: out.append((k, c)); k += c[0]
            elif c is None and rs.default is None and not any((so + k - d) in rs.cells and rs.cells[so + k - d][0] > d for d in range(1, 16)):
                # undefined gap
                out.append((k, (1, 'i8', UNDEF))); k += 1
            else:
                out.append((k, (1, 'i8', self.byte(st, rs, so + k)))); k += 1
        w = st.wr(dst.r)
        for k, c in out:
            self.cell_store(st, w, dst.o + k, c[2], c[1] if c[0] == tsize(c[1]) else c[1])
    def copy_sym(self, st, dst, src, n):
        n = simp(n) if not isinstance(n, int) else n
        if isinstance(n, int) and n == 0: return
        nb = bv(n, 64)
        # zero length copies through null/any pointer are no-ops
        if not isinstance(n, int) and not self.must(st, nb != 0):
            if not self.feasible(st, nb != 0): return
            s2 = st.fork(); self.assume(s2, nb == 0); self.assume(st, nb != 0)
            raise Forks([st, s2])
        dst = self.resolve(st, dst, 'memcpy'); src = self.resolve(st, src, 'memcpy')
        rs = self.inb(st, src, n, 'memcpy source'); rd = self.inb(st, dst, n, 'memcpy destination')
        if rs.kind == 'lazy': return
        if rs.kind == 'cells' and rd.kind == 'cells':
            # concretize length
            if isinstance(n, int): return self.copy_bytes(st, dst, src, n)
            q = self.conc_val(st, n)
            return self.copy_bytes(st, dst, src, q)
        if rs.kind == 'cells':
            q = n if isinstance(n, int) else self.conc_val(st, n)
            src = self.conc_off(st, src, rs, 1)
            if rd.kind == 'lazy':
                c = rs.cells.get(src.o)
                rd = st.wr(dst.r); self.make_array(rd, c[1] if c else 'i8')
            for k in range(0, q, rd.w):
                self.store(st, Ptr(dst.r, self.oadd(dst.o, k)), self.cell_load(st, rs, src.o + k, rd.et), rd.et)
            return
        if rd.kind == 'cells':
            q = n if isinstance(n, int) else self.conc_val(st, n)
            for k in range(0, q, rs.w):
                self.store(st, Ptr(dst.r, self.oadd(dst.o, k)), self.load(st, Ptr(src.r, self.oadd(src.o, k)), rs.et), rs.et)
            return
        if rd.kind == 'lazy': rd = st.wr(dst.r); self.make_array(rd, rs.et)
        if rd.et != rs.et: raise Unsupported('array copy type mismatch')
        for e in (nb, bv(src.o, 64), bv(dst.o, 64)):
            if not self.must(st, z3.URem(e, z3.BitVecVal(rs.w, 64)) == 0): raise Unsupported('misaligned array copy')
        k = z3.BitVec('k!c', 64)
        do = bv(dst.o, 64); so = bv(src.o, 64)
        rd = st.wr(dst.r)
        rd.arr = z3.Lambda([k], z3.If(z3.ULT(k - do, nb), z3.Select(rs.arr, k - do + so), z3.Select(rd.arr, k)))
    def conc_val(self, st, e):
        e = simp(e)
        if isinstance(e, int): return e
        self.sync(st.pc); self.solver.push()
        if self.solver.check() != z3.sat: self.solver.pop(); raise Unsupported('value enumeration')
        v = self.solver.model().eval(e, model_completion=True).as_long(); self.solver.pop()
        c = e == z3.BitVecVal(v, e.size())
        if not self.must(st, c):
            s2 = st.fork(); self.assume(s2, z3.Not(c)); self.assume(st, c)
            raise Forks([st, s2])
        return v
    def set_bytes(self, st, dst, b, n):
        if isinstance(n, int) and n == 0: return
        n = simp(n) if not isinstance(n, int) else n
        if not isinstance(n, int):
            nb = bv(n, 64)
            if not self.must(st, nb != 0):
                if not self.feasible(st, nb != 0): return
                s2 = st.fork(); self.assume(s2, nb == 0); self.assume(st, nb != 0)
                raise Forks([st, s2])
        dst = self.resolve(st, dst, 'memset')
        r = self.inb(st, dst, n, 'memset')
        if r.kind == 'cells':
            q = n if isinstance(n, int) else self.conc_val(st, n)
            dst = self.conc_off(st, dst, r, 1)
            if isinstance(b, int):
                r = st.wr(dst.r)
                # drop covered cells, keep partially covered
                for o in [o for o in r.cells if o < dst.o + q and o + r.cells[o][0] > dst.o]:
                    c = r.cells[o]
                    if o >= dst.o and o + c[0] <= dst.o + q: del r.cells[o]
                if b == 0 and dst.o == 0 and q == r.size: r.default = 0; return
                k = 0
                while k < q:
                    step = 8 if (dst.o + k) % 8 == 0 and k + 8 <= q else 1
                    v = b * (0x0101010101010101 if step == 8 else 1)
                    self.cell_store(st, r, dst.o + k, v, 'i64' if step == 8 else 'i8'); k += step
                return
            r = st.wr(dst.r)
            for k in range(q): self.cell_store(st, r, dst.o + k, b, 'i8')
            return
        if r.kind == 'lazy':
            r = st.wr(dst.r); self.make_array(r, 'i64' if self.must(st, z3.URem(bv(n, 64), z3.BitVecVal(8, 64)) == 0) else 'i8')
        if b != 0 and r.w != 1: raise Unsupported('memset of array')
        r = st.wr(dst.r); k = z3.BitVec('k!c', 64); do = bv(dst.o, 64)
        z = self.zterm(self.zero(r.et) if r.w != 1 else b, r.et)
        r.arr = z3.Lambda([k], z3.If(z3.ULT(k - do, bv(n, 64)), z, z3.Select(r.arr, k)))

    # ------------------------------------------------------------------ scalar ops
    def icmp(self, st, pred, a, b, t):
        if isinstance(a, Ptr) and isinstance(b, Ptr) and a.r == b.r:
            a, b = a.o, b.o
            if isinstance(a, int): a &= M64
            if isinstance(b, int): b &= M64
            w = 64
        else:
            if isinstance(a, Ptr) and isinstance(b, Ptr) and pred in ('eq', 'ne'): return int(pred == 'ne')
            if pred in ('eq', 'ne') and ((isinstance(a, Ptr) and isinstance(b, int) and b == 0) or (isinstance(b, Ptr) and isinstance(a, int) and a == 0)): return int(pred == 'ne')
            if isinstance(a, Ptr): a = addr_of(a)
            if isinstance(b, Ptr): b = addr_of(b)
            w = 64 if t == 'p' else width(t)
        if isinstance(a, int) and isinstance(b, int):
            if pred[0] == 's': a = sext(a, w); b = sext(b, w)
            return int({'eq': a == b, 'ne': a != b, 'lt': a < b, 'le': a <= b, 'gt': a > b, 'ge': a >= b}[pred if pred in ('eq', 'ne') else pred[1:]])
        if w == 1:
            a = boolz(a); b = boolz(b)
            if pred == 'eq': return a == b
            if pred == 'ne': return z3.Xor(a, b)
            a = bv(a, 1); b = bv(b, 1)
        else: a = bv(a, w); b = bv(b, w)
        if pred == 'eq': return a == b
        if pred == 'ne': return a != b
        return {'ult': z3.ULT, 'ule': z3.ULE, 'ugt': z3.UGT, 'uge': z3.UGE, 'slt': lambda x, y: x < y, 'sle': lambda x, y: x <= y, 'sgt': lambda x, y: x > y, 'sge': lambda x, y: x >= y}[pred](a, b)
    def fcmp(self, pred, a, b, t):
        if pred == 'true': return 1
        if pred == 'false': return 0
        if isinstance(a, float) and isinstance(b, float):
            un = math.isnan(a) or math.isnan(b)
            if pred == 'ord': return int(not un)
            if pred == 'uno': return int(un)
            if un: return int(pred[0] == 'u')
            return int({'eq': a == b, 'ne': a != b, 'lt': a < b, 'le': a <= b, 'gt': a > b, 'ge': a >= b}[pred[1:]])
        same = a is b
        a = fp(a, t); b = fp(b, t)
        if t != 'f32':
            x, y = self.unwiden(a), self.unwiden(b)
            if x is not None and y is not None and x.sort() == y.sort(): a, b = x, y
        un = z3.fpIsNaN(a) if same else z3.Or(z3.fpIsNaN(a), z3.fpIsNaN(b))
        if pred == 'ord': return z3.Not(un)
        if pred == 'uno': return un
        k = pred[1:]
        base = {'eq': z3.fpEQ, 'lt': z3.fpLT, 'le': z3.fpLEQ, 'gt': z3.fpGT, 'ge': z3.fpGEQ}
        if k == 'ne':
            r = z3.Not(z3.fpEQ(a, b))
            return z3.And(r, z3.Not(un)) if pred[0] == 'o' else r
        r = base[k](a, b)
        return z3.Or(r, un) if pred[0] == 'u' else r
    def unwiden(self, e):
        """the narrower term e is the lossless widening of, if any"""
        k = e.decl().kind()
        if k == z3.Z3_OP_FPA_TO_FP and e.num_args() == 2:
            x = e.arg(1)
            if isinstance(x, z3.FPRef) and x.sort().sbits() < e.sort().sbits(): return x
        if k == z3.Z3_OP_FPA_NEG:
            x = self.unwiden(e.arg(0))
            return z3.simplify(z3.fpNeg(x)) if x is not None else None
        if z3.is_fp_value(e) and e.sort() == F80:
            x = z3.simplify(z3.fpFPToFP(RNE, e, F64)); y = z3.simplify(z3.fpFPToFP(RNE, x, F80))
            if y.eq(e): return x
        return None
    def uf(self, name, *sorts):
        if name not in self.ufs: self.ufs[name] = z3.Function(name, *sorts)
        if self.cfg.get('ufmemo') and (name.startswith('f') or name.startswith(('sitofp', 'uitofp'))):
            # congruence up to syntactic equality only: keeps the goals in pure FP arithmetic
            def app(*a):
                k = (name,) + tuple(x.get_id() for x in a)
                if k not in self.ufmem: self.ufmem[k] = (z3.FreshConst(sorts[-1], name), a)
                return self.ufmem[k][0]
            return app
        return self.ufs[name]
    def fuf(self, st, op, x, y, t):
        """uninterpreted arithmetic modulo exact IEEE identities: commutativity, x-y = x+(-y), signs of factors"""
        self.approx.add(op + '_' + t)
        neg = lambda e: e.children()[0] if e.decl().kind() == z3.Z3_OP_FPA_NEG else z3.simplify(z3.fpNeg(e))
        if op == 'fsub': op = 'fadd'; y = neg(y)
        sign = False
        if op in ('fmul', 'fdiv'):
            def strip(e):
                if e.decl().kind() == z3.Z3_OP_FPA_NEG: return e.children()[0], True
                if z3.is_fp_value(e) and e.isNegative() and not e.isNaN(): return z3.simplify(z3.fpNeg(e)), True
                return e, False
            x, a = strip(x); y, b = strip(y); sign = a != b
        if op in ('fadd', 'fmul') and x.get_id() > y.get_id(): x, y = y, x
        r = self.uf(op + '_' + t, FPS[t], FPS[t], FPS[t])(x, y)
        if self.cfg.get('ufnan') and op in ('fadd', 'fmul'):
            # exactly when the IEEE operation delivers a NaN
            inf, zero, nan = z3.fpIsInf, z3.fpIsZero, z3.fpIsNaN
            bad = z3.And(inf(x), inf(y), z3.fpIsNegative(x) != z3.fpIsNegative(y)) if op == 'fadd' else z3.Or(z3.And(inf(x), zero(y)), z3.And(zero(x), inf(y)))
            self.assume(st, nan(r) == z3.Or(nan(x), nan(y), bad))
        return z3.fpNeg(r) if sign else r
    def fbin(self, st, op, a, b, t):
        if isinstance(a, float) and isinstance(b, float) and t != 'f80':
            try:
                if op == 'fadd': r = a + b
                elif op == 'fsub': r = a - b
                elif op == 'fmul': r = a * b
                elif op == 'fdiv':
                    if b == 0:
                        if a == 0 or math.isnan(a): r = math.nan
                        else: r = math.copysign(math.inf, a) * math.copysign(1, b)
                    else: r = a / b
                elif op == 'frem':
                    if math.isinf(a) or b == 0 or math.isnan(a) or math.isnan(b): r = math.nan
                    else: r = math.fmod(a, b)
            except OverflowError: r = math.inf
            return rnd32(r) if t == 'f32' else r
        if op in self.fpuf or op + '_' + t in self.fpuf or (op == 'frem'):
            return self.fuf(st, op, fp(a, t), fp(b, t), t)
        x = fp(a, t); y = fp(b, t)
        r = {'fadd': z3.fpAdd, 'fsub': z3.fpSub, 'fmul': z3.fpMul, 'fdiv': z3.fpDiv}[op](RNE, x, y)
        return fpconst(r, t)
    def ibin(self, st, op, a, b, t):
        w = width(t)
        if w == 1:
            if op in ('and', 'mul'):
                if a == 0 if isinstance(a, int) else False: return 0
                if b == 0 if isinstance(b, int) else False: return 0
                return simp(z3.And(boolz(a), boolz(b)))
            if op == 'or': return simp(z3.Or(boolz(a), boolz(b)))
            if op in ('xor', 'add', 'sub'): return simp(z3.Xor(boolz(a), boolz(b)))
            raise Unsupported('i1 ' + op)
        if isinstance(a, Ptr): a = addr_of(a)
        if isinstance(b, Ptr): b = addr_of(b)
        if op in ('udiv', 'sdiv', 'urem', 'srem'):
            z = self.icmp(st, 'eq', b, 0, t)
            if isinstance(z, int):
                if z: self.prove(st, False, 'no division by zero', 'ub'); raise Prune()
            elif not self.must(st, z3.Not(z)):
                self.prove(st, z3.Not(z), 'no division by zero', 'ub'); self.assume(st, z3.Not(z))
        if isinstance(a, int) and isinstance(b, int):
            if op == 'add': r = a + b
            elif op == 'sub': r = a - b
            elif op == 'mul': r = a * b
            elif op == 'and': r = a & b
            elif op == 'or': r = a | b
            elif op == 'xor': r = a ^ b
            elif op == 'shl': r = a << b if b < w else 0
            elif op == 'lshr': r = a >> b if b < w else 0
            elif op == 'ashr': r = sext(a, w) >> min(b, w - 1)
            elif op == 'udiv': r = a // b
            elif op == 'urem': r = a % b
            elif op == 'sdiv':
                x, y = sext(a, w), sext(b, w); r = abs(x) // abs(y); r = -r if (x < 0) != (y < 0) else r
            elif op == 'srem':
                x, y = sext(a, w), sext(b, w); r = abs(x) % abs(y); r = -r if x < 0 else r
            return mask(r, w)
        x = bv(a, w); y = bv(b, w)
        if self.cfg.get('divlem'):
            if op in ('udiv', 'sdiv', 'urem', 'srem') and not isinstance(b, int): return self.divlem(st, op, x, y, w)
            if op == 'mul' and self.divs:
                r = self.mulq(x, y, w)
                if r is None: r = self.mulq(y, x, w)
                if r is not None: return r
        f = {'add': lambda: x + y, 'sub': lambda: x - y, 'mul': lambda: x * y, 'and': lambda: x & y, 'or': lambda: x | y, 'xor': lambda: x ^ y,
             'shl': lambda: x << y, 'lshr': lambda: z3.LShR(x, y), 'ashr': lambda: x >> y, 'udiv': lambda: z3.UDiv(x, y), 'urem': lambda: z3.URem(x, y),
             'sdiv': lambda: x / y, 'srem': lambda: z3.SRem(x, y)}[op]
        return simp(f())
    def divlem(self, st, op, x, y, w):
        """division with symbolic divisor: fresh quotient q and remainder r; products y*q are rewritten to x-r (ring identity of
        machine arithmetic), so that no goal contains a symbolic product.  Sound, incomplete."""
        sg = op[0] == 's'; k = (sg, x.get_id(), y.get_id())
        if k not in self.divs:
            q = z3.FreshConst(z3.BitVecSort(w), 'q'); r = z3.FreshConst(z3.BitVecSort(w), 'r'); self.approx.add('div')
            ax = []
            zero = z3.BitVecVal(0, w)
            if sg:
                ay = z3.If(y < 0, -y, y)
                ax += [z3.Implies(x >= 0, z3.And(r >= 0, r <= x)), z3.Implies(x <= 0, z3.And(r <= 0, r >= x)), z3.Implies(ay > 0, z3.And(r < ay, r > -ay)),
                       z3.Implies(z3.And(x >= 0, y > 0), z3.And(q >= 0, q <= x)), z3.Implies(z3.And(x <= 0, y > 0), z3.And(q <= 0, q >= x)),
                       (z3.And(x >= 0, y > 0, x < y)) == z3.And(x >= 0, y > 0, q == 0), z3.Implies(z3.And(x >= 0, y > 0, x < y), r == x), z3.Implies(y == 1, z3.And(q == x, r == zero))]
            else:
                ax += [z3.ULT(r, y), z3.ULE(r, x), z3.ULE(q, x), z3.ULT(x, y) == (q == 0), z3.Implies(z3.ULT(x, y), r == x), z3.Implies(y == 1, z3.And(q == x, r == zero))]
            for (s2, *_), (x2, y2, q2, r2, _) in list(self.divs.items()):
                if s2 == sg and y2.sort() == y.sort(): ax.append(z3.Implies(z3.And(x2 == x, y2 == y), z3.And(q2 == q, r2 == r)))
            self.divs[k] = (x, y, q, r, ax)
        x, y, q, r, ax = self.divs[k]
        for c in ax:
            if not any(c is p for p in st.pc): st.pc.append(c)
        return q if 'div' in op else r
    def mulq(self, x, y, w, ext=False):
        """x * y where y is a sum containing a quotient by x (or by -x).  ext: also the signed overflow condition"""
        parts = y.children() if y.decl().kind() == z3.Z3_OP_BADD else [y]
        out = []; wide = []; hit = False
        for p in parts:
            c = None; base = p
            if p.decl().kind() == z3.Z3_OP_BMUL and p.num_args() == 2 and z3.is_bv_value(p.arg(0)): c, base = p.arg(0), p.arg(1)
            m = None
            for (xx, yy, q, r, ax) in self.divs.values():
                if q.eq(base) and yy.sort() == x.sort():
                    n = simp(-yy)
                    if yy.eq(x): m = xx - r
                    elif isinstance(n, z3.ExprRef) and n.eq(x): m = r - xx
            if m is not None: hit = True
            elif z3.is_bv_value(p): m, c = x, p
            elif ext: return None
            else: out.append(x * p); continue
            out.append(m * c if c is not None else m)
            if ext:
                k = sext(c.as_long(), w) if c is not None else 1
                if abs(k) > 16: return None
                wide.append(z3.SignExt(8, m) * z3.BitVecVal(k, w + 8))
        if not hit: return None
        r = out[0]
        for o in out[1:]: r = r + o
        r = simp(r)
        if not ext: return r
        s = wide[0]
        for o in wide[1:]: s = s + o
        return [r, simp(z3.SignExt(8, z3.Extract(w - 1, 0, s)) != s)]
    def select(self, st, c, a, b, t):
        """c symbolic Bool"""
        if isinstance(t, dict):
            return [self.select(st, c, x, y, e[1]) for x, y, e in zip(a, b, t['e'])]
        if a is UNDEF: return b
        if b is UNDEF: return a
        if t == 'p':
            if isinstance(a, Ptr) and isinstance(b, Ptr) and a.r == b.r:
                return Ptr(a.r, simp(z3.If(c, bv(a.o & M64 if isinstance(a.o, int) else a.o, 64), bv(b.o & M64 if isinstance(b.o, int) else b.o, 64))))
            if isinstance(a, int) and isinstance(b, int) and a == b: return a
            return None
        if t in FPS: return fpconst(z3.If(c, fp(a, t), fp(b, t)), t)
        if t == 'i1': return simp(z3.If(c, boolz(a), boolz(b)))
        return simp(z3.If(c, bv(a, width(t)), bv(b, width(t))))

    # ------------------------------------------------------------------ execution
    def call(self, st, name, args, res=-1, kind=None, unw=None, rett=None):
        fn = self.fns.get(name)
        if fn is None: raise Unsupported('unknown function ' + name)
        m = self.model_for(fn)
        if m is not None:
            if m not in self.fns or self.fns[m].blocks is None: raise Unsupported('missing model ' + m)
            self.assumed[fn.d] = m
            fn = self.fns[m]
        elif fn.blocks is None: raise Unsupported('no body: ' + fn.d)
        if len(st.frames) > self.cfg.get('maxdepth', 300): raise Unsupported('call depth')
        fr = Frame(fn); fr.res = res; fr.kind = kind; fr.unw = unw
        if fn.blocks is not None: self.entered[fn.d] = self.entered.get(fn.d, 0) + 1
        for (aid, at, *bvsz), v in zip(fn.args, args):
            if bvsz:  # byval copy
                rid = st.new(bvsz[0], 'byval'); fr.allocas.append(rid)
                self.copy_bytes(st, Ptr(rid, 0), v, bvsz[0]); v = Ptr(rid, 0)
            fr.env[aid] = v
        st.frames.append(fr)
    def model_for(self, fn):
        k = ('m', fn.name)
        if k in self.hcache: return self.hcache[k]
        r = None
        for rx, m in self.models:
            if rx.search(fn.d): r = m; break
        self.hcache[k] = r
        return r

    def run(self, entry):
        st = self.run_ctors(State())
        self.call(st, entry, [])
        self.explore([st])
    def run_ctors(self, st):
        """dynamic initialisation of namespace-scope variables, executed concretely; what cannot be executed is left unknown"""
        self.ctor_skipped = []
        for c in self.mod.get('ctors', []):
            if c not in self.fns or self.fns[c].blocks is None: continue
            s = st.fork(); self.call(s, c, [])
            self.in_ctor = True
            try:
                while s.frames:
                    fr = s.frames[-1]; ins = fr.fn.blocks[fr.b][fr.i]; s.nsteps += 1
                    if s.nsteps > 20000: raise Unsupported('too long')
                    self.step(s, fr, ins)
                if s.pc or s.inputs: raise Unsupported('symbolic')
                s.nsteps = 0; st = s
            except (Unsupported, Forks, Prune, Throw, BoundHit, KeyError, IndexError, TypeError, AttributeError, z3.Z3Exception) as e: self.ctor_skipped.append(self.fns[c].d + ': ' + repr(e)[:80])
            finally: self.in_ctor = False
        self.obl.clear(); self.cex.clear(); self.undecided.clear(); self.entered.clear(); self.assumed.clear(); self.bounded.clear()
        if self.cfg.get('debug'): print('ctors skipped', self.ctor_skipped, file=sys.stderr)
        return st
    def explore(self, work, stop=None):
        """depth first; stop(st) -> True when path reached its stop point (for sub executions)"""
        done = []
        while work:
            st = work.pop()
            try:
                r = self.run_path(st, work, stop)
                if r is not None: done.append(r)
            except Budget as e:
                self.undecided.append('budget: ' + str(e)); raise
        return done

    def run_path(self, st, work, stop):
        """run until fork/ending; pushes forks on work"""
        try:
            while True:
                if not st.frames:
                    if st.exc is not None:
                        self.prove(st, False, 'no uncaught exception', 'exc')
                    else: self.reach_end(st)
                    self.stats['paths'] += 1
                    if self.stats['paths'] > self.maxpaths: raise Budget('path budget')
                    return None
                if stop is not None:
                    s = stop(st)
                    if s: return st
                fr = st.frames[-1]
                ins = fr.fn.blocks[fr.b][fr.i]
                st.nsteps += 1; self.stats['steps'] += 1
                if st.nsteps & 0xfff == 0:
                    if time.time() > self.t_end: raise Budget('time budget')
                    if st.nsteps > self.cfg.get('maxsteps', 3000000): raise Budget('step budget')
                try:
                    self.step(st, fr, ins)
                except Throw as t:
                    if self.cfg.get('debug'):
                        print('THROW', t.exc[1], file=sys.stderr)
                        for k, fr in enumerate(st.frames): print('  frame', fr.fn.d[:150], fr.fn.blocks[fr.b][fr.i].get('l'), file=sys.stderr)
                    self.unwind(st, t.exc)
                except Forks as f:
                    # instruction not executed yet: retry in every successor state
                    self.stats['forks'] += 1
                    if self.cfg.get('debug'):
                        q = st.frames[-1] if st.frames else fr; k2 = fr.fn.d[:110] + ':' + str(ins.get('l')) + ' ' + ins['o']; self.fsites[k2] = self.fsites.get(k2, 0) + 1
                    for s in f.states: work.append(s)
                    return None
        except Prune:
            self.stats['paths'] += 1
            return None
        except BoundHit as e:
            self.bounded[str(e)] = self.bounded.get(str(e), 0) + 1
            self.stats['paths'] += 1
            return None
        except Unsupported as e:
            w = self.where(st)
            if self.cfg.get('debug'):
                f = st.frames[-1]; print('UNSUPPORTED', e, f.fn.d[:200], f.fn.blocks[f.b][f.i], file=sys.stderr)
                for q in f.fn.blocks[f.b][max(0, f.i - 8):f.i + 1]: print('   ', json.dumps(q)[:400], file=sys.stderr)
                for k, fr in enumerate(st.frames[:-1]): print('  frame', fr.fn.d[:150], file=sys.stderr)
            self.undecided.append('unsupported: ' + str(e) + ' @ ' + ' < '.join(w[:4]))
            self.stats['paths'] += 1
            return None
        except RecursionError: 
            self.undecided.append('recursion'); return None
    def reach_end(self, st):
        o = self.obl.setdefault('no uncaught exception', dict(proved=0, failed=0, unknown=0, kind='exc', solver_s=0.0, trivial=0))
        o['proved'] += 1; o['trivial'] += 1
        self.covers['end'] = self.covers.get('end', 0) + 1

    # exceptions: exc = (Ptr object, typeinfo name)
    def unwind(self, st, exc):
        st.exc = exc
        while st.frames:
            fr = st.frames[-1]
            ins = fr.fn.blocks[fr.b][fr.i]
            if ins['o'] == 'invoke' :
                st.exc = exc
                fr.prev = fr.b; tgt = ins['s'][1]
                lp = None
                for x in fr.fn.blocks[tgt]:
                    if x['o'] == 'landingpad': lp = x; break
                    if x['o'] != 'phi': break
                if lp is None: raise Unsupported('no landingpad')
                sel = self.match(st, lp, exc)
                if sel is not None:
                    self.goto(st, fr, tgt)
                    fr.env[lp['r']] = [exc[0], sel]
                    # skip to after landingpad
                    blk = fr.fn.blocks[tgt]
                    fr.i = next(i for i, x in enumerate(blk) if x is lp) + 1
                    st.exc = None
                    st.ghost['inflight'] = exc
                    return
            self.pop_frame(st)
            if st.frames and st.ghost.get('subbase') and len(st.frames) < st.ghost['subbase']: break
        st.exc = exc
    def match(self, st, lp, exc):
        for kind, c in lp['clauses']:
            if kind == 'f':
                if c[0] == 'z' or (c[0] == 'agg' and not c[2]): return mask(-1, 32)
                continue
            if c[0] == 'n': return self.typeid('*')
            if c[0] == 'g' and self.is_a(exc[1], c[1]): return self.typeid(c[1])
            if c[0] == 'ce+' : raise Unsupported('catch clause')
        if lp['cleanup']: return 0
        return None
    def typeid(self, n):
        k = self.hcache.setdefault('typeids', {})
        if n not in k: k[n] = len(k) + 1
        return k[n]
    STDB = {'_ZTISt9exception': [], '_ZTISt13runtime_error': ['_ZTISt9exception'], '_ZTISt11logic_error': ['_ZTISt9exception'], '_ZTISt12out_of_range': ['_ZTISt11logic_error'],
            '_ZTISt16invalid_argument': ['_ZTISt11logic_error'], '_ZTISt12length_error': ['_ZTISt11logic_error'], '_ZTISt12domain_error': ['_ZTISt11logic_error'], '_ZTISt9bad_alloc': ['_ZTISt9exception'],
            '_ZTISt8bad_cast': ['_ZTISt9exception'], '_ZTISt12system_error': ['_ZTISt13runtime_error'], '_ZTISt14overflow_error': ['_ZTISt13runtime_error'], '_ZTISt11range_error': ['_ZTISt13runtime_error'],
            '_ZTISt17bad_function_call': ['_ZTISt9exception']}
    def bases(self, ti):
        """[(base typeinfo name, offset|None)]"""
        g = self.globals.get(ti)
        if ti in self.STDB: return [(b, 0) for b in self.STDB[ti]]
        if g is None or g['ext']: return []
        cells = {o: c for o, c in g['init'] if c[0] != 'zero'}
        vt = cells.get(0)
        def nm(c):
            while c[0] == 'ce+': c = c[1]
            return c[1] if c[0] == 'g' else ''
        v = nm(vt) if vt else ''
        if 'si_class' in v: return [(nm(cells[16]), 0)]
        if 'vmi_class' in v:
            n = int(cells[20][2]); out = []
            for i in range(n):
                out.append((nm(cells[24 + 16 * i]), sext(int(cells[32 + 16 * i][2]), 64) >> 8 if not int(cells[32 + 16 * i][2]) & 1 else None))
            return out
        return []
    def is_a(self, ti, want):
        if ti == want: return True
        return any(self.is_a(b, want) for b, _ in self.bases(ti))

    def pop_frame(self, st):
        fr = st.frames.pop()
        for rid in fr.allocas:
            if rid in st.mem:
                r = st.wr(rid); r.alive = False; r.cells = {}; r.arr = None
        return fr

    def goto(self, st, fr, b):
        blk = fr.fn.blocks[b]
        old = fr.b
        fr.prev = old
        # evaluate phis in parallel
        if blk and blk[0]['o'] == 'phi':
            vals = []; i = 0
            while blk[i]['o'] == 'phi':
                p = blk[i]
                for pb, o in p['a']:
                    if pb == old:
                        vals.append((p['r'], self.val(st, fr, o))); break
                else: raise Unsupported('phi without incoming')
                i += 1
            for r, v in vals: fr.env[r] = v
            fr.b = b; fr.i = i
        else:
            fr.b = b; fr.i = 0
        if fr.lps is None and fr.visits is None and b > old: return
        self.loop_enter(st, fr, b, old)
    def loop_enter(self, st, fr, b, old):
        L = fr.fn.loops()
        # leaving loops resets their counters
        if b in L:
            if fr.visits is None: fr.visits = {}
            if old in L[b]:
                fr.visits[b] = fr.visits.get(b, 0) + 1
                if fr.visits[b] > 20000: raise Unsupported('loop too long')
            else: fr.visits[b] = 0; fr.visits[('s', b)] = 0

    def step(self, st, fr, ins):
        op = ins['o']
        h = self.OPS.get(op)
        if h is None: raise Unsupported('instruction ' + op)
        h(self, st, fr, ins)

    # --- instruction handlers
    def op_binop(self, st, fr, ins):
        t = ins['t']
        if isinstance(t, dict):
            a = self.val(st, fr, ins['a'][0]); b = self.val(st, fr, ins['a'][1])
            out = []
            for x, y, (o, et) in zip(a, b, t['e']):
                if x is UNDEF or y is UNDEF: out.append(UNDEF); continue
                out.append(self.fbin(st, ins['o'], x, y, et) if et in FPS else self.ibin(st, ins['o'], x, y, et))
            fr.env[ins['r']] = out; fr.i += 1; return
        a = self.val(st, fr, ins['a'][0], t); b = self.val(st, fr, ins['a'][1], t)
        r = self.fbin(st, ins['o'], a, b, t) if t in FPS else self.ibin(st, ins['o'], a, b, t)
        fr.env[ins['r']] = r; fr.i += 1
    def op_fneg(self, st, fr, ins):
        t = ins['t']
        def neg(a, t):
            if isinstance(a, float): return -a
            return z3.simplify(z3.fpNeg(fp(a, t)))
        if isinstance(t, dict):
            fr.env[ins['r']] = [neg(x, e[1]) for x, e in zip(self.val(st, fr, ins['a'][0]), t['e'])]
        else: fr.env[ins['r']] = neg(self.val(st, fr, ins['a'][0], t), t)
        fr.i += 1
    def op_icmp(self, st, fr, ins):
        t = ins['ot']
        a = self.val(st, fr, ins['a'][0], None if isinstance(t, dict) else t); b = self.val(st, fr, ins['a'][1], None if isinstance(t, dict) else t)
        if isinstance(t, dict): r = [simp(self.icmp(st, ins['p'], x, y, e[1])) for x, y, e in zip(a, b, t['e'])]
        else:
            r = self.icmp(st, ins['p'], a, b, t)
            if not isinstance(r, int): r = simp(r)
        fr.env[ins['r']] = r; fr.i += 1
    def op_fcmp(self, st, fr, ins):
        t = ins['ot']
        a = self.val(st, fr, ins['a'][0], None if isinstance(t, dict) else t); b = self.val(st, fr, ins['a'][1], None if isinstance(t, dict) else t)
        if isinstance(t, dict): r = [simp(self.fcmp(ins['p'], x, y, e[1])) for x, y, e in zip(a, b, t['e'])]
        else: r = simp(self.fcmp(ins['p'], a, b, t))
        fr.env[ins['r']] = r; fr.i += 1
    def op_load(self, st, fr, ins):
        p = self.val(st, fr, ins['a'][0], 'p')
        v = self.load(st, p, ins['t'])
        fr.env[ins['r']] = v; fr.i += 1
    def op_store(self, st, fr, ins):
        v = self.val(st, fr, ins['a'][0]); p = self.val(st, fr, ins['a'][1], 'p')
        self.store(st, p, v, ins['ot']); fr.i += 1
    def op_alloca(self, st, fr, ins):
        n = self.val(st, fr, ins['a'][0])
        sz = ins['size'] * n if isinstance(n, int) else None
        if sz is None: raise Unsupported('variable alloca')
        rid = st.new(sz, 'alloca'); fr.allocas.append(rid)
        fr.env[ins['r']] = Ptr(rid, 0); fr.i += 1
    def op_gep(self, st, fr, ins):
        p = self.val(st, fr, ins['a'][0], 'p')
        off = ins['base']
        sym = None
        for o, t, s in ins['var']:
            v = self.val(st, fr, o, t); w = width(t)
            if isinstance(v, Ptr): v = addr_of(v)
            if isinstance(v, int): off += sext(v, w) * s
            else:
                e = z3.SignExt(64 - w, v) if w < 64 else v
                e = e * z3.BitVecVal(s, 64)
                sym = e if sym is None else sym + e
        if isinstance(p, Ptr):
            if sym is None:
                r = Ptr(p.r, p.o + off) if isinstance(p.o, int) else Ptr(p.r, simp(p.o + z3.BitVecVal(off & M64, 64)))
            else:
                b = z3.BitVecVal(p.o & M64, 64) if isinstance(p.o, int) else p.o
                o = simp(b + sym + z3.BitVecVal(off & M64, 64))
                if isinstance(o, int): o = sext(o, 64)
                r = Ptr(p.r, o)
        else:
            if sym is None and isinstance(p, int): r = mask(p + off, 64)
            else:
                e = bv(p, 64) + z3.BitVecVal(off & M64, 64)
                if sym is not None: e = e + sym
                r = simp(e)
        fr.env[ins['r']] = r; fr.i += 1
    def op_cast(self, st, fr, ins):
        op = ins['o']; ft = ins['ot']; t = ins['t']
        if isinstance(t, dict) or isinstance(ft, dict):
            a = self.val(st, fr, ins['a'][0])
            if isinstance(t, dict) and isinstance(ft, dict) and len(t['e']) == len(ft['e']):
                fr.env[ins['r']] = [UNDEF if x is UNDEF else self.cast(st, op, x, f[1], e[1]) for x, f, e in zip(a, ft['e'], t['e'])]
                fr.i += 1; return
            if op == 'bitcast':
                rid = st.new(16, 'tmp'); self.store(st, Ptr(rid, 0), a, ft); r = self.load(st, Ptr(rid, 0), t); st.mem.pop(rid)
                fr.env[ins['r']] = r; fr.i += 1; return
            raise Unsupported('vector cast')
        a = self.val(st, fr, ins['a'][0], ft)
        fr.env[ins['r']] = self.cast(st, op, a, ft, t); fr.i += 1
    def cast(self, st, op, a, ft, t):
        if op == 'bitcast':
            if ft == t: return a
            if ft == 'p' or t == 'p': return a
            return from_bits(to_bits(a, ft), t)
        if op == 'ptrtoint':
            r = addr_of(a); w = width(t)
            if w == 64: return simp(r) if not isinstance(r, int) else r
            return mask(r, w) if isinstance(r, int) else simp(z3.Extract(w - 1, 0, r))
        if op == 'inttoptr':
            if isinstance(a, int): return self.toptr(st, a)
            return a
        if op in ('trunc', 'zext', 'sext'):
            fw, w = width(ft), width(t)
            if isinstance(a, Ptr): a = addr_of(a)
            if isinstance(a, (int, bool)):
                a = int(a)
                if op == 'sext': return mask(sext(a, fw), w)
                return mask(a, w)
            if fw == 1:
                a = boolz(a)
                return simp(z3.If(a, z3.BitVecVal(1 if op == 'zext' else -1, w), z3.BitVecVal(0, w)))
            if w == 1: return simp(z3.Extract(0, 0, a) == 1)
            if op == 'trunc': return simp(z3.Extract(w - 1, 0, a))
            return simp((z3.ZeroExt if op == 'zext' else z3.SignExt)(w - fw, a))
        if op in ('fpext', 'fptrunc'):
            if isinstance(a, float) and t != 'f80': return rnd32(a) if t == 'f32' else a
            if op == 'fptrunc' and isinstance(a, z3.ExprRef):
                x = self.unwiden(a)
                if x is not None and x.sort() == FPS[t]: return x
                if 'trunc_' + ft in self.fpuf:
                    # rounding: uninterpreted, with the instances of monotonicity/exactness for the widened terms at hand
                    self.approx.add('fptrunc'); r = self.uf(f'fptrunc_{ft}_{t}', FPS[ft], FPS[t])(a)
                    st.pc.append(z3.fpIsNaN(r) == z3.fpIsNaN(a))
                    for n, wd in list(self.widened.values())[:16]:
                        if n.sort() == FPS[t] and wd.sort() == FPS[ft]: st.pc.append(z3.And(z3.Implies(z3.fpGEQ(a, wd), z3.fpGEQ(r, n)), z3.Implies(z3.fpLEQ(a, wd), z3.fpLEQ(r, n))))
                    return r
            if op == 'fpext':
                x = fp(a, ft); r = fpconst(z3.fpFPToFP(RNE, x, FPS[t]), t)
                if isinstance(x, z3.FPRef) and isinstance(r, z3.FPRef): self.widened[x.get_id()] = (x, r)
                return r
            return fpconst(z3.fpFPToFP(RNE, fp(a, ft), FPS[t]), t)
        if op in ('sitofp', 'uitofp'):
            if ft == 'i1' and not isinstance(a, int): a = bv(a, 1)
            if isinstance(a, int):
                v = sext(a, width(ft)) if op == 'sitofp' else a
                if t == 'f64': return float(v)
                if t == 'f80': return z3.simplify(z3.fpToFP(RNE, z3.BitVecVal(v, 80), F80)) 
            x = bv(a, width(ft))
            if 'conv_' + t in self.fpuf: self.approx.add('conv'); return self.uf(f'{op}_{ft}_{t}', x.sort(), FPS[t])(x)
            r = z3.fpSignedToFP(RNE, x, FPS[t]) if op == 'sitofp' else z3.fpUnsignedToFP(RNE, x, FPS[t])
            return fpconst(r, t)
        if op in ('fptosi', 'fptoui'):
            w = width(t)
            if isinstance(a, float):
                if math.isfinite(a):
                    v = int(a)
                    lo, hi = (-(1 << w - 1), (1 << w - 1) - 1) if op == 'fptosi' else (0, (1 << w) - 1)
                    if lo <= v <= hi: return mask(v, w)
                return UNDEF
            x = fp(a, ft)
            if 'conv_' + ft in self.fpuf: self.approx.add('conv'); return self.uf(f'{op}_{ft}_{t}', FPS[ft], z3.BitVecSort(w))(x)
            r = z3.fpToSBV(RTZ, x, z3.BitVecSort(w)) if op == 'fptosi' else z3.fpToUBV(RTZ, x, z3.BitVecSort(w))
            return simp(r)
        raise Unsupported('cast ' + op)
    def op_select(self, st, fr, ins):
        t = ins['t']
        c = self.val(st, fr, ins['a'][0], None if isinstance(ins['ot'], dict) else 'i1')
        a = self.val(st, fr, ins['a'][1]); b = self.val(st, fr, ins['a'][2])
        if isinstance(c, list):
            r = [x if isinstance(cc, int) and cc == 1 else (y if isinstance(cc, int) else self.select(st, boolz(cc), x, y, e[1])) for cc, x, y, e in zip(c, a, b, t['e'])]
            fr.env[ins['r']] = r; fr.i += 1; return
        if isinstance(c, int): fr.env[ins['r']] = a if c else b; fr.i += 1; return
        tt, ff, c = self.branch(st, c) if t == 'p' else (True, True, c)
        if not ff: fr.env[ins['r']] = a; fr.i += 1; return
        if not tt: fr.env[ins['r']] = b; fr.i += 1; return
        r = self.select(st, boolz(c), a, b, t)
        if r is None:
            s2 = st.fork(); self.assume(s2, z3.Not(c)); self.assume(st, c)
            raise Forks([s2, st])
        fr.env[ins['r']] = r; fr.i += 1
    def op_br(self, st, fr, ins):
        s = ins['s']
        if len(s) == 1: return self.goto(st, fr, s[0])
        c = self.val(st, fr, ins['a'][0], 'i1')
        if isinstance(c, int): return self.goto(st, fr, s[0] if c else s[1])
        t, f, c = self.branch(st, c)
        if t and f:
            if self.loopmode == 'inv' and self.loopeng.try_summarize(st, fr, c): return
            self.sym_loop(st, fr)
            s2 = st.fork(); self.stats['forks'] += 1
            self.assume(st, c); self.assume(s2, z3.Not(c))
            # schedule: execute both by raising Forks after moving
            self.goto(st, st.frames[-1], s[0]); self.goto(s2, s2.frames[-1], s[1])
            raise Forks([s2, st])
        if not isinstance(c, int): self.assume(st, c if t else z3.Not(c))
        self.goto(st, fr, s[0] if t else s[1])
    def sym_loop(self, st, fr):
        """count symbolic decisions per loop; bound them"""
        L = fr.fn.loops()
        for h, body in L.items():
            if fr.b in body:
                if fr.visits is None: fr.visits = {}
                k = ('s', h); it = (h, fr.visits.get(h, 0))
                if fr.visits.get(('l', h)) != it:
                    fr.visits[('l', h)] = it
                    fr.visits[k] = fr.visits.get(k, 0) + 1
                if fr.visits[k] > self.unroll: raise BoundHit(fr.fn.d[:120] + f' loop@{h}')
    def op_switch(self, st, fr, ins):
        w = width(ins['ct'])
        c = self.val(st, fr, ins['a'][0], ins['ct'])
        if isinstance(c, int):
            for v, b in ins['cases']:
                if int(v) == c: return self.goto(st, fr, b)
            return self.goto(st, fr, ins['def'])
        outs = []; rest = []
        bt = {}
        for v, b in ins['cases']: bt.setdefault(b, []).append(bv(c, w) == int(v)); rest.append(bv(c, w) != int(v))
        opts = [(z3.Or(*cs) if len(cs) > 1 else cs[0], b) for b, cs in bt.items()] + [(z3.And(*rest), ins['def'])]
        opts = [(simp(x), b) for x, b in opts]
        ok = [(x, b) for x, b in opts if self.feasible(st, boolz(x))]
        if not ok: raise Prune()
        states = []
        if len(ok) > 1: self.sym_loop(st, fr)
        for i, (x, b) in enumerate(ok):
            s = st if i == len(ok) - 1 else st.fork()
            self.assume(s, x); self.goto(s, s.frames[-1], b); states.append(s)
        if len(ok) > 1: raise Forks(states)
    def op_ret(self, st, fr, ins):
        v = None
        if ins['a']:
            t = ins['ot']
            v = self.val(st, fr, ins['a'][0])
        self.do_ret(st, v)
    def do_ret(self, st, v):
        fr = self.pop_frame(st)
        if fr.kind is not None:
            k = fr.kind
            if k[0] == 'sub': st.ghost['subret'] = v; return
            if k[0] == 'cb': k[1](st, v); return
        if st.frames:
            c = st.frames[-1]
            ins = c.fn.blocks[c.b][c.i]
            if fr.res >= 0: c.env[fr.res] = v
            if ins['o'] == 'invoke': self.goto(st, c, ins['s'][0])
            else: c.i += 1
    def finish_call(self, st, fr, ins, v):
        if ins['r'] >= 0: fr.env[ins['r']] = v
        if ins['o'] == 'invoke': self.goto(st, fr, ins['s'][0])
        else: fr.i += 1
    def op_call(self, st, fr, ins):
        f = ins['f']
        if isinstance(f, list) and f[0] == 'g': name = f[1]
        elif isinstance(f, list) and f[0] == 'asm': return self.finish_call(st, fr, ins, None)
        else:
            p = self.val(st, fr, f, 'p')
            p = self.resolve(st, p, 'call')
            r = st.mem.get(p.r) or self.base.mem.get(p.r)
            if r.kind != 'fn': raise Unsupported('call of data pointer')
            name = r.fn
        fn = self.fns.get(name)
        args = [self.val(st, fr, a, t if isinstance(t, str) and t != 'x' and t != 'void' else None) for a, t in zip(ins['a'], ins['at'])]
        # handlers
        h = self.handler(name, fn)
        if h is not None:
            v = h(st, fr, ins, fn, args)
            if v is self.nat.CALLED: return
            return self.finish_call(st, fr, ins, v)
        self.call(st, name, args, ins['r'])
    def handler(self, name, fn):
        h = self.hcache.get(name, 0)
        if h != 0: return h
        h = self.nat.find(name, fn)
        self.hcache[name] = h
        return h
    def op_unreachable(self, st, fr, ins):
        self.prove(st, False, 'no undefined behaviour (unreachable reached)', 'ub'); raise Prune()
    def op_landingpad(self, st, fr, ins): raise Unsupported('landingpad reached normally')
    def op_resume(self, st, fr, ins):
        v = self.val(st, fr, ins['a'][0])
        exc = st.ghost.get('exc_of', {}).get(v[0].r) if isinstance(v[0], Ptr) else None
        if exc is None: raise Unsupported('resume')
        self.pop_frame(st)
        self.unwind(st, exc)
    def op_extractvalue(self, st, fr, ins):
        v = self.val(st, fr, ins['a'][0])
        for i in ins['ix']: 
            if v is UNDEF: break
            v = v[i]
        fr.env[ins['r']] = v; fr.i += 1
    def op_insertvalue(self, st, fr, ins):
        v = self.val(st, fr, ins['a'][0]); x = self.val(st, fr, ins['a'][1])
        def ins_(v, ix, t):
            v = list(v) if v is not UNDEF else self.undef_agg(t)
            if len(ix) == 1: v[ix[0]] = x
            else: v[ix[0]] = ins_(v[ix[0]], ix[1:], t['e'][ix[0]][1])
            return v
        fr.env[ins['r']] = ins_(v, ins['ix'], ins['t']); fr.i += 1
    def op_extractelement(self, st, fr, ins):
        v = self.val(st, fr, ins['a'][0]); i = self.val(st, fr, ins['a'][1])
        if not isinstance(i, int): raise Unsupported('symbolic lane')
        fr.env[ins['r']] = v[i] if v is not UNDEF else UNDEF; fr.i += 1
    def op_insertelement(self, st, fr, ins):
        v = self.val(st, fr, ins['a'][0]); x = self.val(st, fr, ins['a'][1]); i = self.val(st, fr, ins['a'][2])
        if not isinstance(i, int): raise Unsupported('symbolic lane')
        v = list(v) if v is not UNDEF else self.undef_agg(ins['t']); v[i] = x
        fr.env[ins['r']] = v; fr.i += 1
    def op_shufflevector(self, st, fr, ins):
        a = self.val(st, fr, ins['a'][0]); b = self.val(st, fr, ins['a'][1])
        n = len(a) if a is not UNDEF else len(b)
        if a is UNDEF: a = [UNDEF] * n
        if b is UNDEF: b = [UNDEF] * n
        ab = list(a) + list(b)
        fr.env[ins['r']] = [UNDEF if m < 0 else ab[m] for m in ins['mask']]; fr.i += 1
    def op_freeze(self, st, fr, ins):
        fr.env[ins['r']] = self.val(st, fr, ins['a'][0], ins['t'] if isinstance(ins['t'], str) else None); fr.i += 1
    def op_fence(self, st, fr, ins): fr.i += 1
    def op_atomicrmw(self, st, fr, ins):
        p = self.val(st, fr, ins['a'][0], 'p'); t = ins['vt']; v = self.val(st, fr, ins['a'][1], t)
        old = self.load(st, p, t)
        k = ins['rmw']
        if k == 'xchg': new = v
        elif k in ('add', 'sub', 'and', 'or', 'xor'): new = self.ibin(st, k, old, v, t)
        else: raise Unsupported('atomicrmw ' + k)
        self.store(st, p, new, t); fr.env[ins['r']] = old; fr.i += 1
    def op_cmpxchg(self, st, fr, ins):
        p = self.val(st, fr, ins['a'][0], 'p'); t = ins['vt']; c = self.val(st, fr, ins['a'][1], t); n = self.val(st, fr, ins['a'][2], t)
        old = self.load(st, p, t)
        e = simp(self.icmp(st, 'eq', old, c, t))
        if not isinstance(e, int):
            tt, ff, e = self.branch(st, e)
            if tt and ff:
                s2 = st.fork(); self.assume(s2, z3.Not(e)); self.assume(st, e); raise Forks([s2, st])
            e = int(tt)
        if e: self.store(st, p, n, t)
        fr.env[ins['r']] = [old, e]; fr.i += 1

    OPS = {}
for _o in 'add sub mul and or xor shl lshr ashr udiv sdiv urem srem fadd fsub fmul fdiv frem'.split(): Engine.OPS[_o] = Engine.op_binop
for _o in 'trunc zext sext bitcast ptrtoint inttoptr fpext fptrunc sitofp uitofp fptosi fptoui'.split(): Engine.OPS[_o] = Engine.op_cast
Engine.OPS.update(dict(fneg=Engine.op_fneg, icmp=Engine.op_icmp, fcmp=Engine.op_fcmp, load=Engine.op_load, store=Engine.op_store, alloca=Engine.op_alloca,
    getelementptr=Engine.op_gep, select=Engine.op_select, br=Engine.op_br, switch=Engine.op_switch, ret=Engine.op_ret, call=Engine.op_call, invoke=Engine.op_call,
    unreachable=Engine.op_unreachable, landingpad=Engine.op_landingpad, resume=Engine.op_resume, extractvalue=Engine.op_extractvalue, insertvalue=Engine.op_insertvalue,
    extractelement=Engine.op_extractelement, insertelement=Engine.op_insertelement, shufflevector=Engine.op_shufflevector, freeze=Engine.op_freeze, fence=Engine.op_fence,
    atomicrmw=Engine.op_atomicrmw, cmpxchg=Engine.op_cmpxchg))
