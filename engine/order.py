"""Order encoding of floating-point comparisons.

Every floating-point atom x becomes (nan, key, zneg): key is the sign-magnitude integer of x's bit pattern, so that
comparisons of floating-point numbers are comparisons of integers.  For terms built from variables, constants,
negation, absolute value and if-then-else the encoding is exact (a model of one is a model of the other); every other
floating-point term becomes an unconstrained atom, and 'exact' is false: then only 'unsat' answers are used."""
import z3
K = z3
PAR = {(11, 53): (52, 0x7ff), (8, 24): (23, 0xff)}

class Order:
    def __init__(self): self.fc = {}; self.bc = {}; self.side = {}; self.n = 0; self.hf = {}; self.keep = []
    def has_fp(self, e):
        i = e.get_id(); r = self.hf.get(i)
        if r is not None: return r
        st = [e]; seen = set(); r = False
        while st:
            x = st.pop(); j = x.get_id()
            if j in seen: continue
            seen.add(j)
            q = self.hf.get(j)
            if q is False: continue
            if q or isinstance(x, (z3.FPRef, z3.FPRMRef)): r = True; break
            if z3.is_quantifier(x): continue
            st.extend(x.children())
        self.hf[i] = r; self.keep.append(e); return r
    def atom(self, e):
        """(nan, key, zneg, exact, side conditions)"""
        i = e.get_id(); r = self.fc.get(i)
        if r is not None: return r
        d = e.decl(); k = d.kind(); s = e.sort(); p = PAR.get((s.ebits(), s.sbits())); r = None
        if p:
            mb, em = p; inf = em << mb
            if z3.is_fp_value(e):
                if e.isNaN(): r = (z3.BoolVal(True), z3.IntVal(0), z3.BoolVal(False), True, ())
                else:
                    if e.isInf(): m = inf
                    elif e.isZero(): m = 0
                    else: m = (e.exponent_as_long(True) << mb) | e.significand_as_long()
                    neg = e.isNegative(); r = (z3.BoolVal(False), z3.IntVal(-m if neg else m), z3.BoolVal(bool(neg)), True, ())
            elif k == z3.Z3_OP_FPA_NEG:
                n, q, z, ex, sd = self.atom(e.arg(0)); r = (n, -q, z3.Not(z), ex, sd)
            elif k == z3.Z3_OP_FPA_ABS:
                n, q, z, ex, sd = self.atom(e.arg(0)); r = (n, z3.If(q < 0, -q, q), z3.BoolVal(False), ex, sd)
            elif k == z3.Z3_OP_ITE:
                c, cx, cs = self.enc(e.arg(0)); a = self.atom(e.arg(1)); b = self.atom(e.arg(2))
                r = (z3.If(c, a[0], b[0]), z3.If(c, a[1], b[1]), z3.If(c, a[2], b[2]), cx and a[3] and b[3], cs + a[4] + b[4])
        if r is None:
            self.n += 1; n = z3.Bool(f'nan?{self.n}'); q = z3.Int(f'key?{self.n}'); z = z3.Bool(f'zneg?{self.n}')
            sd = (z3.And(q >= -inf, q <= inf),) if p else ()
            r = (n, q, z, bool(p) and k == z3.Z3_OP_UNINTERPRETED and e.num_args() == 0, sd)
        self.fc[i] = r; self.keep.append(e); return r
    def enc(self, e):
        """(encoded term, exact, side conditions)"""
        if not self.has_fp(e): return e, True, ()
        i = e.get_id(); r = self.bc.get(i)
        if r is not None: return r
        k = e.decl().kind(); ch = e.children(); r = None
        if z3.is_quantifier(e): r = None
        elif ch and all(isinstance(c, z3.FPRef) for c in ch) and z3.is_bool(e):
            A = [self.atom(c) for c in ch]; ex = all(a[3] for a in A); sd = sum((a[4] for a in A), ())
            mb, em = PAR.get((ch[0].sort().ebits(), ch[0].sort().sbits()), (0, 0)); inf = em << mb
            if len(A) == 2:
                (n1, q1, z1, *_), (n2, q2, z2, *_) = A; o = z3.And(z3.Not(n1), z3.Not(n2))
                t = {z3.Z3_OP_FPA_EQ: lambda: z3.And(o, q1 == q2), z3.Z3_OP_FPA_LT: lambda: z3.And(o, q1 < q2), z3.Z3_OP_FPA_GT: lambda: z3.And(o, q1 > q2),
                     z3.Z3_OP_FPA_LE: lambda: z3.And(o, q1 <= q2), z3.Z3_OP_FPA_GE: lambda: z3.And(o, q1 >= q2),
                     z3.Z3_OP_EQ: lambda: z3.Or(z3.And(n1, n2), z3.And(o, q1 == q2, z3.Or(q1 != 0, z1 == z2)))}.get(k)
                if t: r = (t(), ex, sd)
            elif len(A) == 1 and inf:
                n, q, z, *_ = A[0]; m = z3.Not(n)
                t = {z3.Z3_OP_FPA_IS_NAN: lambda: n, z3.Z3_OP_FPA_IS_INF: lambda: z3.And(m, z3.Or(q == inf, q == -inf)), z3.Z3_OP_FPA_IS_ZERO: lambda: z3.And(m, q == 0),
                     z3.Z3_OP_FPA_IS_NEGATIVE: lambda: z3.And(m, z3.Or(q < 0, z3.And(q == 0, z))), z3.Z3_OP_FPA_IS_POSITIVE: lambda: z3.And(m, z3.Or(q > 0, z3.And(q == 0, z3.Not(z))))}.get(k)
                if t: r = (t(), ex, sd)
        elif ch and not any(isinstance(c, (z3.FPRef, z3.FPRMRef)) for c in ch) and not isinstance(e, (z3.FPRef, z3.ArrayRef)):
            E = [self.enc(c) for c in ch]; nc = [x[0] for x in E]
            sd = sum((x[2] for x in E), ())
            t = z3.And(nc) if z3.is_and(e) else z3.Or(nc) if z3.is_or(e) else z3.Distinct(nc) if z3.is_distinct(e) else e.decl()(*nc)
            r = (t, all(x[1] for x in E), sd)
        if r is None:
            self.n += 1
            if z3.is_bool(e): r = (z3.Bool(f'abs?{self.n}'), False, ())
            else: r = (z3.Const(f'abs?{self.n}', e.sort()), False, ())
        self.bc[i] = r; self.keep.append(e); return r
