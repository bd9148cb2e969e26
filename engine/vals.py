"""Value and memory layer of the VC generator: typed values over z3 terms, region memory with copy-on-write."""
import struct, math
import z3

F32 = z3.Float32(); F64 = z3.Float64(); F80 = z3.FPSort(15, 64)
FPS = {'f32': F32, 'f64': F64, 'f80': F80}
FSZ = {'f32': 4, 'f64': 8, 'f80': 16}
RNE = z3.RNE(); RTZ = z3.RTZ(); RTN = z3.RTN(); RTP = z3.RTP(); RNA = z3.RNA()
BV64 = z3.BitVecSort(64)
z3.set_param('auto_config', True)

class Unsupported(Exception):
    """construct outside the verifier's reach: the obligations behind it stay undecided"""

class Ptr:
    __slots__ = ('r', 'o')
    def __init__(self, r, o): self.r = r; self.o = o
    def __repr__(self): return f'<{self.r}+{self.o}>'

class Undef:
    def __repr__(self): return 'undef'
UNDEF = Undef()

BASE_SHIFT = 40
def addr_of(p):
    """BV64 / int address of a Ptr"""
    if isinstance(p, Ptr):
        b = (p.r + 1) << BASE_SHIFT
        if isinstance(p.o, int): return (b + p.o) & M64
        return z3.BitVecVal(b, 64) + p.o
    return p
M64 = (1 << 64) - 1

def width(t): return int(t[1:])
def mask(v, w): return v & ((1 << w) - 1)
def sext(v, w):
    return v - (1 << w) if v >> (w - 1) & 1 else v

def bv(v, w):
    """to z3 bitvector"""
    if isinstance(v, bool): v = int(v)
    if isinstance(v, int): return z3.BitVecVal(v, w)
    if isinstance(v, z3.BoolRef): return z3.If(v, z3.BitVecVal(1, w), z3.BitVecVal(0, w))
    if isinstance(v, Ptr): return bv(addr_of(v), 64)
    if isinstance(v, float): raise Unsupported('float as bv')
    return v
def boolz(v):
    if isinstance(v, (bool, int)): return z3.BoolVal(bool(v))
    if isinstance(v, z3.BitVecRef): return v == 1
    return v

def f2bits(x, t):
    if t == 'f64': return struct.unpack('<Q', struct.pack('<d', x))[0]
    return struct.unpack('<I', struct.pack('<f', x))[0]
def bits2f(b, t):
    if t == 'f64': return struct.unpack('<d', struct.pack('<Q', b))[0]
    return struct.unpack('<f', struct.pack('<I', b))[0]
def rnd32(x):
    try: return struct.unpack('<f', struct.pack('<f', x))[0]
    except OverflowError: return math.copysign(math.inf, x)

def fp(v, t):
    """to z3 FP term"""
    if isinstance(v, float):
        if math.isnan(v): return z3.fpNaN(FPS[t])
        if math.isinf(v): return z3.fpPlusInfinity(FPS[t]) if v > 0 else z3.fpMinusInfinity(FPS[t])
        if t == 'f80':
            return z3.simplify(z3.fpToFP(RNE, z3.fpBVToFP(z3.BitVecVal(f2bits(v, 'f64'), 64), F64), F80))
        return z3.simplify(z3.fpBVToFP(z3.BitVecVal(f2bits(v, t), 32 if t == 'f32' else 64), FPS[t]))
    return v
def fpconst(v, t):
    """fold a z3 FP numeral to a python float when f32/f64"""
    if t != 'f80' and isinstance(v, z3.FPRef):
        v = z3.simplify(v)
        if z3.is_fp_value(v):
            if v.isNaN(): return math.nan
            if v.isInf(): return -math.inf if v.isNegative() else math.inf
            b = z3.simplify(z3.fpToIEEEBV(v))
            return bits2f(b.as_long(), t)
    elif isinstance(v, z3.FPRef): v = z3.simplify(v)
    return v

def f80_from_bits(bits):
    # x87 80 bit: sign(1) exp(15) intbit(1) frac(63) ; z3 FP(15,64) has 63 bit stored fraction
    sign = bits >> 79 & 1; ex = bits >> 64 & 0x7fff; frac = bits & ((1 << 63) - 1)
    b = sign << 78 | ex << 63 | frac
    return z3.simplify(z3.fpBVToFP(z3.BitVecVal(b, 79), F80))

def simp(e):
    """constant fold; returns python value for numerals"""
    if isinstance(e, z3.ExprRef):
        e = z3.simplify(e, elim_sign_ext=False)
        if isinstance(e, z3.BitVecNumRef): return e.as_long()
        if z3.is_true(e): return 1
        if z3.is_false(e): return 0
    return e

class Region:
    __slots__ = ('size', 'cells', 'default', 'kind', 'w', 'arr', 'et', 'const', 'alive', 'name', 'fn', 'heap', 'own', 'stackdepth')
    def __init__(self, size, name='', default=None):
        self.size = size; self.cells = {}; self.default = default; self.kind = 'cells'; self.w = None; self.arr = None; self.et = None
        self.const = False; self.alive = True; self.name = name; self.fn = None; self.heap = None; self.own = None; self.stackdepth = 0
    def copy(self):
        r = Region.__new__(Region)
        for s in Region.__slots__: setattr(r, s, getattr(self, s))
        r.cells = dict(self.cells)
        return r

def tsize(t):
    if isinstance(t, dict): return t['size']
    if t == 'p': return 8
    if t in FSZ: return FSZ[t]
    w = width(t)
    if w == 1: return 1
    return (w + 7) // 8

def to_bits(v, t):
    """value of scalar type t -> (int | z3 BV) of 8*size bits"""
    n = tsize(t) * 8
    if t == 'p': return addr_of(v)
    if t in ('f32', 'f64'):
        if isinstance(v, float): return f2bits(v, t)
        e = z3.simplify(z3.fpToIEEEBV(v))
        return e
    if t == 'f80': raise Unsupported('f80 bits')
    if t == 'i1':
        if isinstance(v, int): return v
        return z3.If(boolz(v), z3.BitVecVal(1, 8), z3.BitVecVal(0, 8))
    w = width(t)
    if n != w:
        if isinstance(v, int): return v
        return z3.ZeroExt(n - w, v)
    return v

def from_bits(b, t):
    if t == 'p': return b
    if t in ('f32', 'f64'):
        if isinstance(b, int): return bits2f(b, t)
        e = z3.simplify(b)
        # undo fpToIEEEBV
        if e.decl().kind() == z3.Z3_OP_FPA_TO_IEEE_BV: return e.arg(0)
        return z3.fpBVToFP(e, FPS[t])
    if t == 'i1':
        if isinstance(b, int): return b & 1
        return z3.Extract(0, 0, b) == 1
    w = width(t)
    n = tsize(t) * 8
    if n != w:
        if isinstance(b, int): return mask(b, w)
        return z3.Extract(w - 1, 0, b)
    return b
