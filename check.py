#!/usr/bin/env python3
"""Contract check of one property.  usage: check.py PROPERTY [--tier quick|thorough] [--only REGEX] [--replay FILE] [-v]
Extracts the functions under contract from /repo's current tree (clang -> LLVM IR), generates the proof obligations of every
contract entry in harness/<PROPERTY>*.cpp and discharges them with z3/cvc5; replays counterexamples against the real code."""
import sys, os, re, json, time, subprocess, hashlib, shutil, tempfile, glob, fcntl
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VERIF_REPO', '/repo')
ENG = os.path.join(V, 'engine'); HAR = os.path.join(V, 'harness')
CACHE = os.path.join(V, '.cache')
CXX = shutil.which('clang++-18') or '/usr/bin/clang++-18'
PY = shutil.which('python3-vt') or '/opt/veriftools/pyvenv/bin/python3'
LC = shutil.which('llvm-config-18') or '/usr/bin/llvm-config-18'
NJ = int(os.environ.get('VERIF_JOBS', '8'))
t_start = time.time()
def log(*a):
    if VERB: print('[%6.1f]' % (time.time() - t_start), *a, file=sys.stderr, flush=True)
VERB = '-v' in sys.argv

class BuildError(Exception): pass
def sh(cmd, **k):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
def fhash(p, memo={}):
    if p not in memo:
        try:
            with open(p, 'rb') as f: memo[p] = hashlib.sha256(f.read()).hexdigest()
        except OSError: memo[p] = 'missing'
    return memo[p]

def ensure_irtool():
    out = os.path.join(CACHE, 'irtool-' + fhash(os.path.join(ENG, 'irtool.cpp'))[:16])
    if os.path.exists(out): return out
    os.makedirs(CACHE, exist_ok=True)
    flags = sh([LC, '--cxxflags']).stdout.split(); flags = [f for f in flags if not f.startswith('-std=') and f != '-fno-exceptions']
    ld = sh([LC, '--ldflags', '--libs']).stdout.split()
    tmp = out + '.%d' % os.getpid()
    r = sh(['g++', '-O1', '-std=c++17'] + flags + [os.path.join(ENG, 'irtool.cpp'), '-o', tmp] + ld)
    if r.returncode: raise BuildError('irtool: ' + r.stdout[-2000:])
    os.rename(tmp, out); return out

def ensure_global_defines(tmp):
    """include/common/GGlobalDefines.hpp is generated by cmake and ignored by git: render it when it is not there"""
    p = os.path.join(REPO, 'include/common/GGlobalDefines.hpp')
    if os.path.exists(p): return []
    d = os.path.join(tmp, 'geninc', 'common'); os.makedirs(d, exist_ok=True)
    s = open(p + '.in').read()
    for k, v in dict(GENEVA_API_VERSION='01100', GENEVA_MIN_BOOST_API_VERSION='107000', GENEVA_MIN_BOOST_VERSION='1.70').items(): s = s.replace('@' + k + '@', v)
    open(os.path.join(d, 'GGlobalDefines.hpp'), 'w').write(s)
    return ['-I' + os.path.join(tmp, 'geninc')]

BASEFLAGS = ['-O1', '-Xclang', '-disable-llvm-passes', '-std=c++17', '-include', 'cstdint', '-DDEBUG', '-DGEM_DYNAMIC', '-D_GLIBCXX_EXTERN_TEMPLATE=0', '-DBOOST_ALL_DYN_LINK',
             '-pthread', '-fno-access-control', '-gline-tables-only', '-w']
UBFLAGS = ['-fsanitize=signed-integer-overflow,float-cast-overflow,integer-divide-by-zero,array-bounds', '-fsanitize-trap=all']

def compile_bc(src, flags, tmp, fpch=None, fir=None):
    """source -> bitcode, cached on the content of every file it includes"""
    cmd = [CXX] + flags + ['-c', '-emit-llvm', src]
    key = hashlib.sha256(('\0'.join(cmd)).encode()).hexdigest()[:24]
    man = os.path.join(CACHE, 'm-' + key)
    try:
        deps, out = json.load(open(man))
        if os.path.exists(out) and all(fhash(d) == h for d, h in deps.items()): return out
    except Exception: pass
    o = os.path.join(tmp, key + '.bc')
    pch = fpch.result() if fpch else None; t1 = time.time()
    r = sh(cmd + ['-o', o, '-MD', '-MF', o + '.d'] + (['-include-pch', pch] if pch else []))
    if r.returncode and pch: r = sh(cmd + ['-o', o, '-MD', '-MF', o + '.d'])
    if os.environ.get('CT_DEBUG'): print('%.1f..%.1f %s' % (t1 - t_start, time.time() - t_start, src))
    if r.returncode: raise BuildError(src + '\n' + r.stdout[-3000:])
    if fir:
        r = sh([fir.result(), '--strip', o, '-o', o + '.s'])
        if r.returncode: raise BuildError('strip ' + src + ' ' + r.stdout[-500:])
        os.rename(o + '.s', o)
    ds = open(o + '.d').read().replace('\\\n', ' ').split(':', 1)[1].split()
    deps = {d: fhash(d) for d in ds}
    out = os.path.join(CACHE, key + '-' + hashlib.sha256(json.dumps(deps, sort_keys=True).encode()).hexdigest()[:16] + '.bc')
    try:
        os.makedirs(CACHE, exist_ok=True)
        for old in glob.glob(os.path.join(CACHE, key + '-*')): os.unlink(old)
        shutil.copy(o, out + '.%d' % os.getpid()); os.rename(out + '.%d' % os.getpid(), out)
        with open(man + '.%d' % os.getpid(), 'w') as f: json.dump([deps, out], f)
        os.rename(man + '.%d' % os.getpid(), man)
        return out
    except OSError: return o
def compile_pch(flags, tmp):
    """precompiled system headers for one set of flags"""
    src = os.path.join(HAR, 'lib/pch.hpp'); fl = [f for f in flags if not f.startswith('-I')]
    cmd = [CXX] + fl + ['-fpch-instantiate-templates', '-x', 'c++-header', src]
    key = hashlib.sha256(('\0'.join(cmd) + fhash(src)).encode()).hexdigest()[:24]; out = os.path.join(CACHE, 'p-' + key + '.pch')
    if os.path.exists(out): return out
    o = os.path.join(tmp, key + '.pch')
    r = sh(cmd + ['-o', o])
    if r.returncode: log('no precompiled headers:', r.stdout[-500:]); return None
    try: os.makedirs(CACHE, exist_ok=True); shutil.copy(o, out + '.%d' % os.getpid()); os.rename(out + '.%d' % os.getpid(), out); return out
    except OSError: return o
def compile_obj(bc, tmp, noinline=False):
    o = bc[:-3] + '.o'
    r = sh([CXX, '-O1', '-fno-slp-vectorize', '-fno-vectorize'] + (['-mllvm', '-inline-threshold=-100000'] if noinline else []) + ['-c', bc, '-o', o, '-w'])
    if r.returncode: raise BuildError(bc + '\n' + r.stdout[-3000:])
    return o

class Unit:
    def __init__(self, path):
        self.path = path; self.name = os.path.basename(path)[:-4]; self.link = []; self.nlink = []; self.opaque = []; self.models = []; self.ub = False; self.opts = {}; self.eopts = []; self.flags = []
        self.contract = []; self.bounds = []; self.native = True; self.symbolic = True; self.noinline = False; self.blibs = []
        def val(s):
            try: return json.loads(s)
            except Exception: return s
        src = open(path).read(); todo = re.findall(r'^#include "([\w.]+)"', src, re.M)
        for inc in todo:
            ip = os.path.join(HAR, 'lib', inc)
            if os.path.exists(ip):
                t = open(ip).read(); src += '\n' + t; todo += [q for q in re.findall(r'^#include "([\w.]+)"', t, re.M) if q not in todo]
        for line in src.split('\n'):
            m = re.match(r'//\s*vs:\s*(\w+)\s*(.*?)\s*$', line)
            if not m: continue
            k, a = m.groups()
            if k == 'link': self.link += a.split()
            elif k == 'nlink': self.nlink += a.split()
            elif k == 'opaque': r, _, kind = a.rpartition(' => '); self.opaque.append((r, kind))
            elif k == 'model': r, _, f = a.rpartition(' => '); self.models.append((r, f))
            elif k == 'ub': self.ub = True
            elif k == 'flag': self.flags += a.split()
            elif k == 'set':
                for kv in a.split():
                    q, _, v = kv.partition('='); self.opts[q] = val(v)
            elif k == 'entry':
                n, *kv = a.split(); self.eopts.append((re.compile('^vs_entry_' + n + '$'), {q.partition('=')[0]: val(q.partition('=')[2]) for q in kv}))
            elif k == 'nativeonly': self.symbolic = False
            elif k == 'noinline': self.noinline = True
            elif k == 'symonly': self.native = False
            elif k == 'contract': self.contract.append(a)
            elif k == 'bound': self.bounds.append(a)
            else: raise BuildError('directive ' + line)
        self.link = list(dict.fromkeys(self.link)); self.nlink = [x for x in dict.fromkeys(self.nlink) if x not in self.link]
        self.entries = ['vs_entry_' + n for n in re.findall(r'^VS_ENTRY\((\w+)\)', src, re.M)]
    def complete(self, entry):
        """does this entry cover all inputs (no bound on container sizes or tables)?"""
        c = not self.bounds
        for rx, kv in self.eopts:
            if rx.match(entry) and 'complete' in kv: c = bool(kv['complete'])
        return c
    def cfg(self, entry, tier):
        c = dict(self.opts)
        for rx, kv in self.eopts:
            if rx.match(entry): c.update(kv)
        if tier == 'thorough':
            for k in list(c):
                if k.startswith('t_'): c[k[2:]] = c[k]
            c.setdefault('time', 600); c.setdefault('vc_s', 200); c.setdefault('xcheck', 400)
        return c

def collect_units(pid):
    us = [Unit(p) for p in sorted(glob.glob(os.path.join(HAR, pid + '_*.cpp')) + glob.glob(os.path.join(HAR, pid + '.cpp')))]
    if not us: raise BuildError('no contracts for ' + pid)
    return us

def main():
    a = [x for x in sys.argv[1:] if x != '-v']
    if a and a[0] == '--setup':
        ensure_irtool(); return 0
    pid = a[0]; tier = os.environ.get('VERIF_TIER', 'quick'); only = None; rep = None; keep = None; nonat = False; nosym = False
    i = 1
    while i < len(a):
        if a[i] == '--tier': tier = a[i + 1]; i += 2
        elif a[i] == '--only': only = re.compile(a[i + 1]); i += 2
        elif a[i] == '--replay': rep = a[i + 1]; i += 2
        elif a[i] == '--keep': keep = a[i + 1]; i += 2
        elif a[i] == '--nonative': nonat = True; i += 1
        elif a[i] == '--nosym': nosym = True; i += 1
        else: raise SystemExit('bad argument ' + a[i])
    seed = int(os.environ.get('VERIF_SEED', '1'))
    if keep: tmp = keep; os.makedirs(tmp, exist_ok=True)
    else: tmp = tempfile.mkdtemp(prefix='vchk-')
    try: return run(pid, tier, seed, only, rep, tmp, nonat, nosym)
    finally:
        if not keep: shutil.rmtree(tmp, ignore_errors=True)

def run(pid, tier, seed, only, rep, tmp, nonat, nosym):
    units = collect_units(pid)
    pool = ThreadPoolExecutor(NJ); pool0 = ThreadPoolExecutor(NJ)
    fir = pool0.submit(ensure_irtool)
    geninc = ensure_global_defines(tmp)
    jobs = {}; pchs = {}
    rel = lambda s: s if s.startswith('/') else os.path.join(V, s) if s.startswith('harness/') else os.path.join(REPO, s)
    for u in units:
        u.fl = BASEFLAGS + (UBFLAGS if u.ub else []) + geninc + u.flags + ['-I' + os.path.join(REPO, 'include'), '-I' + os.path.join(HAR, 'lib')]
        pchs.setdefault(tuple(u.fl), set()).update([u.path] + [rel(s) for s in u.link + u.nlink])
    pchs = {k: pool0.submit(compile_pch, list(k), tmp) if len(v) > 5 else None for k, v in pchs.items()}
    npre = {}
    def bc(src, flags):
        # the contracts and the first files are compiled while the headers are precompiled
        k = (src, tuple(flags))
        if k not in jobs: npre[k[1]] = npre.get(k[1], 0) + 1; jobs[k] = pool.submit(compile_bc, src, flags, tmp, pchs.get(k[1]) if npre[k[1]] > 6 else None, fir)
        return jobs[k]
    def fsize(p):
        try: return os.path.getsize(p)
        except OSError: return 0
    for u in units: u.hbc = bc(u.path, u.fl)
    for sz, src, fl in sorted(((fsize(rel(s)), rel(s), u.fl) for u in units for s in u.link + u.nlink), reverse=True): bc(src, fl)
    for u in units:
        u.lbc = [bc(rel(s), u.fl) for s in u.link]
        u.nbc = [bc(rel(s), u.fl) for s in u.nlink]
    libfl = BASEFLAGS + ['-I' + os.path.join(HAR, 'lib')]
    lsup = bc(os.path.join(HAR, 'lib/libsup.cpp'), libfl); lmod = bc(os.path.join(HAR, 'lib/models.cpp'), libfl); lrt = bc(os.path.join(HAR, 'lib/vs_rt.cpp'), [f for f in BASEFLAGS if not f.startswith('-g')])
    irtool = fir.result()
    for f in list(jobs.values()): f.result()
    log('compiled')
    # extraction: IR modules
    common_opaque = [l.strip() for l in open(os.path.join(ENG, 'opaque_common.txt')) if l.strip() and not l.startswith('#')]
    def extract(u):
        if not u.symbolic: return
        op = os.path.join(tmp, u.name + '.opaque'); open(op, 'w').write('\n'.join(common_opaque + [r for r, _ in u.opaque] + [r for r, _ in u.models]) + '\n')
        u.mod = os.path.join(tmp, u.name + '.json')
        if os.environ.get('IRT_CMD'): open(os.environ['IRT_CMD'], 'a').write(' '.join([irtool, '--opaque', op, '-o', u.mod, u.hbc.result()] + [b.result() for b in u.lbc] + [lsup.result(), lmod.result()]) + '\n')
        r = sh([irtool, '--opaque', op, '-o', u.mod, u.hbc.result()] + [b.result() for b in u.lbc] + [lsup.result(), lmod.result()])
        if os.environ.get('IRT_DEBUG'): print(r.stdout)
        if r.returncode: raise BuildError('irtool ' + u.name + ': ' + r.stdout[-2000:])
    def native(u):
        if not u.native: return
        ins = [u.hbc.result(), lrt.result()] + [b.result() for b in u.lbc + u.nbc]
        u.bin = os.path.join(tmp, u.name + '.native')
        key = hashlib.sha256(' '.join([fhash(x) for x in [irtool] + ins] + [str(u.noinline)]).encode()).hexdigest()[:24]; cb = os.path.join(CACHE, 'n-' + key)
        if os.path.exists(cb + '.stubs'): shutil.copy(cb, u.bin); u.stubs = json.load(open(cb + '.stubs')); return
        r = sh([irtool, '--native', '8', '-o', u.bin] + ins)
        if r.returncode: u.bin = None; u.binerr = r.stdout[-2000:]; log('native parts failed', u.name, u.binerr); return
        objs = list(pool2.map(lambda k: compile_obj(f'{u.bin}.{k}.bc', tmp, u.noinline), range(8)))
        libs = ['-lboost_serialization', '-lboost_filesystem', '-lboost_system', '-lboost_program_options', '-lboost_regex', '-lboost_unit_test_framework', '-ldl']
        base = [CXX, '-no-pie', '-rdynamic', '-pthread'] + objs
        r = sh(base + ['-o', u.bin, '-Wl,--warn-unresolved-symbols', '-Wl,--no-demangle', '-Wl,--unresolved-symbols=report-all'] + libs)
        miss = sorted(set(re.findall(r"undefined reference to [`']([^'`]+)'", r.stdout)))
        if miss:
            # parts of the libraries that the contracts do not reach: zero-filled stand-ins (calling one crashes the run)
            st = os.path.join(tmp, u.name + '.stubs.s')
            open(st, 'w').write('.data\n.balign 64\n.globl vs_stub_begin\nvs_stub_begin:\n' + ''.join(f'.globl {m}\n{m}:\n.zero 512\n' for m in miss) + '.globl vs_stub_end\nvs_stub_end:\n.section .note.GNU-stack,"",@progbits\n')
            r = sh(base + [st, '-o', u.bin] + libs)
        if r.returncode: u.bin = None; u.binerr = r.stdout[-2000:]; log('native link failed', u.name, u.binerr); return
        u.stubs = miss
        try: shutil.copy(u.bin, cb); json.dump(miss, open(cb + '.stubs', 'w'))
        except OSError: pass
    pool2 = ThreadPoolExecutor(NJ)
    fx = [pool.submit(extract, u) for u in units] if not rep and not nosym else []
    fn = [pool.submit(native, u) for u in units]
    for f in fx + fn: f.result()
    log('extracted')
    if rep: return replay_cmd(units, rep)
    # proof
    tasks = []
    for u in units:
        for e in u.entries:
            if only and not only.search(e): continue
            tasks.append((u, e))
    if not tasks: raise BuildError('no entries')
    quick_t = 240 if tier == 'quick' else 1500
    def prove(t):
        u, e = t
        if nosym or not u.symbolic: return None
        c = u.cfg(e, tier)
        if c.get('sym') == 0: return None
        c.setdefault('time', quick_t)
        c['opaque'] = u.opaque + [['', 'noop']]
        c['models'] = u.models + [[q, 'vs_model_empty_string'] for q in (r'^Gem::Common::currentTimeAsString', r'^std::__cxx11::basic_string<[^(]*> boost::lexical_cast<', r'^std::__cxx11::basic_string<[^(]*> boost::uuids::', r'^_ZNK?(3Gem6Common)?16g_error_streamercv', r'^std::__cxx11::basic_string<[^(]*> std::__cxx11::basic_(o|i)?stringstream<.*::str\(\)', r'^std::__cxx11::basic_(o|i)?stringstream<[^(]*::str\(\) const')] + [
            [r'::type boost::math::float_prior<double>\(', 'vs_model_float_prior'], [r'::type boost::math::float_next<double>\(', 'vs_model_float_next'],
            [r'::type boost::math::float_prior<float>\(', 'vs_model_float_priorf'], [r'::type boost::math::float_next<float>\(', 'vs_model_float_nextf']]
        cf = os.path.join(tmp, u.name + '.' + e + '.cfg'); json.dump(c, open(cf, 'w')); of = os.path.join(tmp, u.name + '.' + e + '.out')
        try:
            r = sh([PY, os.path.join(ENG, 'run_entry.py'), u.mod, e, cf, of], timeout=c['time'] * 1.3 + 60)
            res = json.load(open(of))
        except subprocess.TimeoutExpired: res = dict(entry=e, error='timeout', obl={}, cex=[], undecided=['timeout'], bounded={}, covers={}, stats={}, backends={}, assumed={}, entered={}, wall=0)
        except Exception as ex: res = dict(entry=e, error='died: ' + repr(ex)[:200] + ' ' + (r.stdout or '')[-300:], obl={}, cex=[], undecided=['died'], bounded={}, covers={}, stats={}, backends={}, assumed={}, entered={}, wall=0)
        for k in ('obl', 'bounded', 'covers', 'stats', 'backends', 'assumed', 'entered'): res.setdefault(k, {})
        for k in ('cex', 'undecided'): res.setdefault(k, [])
        log('proved' if not res['error'] else 'ERR', u.name, e, '%.1fs' % res['wall'], {k: (v['proved'], v['failed'], v['unknown']) for k, v in res['obl'].items()} if VERB else '', res['error'] or '', 'BOUNDED' if res['bounded'] else '', res['undecided'][:3])
        if res.get('tb'): log(res['tb'])
        return res
    nat_s = 5 if tier == 'quick' else 60
    def natrun(t):
        u, e = t
        if nonat or not getattr(u, 'bin', None): return None
        c = u.cfg(e, tier)
        if c.get('native') == 0: return None
        r = sh([u.bin, e, '--random', str(c.get('nat_n', 10**9)), str(seed), str(c.get('nat_s', nat_s))], cwd=tmp)
        m = re.search(r'iters (\d+) accepted (\d+)', r.stdout)
        d = dict(entry=e, unit=u.name, iters=int(m.group(1)) if m else 0, accepted=int(m.group(2)) if m else 0, fail=None)
        m = re.search(r'^FAIL (.*)\n((?:.*\n)*)', r.stdout, re.M)
        if m: d['fail'] = m.group(1); d['inputs'] = m.group(2)
        m = re.search(r'^STUB (-?\d+)', r.stdout, re.M)
        if m: k = int(m.group(1)); d['stub'] = u.stubs[k - 1] if 0 < k <= len(u.stubs) else 'virtual function of a stand-in'; log('native run of', e, 'reaches a function that is not linked:', d['stub'])
        log('native', u.name, e, d['iters'], d['accepted'], d['fail'] or '')
        return d
    # longest first
    fs = [(t, pool.submit(prove, t)) for t in tasks]
    fnat = [pool.submit(natrun, t) for t in tasks]
    res = [(t, f.result()) for t, f in fs]
    nats = [f.result() for f in fnat]
    return report(pid, tier, seed, units, res, nats, tmp)

def write_inputs(path, header, lines):
    with open(path, 'w') as f:
        for h in header: f.write('# ' + h + '\n')
        f.write(lines)
def cex_lines(c):
    out = ''
    for it in c['inputs']:
        if it[1].startswith('arr:'):
            for k, v in enumerate(it[3]): out += f'{it[0]}[{k}] {it[1][4:]} {v}\n'
            # elements beyond the dumped prefix default to 0
        else: out += f'{it[0]} {it[1]} {int(it[2]) if it[1] == "i1" and str(it[2]).isdigit() else it[2]}\n'
    return out

def report(pid, tier, seed, units, res, nats, tmp):
    kf = []
    p = os.path.join(V, 'known_findings.json')
    if os.path.exists(p): kf = [k for k in json.load(open(p)) if k.get('property') == pid and k.get('status') == 'open']
    rdir = os.path.join(V, 'evidence', 'replay'); os.makedirs(rdir, exist_ok=True)
    for old in glob.glob(os.path.join(rdir, pid + '-*')): os.unlink(old)
    viol = []; known = []; undecided = []; nrep = 0
    tot = dict(obl=0, dis=0, unk=0, fail=0); cpl = dict(obl=0, dis=0, unk=0, fail=0, n=0); functions = {}; assumed = {}; backends = {}; bounded = {}; solver_s = 0; entries = []; samples = []
    for u in units:
        for b in u.bounds: bounded[u.name] = b if u.name not in bounded else bounded[u.name] + '; ' + b
    for (u, e), r in res:
        en = e[len('vs_entry_'):]
        if r is None: continue
        reach = r['covers'].get('end', 0)
        complete = not r['bounded'] and u.complete(e)
        if complete:
            cpl['n'] += 1
            for l, o in r['obl'].items(): cpl['obl'] += o['proved'] + o['failed'] + o['unknown']; cpl['dis'] += o['proved']; cpl['unk'] += o['unknown']; cpl['fail'] += o['failed']
        for l, o in r['obl'].items():
            tot['obl'] += o['proved'] + o['failed'] + o['unknown']; tot['dis'] += o['proved']; tot['unk'] += o['unknown']; tot['fail'] += o['failed']
        for k in r['entered']:
            functions[k] = 1
        for k, v in r['assumed'].items(): assumed[k] = v
        for k, v in r['backends'].items(): backends[k] = backends.get(k, 0) + v
        for k, v in r['bounded'].items(): bounded[f'{en}: {k}'] = v
        solver_s += r['stats'].get('solver_s', 0)
        if r['error']: undecided.append(f'{en}: {r["error"]}')
        for x in r['undecided']: undecided.append(f'{en}: {x}')
        named = [l for l in r['obl'] if r['obl'][l]['kind'] == 'assert']
        if not r['error'] and not r['cex'] and not r['undecided'] and (not named or not reach): undecided.append(f'{en}: vacuous (no named obligation or no complete path)')
        for l, n in r['covers'].items():
            if l.startswith('cover:') and n == 0: undecided.append(f'{en}: {l} unreachable')
        entries.append(dict(entry=en, obligations={l: [o['proved'], o['failed'], o['unknown']] for l, o in r['obl'].items()}, paths=r['stats'].get('paths'), wall_s=round(r['wall'], 1), scope='all inputs' if complete else 'bounded: ' + ('; '.join(u.bounds) or 'loop limit'), status='error' if r['error'] else 'failed' if r['cex'] else 'undecided' if r['undecided'] else 'proved' if complete else 'proved within the bound'))
        seen = {}
        for c in r['cex']:
            k = seen.get(c['label'], 0)
            if k >= 4: continue
            seen[c['label']] = k + 1
            confirmed = False; f = os.path.join(rdir, f'{pid}-{en}-{nrep}.txt'); nrep += 1
            write_inputs(f, [f'property {pid}', f'entry {en}', f'unit {u.name}', 'failed obligation: ' + c['label'], 'where: ' + ' < '.join(c['trace'][:6]), f'rerun: python3 check.py {pid} --replay {f}'], cex_lines(c))
            if getattr(u, 'bin', None):
                rr = sh([u.bin, e, '--replay', f], cwd=tmp); m = re.search(r'^FAIL (.*)$', rr.stdout, re.M)
                if m: confirmed = True; c['native'] = m.group(1)
            viol.append(dict(entry=en, label=c['label'], file=f, confirmed=confirmed, approx=bool(r.get('approx')), kind=r['obl'].get(c['label'], {}).get('kind')))
    nat_iters = nat_acc = 0
    for n in nats:
        if not n: continue
        nat_iters += n['iters']; nat_acc += n['accepted']
        if n.get('stub'): undecided.append(f"{n['entry'][9:]}: the native run reaches {n['stub']}, which is not linked")
        if n['fail']:
            en = n['entry'][9:]
            f = os.path.join(rdir, f'{pid}-{en}-n{nrep}.txt'); nrep += 1
            write_inputs(f, [f'property {pid}', f'entry {en}', f'unit {n["unit"]}', 'failed contract (bounded native run of the real code): ' + n['fail'], f'rerun: python3 check.py {pid} --replay {f}'], n['inputs'])
            viol.append(dict(entry=en, label=n['fail'], file=f, confirmed=True, approx=False, kind='native'))
    # known findings
    rest = []
    for v in viol:
        k = next((k for k in kf if k['entry'] == v['entry'] and re.search(k['label'], v['label'])), None)
        if k is not None: known.append((k, v))
        else: rest.append(v)
    # an unconfirmed failure of an entry that uses approximate (uninterpreted) arithmetic decides nothing
    real = []
    conf_entries = {(v['entry']) for v in rest if v['confirmed']}
    for v in rest:
        if v['confirmed']: real.append(v)
        elif v['approx'] and not v['label'].startswith('lock discipline') and 'after lifetime end' not in v['label']: undecided.append(f"{v['entry']}: {v['label']}: counterexample to the abstraction not confirmed by the real code")
        elif v['entry'] in conf_entries: continue
        else: real.append(v)
    status = 1 if real else 0
    tb = sorted({f'{v}: {k}' if v != 'nondet' else k for k, v in assumed.items()})
    level = json.load(open(os.path.join(V, 'levels.json'))).get(pid, 'proof') if os.path.exists(os.path.join(V, 'levels.json')) else 'proof'
    def short(xs, n): xs = list(xs); return xs[:n] + ([f'... {len(xs) - n} more'] if len(xs) > n else [])
    inrepo = sorted({re.sub(r'\s+', ' ', k)[:180] for k in functions if re.match(r'^.{0,120}?\bGem::', k)})
    few = dict(obligations=tot['obl'] - cpl['obl'], discharged=tot['dis'] - cpl['dis'], failed=tot['fail'] - cpl['fail'], unanswered=tot['unk'] - cpl['unk'], entries=len(entries) - cpl['n'])
    cov = dict(obligations=cpl['obl'], discharged=cpl['dis'], failed=cpl['fail'], unanswered=cpl['unk'], entries_for_all_inputs=cpl['n'], bounded=few, checker_cmd=f'python3 check.py {pid} --tier {tier} (engine/vcgen.py: VCs from LLVM IR; non-trivial obligations by back end: {backends})',
               trusted_base=['clang 18 front end and LLVM-IR simplification passes', 'engine/*.py VC generator', 'z3 5.3.2 / cvc5 1.1.2', 'harness/lib stand-ins for libstdc++ out-of-line functions'] + short(tb, 60),
               functions_under_contract=short(inrepo, 150), functions_executed_from_repo=len(inrepo), back_ends=backends, solver_s=round(solver_s, 1), entries=entries, bounded_loops=bounded, undecided=short(undecided, 60),
               native_runs=dict(note='bounded stand-in, never counted as proof', iterations=nat_iters, accepted=nat_acc), evaluations=nat_iters,
               explanation='Each entry is a contract (requires = vs_assume, ensures = vs_assert) over functions extracted from the current tree; obligations/discharged count the entries that cover all inputs without any bound; the obligations of entries whose containers have the stated sizes are counted separately under bounded (discharged for all values, for these sizes only).')
    ev = dict(property=pid, tier=tier, seed=seed, level=level, coverage=cov, wall_s=round(time.time() - t_start, 1), violations=len(real),
              assumptions=['memory model: distinct allocations do not overlap, allocation does not fail', 'single-threaded execution of the functions under contract (locks are no-ops)', 'logging, streaming and serialisation functions have no effect on the state the contracts mention'] + [f'bounded: {k}' for k in bounded] + short(undecided, 30))
    os.makedirs(os.path.join(V, 'evidence'), exist_ok=True)
    json.dump(ev, open(os.path.join(V, 'evidence', pid + '.json'), 'w'), indent=1)
    for k, v in known: pass
    for k in {id(k): k for k, _ in known}.values(): print(f'KNOWN-FINDING: property={pid} {k["what"]}')
    done = set()
    for v in real:
        key = (v['entry'], v['label'])
        if key in done: continue
        done.add(key)
        print(f"failed obligation [{v['entry']}] {v['label']}")
        print(f"VIOLATION property={pid} replay={v['file']}" + ('' if v['confirmed'] else ' no-failing-input-found'))
    print(f"{pid}: {tot['dis']}/{tot['obl']} obligations discharged, {tot['fail']} failed, {tot['unk']} unanswered, {len(entries)} contract entries, {len(bounded)} bounded loops, {len(undecided)} undecided notes, native runs {nat_acc}/{nat_iters}, {time.time() - t_start:.0f}s")
    if VERB:
        for x in undecided: print('  undecided:', x)
        for x in bounded: print('  bounded:', x)
    return status

def replay_cmd(units, f):
    m = re.search(r'^# entry (\w+)', open(f).read(), re.M); e = 'vs_entry_' + m.group(1)
    for u in units:
        if e in u.entries:
            r = subprocess.run([u.bin, e, '--replay', f], env=dict(os.environ, VS_VERBOSE='1')); return r.returncode
    return 2

if __name__ == '__main__':
    try: sys.exit(main())
    except BuildError as e: print('ERROR', e); sys.exit(2)
