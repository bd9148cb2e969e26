"""Verifies one contract entry in its own process.  usage: run_entry.py MODULE.json ENTRY CFG.json OUT.json"""
import sys, json, time, resource, os
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.setrecursionlimit(100000)
import threading
threading.stack_size(512 * 1024 * 1024)
def main():
    modf, entry, cfgf, outf = sys.argv[1:5]
    cfg = json.load(open(cfgf)); t0 = time.time()
    gb = cfg.get('mem_gb', 10); resource.setrlimit(resource.RLIMIT_AS, (int(gb * (1 << 30)), int(gb * (1 << 30))))
    import vcgen
    r = dict(entry=entry, error=None)
    e = None
    try:
        e = vcgen.Engine(json.load(open(modf)), cfg)
        if cfg.get('debug'): e.debug = True
        e.run(entry)
    except vcgen.Budget as b: r['error'] = str(b)
    except MemoryError: r['error'] = 'memory'
    except Exception as ex:
        import traceback; r['error'] = 'internal: ' + repr(ex)[:300]; r['tb'] = traceback.format_exc()[-3000:]
    if e is not None:
        if cfg.get('debug'):
            for k, v in sorted(e.fsites.items(), key=lambda x: -x[1])[:25]: print('FORKSITE', v, k, file=sys.stderr)
        r.update(obl=e.obl, cex=e.cex[:40], undecided=sorted(set(e.undecided))[:60], bounded=e.bounded, covers=e.covers, stats=e.stats, backends=e.backends,
                 assumed=e.assumed, entered=e.entered, loops=sorted({fn.d for fn in e.fns.values() if fn.blocks is not None and fn.d in e.entered and fn.loops()}), approx=sorted(getattr(e, 'approx', ())))
    r['wall'] = time.time() - t0
    json.dump(r, open(outf, 'w'))
    os._exit(0)
t = threading.Thread(target=main); t.start(); t.join(); os._exit(3)
