"""S09: memory shortage."""
import vlib, build
W = ["malloc", "calloc", "realloc", "posix_memalign", "free", "pthread_create", "pthread_mutex_init", "pthread_cond_init"]
def mc_specs(h, q):
    """every allocation index x both fault kinds, in base schedules 0..3 by turns"""
    L = []
    cfg = [("basic,2", 2, 2), ("seg,2", 2, 1), ("tiles,2", 2, 2), ("showexisting,3", 3, 2), ("scaledref,2", 2, 2), ("segnc,2", 3, 3)]
    if not q: cfg += [(s, t, d) for s in ("basic,3", "superres,2", "grain,2", "intrabc,2", "restoration,2", "refmvs,3", "svc,2", "wide,2") for t, d in ((2, 1), (2, 2), (3, 2), (3, 3), (4, 2))]
    for n, (s, t, d) in enumerate(cfg):
        s = s.replace("seg,", "segmentation,")
        rc, out, err = vlib.run([h, "count", "%s,oom,1,%d,%d,0" % (s, t, d)], env={"MC_SEED": str(vlib.SEED)})
        if rc: print("harness error: count %s: %s %s" % (s, out, err[-300:])); raise SystemExit(2)
        for k in range(1, int(out) + 3):
            for m in ("oom", "oomp"):
                for p in ([(k + n) % 4] if q else range(4)):
                    if k < 14 and p != n % 4: continue   # opening: no other thread runs yet
                    L.append("%s,%s,%d,%d,%d,%d" % (s, m, k, t, d, p))
    return L
def run(tier):
    c = vlib.Check("S09", tier, "exploration")
    q = tier == "quick"
    r = ("A case is a stream, thread setting, way of using the library, allocator and kind of fault; an evaluation runs the whole history (open, parse sequence header, wrap or "
         "create data, user data, send, get, apply grain, flush, close) with the k-th allocation (or k to k+3, or all from k on) failing, then a new key frame with memory available again; "
         "non-trivial: pictures were delivered. Explorations: the same with the worker threads under the controlled scheduler, every schedule up to the bound for every k.")
    for var, secs in (("asan", 120), ("plain", 40)):
        h = build.harness("oom", var, ["checks/oom.c", "lib/av1w.c"], extra_l=["-Wl,--wrap=" + w for w in W])
        vlib.shard_run(c, h, r if var == "asan" else "", secs if q else secs * 20, label=var)
        if c.nviol: return c.finish()
    h = build.mc_harness("mc_decode", "mcfast", "checks/mc_decode.c")
    vlib.mc_batch(c, h, mc_specs(h, q), 1, 3 if q else 60)
    c.assume = ["in the enumeration, worker threads run under the operating system's scheduler, so with threads the k-th allocation is the k-th in the order of that run",
                "in the explorations an allocation index is counted in the order of the explored schedule; at most one deviation from the base schedule"]
    return c.finish()
