"""S02: every API call returns, whatever the schedule: normal decoding, flush and
close with work in flight, damaged frames, spurious wake-ups."""
import vlib, build
def specs(q):
    L = []
    streams = ["basic", "tiles", "refmvs", "showexisting", "grain", "restoration", "svc", "misc"]
    tds = [(2, 1), (2, 2), (3, 2), (3, 3), (4, 4)] if q else [(2, 1), (3, 1), (4, 1), (2, 2), (3, 2), (4, 2), (3, 3), (4, 3), (4, 4)]
    n = 0
    for i, s in enumerate(streams):
        for j, (t, d) in enumerate(tds):
            for p in range(1 if q else 4):
                n += 1
                pol = (i + j + p) % 4 if q else p
                L.append("%s,3,flush,%d,%d,%d,%d" % (s, 1 + n % 4, t, d, pol))
                L.append("%s,4,close,%d,%d,%d,%d" % (s, 1 + (n + j) % 4, t, d, (pol + 1) % 4))
                L.append("%s,4,err,%d,%d,%d,%d" % (s, (i + j) % 4, t, d, (pol + 2) % 4))
                L.append("%s,3,%s,1,%d,%d,%d" % (s, ("late", "eager", "flushend", "hold")[n % 4], t, d, (pol + 3) % 4))
                if j % 2 == 0: L.append("%s,3,dec,0,%d,%d,%d,1,%d" % (s, t, d, pol, n % 5))
                if j % 3 == 0: L.append("%s,3,flush,%d,%d,%d,%d,1" % (s, 1 + (n + 1) % 4, t, d, (pol + 2) % 4))
        L.append("%s,2,peer,%d,2,2,%d" % (s, i & 1, i % 4))
    # film grain applied by the application while frames are in flight
    for i, (t, d) in enumerate(tds):
        for k in ((0, 3, 4) if q else range(8)):
            L.append("%s,3,fg,%d,%d,%d,%d,%d" % (("grain", "grain10")[(i + k) % 2], k, t, d, (i + k) % 4, k % 2))
    return L
def words(q, streams=("basic", "svc", "showexisting", "refnc")):
    """all retrieval patterns: 0, 1 or 2 retrievals after each packet; one or two temporal units per packet"""
    L = []
    n = 3 if q else 4
    for w in range(3 ** n):
        k = sum(((w // 3 ** i) % 3) << (2 * i) for i in range(n))
        for j, s in enumerate(streams):
            if q and (w + j) % 4: continue
            for t, d in ((2, 2), (3, 3), (2, 3), (3, 2)) if not q else ((2, 2), (2, 3)) if w % 2 else ((3, 2), (3, 3)):
                L.append("%s,%d,word,%d,%d,%d,%d" % (s, n + 1, k, t, d, (w + j) % 4))
                L.append("%s,%d,wordp,%d,%d,%d,%d" % (s, 2 * n, k, t, d, (w + j + 1) % 4))
    return L
def run(tier):
    c = vlib.Check("S02", tier, "model_checking")
    h = build.mc_harness("mc_decode", "mcfast", "checks/mc_decode.c")
    q = tier == "quick"
    vlib.mc_batch(c, h, specs(q), 1, 5 if q else 60)
    vlib.mc_batch(c, h, words(q), 1, 3 if q else 60)
    plan = []
    two = ["basic,2,flush,2,2,2,0", "basic,2,close,2,2,2,0", "basic,3,err,1,2,2,2", "basic,2,flush,2,2,1,0", "tiles,2,close,2,2,1,2", "basic,2,flush,2,3,3,2", "tiles,2,flush,1,2,1,0",
           "basic,3,err,1,2,2,0", "basic,2,flush,2,2,2,2", "basic,2,flush,2,2,2,1", "onerow,2,flush,2,3,3,0", "onerow,3,close,3,3,3,0", "onerow,2,dec,0,2,2,0,1", "onerow,3,err,1,3,3,0"]
    for s in two: plan.append((s, 2, 1.6 if q else 60))
    if not q:
        for s in two[:6]: plan.append((s, 3, 120))
    vlib.mc_run(c, h, plan, 24 if q else 27)
    c.assume = ["sequentially consistent atomics; data-race freedom is decided under S03", "tiny frames (1-4 superblock rows); 2-4 workers; frame delay 1-4",
                "fair operating-system scheduler is not assumed: a blocked state with no runnable thread is a deadlock, more than 400000 steps is a livelock"]
    return c.finish()
