"""S03: no data race, use-after-free or out-of-bounds access in any schedule."""
import vlib, build
from s02 import specs, words
S = ["basic", "refmvs", "tiles", "showexisting", "misc", "restoration", "grain", "hbd444", "segmentation", "scaledref", "tilerows", "svc",
     "nolf", "lronly", "superres", "intrabc", "globalmotion", "odd10", "mono", "sb128", "skipmode", "onerow", "segnc", "refnc", "wide", "grain10"]
def run(tier):
    c = vlib.Check("S03", tier, "model_checking")
    h = build.mc_harness("mc_decode", "mcfull", "checks/mc_decode.c")
    q = tier == "quick"
    # the base schedules themselves, on many payloads (happens-before detection needs few schedules)
    z = []
    for i, s in enumerate(S):
        for sd in range(3 if q else 40):
            for p in range(4):
                z.append("%s,3,dec,0,%d,%d,%d,0,%d" % (s, 2 + (sd + p) % 3, 1 + (sd + p + i) % 3, p, 20 + sd))
    vlib.mc_batch(c, h, z, 0, 30, 18, 40)
    one = []
    for i, s in enumerate(S):
        one.append("%s,2,dec,0,2,2,%d" % (s, i % 4))
        one.append("%s,3,dec,0,2,2,%d,0,7" % (s, 2 + i % 2))
        if i % 2: one.append("%s,2,dec,0,2,1,%d" % (s, (i >> 1) % 4))
    sp = specs(q)
    one += [s for i, s in enumerate(sp) if i % 5 == 0] if q else sp
    one += ["basic,2,two,0,2,2,0", "basic,2,two,0,1,1,0", "grain,2,peer,0,2,2,0", "basic,3,peer,1,2,2,2"]
    vlib.mc_batch(c, h, one, 1, 6 if q else 60, 20, 3)
    vlib.mc_batch(c, h, words(True, ("basic", "svc", "tiles", "segnc")) if q else words(False), 0 if q else 1, 20, 8, 20)
    if not q:
        vlib.mc_run(c, h, [(s, 2, 60) for s in ("basic,2,dec,0,2,2,0", "tiles,2,dec,0,2,1,0", "basic,2,flush,2,2,2,0", "restoration,2,dec,0,2,2,3", "basic,2,close,2,2,2,0", "grain,2,dec,0,2,2,2")], 26)
    c.assume = ["races are judged by happens-before from the C11 memory orders used, so one schedule per ordering suffices",
                "assembly paths are not instrumented: the C paths are explored", "memory accessed inside libc functions is not tracked"]
    return c.finish()
