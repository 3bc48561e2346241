"""S01: decoded output is independent of thread count and schedule."""
import vlib, build
# spec: stream,frames,driver,k,threads,delay,base schedule,spurious,payload
S = ["basic", "refmvs", "tiles", "showexisting", "misc", "restoration", "grain", "hbd444", "segmentation", "scaledref", "tilerows", "svc",
     "nolf", "lronly", "superres", "intrabc", "globalmotion", "odd10", "mono", "sb128", "skipmode", "onerow", "segnc", "refnc", "wide", "grain10"]
def run(tier):
    c = vlib.Check("S01", tier, "model_checking")
    h = build.mc_harness("mc_decode", "mcfast", "checks/mc_decode.c")
    one = []
    q = tier == "quick"
    for i, s in enumerate(S):
        # all schedules with one deviation from four base schedules, several payloads
        for sd in range(6 if q else 40):
            one.append("%s,3,dec,0,3,2,%d,0,%d" % (s, (0, 1, 2, 3)[(i + sd) % 4], sd))
            one.append("%s,2,dec,0,2,2,%d,0,%d" % (s, (3, 2, 0, 1)[(i + sd) % 4], sd + 50))
        for sd in range(2 if q else 12):
            one.append("%s,2,dec,0,2,1,%d,0,%d" % (s, (0, 1, 2, 3)[(i + sd) % 4], sd))
            one.append("%s,2,dec,0,3,1,%d,0,%d" % (s, (2, 3, 0, 1)[(i + sd) % 4], sd))
        one.append("%s,4,dec,0,4,3,%d" % (s, (1, 2, 3, 0)[i % 4]))
        for sd in range(2 if q else 20):
            one.append("%s,4,wordp,%d,%d,2,%d,0,%d" % (s, (2, 1, 6, 9, 5)[(i + sd) % 5], 2 + sd % 2, (0, 1, 2, 3)[(i + sd) % 4], sd))
    vlib.mc_batch(c, h, one, 1, 5 if q else 60)
    plan = []
    if q:
        for pol in (0, 1, 2, 3): plan.append(("basic,2,dec,0,2,2,%d" % pol, 2, 4))
        for i, s in enumerate(S): plan.append(("%s,2,dec,0,2,1,%d,0,3" % (s, i % 4), 2, 0.4))
    else:
        for s in S:
            for th, dl in ((2, 2), (2, 1), (3, 2), (3, 3), (4, 1)):
                for pol in (0, 1, 2, 3):
                    plan.append(("%s,%d,dec,0,%d,%d,%d" % (s, 3 if dl > 2 else 2, th, dl, pol), 2, 15))
        plan.append(("onerow,2,dec,0,2,2,0", 3, 120))
        plan.append(("basic,2,dec,0,2,2,0", 3, 240))
    vlib.mc_run(c, h, plan, 25 if q else 27)
    c.assume = ["memory accesses between two synchronisation operations are atomic (justified by the race freedom decided under S03)",
                "sequentially consistent atomics", "tiny frames (1-4 superblock rows); 2-4 worker threads; frame delay 1-3",
                "the C (non-assembly) code paths"]
    return c.finish()
