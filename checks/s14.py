"""S14: film grain: built-in and separate application agree, with each other and
with the specification's process, and leave the grain-free picture alone."""
import vlib, build
def run(tier):
    c = vlib.Check("S14", tier, "exploration")
    q = tier == "quick"
    r1 = ("A case is a pair (thorough: also triple) of film grain parameters over their representative values, a block of seeds, a picture width with all heights, "
          "or a set of scaling points or sample values, per layout and bit depth; an evaluation applies grain to a constructed picture and compares every sample with a "
          "film grain process written from the specification; non-trivial: the grain changed the picture.")
    r2 = ("A case is an order of frames with new, inherited and no grain, hidden and shown again; an evaluation decodes it with built-in grain, without grain plus the separate "
          "call at once, and in reverse order at the end, in each thread setting; non-trivial: a picture with grain in the stream.")
    for part, var, label, rule, secs in (("1", "plain", "parameters, assembly", r1, 40), ("1", "noasm", "parameters, C", r1, 60), ("2", "plain", "streams", r2, 40), ("2", "asan", "streams under sanitizers", "", 60)):
        h = build.harness("grain" + part, var, ["checks/grain.c", "lib/av1w.c"], extra_c=["-DPART=" + part])
        vlib.shard_run(c, h, rule, secs if q else secs * 20, label=label)
        if c.nviol: return c.finish()
    m = build.mc_harness("mc_decode", "mcfast", "checks/mc_decode.c")
    sp = []
    for s in ("grain", "grain10"):
        for t, d in ((1, 1), (2, 1), (3, 1), (2, 2), (3, 2), (3, 3)) if q else ((1, 1), (2, 1), (3, 1), (4, 1), (2, 2), (3, 2), (4, 2), (3, 3), (4, 3), (4, 4)):
            for k in (0, 1, 2) if q else range(4):
                for pol in ((t + d + k) % 4,) if q else range(4):
                    sp.append("%s,%d,fg,%d,%d,%d,%d" % (s, 3 if q else 4, k, t, d, pol))
                    sp.append("%s,%d,dec,0,%d,%d,%d" % (s, 3 if q else 4, t, d, pol))
    vlib.mc_batch(c, m, sp, 1, 6 if q else 60)
    vlib.mc_run(c, m, [(s, 2, 3 if q else 120) for s in ("grain,2,fg,0,3,1,0", "grain10,3,fg,1,2,2,0", "grain,2,dec,0,2,1,2", "grain10,3,fg,0,3,1,3")], 24)
    c.assume = ["the Gaussian sample table is taken from the decoder's sources; everything else of the oracle is written from the specification",
                "the separate call uses a decoder that has decoded a picture of that bit depth", "application threads: one at a time per decoder"]
    return c.finish()
