"""S15: the decoder holds back no more frames than its announced delay."""
import vlib, build
def run(tier):
    c = vlib.Check("S15", tier, "exploration")
    h = build.harness("apihist15", "plain", ["checks/apihist.c", "lib/av1w.c"], extra_c=["-DPART=15"])
    vlib.shard_run(c, h, "A case is one pair of thread count and frame delay with a stream of shown or partly hidden frames, fed one packet per call with one retrieval each; non-trivial: accepted settings.", 60 if tier == "quick" else 780)
    c.assume = ["tiny frames; threads run under the operating system's scheduler here (all schedules: S01-S03)"]
    return c.finish()
