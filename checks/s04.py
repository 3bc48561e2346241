"""S04: a flushed decoder behaves like a newly opened one (flush at every OBU of every history)."""
import vlib, build
def run(tier):
    c = vlib.Check("S04", tier, "exploration")
    h = build.harness("apihist4", "plain", ["checks/apihist.c", "lib/av1w.c"], extra_c=["-DPART=4"])
    vlib.shard_run(c, h, "A case is one flush point (OBU index, retrieval pattern, optionally a truncated or partly consumed packet before it) in one stream followed by another stream; an evaluation runs it under one thread setting and compares with a fresh decoder; non-trivial: at least two pictures after the flush.", 60 if tier == "quick" else 780)
    c.assume = ["tiny frames; threads run under the operating system's scheduler here (all schedules: S01-S03)"]
    return c.finish()
