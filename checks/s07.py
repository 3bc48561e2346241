"""S07: errors are contained; recovery at the next key frame (every single damage of a stream)."""
import vlib, build
def run(tier):
    c = vlib.Check("S07", tier, "exploration")
    h = build.harness("apihist7", "plain", ["checks/apihist.c", "lib/av1w.c"], extra_c=["-DPART=7"])
    vlib.shard_run(c, h, "A case is one damage (OBU index x damage kind, or one frame with too little tile data) of a stream followed by an intact stream; an evaluation runs it under one thread setting and retrieval pattern; checked: pictures before the damage, attribution of errors, exact recovery; non-trivial: at least two pictures expected in the recovery.", 60 if tier == "quick" else 780)
    c.assume = ["tiny frames; threads run under the operating system's scheduler here (all schedules: S01-S03)"]
    return c.finish()
