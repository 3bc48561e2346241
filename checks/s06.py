"""S06: results do not depend on packetization or on the call pattern."""
import vlib, build
def run(tier):
    c = vlib.Check("S06", tier, "exploration")
    h = build.harness("apihist6", "plain", ["checks/apihist.c", "lib/av1w.c"], extra_c=["-DPART=6"])
    vlib.shard_run(c, h, "A case is one way to cut the OBU sequence of a stream into packets (all 2^(n-1), or all with at most two cuts or joins for long streams); an evaluation decodes it under one thread setting and one pattern of retrieval calls, checking pictures, timestamps, the EAGAIN contract and packet release; non-trivial: at least two pictures.", 60 if tier == "quick" else 780)
    c.assume = ["tiny frames; threads run under the operating system's scheduler here (all schedules: S01-S03)"]
    return c.finish()
