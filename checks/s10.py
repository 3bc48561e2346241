"""S10: exactly the right pictures, in the right order (model of the output process, all frame-kind sequences)."""
import vlib, build
def run(tier):
    c = vlib.Check("S10", tier, "exploration")
    h = build.harness("outsel", "plain", ["checks/outsel.c", "lib/av1w.c"])
    vlib.shard_run(c, h, "A case is one sequence of frame kinds (first a shown or hidden key frame, then every word over 15 kinds) or of temporal units of a "
                   "scalable stream; an evaluation decodes it under one setting and compares pictures, order and error count with the model; "
                   "non-trivial: at least two pictures (one for layers) expected.", 60 if tier == "quick" else 780)
    c.assume = ["16x16 and 24x24 frames", "frame content is identified by order hint and checked for equality with its first delivery"]
    return c.finish()
