"""S20: a frame's content depends only on its own data and the references it names."""
import vlib, build
def run(tier):
    c = vlib.Check("S20", tier, "exploration")
    h = build.harness("refdep", "plain", ["checks/refdep.c", "lib/av1w.c"])
    vlib.shard_run(c, h, "A case is one sequence of frame kinds; an evaluation decodes one equivalent coding of it (slot numbering, copies, reuse, hidden key frame shown later, unrelated frames, OBU packaging, explicit references) under one thread setting and compares with the canonical coding; non-trivial: more than two pictures.", 90 if tier == "quick" else 780)
    c.assume = ["tiny frames with random tile data; threads run under the operating system's scheduler here (all schedules: S01-S03)"]
    return c.finish()
