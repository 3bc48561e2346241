"""S11: metadata, packet properties and event flags belong to the right picture."""
import vlib, build
def run(tier):
    c = vlib.Check("S11", tier, "exploration")
    q = tier == "quick"
    rule = "A case is a block of orders of 14 tokens (key, hidden key, inter, hidden inter, show-existing, split frame, content light, mastering display, two T.35 kinds, new sequence, changed operating parameters, repeated sequence header, packet boundary); an evaluation decodes one order in one of 8 settings and compares every property of every delivered picture, again after everything was decoded and flushed; non-trivial: pictures carrying metadata."
    h = build.harness("meta", "plain", ["checks/meta.c", "lib/av1w.c"])
    vlib.shard_run(c, h, rule, 60 if q else 500, label="orders")
    h = build.harness("meta", "asan", ["checks/meta.c", "lib/av1w.c"])
    vlib.shard_run(c, h, "The same under address and undefined-behaviour sanitizers.", 40 if q else 300, label="orders, sanitized")
    c.assume = ["tiny frames; threads run under the operating system's scheduler here (all schedules: S01-S03)"]
    return c.finish()
