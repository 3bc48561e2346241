"""S19: configured limits are respected and invalid settings are refused."""
import vlib, build
def run(tier):
    c = vlib.Check("S19", tier, "exploration")
    q = tier == "quick"
    r1 = ("A case is a value of one setting with every value of another (in range, at the bounds, outside), or the list of null and malformed arguments; an evaluation opens a decoder "
          "with one combination in a release build without assertions and checks acceptance, thread count, memory and decoding, or makes one refused call; non-trivial: a refusal.")
    r2 = ("A case is a pair of frame kinds and sizes; an evaluation sends one frame to a decoder with one limit (around each size, extremes) in one thread setting and packaging and checks refusal, "
          "allocations and delivery; sizes up to 65536x65536 with an allocator that fails; non-trivial: a refused frame.")
    for part, var, rule, secs, label in (("1", "ndebug", r1, 60, "settings and arguments"), ("2", "plain", r2, 60, "frame size limit"), ("2", "asan", "", 30, "frame size limit under sanitizers")):
        h = build.harness("limits" + part, var, ["checks/limits.c", "lib/av1w.c"], extra_c=["-DPART=" + part])
        vlib.shard_run(c, h, rule, secs if q else secs * 20, label=label)
        if c.nviol: break
    c.assume = ["a 64-bit system (the additional limit on 32-bit systems cannot run here)"]
    return c.finish()
