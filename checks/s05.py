"""S05: buffers are released exactly once and delivered pictures never change."""
import vlib, build
def run(tier):
    c = vlib.Check("S05", tier, "exploration")
    q = tier == "quick"
    r = ("A case is a stream, thread setting, prefix and first operation; an evaluation runs one sequence of API operations (send, send damaged, send empty, get, release oldest or newest, reference, apply grain, "
         "flush, close and reopen, discard, error properties), re-examining every held picture after each operation and counting every release after the last; sequences with an operation that has no "
         "effect are covered by the shorter sequence; non-trivial: pictures held at the end.")
    for var, secs in (("asan", 100), ("plain", 80)):
        h = build.harness("own", var, ["checks/own.c", "lib/av1w.c"])
        vlib.shard_run(c, h, r if var == "asan" else "", secs if q else secs * 30, label=var)
        if c.nviol: break
    c.assume = ["application calls come from one thread; worker threads run under the operating system's scheduler here (memory errors in all schedules: S03)"]
    return c.finish()
