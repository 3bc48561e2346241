"""S13: output is the same on every CPU level and with every picture allocator."""
import os, shutil, tempfile
import vlib, build
def run(tier):
    c = vlib.Check("S13", tier, "exploration")
    d = tempfile.mkdtemp(prefix="s13-")
    try:
        ref = os.path.join(d, "ref")
        h0 = build.harness("simd", "noasm", ["checks/simd.c", "checks/itxmon.c", "lib/av1w.c"])
        x = vlib.Check("S13", tier, "exploration")
        vlib.shard_run(x, h0, "", 0, env={"REF_OUT": ref}, timeout=3000)
        c.nviol += x.nviol
        if not c.nviol:
            for var, secs in (("alldsp", 150), ("plain", 60)):
                h = build.harness("simd", var, ["checks/simd.c", "lib/av1w.c"])
                vlib.shard_run(c, h, "A case is a stream (each coding tool; or a picture size x layout x bit depth x tool set); an evaluation decodes it under one CPU flag mask, allocator (stride sign, "
                               "length, varying from picture to picture, prior buffer content) and thread setting and compares every result with that of the portable C build; non-trivial: more than one picture."
                               if var == "alldsp" else "The same in the default build, where functions of the lowest CPU level are not built.", secs if tier == "quick" else secs * 15, env={"REF_IN": ref}, label=var, timeout=3600)
                if c.nviol: break
    finally: shutil.rmtree(d, ignore_errors=True)
    c.cov["cpu_flag_masks"] = 64
    c.assume = ["x86-64 assembly only: other architectures' code cannot run here", "CPU levels above this machine's are not covered (it has AVX-512 ICL)",
                "an allocator uses the same stride for pictures of equal size when film grain is applied", "random tile data (valid, decoded without errors) in small pictures"]
    return c.finish()
