"""S12: delivered headers report what is coded; invalid ones are refused."""
import vlib, build
def run(tier):
    c = vlib.Check("S12", tier, "exploration")
    q = tier == "quick"
    for part, label, rule in (
        ("1", "sequence headers", "A case is a family of sequence headers (every value of every syntax element, all tool and colour combinations, every bit flip and truncation of four headers, other OBUs around it); an evaluation writes one header with the checker's own specification-derived writer and compares every reported value of the stand-alone parser, and of the decoder when a picture follows."),
        ("2", "frame headers", "A case is one value of one frame header field (or a pair, thorough: every pair and triple, of representative values) in one sequence configuration and frame kind; the stream decodes two rich frames before it, an inheriting frame and a show-existing after it, and every header on every delivered picture is compared with the writer's derivation; non-trivial: all pictures were delivered."),
        ("3", "refusals", "A case is one kind of header that must be refused next to its acceptable neighbours (truncated at every byte, missing references for every slot set, film grain, tile context, frame ids, strict mode).")):
        h = build.harness("hdr" + part, "plain", ["checks/hdr.c", "lib/av1w.c"], extra_c=["-DPART=" + part])
        vlib.shard_run(c, h, rule, 60 if q else 700, label=label)
    c.assume = ["tile data is random but long enough to decode; it plays no part in the headers", "the writer (lib/av1w.c) follows the AV1 specification independently of the decoder"]
    return c.finish()
