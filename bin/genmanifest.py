#!/usr/bin/env python3
"""writes MANIFEST.json from the table below (claimed checks) and properties.jsonl"""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MC = "stateless model checking of the real library under a controlled scheduler (deviation-bounded, happens-before state pruning)"
SE = "exhaustive enumeration of bounded operation/fault sequences executed on the real library"
OS = "exhaustive over the stated sequences; worker threads run under the operating system's scheduler in this check (all interleavings are the business of S01-S03)"
C = {
 "S01": ("model_checking", MC, "every schedule within the stated deviation bound from four base schedules, on small streams covering each coding tool; assumes race freedom (S03) and sequentially consistent atomics"),
 "S02": ("model_checking", MC + ", with flush, close, damage and spurious wake-ups", "as S01; every blocked state without a runnable thread and every run beyond the step limit is reported"),
 "S03": ("model_checking", MC + " with happens-before race detection and shadow heap on every access", "as S01 on the C code paths; accesses inside libc are not tracked"),
 "S04": ("exploration", SE + ": every flush point x retrieval pattern x following stream, against a fresh decoder", OS),
 "S05": ("exploration", SE + ": every sequence of API operations up to a depth, with every buffer and picture counted and hashed", OS),
 "S06": ("exploration", SE + ": every cut of OBU sequences into packets x retrieval words", OS),
 "S07": ("exploration", SE + ": every single damage (OBU x kind x bit) followed by an intact stream", OS),
 "S09": ("exploration", SE + ": every allocation of short streams failing alone, four in a row or from then on (and every thread creation), the parallel paths under the controlled scheduler", OS),
 "S10": ("exploration", SE + " of frame kinds and output settings against an explicit model of the reference slots and output process", OS),
 "S11": ("exploration", SE + ": every order of frames, metadata OBUs, sequence headers and packet boundaries up to a length, against an explicit model of pending and attached metadata", OS),
 "S12": ("exploration", SE + ": every value of every header field, pairs and triples of fields, in streams that inherit from each other, against the derivation of an independent bitstream writer", "single-threaded and threaded decoding; the oracle is the specification as implemented by lib/av1w.c"),
 "S13": ("exploration", SE + ": streams of every coding tool, picture size and format under every CPU flag mask and a family of picture allocators, compared with the portable C build", "x86-64 levels up to AVX-512; random small streams filtered for transform conformance; " + OS),
 "S14": ("exploration", SE + ": film grain parameter pairs and triples, picture sizes, sample values and frame orders against a film grain process written from the specification; grain tasks under the controlled scheduler", "the grain process of the specification is the oracle; schedules within the stated deviation bound"),
 "S15": ("exploration", SE + ": every accepted pair of thread count and frame delay", OS),
 "S19": ("exploration", SE + ": every value and pair of values of the settings around their bounds, every kind of refused argument, and every pair of frame kinds and sizes under limits around them", "settings in a release build without assertions; " + OS),
 "S20": ("exploration", SE + ": every sequence of frame kinds x equivalent codings must decode alike", OS),
}
exec(open(os.path.join(V, "bin", "claims.py")).read()) if os.path.exists(os.path.join(V, "bin", "claims.py")) else None
NA = {"S18": "deciding bit-exactness needs an independent AV1 reference decoder or the conformance vectors, neither of which is available offline; model checking has no oracle for the pixel values"}
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
checks = []; na = []
for p in props:
    i = p["id"]
    if i in C:
        lv, te, no = C[i]
        checks.append(dict(property=i, quick_cmd="python3 run.py %s quick" % i, thorough_cmd="python3 run.py %s thorough" % i, evidence_file="evidence/%s.json" % i, technique=te, level=lv, level_note=no))
    else: na.append(dict(property=i, reason=NA.get(i, "check not built yet")))
json.dump(dict(version=1, setup_cmd="python3 lib/build.py mcfast mcfull asan plain noasm alldsp ndebug", checks=checks, not_applicable=na,
   notes="No hooks in /repo: the checks build /repo's sources unmodified (linker --wrap and compiler instrumentation give the control points)."),
   open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
