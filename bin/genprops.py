import json
P=[]
def p(id,title,st,over,text,why,files,mech,state=(),obs=()):
    P.append(dict(id=id,title=title,statement=st,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,state=[dict(name=a,meaning=b,where=c) for a,b,c in state],mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=list(obs),hook_needed=None)))
T="The existing tests are checkasm (single DSP functions) and header-compile tests; "
p("S01","Decoded output is independent of thread count, frame delay and scheduling",
 "For every decodable stream, the sequence of pictures delivered by the decoder (pixels, size, headers, metadata, timestamps, order) is the same for every worker-thread count, every frame delay and every interleaving of the threads, and equals what single-threaded decoding delivers.",
 ["schedules","configurations","inputs"],"all thread interleavings x thread counts x frame delays x valid streams",
 T+"none decodes a stream, and any test that did would run one schedule per run while ordering errors need a particular interleaving.",
 ["src/thread_task.c","src/decode.c","src/lib.c","src/obu.c","src/picture.c","src/cdf.c","src/refmvs.c"],
 [("task dependency checks (reference rows, entropy/reconstruction progress, deblock/cdef/lr ordering)","src/thread_task.c:check_tile, dav1d_worker_task"),("frame delay ring and in-order output","src/lib.c:output_picture_ready, src/decode.c:dav1d_submit_frame"),("lagged progress publication","src/thread_task.c (sr_cur.progress), src/decode.c:dav1d_decode_frame_init")],
 [("progress[2]","rows of a picture finished by entropy/pixel passes","src/picture.h"),("ttd->cond/first/cur","task queue cursor","src/internal.h")],["dav1d_get_picture"])
p("S02","Every API call returns: no deadlock, lost wake-up or livelock",
 "Whatever the thread interleaving, every call to send data, get a picture, flush, close or apply film grain returns after finitely many steps, including when frames are still in flight, when a frame is damaged, when flush or close interrupts decoding, and when condition variables wake spuriously. A packet that was refused with EAGAIN is accepted after pictures have been retrieved a bounded number of times.",
 ["schedules","histories","fault_sequences"],"all interleavings x points of flush/close/error x spurious wake-ups",
 T+"lost wake-ups and abandoned tasks need a particular interleaving with flush/close or a decoding error.",
 ["src/thread_task.c","src/lib.c","src/decode.c"],
 [("task queue signalling (cond_signaled, reset_task_cur)","src/thread_task.c"),("abort_pending/abort flags on errors","src/thread_task.c:abort_frame"),("flush handshake","src/lib.c:dav1d_flush")],
 [("c->flush","abandon current work","src/lib.c"),("task_thread.finished/die","handshake with frame owner and worker exit","src/internal.h")],["return of every dav1d_* call"])
p("S03","No data race and no invalid memory access in any schedule",
 "In every thread interleaving the library's threads (and application threads that only use pictures the API gave them) perform no conflicting unsynchronised accesses, never touch freed or foreign memory, and leave nothing allocated after the decoder is closed and its pictures are released.",
 ["schedules","histories"],"all interleavings x streams x flush/close/error points",
 T+"sanitizers on a test run see only the schedule that happened.",
 ["src/thread_task.c","src/decode.c","src/ref.c","src/mem.c","src/picture.c"],
 [("acquire/release publication of progress counters","src/thread_task.c, src/picture.h"),("reference counting","src/ref.c"),("memory pools under lock","src/mem.c")],
 [("ref_cnt","owners of a buffer","src/ref.h")],["instrumented memory accesses"])
p("S04","A flushed decoder behaves like a newly opened one",
 "After dav1d_flush at any point of any history, including mid-stream, with undelivered pictures, with partly consumed or damaged data, or with frames in flight, the decoder delivers exactly the results and pictures a newly opened decoder with the same settings would deliver for the data sent afterwards, and delivers nothing that was sent before the flush.",
 ["histories","schedules"],"all histories up to the flush x all streams after it (from a sequence header and key frame on)",
 T+"seeking is not tested; leftover state shows only for particular histories.",
 ["src/lib.c","src/obu.c"],[("state reset","src/lib.c:dav1d_flush")],[("c->refs, c->cdf, c->frame_hdr, c->seq_hdr, c->cache, c->out, c->frame_flags","decoder state a flush must drop","src/internal.h")],["dav1d_flush","dav1d_get_picture"])
p("S05","Buffers are released exactly once and delivered pictures never change",
 "Every input buffer and every user-data buffer handed to the decoder is released through its callback exactly once and not while the decoder or a delivered picture still needs it, every picture allocated through the picture allocator is released exactly once, and nothing remains after close and release of all pictures, for every order of API calls. A delivered picture keeps its content, headers, metadata and user data unchanged until the application releases it, even after further decoding, flushing or closing the decoder.",
 ["histories"],"all API call sequences up to a depth over send/get/hold/ref/unref/flush/close on valid, damaged and empty input",
 T+"ownership across call orders is never exercised.",
 ["src/data.c","src/ref.c","src/picture.c","src/lib.c","src/mem.c","src/obu.c"],
 [("reference-counted wrappers","src/ref.c, src/data.c"),("picture allocation wrapper","src/picture.c")],[("ref_cnt","owners","src/ref.h")],["free callbacks","alloc/release_picture_callback","pixel hashes of held pictures"])
p("S06","Results do not depend on packetization or on the call pattern",
 "Cutting the same sequence of OBUs into packets at any OBU boundaries, and interleaving sending and retrieving in any order the API allows, delivers the same pictures in the same order with none lost or repeated. Sending either takes the whole packet or reports an error (EAGAIN: not accepted yet, retrieve first) and then leaves the caller's data untouched; once all data is sent, retrieving until EAGAIN is reported twice in a row delivers every remaining picture.",
 ["histories","inputs","configurations"],"all cuts of an OBU sequence into packets x all send/get patterns",
 T+"no test drives the send/get API.",
 ["src/lib.c","src/obu.c","src/data.c"],[("consumption of one OBU at a time","src/lib.c:gen_picture"),("output cache and drain","src/lib.c:output_picture_ready, drain_picture")],[("c->in","unconsumed data","src/internal.h"),("c->drain","end-of-data mode","src/internal.h")],["dav1d_send_data","dav1d_get_picture"])
p("S07","Errors are contained: the decoder recovers at the next key frame",
 "Whatever damaged, truncated, missing or reordered data a decoder was given, each bad packet is reported as an error or skipped, the decoder stays usable without a flush, and from the next intact sequence header and shown key frame on it delivers exactly the pictures (pixels, size, headers, timestamps) a fresh decoder delivers. Frames that precede the damage are delivered unharmed, and after an error the decoder reports the properties (timestamp, user data) of the packet that caused it.",
 ["fault_sequences","inputs","histories"],"all single damages (frame, kind, position) of a stream x recovery streams x thread settings",
 T+"no stream, let alone damaged stream, is decoded.",
 ["src/obu.c","src/lib.c","src/decode.c","src/thread_task.c"],[("error paths of OBU parsing and frame submission","src/obu.c:dav1d_parse_obus, src/decode.c:dav1d_submit_frame"),("cached error and error data props","src/lib.c, src/decode.c")],[("c->cached_error, cached_error_props","deferred error of a frame thread","src/internal.h")],["dav1d_send_data","dav1d_get_picture","dav1d_get_decode_error_data_props"])
p("S08","No input can corrupt memory, hang or crash the decoder",
 "For every byte sequence passed to the decoder or to the sequence-header parser, cut into packets in any way and under any decoder settings, no call reads or writes outside its buffers, invokes undefined behaviour, aborts, exhausts the stack or fails to return, and nothing is leaked.",
 ["inputs","configurations"],"all inputs within an edit distance of valid streams covering every syntax element",
 T+"the fuzzers in the tree are not run by the tests and sample rather than enumerate.",
 ["src/obu.c","src/getbits.c","src/decode.c","src/recon_tmpl.c","src/lib.c","src/msac.c","src/refmvs.c","src/itx_tmpl.c","src/lf_mask.c"],
 [("bounds checks in header parsing","src/obu.c, src/getbits.c"),("motion vector clamping and edge emulation","src/recon_tmpl.c, src/refmvs.c"),("consistency checks before decoding","src/decode.c:dav1d_submit_frame")],(),["sanitizer-instrumented execution"])
p("S09","Running out of memory is survivable at every allocation",
 "If any single memory allocation fails, or all allocations from some point on fail, including the picture allocator callback and during opening, decoding, film grain and flushing, the affected call returns an error, no memory is corrupted or leaked, nothing hangs, and the decoder can still be closed; once memory is available again, it decodes a new key frame correctly.",
 ["fault_sequences","schedules"],"all allocation points k (only the k-th failing; all from k on) x streams x thread settings",
 T+"no allocation failure is ever injected.",
 ["src/lib.c","src/decode.c","src/obu.c","src/picture.c","src/ref.c","src/mem.c","src/data.c","src/cdf.c","src/refmvs.c","src/thread_task.c"],
 [("error unwinding at each allocation","src/decode.c, src/obu.c, src/picture.c")],(),["return codes, sanitizer reports, allocation counts"])
p("S10","Exactly the right pictures are delivered, in the right order",
 "The pictures delivered are exactly those the AV1 output process prescribes for the stream: each shown frame and each show-existing-frame once, in bitstream order, with the content of the frame slot it refers to, a shown-again key frame refreshing all slots; hidden frames are delivered only when invisible output is requested; of a scalable stream only layers of the selected operating point, all of them or the highest spatial layer of each temporal unit as configured; and only the frame types selected by the decode-frame-type setting.",
 ["histories","configurations"],"all sequences of frame kinds up to a depth x all output settings x thread settings, against an independent model of the reference slots",
 T+"no reference-slot or layer logic is exercised.",
 ["src/obu.c","src/lib.c","src/decode.c","src/thread_task.c"],[("show_existing_frame handling","src/obu.c:dav1d_parse_obus"),("reference refresh","src/decode.c:dav1d_submit_frame"),("layer and operating-point selection","src/lib.c:output_picture_ready, src/obu.c")],[("c->refs[8]","reference slots","src/internal.h"),("operating_point_idc, max_spatial_id","layer selection","src/internal.h")],["dav1d_get_picture"])
p("S11","Metadata, data properties and event flags belong to the right picture",
 "Every delivered picture carries the properties (timestamp, duration, offset, size, user data) of the packet holding its first tile data (or the request to show it again), the content-light and mastering-display values in force when its header was sent and the ITU-T T.35 payloads sent for it and for no other picture; event flags report a new sequence or changed operating parameters no later than the first delivered picture of the new sequence or parameters.",
 ["histories","configurations","schedules"],"all placements of metadata OBUs and sequence changes among frames up to a depth x thread settings",
 T+"no metadata is exercised.",
 ["src/obu.c","src/picture.c","src/lib.c"],[("attachment to pictures","src/picture.c:dav1d_picture_copy_props, picture_alloc_with_edges"),("frame_flags propagation","src/lib.c, src/picture.c")],[("c->itut_t35, content_light, mastering_display, frame_flags","pending metadata","src/internal.h")],["Dav1dPicture fields","dav1d_get_event_flags"])
p("S12","Reported headers equal the coded headers",
 "The sequence and frame headers attached to delivered pictures report, for every syntax element and every derived value, what the bitstream codes according to the AV1 specification, including values inherited from reference frames; the standalone sequence-header parser reports the same sequence header as decoding does, and headers that are truncated, name missing references or code values the specification forbids (out-of-range film grain points, tile or frame numbers, operating points, profiles) are refused.",
 ["inputs"],"all values of each header syntax element (and combinations up to a bound), one after another in streams that reference each other",
 T+"no header is parsed by any test.",
 ["src/obu.c","src/getbits.c","src/lib.c"],[("header parsing","src/obu.c:parse_seq_hdr, parse_frame_hdr"),("bit reader","src/getbits.c")],(),["Dav1dPicture.seq_hdr/frame_hdr","dav1d_parse_sequence_header"])
p("S13","Output is the same on every CPU level and with every picture allocator",
 "Decoded pictures are bit-identical for every enabled subset of CPU instruction-set extensions and the portable code, for every conforming picture allocator (default or custom, any suitable stride, positive or negative, any prior buffer content), and the decoder writes nowhere outside the planes it was given.",
 ["configurations","inputs"],"all CPU-flag levels x allocator layouts x stream kinds x thread settings",
 T+"checkasm compares isolated functions on random inputs; nothing compares whole decodes or custom allocators.",
 ["src/cpu.c","src/picture.c","src/recon_tmpl.c","src/lr_apply_tmpl.c","src/cdef_apply_tmpl.c","src/lf_apply_tmpl.c","src/x86"],[("DSP initialisation by CPU flags","src/cpu.c, src/*/*.h init"),("picture allocation","src/picture.c")],(),["pixel hashes","guard areas of picture buffers"])
p("S14","Film grain: built-in and separate application agree and spare the reference",
 "Applying film grain inside the decoder delivers exactly the picture that decoding without grain followed by dav1d_apply_grain delivers, for every grain parameter set, pixel format, bit depth, thread setting and schedule; frames without grain parameters pass unchanged, and applying grain never alters the grain-free picture used for prediction or held by the application.",
 ["inputs","configurations","schedules"],"all grain parameter classes x formats x thread settings",
 T+"checkasm covers the grain kernels only, not the application over rows, tasks or references.",
 ["src/fg_apply_tmpl.c","src/lib.c","src/thread_task.c","src/filmgrain_tmpl.c"],[("row-wise grain application","src/fg_apply_tmpl.c"),("delayed film grain tasks","src/thread_task.c:delayed_fg_task"),("output stage","src/lib.c:output_image")],(),["dav1d_get_picture","dav1d_apply_grain"])
p("S15","The decoder holds back no more frames than its announced delay",
 "dav1d_get_frame_delay returns for every setting the number the decoder uses, at least 1, at most 256 and no more than a requested maximum frame delay; a decoder with delay d, fed one frame per packet and asked for one picture after each packet, has delivered the pictures of a packet at the latest when d further packets have been sent, and with delay 1 delivers each picture right after its packet.",
 ["configurations","inputs"],"all thread counts x frame delays accepted by dav1d_open",
 T+"nothing checks delay.",
 ["src/lib.c","src/decode.c"],[("thread and delay computation","src/lib.c:get_num_threads"),("ring of frame contexts","src/decode.c:dav1d_submit_frame")],[("n_fc","frame contexts","src/internal.h")],["dav1d_get_frame_delay","dav1d_get_picture"])
p("S16","The command-line tool decodes the same frames from every container",
 "The same temporal units stored as IVF, Annex B or Section 5 are recognised by probing and decoded to the same pictures; truncated or malformed container files end in an orderly error or a clean end of stream, never in a crash, hang or invalid memory access.",
 ["inputs"],"all three containers x streams x all truncation points and single-byte mutations of headers",
 T+"the tool is not run.",
 ["tools/input/ivf.c","tools/input/annexb.c","tools/input/section5.c","tools/input/input.c","tools/dav1d.c"],[("probing","tools/input/input.c"),("demuxers","tools/input/*.c")],(),["dav1d command line"])
p("S17","Output files hold exactly the decoded pictures",
 "For every picture format the tool's md5, yuv, y4m, xxh3 and per-frame outputs describe exactly the visible pixels of the selected pictures (after --skip and --limit) in order, the y4m header describes their size and format, and --verify succeeds exactly when the given checksum is that of the output.",
 ["inputs","configurations"],"all pixel layouts x bit depths x odd and even sizes x muxers x skip/limit values",
 T+"the tool is not run.",
 ["tools/output/md5.c","tools/output/yuv.c","tools/output/y4m2.c","tools/output/xxhash.c","tools/output/output.c","tools/dav1d.c"],[("muxers","tools/output/*.c"),("skip, limit and verify","tools/dav1d.c")],(),["output files","exit status"])
p("S18","Decoded pixels conform to the AV1 specification",
 "For every conforming AV1 bitstream the decoded pixels are bit-exactly those the specification's decoding process defines.",
 ["inputs"],"all conforming bitstreams",
 T+"the conformance vectors (dav1d-test-data) are not part of this tree.",
 ["src/recon_tmpl.c","src/decode.c","src/msac.c","src/cdf.c"],[("block decoding and reconstruction","src/decode.c, src/recon_tmpl.c")],(),["dav1d_get_picture"])
p("S19","Configured limits are respected and invalid settings are refused",
 "With a frame size limit set, a frame of more pixels than the limit is refused with an error before any picture is allocated for it and every frame within the limit is decoded; opening a decoder with settings outside their documented range fails without side effects, and with accepted settings succeeds.",
 ["configurations","inputs"],"all frame sizes around the limit, including sizes overridden per frame, scaled or super-resolved; all boundary values of each setting",
 T+"settings are not exercised.",
 ["src/lib.c","src/obu.c","src/picture.c"],[("size limit check","src/obu.c:dav1d_parse_obus"),("settings validation","src/lib.c:dav1d_open")],(),["dav1d_open","dav1d_send_data","alloc_picture_callback"])
p("S20","A frame's content depends only on its own data and the references it names",
 "What a frame decodes to is determined by its own coded data and the state saved with the frames it references: it is unaffected by which of the eight slots hold those frames, by copies in several slots, by other frames decoded, shown, skipped or dropped in between, by whether a key frame was shown directly or hidden and shown later, by how its OBUs are packaged (frame OBU or header and tile groups, redundant headers, padding, unknown or metadata OBUs) and by what an earlier frame left in the decoder's reused buffers.",
 ["histories","configurations","schedules"],"all sequences of frame kinds up to a depth x all equivalent codings x thread settings",
 T+"leftover state in reused frame contexts and wrong inheritance show only for particular frame sequences.",
 ["src/decode.c","src/obu.c","src/refmvs.c","src/cdf.c"],
 [("saving and loading of reference state","src/decode.c:dav1d_submit_frame, src/obu.c:parse_frame_hdr"),("show_existing_frame of a key frame","src/obu.c:dav1d_parse_obus"),("per-frame buffer setup","src/decode.c:dav1d_decode_frame_init")],
 [("c->refs[8], c->cdf[8]","saved reference state","src/internal.h"),("Dav1dFrameContext","reused per-frame buffers","src/internal.h")],["dav1d_get_picture"])
open("/verif/properties.jsonl","w").write("".join(json.dumps(x)+"\n" for x in P))
