"""What each property's check builds and runs. Paths: harness/ is /verif's, src/ is /repo's."""
DEC = "the reference decoder libvpx.so.9 installed in the sandbox defines the VP8 standard's output"
CHECKS = {}
def check(pid, technique, level_note, bounds, assumptions, runs):
    CHECKS[pid] = dict(technique=technique, level_note=level_note, bounds=bounds, assumptions=assumptions, runs=runs)

def H(name, variant="opt", libs=("decoder", "encoder", "util"), **k):
    return dict(prog=name, variant=variant, srcs=["harness/%s.cc" % name], libs=libs, ld=["-ldl"], **k)

def NET(name, variant="opt", **k):
    return H(name, variant, libs=("net", "util"), **k)

def FILES(name, variant="opt", **k):
    return H(name, variant, libs=("input", "decoder", "util"), **k)

check("P01", "bounded-exhaustive exploration of the real decoder, differential against a reference decoder",
      "Every key frame one deviation away from textured bases (all header fields, modes, coefficient classes), pairs of deviations, all mode/neighbour triples, all filter settings and sizes; each decoded by the real code and by libvpx and compared pixel by pixel.",
      "alphabet: bitstream fields; deviations <= 2 per frame; every size to 50x50 (thorough 100x100), 1280x720, 640x480, 16383x16, 16x16383 and other strips; up to 9 macroblocks in deviating frames",
      [DEC, "block shapes that the standard leaves ambiguous (explicit zero tokens up to the end of a block) are excluded"],
      [H("decode")])
check("P02", "bounded-exhaustive exploration of the real decoder, differential against a reference decoder",
      "Every inter frame one deviation (and pairs) away from textured bases with three distinct references, every displacement class over every edge, every neighbourhood of motion vectors, all filter settings; compared with libvpx pixel by pixel.",
      "alphabet: bitstream fields; deviations <= 2 per frame; up to 9 macroblocks",
      [DEC, "reserved copy-flag value 3 excluded (rejected by the reference)"],
      [H("decode")])
check("P03", "exhaustive operation-sequence exploration of the real decoder against a reference decoder",
      "Every sequence of length 3 (thorough 4) over an alphabet of 25 state-changing frames and every pair (thorough triple) of reference-update combinations, each followed by frames that make the retained state visible; compared with libvpx.",
      "alphabet 25 frames, depth 3 (4 thorough; 4/5 for segmentation and filter frames); all 32x32 (32^3) reference update combinations",
      [DEC], [H("decode")])
ENC = "input pictures are 16 synthetic ones (texture, displaced textures, noise, flat, extremes) filling whole macroblocks"
check("P04", "exhaustive operation-sequence exploration of the real encoder against the real decoder and a reference decoder",
      "Every sequence of 3 encodings over pictures x rate modes for all quality settings, every quantizer, every starting decoder state, every picture size; after each frame the encoder's exported state, pictures and fingerprint are compared with a decoder that decoded the frames, and the picture with libvpx's.",
      "16 (thorough 36) operations, depth 3; 128 quantizers; 14 decoder states x pictures^2 x modes, depth 3; sizes 1..33 (50) squared, 640x360, 4400x17, 17x4400, 1030x40, 40x1030, 257x255, also under address and undefined-behaviour sanitizers",
      [DEC, ENC], [H("encode"), H("encode", variant="san", args=["--set=sizes"])])
check("P05", "exhaustive operation-sequence exploration of the real encoder; oracle: the same history alone in a process of its own",
      "Every sequence of 4 (thorough 5) operations over two encoders (encode, copy, move, estimate, try on a copy and discard, renew, unrelated encoder); each frame's bytes and the fingerprints must be those that the encoder's own history gives in a process where nothing else happens. Stale heap contents are varied.",
      "15 operations (5 kinds of encoding), depth 4 for two configurations and 3 for two more (thorough: 8 configurations at depth 4, one at depth 5)",
      [ENC], [H("encode")])
check("P18", "bounded-exhaustive exploration of the real capture code against a controlled device: every buffer order, size, format and single damage",
      "The real Camera and JPEG code run against a device in memory whose driver hands over any of its buffers, in every order, and overwrites each buffer as soon as it has it back; every even size and every format, sequences of good, unsupported, cut and damaged pictures, one damaged byte (and pairs of header bytes) under address and undefined-behaviour sanitizers. Each picture is compared sample by sample with what the driver wrote.",
      "4 buffers, 6 (thorough 7) pictures in every order; even sizes <= 50 (66) squared plus common large ones; sequences of 3 (4) of 29 kinds of picture; 16 (255) changes of every byte of three JPEG pictures, every cut",
      ["libjpeg itself decodes correctly; JPEG contents are compared with libjpeg used directly", "a driver hands over only buffers that were given to it"],
      [FILES("camera", args=["--set=values"]), FILES("camera", variant="san", args=["--set=safety"])])
check("P25", "bounded-exhaustive exploration of the real socket and address code on a modelled kernel, replayed on the real loopback",
      "Every history of 5 (thorough 6) sends and receipts over four sockets, every datagram size, every order of control messages and every way a call can fail, on a kernel that the harness plays; histories of 3 (4) are repeated on the machine's loopback when it has one. Addresses: every port, products of octets and groups, all short strings, all pairs of an alphabet.",
      "histories 14^5 (14^6); sizes 0..65507 and beyond the buffer; 4 (5) control messages of 7 kinds x 12 times; 17 errors x 11 calls; IPv4 12^4 octets; IPv6 4^8 (5^8) groups; strings of length <= 5 (6) over 14 characters",
      ["the C library's conversions between text and addresses are correct (inet_pton, inet_ntop)"],
      [NET("sockets"), NET("sockets", variant="san", args=["--set=safety"])])
check("P24", "exhaustive enumeration of quantizers and targets on the real encoder; oracle: all 128 encodings made on copies",
      "For every history x picture x quality setting, all 128 quantizers are tried on copies, then quality and size targets at, just above and between everything available; the frame must be the one the search prescribes, and the reported quality that of the decoded picture (measured independently).",
      "25 (thorough 169) histories x 8 (16) pictures x 4 settings x all quantizers x 40 (260) quality and 55 (260) size targets",
      [ENC], [H("encode")])
check("P06", "exhaustive operation-sequence exploration of the real decoder; oracle: each history alone in a process of its own, checked against a reference decoder",
      "Every sequence of 4 (thorough 5) operations over two decoders, a player, a saved copy and the pictures handed out (decode, copy, save, reload, renew, drop, encode from a copy, use a copy): after every operation every decoder must be in the state its own history gives, and every picture unchanged.",
      "19 (21) operations, depth 4 (5); player variant depth 3 (5); 5 (6) kinds of frames", [DEC], [H("state")])
check("P07", "bounded-exhaustive exploration of parse and serialise on the real code; oracle: both decoders on the original and the serialised frame",
      "Every key and inter frame one deviation away from textured bases, every sequence of 2 (thorough 3) frames of the alphabet, every encoder output over 14 states: parsed, serialised, parsed again; pictures, states, references and bytes compared by the real decoder and libvpx.",
      "deviations <= 1 per frame, two sizes; sequences of depth 2 (3) over 25 frames; 2688 encoder outputs twice",
      [DEC, "block shapes that the standard leaves ambiguous (explicit zero tokens up to the end of a block) are excluded"], [H("state")])
check("P08", "bounded-exhaustive exploration of the real arithmetic coder, with model-guided carry traces; oracle: what was written, and an independent decoder",
      "Every string of 6 symbols over 14 (thorough 20) symbol/probability pairs, all pairs of probabilities, all bit strings, all runs; carry chains of up to 26 bytes from a model of intervals that straddle a byte boundary; every symbol of every tree under all extreme probabilities; every coefficient level, vector component and header value inside frames.",
      "6 symbols; 14 (18)-bit strings; runs up to 300; 60 (120) symbols of straddling; levels -2114..2114, components -1023..1023",
      [], [H("entropy", optional=["-DWITH_TREES"])])
check("P09", "exhaustive exploration of states, truncation points and file damage on the real code",
      "States after every sequence of 2 (thorough 3) frames and of every size are saved, loaded and continued with every inter frame of the alphabet; state files are cut at every byte, extended, and have every byte replaced: refused, or accepted as exactly what they say (saving again gives the same file).",
      "depth 2 (3); sizes 1..18 (34) squared and 7 (8) sizes to 1280x720 x 14 states; 3 (5) files x all truncations x 11 (all 255) values of every byte",
      [], [H("state")])
check("P10", "exhaustive enumeration of single differences and of all pairs of reached states on the real code; oracle: an independent digest of the whole state",
      "Every single-field difference (each probability, adjustment, map entry, pixel of each reference, exchanges) from two base states, and all 122 million pairs of the 15625 states reached by sequences of 3 frames: fingerprints are equal exactly when the states are, however they were reached.",
      "4 (all 255) changes of each probability, all of each adjustment, 2 (5) of each pixel; 33 (257) positions of every plane and the map at 4 large sizes; sequences of depth 3 over 25 frames",
      ["hash collisions by chance are disregarded"], [H("state")])
check("P11", "exhaustive exploration of delivery sequences on the real code against a set model",
      "Every sequence of 7-8 (thorough 8-9) deliveries of the fragments of 1 to 5 fragment frames, duplicates, foreign datagrams and moves; every frame size up to 6000 (12000) bytes and around every multiple of the datagram size, rebuilt in four orders with duplicates; all orders of 7 (8) fragments; the largest counts.",
      "1..5 fragments at depth 7-8 (8-9); sizes 1..6000 (12000), k*1400-1..k*1400+1, 65535 datagrams",
      ["duplicates of a datagram are identical to it"], [NET("net"), NET("net", variant="san", thorough_only=True)])
check("P12", "exhaustive enumeration of datagrams on the real parsers, also under address and undefined-behaviour sanitizers; oracle: an independent reading of the wire format",
      "All pairs of field values from boundary alphabets, all lengths and counts, all truncations, all single-byte substitutions, all short strings with two deviating bytes: accepted exactly when well-formed, with the same fields, same bytes again, bounded allocation; over real loopback sockets.",
      "13 16-bit and 17 32-bit values in every pair of fields; up to 399 states; strings up to 29 bytes", 
      ["a cut inside a data packet's payload leaves a well-formed shorter packet and cannot be detected"], [NET("net"), NET("net", variant="san")])
check("P16", "exhaustive exploration of append histories, crash points, torn writes and file damage on the real reader and writer; oracle: an independent reading of the format",
      "Every history of 4 (thorough 5) appends and hash settings, read back after every step; the writer killed or the disk full after every byte with writes torn into pieces; every cut, every value of every byte, every pair of count and length from boundary alphabets.",
      "depth 4 (5) over 9 operations, depth 3 over 16 sizes; up to 70000 frames; 5 histories x every byte x 4 ways to tear writes", [],
      [FILES("files")])
check("P17", "exhaustive enumeration of damage on the real decoder under address and undefined-behaviour sanitizers; oracle for concealment: the reference decoder's picture of what arrived",
      "Every byte of several streams replaced (all values in headers, 14 elsewhere; thorough: all values), pairs of bytes in the headers, every cut alone and with replaced bytes, all frames of up to two bytes, all flags and partition lengths, patterned partitions, in both modes: throws or gives a picture, and nothing decoded or saved before changes. In error-concealment mode every cut of sixteen frames is compared macroblock by macroblock.",
      "6 (9) frames up to 33x40; 16 frames for concealment up to 70x72; sequences of 2 (3) over 25 frames decoded the same in both modes",
      [DEC, "a frame cut within its own frame header may hold anything and may be refused"],
      [H("damage", variant="san"), H("damage", args=["--set=conceal"]), H("damage", variant="sanport", thorough_only=True)])
check("P20", "exhaustive exploration of operation sequences on the real pacer under a virtual clock and the real event loop over real descriptors, against models",
      "Every sequence of 6 (thorough 7) pushes, clock advances, sends and waits on the pacer; queues of up to 70000 packets and delays of up to 2^31 microseconds; every sequence of 6 (7) operations (data, room, close, half-close, interest, callback behaviour, poll) on event loops over every pair of five kinds of descriptor.",
      "6 delays, 6 clock steps; 613 queue lengths to 70000 x 7 delays x 3 patterns; 13 operations on two descriptors, the last one a poll", ["the clock does not run backwards"], [NET("events")])
check("P21", "exhaustive enumeration of sizes, headers, stream ends and read splittings on the real reader and writer; oracle: an independent reading of the format",
      "Every picture size up to 36x36 (thorough 70x70) and long thin ones, written and read; every way (65536 patterns) in which reads of a picture can be split; every cut of six streams; every triple of 66 header parameters, every cut and replaced byte of a header.",
      "sizes 1..36 (70) squared; 16 (19) split points x 5 sizes; 2 x 66^3 headers", [], [FILES("files")])
def PROGRAM(harness, prog, libs, variant="opt", **k):
    """One of the project's own programs, its main function renamed, with stand-ins for camera and window."""
    return dict(prog=harness, variant=variant, libs=libs, ld=["-ldl"],
                srcs=["harness/%s.cc" % harness, ("src/salsify/salsify-%s.cc" % prog, ["-iquote@VERIF@/stubs", "-Dmain=%s_main" % prog])], **k)
check("P13", "exhaustive exploration of datagram deliveries to the real receiver program, run event by event, against a protocol model with decoders of its own",
      "salsify-receiver's own main function runs in a fresh process for every execution, its socket, poll and window replaced. Every sequence of 5 (thorough 7) deliveries of the datagrams of eight sessions, every session of four frames (sources, kinds and recurring states) under every loss and every single delay or duplication: acknowledgements, states, pictures shown must be the model's, and every advertised state is then loaded.",
      "eight sessions of up to 7 datagrams, depth 5 (7); 373 (thorough several thousand) sessions of 4 frames x all losses, delays, duplications; two sessions of 8 frames x all losses x 3 first frame numbers; 6 (7) gaps x 4 pauses for 3 (4) datagrams in 6 orders",
      ["datagrams are genuine: of this connection, unaltered, and those of one frame agree"], [PROGRAM("receiver", "receiver", ("decoder", "util", "net"))])
check("P14", "exhaustive exploration of acknowledgement histories on the real sender program, run event by event under a virtual clock, against a protocol model with encoders and decoders of its own",
      "salsify-sender's own main function runs in a fresh process for every execution, its socket, poll, clock and camera replaced. Every sequence over several rounds of frames received, damaged, lost, stale and foreign acknowledgements, four reported delays and time passing, before or during the next encoding: source state, frame number, choice of encoding, skipping, datagrams; every frame is decoded from the state it names.",
      "3 rounds (thorough 5) over all 14 kinds of events (also acknowledgements of fragments never sent), 2 (3) with events during encoding too, 5 (6) rounds of recovery and of capacity; moving, repeated and still pictures; the three operation modes; silences of 14 (24) frames; datagrams' pacing and announced pauses under every reported delay and capacity",
      ["acknowledgements of sent fragments are those a receiver following the protocol could send"], [PROGRAM("sender", "sender", ("encoder", "decoder", "util", "net", "input"))])
check("P15", "exhaustive placement of network faults between the real sender and the real receiver programs under a virtual clock; oracle: decoders of its own",
      "Both programs' own main functions run as threads of a fresh process; the network between them is the explorer's. Every set of lost datagrams, of lost acknowledgements with a lost datagram, and every pair (thorough triple) of losses, duplications and delays by one or two frames of datagrams and acknowledgements; every frame decoded from the state it names must show the encoded picture, and after the last fault only the first 2 frames (plus the acknowledgements' delay) may still fail.",
      "faults among the first 9 (14) datagrams and acknowledgements, about 4 to 7 frames; 3 (8) combinations of frame interval, acknowledgement delay and pictures; 5 frames sent without faults afterwards",
      [], [dict(prog="session", variant="opt", libs=("encoder", "decoder", "util", "net", "input"), ld=["-ldl"],
               srcs=["harness/session.cc"] + [("src/salsify/salsify-%s.cc" % p, ["-iquote@VERIF@/stubs", "-Dmain=%s_main" % p, "-Dusage=%s_usage" % p]) for p in ("sender", "receiver")])])
def TWICE(name, **k):
    return [H(name, variant="portable", digests="out", **k), H(name, digests="in", **k)]
check("P22", "exhaustive exploration of the same executions in two builds, with and without the processor-specific kernels; oracle: the other build",
      "Every frame of the decoding spaces of P01 and P02, encodings of every pair of pictures under every kind of rate control, every quantizer and displacement, and the kernels themselves on exhaustive small domains (43 million patterns of extreme residuals and of levels through every transform, every level times every factor, every set of differing rows or columns for the distortions, every line of pixels for interpolation and loop filter, every edge for intra prediction): every result identical.",
      "alphabets of P01 and P02; 16^2 pictures x 13 rate modes x 2 qualities x passes; kernels: 3^16 patterns, 3^13 edges, 4^8 lines x 13 (13) levels x 3 (8) sharpnesses",
      ["dequantized coefficients stay within the 16 bits for which the transforms are defined (|level x factor| <= 17000)"],
      TWICE("decode") + TWICE("kernels", optional=["-DWITH_KERNELS", "-fno-access-control"]))
check("P19", "exhaustive exploration of thread schedules up to a bound on preemptions on the real code under a controlled scheduler, and again under the thread sanitizer; oracle: each thread alone in a process of its own",
      "Thirteen scenarios of two or three threads (decoding, encoding, copying, dropping, comparing and hashing separate or shared decoders, encoders, frames and pictures), scheduled at every mutex, lock and one-time initialisation (under the thread sanitizer also at every change of a reference count): every schedule with up to 1 to 3 preemptions. Outputs are those of each thread alone, retained pictures keep their content, pools never give a buffer out twice, no deadlock; the sanitizer reports every data race on these schedules, so that between scheduling points threads cannot influence each other.",
      "2 or 3 threads, frames of up to 32x32; as many preemptions (1 to 3) as fit in 4.5 s (60 s) of estimated time for each space", [],
      [H("threads"), H("threads", variant="tsan")])
FRONT = dict(enc="xc-enc", terminate="xc-terminate-chunk", merge="xc-merge", dump="xc-dump", diff="xc-diff", bundle="decode-bundle", comp="comp-states", vp8decode="vp8decode", ssim="xc-ssim", framesize="xc-framesize")
CHUNKS = dict(prog="chunks", variant="opt", libs=("input", "encoder", "decoder", "util"), ld=["-ldl"],
              srcs=["harness/chunks.cc"] + [("src/frontend/%s.cc" % f, ["-iquote@VERIF@/stubs", "-Dmain=%s_main" % n, "-Dusage_error=%s_usage" % n, "-Dusage=%s_usage" % n]) for n, f in FRONT.items()])
check("P23", "exhaustive exploration of ways to cut, encode, terminate, rebase and join chunks with the real programs; oracles: the reference decoder on the chunks one after the other, independent readings of the files",
      "xc-enc, xc-terminate-chunk, xc-dump, xc-diff, comp-states, xc-merge, xc-framesize, decode-bundle and vp8decode run with their own main functions in processes of their own. Every clip of four pictures cut in every way, with and without an extra frame; chunks of every one and two frames of an alphabet (as other encoders make them) rebased onto 14 kinds of state; every frame one deviation away inside chunks; every pair of 95 saved states compared; states dumped after every frame and continued.",
      "3^4 (thorough 4^4) clips x 7 cuts x 3 (25) settings; 25^2 (25^3) foreign chunks; 25800 (thorough several 100000) deviating frames, 35x20 pixels; 95^2 pairs of states",
      ["a chunk whose first frame to be re-encoded is a segmented key frame is refused (unsupported by design)", "hidden frames have no input picture and are left out of rebased chunks"], [CHUNKS])
TOOLS = dict(prog="tools", variant="opt", libs=("encoder", "decoder", "input", "util"), ld=["-ldl"],
             srcs=["harness/tools.cc", ("src/salsify/fake-webcam.cc", ["-include", "@VERIF@/stubs/webcam_main.hh"])] +
                  [("src/frontend/%s.cc" % f, ["-Dmain=%s_main" % n, "-Dusage_error=%s_usage" % n]) for n, f in (("dissect", "xc-dissect"), ("zero", "xc-zero-out-residues"))])
check("P26", "exhaustive exploration of streams through the real programs; oracles: the syntax elements of which the streams were made, the reference decoder, a virtual clock",
      "xc-dissect, xc-zero-out-residues and fake-webcam run with their own main functions in processes of their own. Every key and inter frame one deviation away, sequences of 2 (thorough 3) frames of the alphabet, every size, option and frame asked for: the report must be the text that follows from the syntax elements, the emptied stream the one whose inter frames have no residue and everything else; clips played at every rate on a virtual clock.",
      "deviations <= 1 per frame, 35x20 (and 16x16); 25^2 (25^3) sequences; all options x frames shown and hidden; sizes <= 34 (50) squared; 8 rates x 4 sizes x 0..4 (5) pictures; 5 pictures taken with every combination of delays at 3 rates",
      [DEC], [TOOLS])
NA = {}
HOOKS = None
