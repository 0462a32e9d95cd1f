"""The properties; `python3 tools/props.py` regenerates properties.jsonl and MANIFEST.json."""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, "lib"))
P = []
def prop(i, title, statement, over, text, why, files, mech, observe=None):
    assert len(title) <= 80, (i, len(title))
    a = dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech])
    if observe: a["observe_at"] = observe
    P.append(dict(id=i, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why, anchors=a))

NOVEC = "The decoding tests need test vectors fetched from the network; the tests that run decode only what this encoder happens to produce."

prop("P01", "A key frame decodes to exactly the picture the VP8 standard defines",
 "For every valid unscaled VP8 key frame of the main profile (normal loop filter), of any size, the decoder outputs exactly the picture (every displayed pixel of all three planes) that the VP8 standard prescribes. That includes every intra prediction mode next to every neighbour and frame edge, every coefficient and quantizer value, segment and loop-filter setting, probability update and number of coefficient partitions.",
 ["inputs"], "all key frames within two deviations of textured bases, all mode combinations, all filter and quantizer settings, all small sizes",
 NOVEC, ["src/decoder/frame.cc", "src/decoder/macroblock.cc", "src/decoder/prediction.cc", "src/decoder/tokens.cc", "src/decoder/transform.cc", "src/decoder/dct.cc", "src/decoder/loopfilter.cc", "src/decoder/quantization.cc", "src/decoder/uncompressed_chunk.cc"],
 [("header parsing", "src/decoder/frame_header.hh"), ("intra prediction", "src/decoder/prediction.cc"), ("token decoding", "src/decoder/tokens.cc"), ("loop filter", "src/decoder/loopfilter.cc")],
 ["Decoder::get_frame_output"])
prop("P02", "An inter frame decodes to exactly the picture the VP8 standard defines",
 "For every valid main-profile VP8 inter frame decoded after any valid history, the decoder outputs exactly the picture that the VP8 standard prescribes. That includes motion vectors of any size pointing partly or wholly outside the reference, every way of coding a vector from its neighbours, split motion vectors, all three references with their sign biases, intra macroblocks inside inter frames, and hidden frames, which are reported as not shown.",
 ["inputs", "histories"], "all inter frames within two deviations of textured bases, all displacement classes over all edges, all neighbourhoods",
 NOVEC, ["src/decoder/frame.cc", "src/decoder/macroblock.cc", "src/decoder/prediction.cc", "src/decoder/modemv_data.cc", "src/decoder/loopfilter.cc", "src/decoder/scorer.hh"],
 [("motion vector decoding", "src/decoder/macroblock.cc"), ("vector census", "src/decoder/scorer.hh"), ("six-tap prediction", "src/decoder/prediction.cc")],
 ["Decoder::get_frame_output"])
prop("P03", "What one frame leaves for the next ones follows the VP8 standard",
 "For every sequence of valid frames, what later frames inherit from earlier ones is what the VP8 standard prescribes: the three reference pictures after every combination of refreshes and copies, probabilities that persist or are restored after one frame, segment maps and segment data, and loop-filter adjustments, whether updated, kept, or temporarily disabled. A key frame resets exactly what the standard says it resets.",
 ["histories", "inputs"], "all sequences of length 3 to 5 over an alphabet of 25 frames, all pairs and triples of reference update combinations",
 "Sequences that combine segmentation, persistence and reference copying do not occur in the streams the tests decode.",
 ["src/decoder/decoder_state.hh", "src/decoder/decoder.cc", "src/decoder/frame.cc"],
 [("state update", "src/decoder/decoder_state.hh"), ("reference update", "src/decoder/frame.cc copy_to")],
 ["Decoder::get_frame_output"])
prop("P04", "The encoder never drifts from the decoder",
 "After every frame it produces, the encoder's own idea of the decoder state (references, probabilities, fingerprint and exported decoder) equals the state of a decoder that decoded all its frames, and any conforming VP8 decoder shows that same picture. This holds for every input picture, size, quantizer, quality setting and rate mode, every interleaving of them, and encoders started from any decoder state.",
 ["histories", "inputs", "configurations"], "all sequences of encode operations up to a depth over pictures x modes x starting states",
 "The loopback test encodes three clips with one setting and never compares the states.",
 ["src/encoder/encoder.cc", "src/encoder/encode_inter.cc", "src/encoder/encode_intra.cc", "src/encoder/serializer.cc", "src/encoder/size_estimation.cc"],
 [("state update after a frame", "src/encoder/encoder.cc write_frame"), ("serialization", "src/encoder/serializer.cc")],
 ["Encoder::encode_with_quantizer", "Encoder::export_decoder"])
prop("P05", "Encoding is a pure function of encoder state and input",
 "Encoding the same picture with the same parameters from equal encoder states always gives the same bytes and the same resulting state, no matter what other encoders exist, what was encoded with copies before, or what was only tried and discarded. Copying or moving an encoder, and estimating a frame's size, have no influence on what any encoder later produces.",
 ["histories", "configurations"], "all interleavings of encode, copy, move, size estimate and discard operations on several encoders up to a depth",
 "Tests use a single encoder in a straight line; leakage through recycled frames and pictures needs several encoders alive in particular orders.",
 ["src/encoder/encoder.cc", "src/encoder/encoder.hh", "src/decoder/frame_pool.cc", "src/decoder/raster_handle.cc", "src/encoder/size_estimation.cc"],
 [("frame pool", "src/decoder/frame_pool.cc"), ("copy and move", "src/encoder/encoder.cc")])
prop("P06", "Decoder states are independent values",
 "A decoder is a value: decoding with a copy never changes the original or any other copy, pictures already handed out never change, and decoding is a deterministic function of the state and the frame. A saved copy can be reloaded at any later time and continues exactly as the original would have.",
 ["histories", "schedules"], "all sequences of copy, decode, drop and reload operations over several decoders up to a depth, and all interleavings of decoding threads at pool operations",
 "No test holds two decoders at once.",
 ["src/decoder/decoder.cc", "src/decoder/decoder.hh", "src/decoder/raster_handle.cc", "src/decoder/player.cc"],
 [("raster handles", "src/decoder/raster_handle.cc"), ("value semantics", "src/decoder/decoder.hh")])
prop("P07", "A parsed frame serialises back to an equivalent frame",
 "For every valid frame, parsing it and serialising it again yields a frame that any decoder in the same state decodes to the same picture and the same following state, and parsing and serialising that result once more changes nothing. Serialised frames are always valid VP8 streams.",
 ["inputs", "histories"], "all frames of the key, inter and sequence spaces",
 "The round-trip test needs the fetched vectors and does not run.",
 ["src/encoder/serializer.cc", "src/encoder/encode_tree.cc", "src/encoder/bool_encoder.hh", "src/decoder/uncompressed_chunk.cc"],
 [("frame serializer", "src/encoder/serializer.cc")])
prop("P08", "Entropy coding is lossless",
 "Every sequence of symbols written by the arithmetic coder, with any probabilities, is read back identically by the decoder's arithmetic decoder, including carry propagation across any number of bytes and the end-of-data padding. Every tree-coded value, coefficient token, motion vector component and fixed-length field round-trips.",
 ["inputs"], "all bit strings up to a length x all small probability alphabets, all tree symbols, all coefficient values and vector components",
 "Tests only exercise symbol sequences that arise from three clips.",
 ["src/encoder/bool_encoder.hh", "src/decoder/bool_decoder.hh", "src/decoder/tree.cc", "src/encoder/encode_tree.cc", "src/decoder/tokens.cc", "src/encoder/serializer.cc"],
 [("bool encoder", "src/encoder/bool_encoder.hh"), ("bool decoder", "src/decoder/bool_decoder.hh")])
prop("P09", "A saved state resumes exactly where it was saved",
 "Saving a decoder's state to a file and loading it gives a decoder with the same probabilities, segmentation, filter adjustments and last picture, which continues to decode as the original does when all references are the last picture. A truncated or mistyped state file is rejected, never silently accepted as something else.",
 ["histories", "inputs", "crash_points"], "all states reached by the sequence alphabet; all truncation points and tag corruptions of a state file",
 "The serialization test uses random states in isolation and never decodes with a reloaded one.",
 ["src/decoder/decoder.cc", "src/decoder/enc_state_serializer.hh", "src/decoder/player.cc"],
 [("serialize/deserialize", "src/decoder/decoder.cc")])
prop("P10", "A state fingerprint identifies the state",
 "Two decoder states that are equal have equal fingerprints however they were reached, and states that differ in anything that affects later decoding (a reference picture's pixel, a probability, a segment's data or map, a filter adjustment) have different fingerprints. Encoder and decoder compute the same fingerprint for the same state.",
 ["histories", "inputs"], "all single-field differences of states, all pairs of states reached by the sequence alphabet",
 "No test compares fingerprints of states that differ in one field.",
 ["src/decoder/decoder.cc", "src/util/raster.cc", "src/decoder/raster_handle.cc"],
 [("hash", "src/decoder/decoder.cc")])
prop("P11", "A frame is rebuilt exactly from its datagrams in any order",
 "A frame of any size split into datagrams is rebuilt byte for byte whatever the order of arrival and however many duplicates arrive, and is complete exactly when every datagram has arrived at least once. With datagrams missing, the partial frame is exactly the longest unbroken prefix received, and datagrams that belong to another frame or session are refused without changing what was collected.",
 ["schedules", "inputs", "fault_sequences"], "all orders with duplicates and losses for all small fragment counts; all frame sizes around multiples of the datagram size",
 "No test touches the network code.",
 ["src/net/packet.cc", "src/net/packet.hh"], [("fragmentation and reassembly", "src/net/packet.cc FragmentedFrame")])
prop("P12", "Datagrams and acknowledgements survive the wire; malformed ones are refused",
 "Every data packet and every acknowledgement, for all field values, is parsed back with the same fields after being put on the wire, in the documented little-endian layout. A datagram too short for its fields, a fragment number not below the fragment count, an empty payload, or an acknowledgement whose length does not match its number of states is refused with an error, without reading outside it or allocating memory out of proportion to it.",
 ["inputs", "fault_sequences"], "boundary values of all fields, all truncations, single-field corruptions, all small byte strings",
 "No test touches the network code.",
 ["src/net/packet.cc", "src/util/chunk.hh"], [("wire format", "src/net/packet.cc"), ("bounds-checked chunk", "src/util/chunk.hh")])
prop("P13", "The video receiver's state protocol is right for every delivery order",
 "For every order, loss and duplication of datagrams, the receiver decodes each complete frame from the state it names when it still has that state, never goes back to an earlier frame, and acknowledges each accepted datagram with its true current state. Every state it advertises as complete is one it holds and can load, and it forgets only states older than one the sender has referred to. The delay it reports is the average, weighted one to nine with the average so far (none at first), of the time between accepted datagrams beyond the pause that the later one announces.",
 ["schedules", "fault_sequences", "histories"], "all deliveries, losses, duplicates and reorderings of short multi-branch sessions on the real receiver program",
 "No test runs the receiver.",
 ["src/salsify/salsify-receiver.cc", "src/net/packet.cc", "src/decoder/player.cc"], [("receiver event loop", "src/salsify/salsify-receiver.cc")])
prop("P14", "The video sender only builds on states it may rely on",
 "For every sequence of acknowledgements, timings and encoding results, each frame the sender emits decodes from the source state it names to the target state it names; frame numbers increase by one; and the source state is the one the protocol prescribes: the last sent state, or a state that the receiver reported as complete (or the initial one) while recovering. Stale acknowledgements, those of other sessions and those of frames or fragments that were never sent are ignored. Of the encodings of a picture the largest that fits the capacity estimate is sent; when none fits, the picture is skipped, but never more than three in a row. A frame's first datagram announces the time since the previous frame was sent (its others announce none), and its datagrams leave one after the other, a fifth of the reported delay apart but at least half a millisecond and at most two.",
 ["schedules", "fault_sequences", "histories"], "all sequences of acknowledgements, clock advances and encode completions up to a depth on the real sender program",
 "No test runs the sender.",
 ["src/salsify/salsify-sender.cc", "src/net/pacer.hh"], [("sender event loop", "src/salsify/salsify-sender.cc")])
prop("P15", "Sender and receiver recover from any loss pattern",
 "With the real sender and receiver connected by a network that loses, duplicates or reorders a bounded number of datagrams, every frame the receiver decodes completely from the named source state shows exactly the picture the sender encoded. Once losses stop, the receiver returns to such frames within two further frames and the time that acknowledgements take.",
 ["schedules", "fault_sequences"], "all placements of a bounded number of losses, duplicates and delays in a session",
 "No test connects the two.",
 ["src/salsify/salsify-sender.cc", "src/salsify/salsify-receiver.cc"], [("state protocol", "src/salsify")])
prop("P16", "An IVF file returns the frames that were written to it",
 "For every sequence of frames appended, the IVF file read back at any later moment, also after the writer was killed or the disk filled up, has the same header fields and exactly the same frames in the same order; a file cut short at any byte is either reported as damaged or yields only frames that were written, and never reads outside the file.",
 ["histories", "crash_points", "inputs"], "all append sequences over a size alphabet, all truncation points, all header corruptions from an alphabet",
 "Tests write and read whole files only.",
 ["src/util/ivf.cc", "src/util/ivf_writer.cc", "src/util/file.cc", "src/util/mmap_region.cc"], [("IVF reader", "src/util/ivf.cc"), ("IVF writer", "src/util/ivf_writer.cc")])
prop("P17", "Damaged or hostile frames never corrupt the decoder",
 "Whatever bytes are presented as a frame (truncated at any point, bits flipped, fields out of range), decoding either throws an error or produces a picture, without reading or writing outside its buffers, without crashing and in bounded time. A refused frame leaves previously decoded pictures and saved decoders untouched. In error-concealment mode a frame cut anywhere after its frame header is never refused: macroblocks that arrived are decoded as sent, and those of an inter frame whose headers are lost repeat the last picture.",
 ["inputs", "fault_sequences"], "all truncations, all single-byte substitutions from an alphabet and all single bit flips of several streams, under memory and undefined-behaviour sanitizers",
 "Tests decode only well-formed streams.",
 ["src/decoder/uncompressed_chunk.cc", "src/decoder/bool_decoder.hh", "src/decoder/frame.cc", "src/util/chunk.hh", "src/decoder/decoder.cc"], [("bounds checks", "src/util/chunk.hh"), ("error concealment", "src/decoder/uncompressed_chunk.cc")])
prop("P18", "Pictures taken from a camera arrive unchanged",
 "For every supported pixel format (NV12, YUYV, planar 4:2:0, and 4:2:2 JPEG pictures) and every even picture size, each picture taken from a capture device is exactly the content of the buffer that the driver handed over for it, whichever buffer that is, reduced to 4:2:0 (where the device sends chroma for every row, that of the even rows), with its last row and column repeated up to the edges of the raster. A buffer goes back to the driver exactly once for each picture, and only when its content has been copied; pictures taken earlier never change. The first picture of a JPEG device is skipped. A JPEG picture that is cut, damaged, of another size or unsupported is refused with an error or decoded without touching memory outside the buffers, and the next good picture arrives. A device that cannot deliver the requested size, format or four buffers is refused.",
 ["inputs", "histories", "fault_sequences"], "all orders in which a driver can hand over its buffers, all even sizes up to a bound in every format, all sequences of good, unsupported and damaged JPEG pictures up to a depth, all single damaged bytes",
 "No test opens a camera or decodes a JPEG picture.",
 ["src/input/camera.cc", "src/input/camera.hh", "src/input/jpeg.cc", "src/input/jpeg.hh", "src/util/mmap_region.cc"], [("buffer cycle", "src/input/camera.cc Camera::get_next_frame"), ("JPEG decoding", "src/input/jpeg.cc JPEGDecompresser::decode")], ["Camera::get_next_frame", "ioctl VIDIOC_QBUF / VIDIOC_DQBUF"])
prop("P19", "Concurrent encoders and decoders behave as if each ran alone",
 "However threads that encode, decode and share pictures are interleaved, each produces exactly what it would produce alone: shared picture and frame pools never hand one buffer to two users, and never recycle one that is still referenced. No interleaving deadlocks.",
 ["schedules"], "all interleavings up to a preemption bound of threads using the pools, with scheduling points at every lock operation",
 "Tests are single-threaded.",
 ["src/decoder/raster_handle.cc", "src/decoder/frame_pool.cc", "src/decoder/safe_raster.cc"], [("pool locks", "src/decoder/raster_handle.cc")])
prop("P20", "Packets leave paced, complete and in order; events are dispatched correctly",
 "The pacer releases every queued packet exactly once, in order, never a millisecond or more before its scheduled time and, when asked again as soon as the announced wait is over, within a millisecond of it. The scheduled time is the moment of queueing for a packet queued when nothing waits, and its predecessor's plus the given delay otherwise. The event loop runs a callback only when its descriptor is ready and it is interested, and honours callbacks that cancel, exit or find the descriptor closed; a descriptor in error or hung up ends the loop with a failure status, and a callback that neither reads nor writes its descriptor is reported.",
 ["schedules", "histories"], "all operation sequences with clock advances up to a depth on the real pacer and event loop",
 "No test touches the pacer or the event loop.",
 ["src/net/pacer.hh", "src/net/poller.cc"], [("pacer", "src/net/pacer.hh"), ("poller", "src/net/poller.cc")])
prop("P21", "Raw video files round-trip",
 "A picture of any size written as YUV4MPEG is read back with identical pixels, and every stream header (8-bit 4:2:0, sizes up to 65535, fractions up to 32 bits) is either understood exactly or refused. Reading stops cleanly at the end of the stream and reports a picture that is cut short.",
 ["inputs", "crash_points"], "all small picture sizes, header parameter combinations and truncation points",
 "The Y4M reader is only exercised by encoding tests with even sizes.",
 ["src/input/yuv4mpeg.cc", "src/util/raster.cc"], [("reader and writer", "src/input/yuv4mpeg.cc")])
prop("P22", "Optimised and portable kernels give identical results",
 "Built with or without the processor-specific kernels, every picture is decoded and every frame encoded to identical bytes: transforms, quantizer paths, prediction, filtering, distortion measures and motion search agree for every input.",
 ["inputs", "configurations"], "all inputs of the decode and encode spaces in both builds; all small-domain kernel inputs",
 "A build uses only one set of kernels, so tests never compare them.",
 ["src/decoder/dct.cc", "src/decoder/transform.cc", "src/decoder/prediction.cc", "src/decoder/loopfilter.cc", "src/encoder/variance_sse2.cc", "src/encoder/variance.cc"], [("kernel selection", "config.h HAVE_SSE2")])
prop("P23", "Chunks encoded separately combine into one continuous video",
 "Chunks of a video encoded independently and rebased onto the final state of the preceding chunk decode, one after the other, without any mismatch: each rebased chunk starts from exactly the state the previous one ends in, no key frame is needed for it, its pictures stay near its input, a chunk is played only from the state it was encoded for, and the state tools report equal states as equal and different ones as different.",
 ["histories", "configurations"], "all ways to cut a short clip in chunks, with every combination of rebasing settings",
 "The tests that would do this need fetched vectors.",
 ["src/frontend/xc-enc.cc", "src/encoder/reencode.cc", "src/frontend/xc-terminate-chunk.cc", "src/frontend/xc-merge.cc", "src/frontend/xc-dump.cc", "src/frontend/xc-diff.cc", "src/frontend/decode-bundle.cc"], [("re-encoding", "src/encoder/reencode.cc")])
prop("P24", "Rate and quality targets are honoured",
 "Encoding with a minimum quality yields a frame whose measured quality reaches it whenever some searched quantizer does, and otherwise the best available; the quality the encoder reports is the quality of the decoded picture. Encoding with a size target uses the finest quantizer in its search whose estimated size fits.",
 ["inputs", "configurations"], "all small pictures of an alphabet x thresholds and target sizes",
 "Tests check one quality threshold on one clip, which needs fetched vectors.",
 ["src/encoder/encoder.cc", "src/encoder/size_estimation.cc", "src/util/ssim.cc"], [("quantizer search", "src/encoder/encoder.cc")])
prop("P25", "Datagrams and addresses pass the network layer unchanged",
 "Every datagram sent to an address or over a connected socket is handed over as exactly one datagram, and receiving returns exactly one: all its bytes (from none to 65507), the address it came from, and the kernel's time of receipt in microseconds when timestamps were asked for and the kernel gave one, wherever it stands among other control messages (otherwise the largest value). A datagram that was cut or flagged is refused and the next one still arrives; a system call that fails or sends too little ends with an error that carries its code, and counts neither as read nor as write, while every successful one counts exactly once. Text and port give the same address back for every port and every IPv4 and IPv6 address (mapped IPv4 addresses in dotted form), only numbers are taken for numerical addresses, and two addresses are equal exactly when their contents are.",
 ["inputs", "histories", "fault_sequences"], "all histories of sends and receipts over four sockets up to a depth, all datagram sizes, all orders of control messages, all failing calls, all ports and products of address parts",
 "No test sends or receives a datagram.",
 ["src/net/socket.cc", "src/net/socket.hh", "src/net/address.cc", "src/net/address.hh", "src/net/socketpair.cc", "src/util/file_descriptor.hh"], [("receiving", "src/net/socket.cc UDPSocket::recv"), ("text of addresses", "src/net/address.cc Address::ip_port")], ["UDPSocket::recv", "UDPSocket::send", "UDPSocket::sendto", "Address::ip_port"])
prop("P26", "Stream tools report and change exactly what they say",
 "xc-dissect reports, for every frame of a stream or the one asked for, exactly what the stream says: kind, size in bytes, every header value, each updated probability, quantizer, prediction mode, motion vector and coefficient, absent ones as absent, also when it continues from a saved state. xc-zero-out-residues writes the same frames with the same headers, modes and motion vectors, key frames with their pictures, inter frames with no residue. fake-webcam writes a clip's pictures unchanged and in order, each when it is due at the given rate (counted from the start, so that delays do not add up) or as soon afterwards as the reader takes it.",
 ["inputs", "configurations", "histories"], "all frames one syntax element away from textured bases, all short sequences over an alphabet, all sizes and options; all rates and all patterns of slow reading",
 "No test runs these programs.",
 ["src/frontend/xc-dissect.cc", "src/frontend/xc-zero-out-residues.cc", "src/salsify/fake-webcam.cc", "src/encoder/encoder.cc", "src/decoder/macroblock.cc"], [("report", "src/frontend/xc-dissect.cc print_frame_info"), ("residue removal", "src/encoder/encoder.cc Macroblock::zero_out")], ["Macroblock::zero_out", "print_frame_info"])

def main():
    import registry
    with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
        for p in P:
            f.write(json.dumps(p) + "\n")
    ids = [p["id"] for p in P]
    man = dict(version=1, setup_cmd="python3 check.py --setup", checks=[], not_applicable=[], notes="See DESIGN.md. All checks build /repo's current tree into /verif/.build.")
    if getattr(registry, "HOOKS", None):
        man["hooks"] = registry.HOOKS
    for i in ids:
        if i in registry.CHECKS:
            c = registry.CHECKS[i]
            man["checks"].append(dict(property=i, quick_cmd=f"python3 check.py {i} --tier quick", thorough_cmd=f"python3 check.py {i} --tier thorough",
                                      technique=c["technique"], level="model_checking", level_note=c["level_note"]))
        else:
            man["not_applicable"].append(dict(property=i, reason=registry.NA.get(i, "no check built yet")))
    json.dump(man, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
main()
