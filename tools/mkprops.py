#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one property per line). Run by hand after editing."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe, state=None, hook=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "observe_at": observe, "hook_needed": hook}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    P.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text},
              "why_tests_cant": why, "anchors": a})

p("C01", "Lossless decoding of every supported stream",
  "Decoding a well-formed FLAC stream that uses only supported features yields exactly the audio that was encoded: the same number of channels, the same number of samples per channel, and every sample value equal, frame by frame and in order. This holds for every legal coding choice: constant, verbatim, fixed (order 0-4) and LPC (order 1-32, any precision 1-15 and shift 0-15) subframes, both Rice codings with any partition order and parameter, wasted bits, independent 1-8 channel and left/side, right/side and mid/side coding, every block size 1-65535 in any header encoding, and bit depths 8, 12, 16, 20 and 24.",
  ["inputs"], "all audio signals (including full-scale extremes) crossed with all legal encodings of them",
  "The tests compare four small files against flac plus a handful of fixed vectors; most combinations of order, precision, shift, partition order, Rice parameter, block size, stereo mode and depth never occur in them.",
  ["src/frame.rs", "src/subframe.rs", "src/input.rs", "src/lib.rs"],
  [("frame decoding and inter-channel decorrelation", "src/frame.rs FrameReader::read_next_or_eof, decode_left_side/right_side/mid_side"),
   ("subframe decoding, residual decoding, fixed and linear prediction", "src/subframe.rs decode, decode_residual, predict_fixed, predict_lpc_low_order, predict_lpc_high_order"),
   ("bit-level reading", "src/input.rs Bitstream")],
  ["FlacReader::blocks / samples", "frame::FrameReader::read_next_or_eof"])

p("C02", "No input can crash the decoder",
  "For every byte string given as a whole stream, a metadata block, a frame or a subframe, through every public entry point and every reader option, each call returns a value or an error. It never panics (including arithmetic overflow, out-of-range indexing and failed internal assertions in builds that check them), never aborts, and never keeps on reading a source that has ended; only the documented misuse panics exist.",
  ["inputs", "configurations"], "all byte strings, valid, damaged or hostile, times all entry points and option values, in checked and in release builds",
  "The regression test replays 23 saved crash inputs; the input space is unbounded and new paths are only reached with valid checksums around damaged content.",
  ["src/lib.rs", "src/frame.rs", "src/subframe.rs", "src/metadata.rs", "src/input.rs"],
  [("validation before use in every parser", "src/frame.rs read_frame_header_or_eof; src/subframe.rs decode_residual, decode_lpc, decode_fixed; src/metadata.rs read_vorbis_comment_block"),
   ("wrapping arithmetic on sample data", "src/frame.rs, src/subframe.rs")],
  ["all public functions"])

p("C03", "Every delivered block comes from a frame with correct checksums",
  "A frame is delivered as a block only if its header CRC-8 and its whole-frame CRC-16 equal the checksums of exactly the bytes the frame occupies; otherwise an error is returned instead of the block. Consequently changing any burst of at most 16 bits inside a frame without moving its end, in the header, the samples, the padding or the checksums themselves, is always reported, and intact frames are never rejected.",
  ["inputs", "fault_sequences"], "all frames and all corruptions of their bytes",
  "No test feeds a frame with a wrong checksum; the CRC unit tests use three short vectors each out of all byte strings and exercise a fraction of the 512 table entries.",
  ["src/crc.rs", "src/frame.rs"],
  [("CRC-8 and CRC-16 computing readers and tables", "src/crc.rs Crc8Reader, Crc16Reader"),
   ("comparison of computed and stored checksum", "src/frame.rs read_frame_header_or_eof, FrameReader::read_next_or_eof")],
  ["FrameReader::read_next_or_eof result and the bytes it consumed"])

p("C04", "Ill-formed and unsupported frames are rejected with the right error",
  "A frame that is ill-formed (missing sync code, reserved or forbidden field value, malformed or out-of-range frame or sample number, block size 65536, impossible order, partition order or wasted-bit count, checksum mismatch) is answered with a format error, and a frame using a specified but unimplemented feature (escaped Rice partition, negative predictor shift, sample size taken from streaminfo) with an unsupported-feature error. Neither is ever decoded into a block.",
  ["inputs"], "all frames that contain exactly one such defect, at every position it can occur, with otherwise valid content and valid checksums",
  "Hardly any rejection path is exercised by the tests: one checks two malformed variable-length integers, none checks reserved values in headers, subframes or residuals.",
  ["src/frame.rs", "src/subframe.rs", "src/error.rs"],
  [("field validation", "src/frame.rs read_var_length_int, read_frame_header_or_eof; src/subframe.rs read_subframe_header, decode, decode_residual, decode_rice_partition, decode_rice2_partition, decode_fixed, decode_lpc"),
   ("error classes", "src/error.rs Error")],
  ["FrameReader::read_next_or_eof", "FlacReader::blocks / samples"])

p("C05", "Decoded output depends on the stream alone",
  "The samples, tags and metadata returned for a stream are a function of its bytes only: they do not depend on the contents, length or capacity of the buffer handed in for reuse, on what was decoded before, or on what the allocator returns as fresh memory. Every sample of a returned block is written by the decode of that block, for valid and for malformed-but-accepted frames alike, so no earlier or uninitialised memory is ever exposed.",
  ["inputs", "histories"], "all streams, all recycled buffers, all decoding histories, all states of the heap",
  "The regression test prefills buffers with two markers for 23 saved inputs; reuse histories with growing and shrinking blocks, and heap contents, are not varied.",
  ["src/frame.rs", "src/subframe.rs", "src/metadata.rs"],
  [("buffer resizing with overwrite obligation", "src/frame.rs ensure_buffer_len, FrameReader::read_next_or_eof"),
   ("complete fill of every partition and of every metadata byte buffer", "src/subframe.rs decode_residual; src/metadata.rs read_vorbis_comment_block, read_application_block")],
  ["Block contents", "FlacReader::tags/vendor", "MetadataBlock::Application data"])

p("C06", "Results do not depend on how the source delivers its bytes",
  "For any byte string, opening, metadata, tags, decoded blocks and errors are the same whatever sizes the underlying source returns its data in (one byte at a time, arbitrary short reads, everything at once), and whether the bytes come through the buffered reader, a borrowed reader or an in-memory cursor.",
  ["inputs", "schedules"], "all streams times all sequences of read sizes",
  "All tests read from files or cursors that always fill the 2048-byte buffer, so a refill can only ever happen at multiples of 2048; short reads never happen.",
  ["src/input.rs", "src/lib.rs"],
  [("buffer refill", "src/input.rs BufferedReader read_u8, read_u8_or_eof, read_into, skip"),
   ("equivalent implementations of the byte-reading trait", "src/input.rs impl ReadBytes for BufferedReader, Cursor, &mut R")],
  ["FlacReader over custom io::Read", "FrameReader over each ReadBytes implementation"])

p("C07", "I/O failures are reported faithfully and never corrupt data",
  "When the source fails at any read (or a file cannot be opened), the call in progress returns that same I/O error, not a format error, an end of stream or data. Everything delivered before the failure equals what a fault-free run delivers, and when reading is retried it continues with the next unread byte of the source: no byte is ever delivered twice, so a failure between two frames loses nothing and a failure inside a frame never makes old data reappear.",
  ["fault_sequences", "histories", "inputs"], "all streams, all positions and sequences of read failures, all retry histories",
  "No test uses a failing source.",
  ["src/input.rs", "src/lib.rs", "src/frame.rs", "src/error.rs"],
  [("refill and error propagation", "src/input.rs BufferedReader"), ("error conversion", "src/error.rs From<io::Error>")],
  ["FlacReader over a source that fails on schedule"],
  state=[("read position and valid count", "which buffered bytes are still to be delivered", "src/input.rs BufferedReader.pos, num_valid")])

p("C08", "A truncated stream is never mistaken for a complete one",
  "If a stream is cut at any byte, the frames wholly before the cut are delivered unchanged, and then the end is reported cleanly only if the cut is exactly at a frame boundary. A cut inside a frame, the header or a needed metadata block is reported as an unexpected-end-of-file I/O error.",
  ["crash_points", "inputs"], "all streams times all cut positions",
  "No test decodes a truncated stream and looks at the result.",
  ["src/input.rs", "src/frame.rs", "src/lib.rs", "src/metadata.rs"],
  [("end-of-input detection at a frame start only", "src/input.rs read_be_u16_or_eof, read_u8_or_eof; src/frame.rs read_frame_header_or_eof"),
   ("unexpected end of file everywhere else", "src/input.rs ReadBytes implementations")],
  ["FlacReader::new", "FlacReader::blocks / samples"])

p("C09", "Stream information is reported exactly",
  "Opening a stream reports exactly the stream information stored in it: block size bounds, frame size bounds, sample rate, channel count, bits per sample, total sample count and MD5 signature, with zero meaning unknown reported as absent for frame sizes and sample count. Contradictory or impossible information (minimum above maximum, block size below 16, sample rate 0 or above 655350 Hz, wrong block length) is rejected with a format error.",
  ["inputs"], "all 2^272 contents of the streaminfo block",
  "The tests check four files, all with common values; the fields are packed across byte boundaries so each bit matters.",
  ["src/metadata.rs", "src/lib.rs"],
  [("streaminfo parsing and validation", "src/metadata.rs read_streaminfo_block, read_metadata_block")],
  ["FlacReader::streaminfo", "metadata::read_metadata_block(_with_header)", "metadata::MetadataBlockReader"])

p("C10", "Metadata blocks are framed and interpreted correctly",
  "Reading metadata yields the blocks in order, each with its own kind and content (application id and data, padding length, tags, stream information; seek tables, cue sheets and pictures are passed over as opaque; reserved kinds are skipped as reserved), consumes exactly the header and declared length of each, and stops after the block marked last so that audio starts at the right byte. Opening a stream fails with a format error if the signature is wrong, if the first block is not stream information, if stream information or tags occur twice, or if a block has the forbidden kind 127 or an impossible length.",
  ["inputs"], "all sequences of metadata blocks of all kinds and lengths",
  "The test files contain only a few short block sequences; application blocks, reserved kinds, multiple paddings and structural errors do not occur.",
  ["src/metadata.rs", "src/lib.rs", "src/input.rs"],
  [("block header parsing and dispatch", "src/metadata.rs read_metadata_block_header, read_metadata_block, MetadataBlockReader"),
   ("stream signature and block sequence rules", "src/lib.rs read_stream_header, FlacReader::new_ext"), ("skipping", "src/input.rs skip")],
  ["FlacReader::new", "MetadataBlockReader", "read_metadata_block", "read_metadata_block_with_header"])

p("C11", "Tags are reported exactly as stored",
  "The vendor string and the tags of a stream are reported exactly, in order and complete, split at the first equals sign, with zero-length entries passed over, and their count is reported correctly while iterating. Lookup by name returns, in order, the values of exactly those tags whose name equals the requested one ignoring ASCII case. Tag data with invalid UTF-8, a name byte outside 0x20-0x7d, a missing equals sign, or lengths and counts that do not add up to the block length is rejected with a format error.",
  ["inputs"], "all tag lists (names, values, duplicates, empties), all lookup names and all malformed tag blocks",
  "The tests read three files with at most two tags; case-insensitive lookup is only tested with a file that is not in the repository.",
  ["src/metadata.rs", "src/lib.rs"],
  [("tag block parsing", "src/metadata.rs read_vorbis_comment_block"), ("iteration and lookup", "src/metadata.rs Tags, GetTag; src/lib.rs vendor, tags, get_tag")],
  ["FlacReader::vendor, tags, get_tag", "metadata::Tags, GetTag", "MetadataBlock::VorbisComment"])

p("C12", "Memory use is bounded whatever the stream claims",
  "Whatever lengths and counts a stream claims, memory use while opening it is at most a small multiple of the largest metadata block that is actually accepted, tag and application blocks claiming more than 10 MiB are refused with an unsupported-feature error without allocating for them, and passing over other blocks takes no memory in proportion to their length. Memory use while decoding is bounded by a few times one block of samples, and decoding into a buffer that is already large enough reuses that buffer instead of allocating a new one.",
  ["inputs"], "all streams, in particular short ones that claim huge blocks, strings, counts or frames, and long ones with many blocks",
  "Two test files check that one oversized claim each is refused; no test measures memory.",
  ["src/metadata.rs", "src/frame.rs", "src/lib.rs"],
  [("length limits before allocation", "src/metadata.rs read_vorbis_comment_block, read_application_block"),
   ("buffer reuse", "src/frame.rs ensure_buffer_len"), ("skip without allocation", "src/input.rs skip")],
  ["heap allocation during FlacReader::new_ext, read_metadata_block and read_next_or_eof"])

p("C13", "Reader options only choose what is read",
  "For every valid stream all option combinations report the same stream information, tags are available exactly when reading them was requested, and audio decodes identically whenever it can be decoded. With metadata-only reading, opening returns as soon as the requested metadata has been read, whatever follows it (damaged, missing or unreadable), and asking such a reader for audio panics rather than returning wrong samples.",
  ["configurations", "inputs"], "all streams times all option values, with arbitrary damage behind the last requested block",
  "Four tests use one file; the two that expect a panic would also pass if opening failed, and none looks at how much is read.",
  ["src/lib.rs"],
  [("early stop and state selection", "src/lib.rs FlacReader::new_ext, FlacReaderOptions::has_desired_blocks"), ("audio access guard", "src/lib.rs blocks, samples, into_samples")],
  ["FlacReader::new_ext", "FlacReader::blocks, samples, into_samples, tags, vendor"],
  state=[("reader state", "positioned at audio, or metadata only", "src/lib.rs FlacReaderState")])

p("C14", "All views of the decoded audio agree",
  "For every stream, the borrowed and the owning sample iterator yield the samples of the decoded blocks interleaved by channel, each exactly once and in order, also when block sizes or channel counts vary between frames. Within a block, per-channel slices, single-sample access, the stereo pair iterator, length, duration and channel count describe the same data, and out-of-range channels or stereo access to a non-stereo block panic. A sample iterator that is dropped early loses at most the rest of the block it was in: the next iterator or block reader continues exactly with the following block.",
  ["inputs", "histories"], "all streams times all interleavings of iterator use, early drops and block reads",
  "The unit tests check two hand-made blocks; no test compares iterators with blocks on a real stream or restarts an iterator.",
  ["src/lib.rs", "src/frame.rs"],
  [("sample iteration", "src/lib.rs FlacSamples, FlacIntoSamples"), ("block accessors", "src/frame.rs Block, StereoSamples")],
  ["FlacReader::samples, into_samples, blocks", "Block accessors"],
  state=[("iterator position", "current block, channel and sample", "src/lib.rs FlacSamples")])

p("C15", "Each block reports the stream position of its first sample",
  "The time of a block read from a stream is the inter-channel sample number of its first sample. In a stream with variable block size this is the stored sample number (up to 36 bits); in a stream with a fixed block size it is the frame number (up to 31 bits) times that block size, also for a last block that is shorter; so in a stream numbered from zero each block starts where the previous one ended.",
  ["inputs"], "all streams, both blocking strategies, all frame and sample numbers, all lengths of the last block",
  "No test looks at a block's time.",
  ["src/frame.rs", "src/lib.rs", "src/metadata.rs"],
  [("variable-length number decoding", "src/frame.rs read_var_length_int"), ("time computation", "src/frame.rs FrameReader::read_next_or_eof, Block::time")],
  ["Block::time for blocks from FlacReader::blocks and from FrameReader"])

p("C16", "Bit-level reading equals reading a string of bits",
  "Any sequence of bit reads (single bits, unary numbers, fixed-width fields of any legal width from 0 to 32 bits) on any data returns what reading the same fields from the concatenated bits, most significant first, returns. Reading past the end is an error and never yields a value, and a unary run of any length is either counted exactly or refused with an error.",
  ["histories", "inputs"], "all byte strings times all sequences of bit-read operations, so every operation at every bit offset",
  "The unit tests follow a few fixed sequences over a few bytes.",
  ["src/input.rs"],
  [("bit buffer", "src/input.rs Bitstream read_bit, read_unary, read_leq_u8, read_gt_u8_leq_u16, read_leq_u16, read_leq_u32")],
  ["input::Bitstream"],
  state=[("partial byte", "unread bits of the last byte", "src/input.rs Bitstream.data, bits_left")])

p("C17", "Byte-level reading equals reading a byte string",
  "Any sequence of byte-level operations (one byte with or without tolerating the end, big- and little-endian integers, filling a buffer, skipping any amount) on the buffered reader, a borrowed reader or a cursor returns what the same operations on the plain byte string return, whatever sizes the source delivers. An operation that needs more bytes than there are fails with an unexpected-end-of-file error, the end-tolerant operations report the end only when not a single byte is left, and no operation writes outside the buffer it was given.",
  ["histories", "inputs", "schedules"], "all byte strings, operation sequences, source read sizes and reader types",
  "The unit tests use data of at most nine bytes, always delivered in one piece, so the buffer is never refilled with data.",
  ["src/input.rs"],
  [("buffered reading and skipping", "src/input.rs impl ReadBytes for BufferedReader"), ("cursor reading", "src/input.rs impl ReadBytes for io::Cursor"), ("derived integer reads", "src/input.rs trait ReadBytes")],
  ["input::ReadBytes implementations", "input::BufferedReader::into_inner"],
  state=[("buffer window", "position and number of valid bytes", "src/input.rs BufferedReader.pos, num_valid")])

p("C18", "Memory safety does not depend on a well-behaved source",
  "Safe code cannot make the library read or write outside its own memory or reveal uninitialised memory, even with a source whose read returns a wrong byte count, or a byte reader that claims success without filling the buffer it was given. Such misbehaviour leads at worst to a panic, an error or meaningless samples.",
  ["inputs", "fault_sequences"], "all safe implementations of the source traits, including ones that break their contract, over all streams",
  "All tests use files and cursors; the unchecked accesses rely on counts the source reports.",
  ["src/input.rs", "src/frame.rs", "src/metadata.rs"],
  [("unchecked buffer access", "src/input.rs BufferedReader::read_u8"), ("unchecked stereo access", "src/frame.rs StereoSamples::next"), ("length set before fill", "src/metadata.rs read_vorbis_comment_block, read_application_block")],
  ["address-sanitised and UB-checked builds", "poisoned heap"])

p("C19", "Frames and metadata can be decoded out of a container",
  "Metadata blocks (with or without their header) and frames taken verbatim out of a stream and decoded one by one from separate packets, each with a fresh reader, give the same result as reading the whole stream (except the time of a shorter last block of a fixed-block-size stream, which the frame alone does not determine). Decoding a block or frame consumes exactly its own bytes and nothing beyond them, so packets holding several frames, or data following a frame, are handled as well, and an empty packet is an end of stream.",
  ["inputs", "histories"], "all streams times all ways to cut them into packets at block and frame boundaries",
  "No test reads embedded streams; the Ogg and MP4 examples are only compiled.",
  ["src/metadata.rs", "src/frame.rs", "src/input.rs", "examples/decode_ogg.rs", "examples/decode_mp4.rs"],
  [("stand-alone metadata parsing", "src/metadata.rs read_metadata_block, read_metadata_block_with_header"), ("stand-alone frame parsing", "src/frame.rs FrameReader::new, into_inner"), ("cursor reading", "src/input.rs impl ReadBytes for io::Cursor")],
  ["FrameReader over io::Cursor", "read_metadata_block*"])

p("C20", "After an error an iterator ends and delivers nothing more",
  "Once a sample iterator (borrowed or owning) or a metadata block iterator has reported an error, it reports no further item and does not read the source again, whatever the source contains or does next. An error is reported exactly once, in place of the first item that could not be produced, after all items before it; and a sample or metadata iterator that reached its regular end keeps reporting the end. Size hints never contradict the items that follow.",
  ["inputs", "fault_sequences", "histories"], "all streams with damage, truncation or I/O failure at any point",
  "No test continues an iterator after an error or past its end.",
  ["src/lib.rs", "src/metadata.rs"],
  [("failure flag", "src/lib.rs FlacSamples.has_failed"), ("done flag", "src/metadata.rs MetadataBlockReader.done")],
  ["Iterator::next of FlacSamples, FlacIntoSamples, MetadataBlockReader"],
  state=[("has_failed", "an error was reported", "src/lib.rs FlacSamples"), ("done", "last block or error seen", "src/metadata.rs MetadataBlockReader")])

p("C21", "Subframes of every sample width up to 32 bits decode exactly",
  "Decoding a single well-formed subframe through the public subframe interface reproduces exactly the samples it encodes, for every sample width from 1 to 32 bits, every subframe kind, order, wasted-bit count and residual coding, starting at any bit offset and leaving the bit reader exactly behind the subframe; sign extension is exact for every width. Sample data that no valid encoder produces may decode to other values but always to the width of the result type, without a panic.",
  ["inputs"], "all sample sequences of all widths times all subframe encodings and start offsets",
  "Unit tests check a few prediction vectors; widths other than those of the sample files, and the widths 26 to 32 of the public interface, are never decoded.",
  ["src/subframe.rs", "src/input.rs"],
  [("subframe decoding", "src/subframe.rs decode, extend_sign_u32")],
  ["subframe::decode", "subframe::extend_sign_u32"])

p("C22", "Nothing waits for bytes it does not need",
  "Opening a stream returns as soon as its (requested) metadata has arrived, and every metadata block, decoded block, sample, byte-level value and bit field is returned as soon as the bytes that make it up have arrived: the source is not asked for more before the next item is asked for. So a live source (a pipe, a socket) is decoded without delay, and whatever the source would do next (block, fail, end) cannot withhold or replace what has arrived completely.",
  ["schedules", "histories", "inputs"], "all streams times all ways and sizes in which a source can deliver them, with the source exhausted for the moment right behind any item",
  "The tests read complete files, where asking for too much goes unnoticed.",
  ["src/input.rs", "src/frame.rs", "src/lib.rs", "src/metadata.rs"],
  [("refill only when the buffer is used up", "src/input.rs BufferedReader::refill and its callers"), ("bit reads fetch a byte when needed", "src/input.rs Bitstream"), ("opening stops behind the metadata", "src/lib.rs FlacReader::new_ext"), ("a block is complete with its checksum", "src/frame.rs FrameReader::read_next_or_eof")],
  ["std::io::Read::read calls of the library", "FlacReader, FrameReader, sample iterators, MetadataBlockReader, BufferedReader, Bitstream"],
  state=[("buffer window", "bytes read ahead but not consumed", "src/input.rs BufferedReader.pos, num_valid")])

p("C23", "Errors say what happened",
  "An error made from, or caused by, an I/O error carries exactly that error (kind, message, code, payload), displays like it and names it as its cause; a format or unsupported-feature error displays its reason, has no cause, and the two kinds are told apart in what is displayed; invalid UTF-8 becomes a format error. Two format errors, and two unsupported-feature errors, are equal exactly if their reasons are; errors of different kinds are never equal.",
  ["inputs"], "all errors, all I/O error kinds and payloads",
  "The tests compare two format errors and look into no other error.",
  ["src/error.rs"],
  [("error type and conversions", "src/error.rs Error, From impls"), ("display, cause, equality", "src/error.rs Display, Error, PartialEq impls")],
  ["claxon::Error"])

p("C24", "Readers in use at the same time do not influence one another",
  "Any number of stream readers, frame readers, sample and metadata iterators and bit readers can be in use at the same time, interleaved in any order on one thread (even one used by the source of another while that is read), handed from one thread to another between calls, or running on several threads at once: each returns exactly what it returns when it is used alone. A returned block keeps its contents while others are decoded, also when the buffers of consumed blocks are handed to other readers for reuse.",
  ["histories", "schedules", "inputs"], "all sets of streams times all interleavings of the calls on their readers, on one or several threads",
  "The tests use one reader at a time, so state shared between readers cannot show.",
  ["src/lib.rs", "src/frame.rs", "src/subframe.rs", "src/metadata.rs", "src/input.rs", "src/crc.rs"],
  [("no state outside the readers", "src/*.rs: no statics but constant tables"), ("checksum state per frame", "src/crc.rs Crc8Reader, Crc16Reader"), ("buffers move from block to reader", "src/frame.rs FrameReader::read_next_or_eof, Block::into_buffer")],
  ["FlacReader, FrameReader, sample iterators, MetadataBlockReader, Bitstream, subframe::decode, several of each at once"])

p("C25", "The source is read in large pieces",
  "Whatever is called on a stream reader (or a buffered reader) in whatever order, and in however small pieces its result is taken, the source is asked for data a bounded number of times per kilobyte delivered, not once per byte, field, sample or block: a caller need not wrap a file in a buffered reader. Passing over data (skipping, ignored metadata) is no exception.",
  ["histories", "inputs"], "all streams and byte strings times all sequences of calls",
  "The tests read from memory, where the number of requests does not show.",
  ["src/input.rs", "src/lib.rs", "src/metadata.rs"],
  [("requests fill the internal buffer", "src/input.rs BufferedReader::refill"), ("large reads and skips", "src/input.rs ReadBytes::read_into, skip for BufferedReader"), ("the stream reader buffers by itself", "src/lib.rs FlacReader::new_ext")],
  ["std::io::Read::read calls of the library", "FlacReader, BufferedReader and what is built on them"],
  state=[("buffer window", "bytes read ahead but not consumed", "src/input.rs BufferedReader.pos, num_valid")])

p("C26", "Everything is released, once",
  "Whatever was done with a reader, an iterator, a block, a tag list or an error, and however it ended (dropping at any point, into_inner, an error, the documented panic, a panic of the source): the source is dropped exactly once or handed back exactly once, every error and its payload is dropped exactly once, all memory is returned, and nothing accumulates from use to use. Neither dropping nor into_inner reads from the source.",
  ["histories", "inputs", "fault_sequences"], "all intact and damaged inputs times all sequences of calls times all ways to end",
  "The tests never count what is released, and a process that ends releases everything.",
  ["src/lib.rs", "src/frame.rs", "src/metadata.rs", "src/input.rs", "src/error.rs"],
  [("ownership of the source", "src/lib.rs FlacReader::into_inner; src/frame.rs FrameReader::into_inner; src/input.rs BufferedReader::into_inner"), ("buffers move from block to reader", "src/frame.rs FrameReader::read_next_or_eof, Block::into_buffer"), ("errors carry their cause", "src/error.rs Error::IoError")],
  ["FlacReader, FrameReader, sample iterators, MetadataBlockReader, Bitstream, Block, Error"])

p("C27", "Effort is proportional to the data",
  "The work for opening, decoding, iterating, skipping and looking things up grows in proportion to the bytes read and samples returned, in each dimension by itself: number of frames, block size, number of partitions, number and length of tags and of metadata blocks, length of runs of bits, number of calls. It does not depend on what merely could come (sizes announced in headers, the capacity of a buffer handed in), nor on what went before, and a call at the end of the data costs a constant.",
  ["inputs", "histories"], "all sizes of all kinds of input, and all ways of use",
  "The tests use small inputs, where superlinear effort does not show.",
  ["src/lib.rs", "src/frame.rs", "src/subframe.rs", "src/metadata.rs", "src/input.rs"],
  [("decoding loops", "src/subframe.rs decode, predict_*; src/frame.rs decode_*"), ("tags are looked up in one pass", "src/metadata.rs GetTag"), ("tag list built in one pass", "src/metadata.rs read_vorbis_comment_block"), ("skips by buffer", "src/input.rs BufferedReader::skip")],
  ["FlacReader, FrameReader, sample iterators, MetadataBlockReader, BufferedReader, Bitstream, subframe::decode, Block accessors"])

p("C28", "Results do not depend on how the library was built",
  "The same input, used in the same way, gives the same blocks, samples, metadata, tags and errors whether the library was built with or without optimisation, debug assertions and overflow checks. What a debug build checks, delivers or refuses, a release build checks, delivers or refuses as well, for valid, damaged and damaged-but-accepted input.",
  ["inputs", "histories", "configurations"], "all inputs and uses, times the build settings",
  "The tests run in one build only, the one with all checks on, and users run another.",
  ["src/lib.rs", "src/frame.rs", "src/subframe.rs", "src/metadata.rs", "src/input.rs", "src/crc.rs"],
  [("wrapping arithmetic instead of checked arithmetic", "src/subframe.rs predict_fixed, predict_lpc_*, decode; src/frame.rs decode_left_side, decode_right_side, decode_mid_side"), ("assertions without effect", "debug_assert! in src/subframe.rs, src/frame.rs, src/input.rs"), ("unchecked indexing", "src/frame.rs StereoSamples; src/input.rs BufferedReader::read_u8")],
  ["the public interface in several builds"])

p("C29", "Nothing wears out, however long it is used",
  "A stream may be as long as the format can count: any number of metadata blocks, tags (up to the limit on their size), frames, samples, bytes and bits, also beyond 2^16 and 2^32 of them. What the n-th block, tag, frame, sample, field or byte yields does not depend on how many came before it, and the end is found after the last one. Likewise a process may use any number of readers one after another, and a reader may be asked any number of times after its end or while its source fails: the answer stays the same, and the first read after the last passing failure continues.",
  ["histories", "inputs", "fault_sequences"], "all lengths of all streams and of all histories of calls",
  "The tests use streams of a few frames; no counter in them passes a few hundred.",
  ["src/lib.rs", "src/frame.rs", "src/metadata.rs", "src/input.rs"],
  [("sample position inside the block only", "src/lib.rs FlacSamples::next"), ("frames do not depend on one another", "src/frame.rs FrameReader::read_next_or_eof"), ("one flag, not a count of blocks", "src/metadata.rs MetadataBlockReader"), ("window into the buffer instead of a position in the stream", "src/input.rs BufferedReader")],
  ["FlacReader, FrameReader, sample iterators, MetadataBlockReader, Tags, GetTag, BufferedReader, Bitstream"],
  state=[("position in the stream", "how far a reader has come", "src/input.rs BufferedReader; src/lib.rs FlacSamples; src/metadata.rs MetadataBlockReader, GetTag")])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["title"]
        f.write(json.dumps(x, ensure_ascii=False) + "\n")
print(len(P))
