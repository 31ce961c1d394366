#!/usr/bin/env python3
"""Writes properties.jsonl (one property per line). Source of truth for ids/titles/statements."""
import json, os
P=[]
def p(id,title,statement,over,text,why,files,mech,state=(),observe=(),hook=None):
    P.append(dict(id=id,title=title,statement=statement,
      quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,state=[dict(name=a,meaning=b,where=c) for a,b,c in state],
        mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=list(observe),hook_needed=hook)))

p("C01","Every successful encode emits one complete, well-formed JPEG stream",
 "Whenever encoding reports success, the bytes handed to the destination are exactly one syntactically valid JPEG image: start and end markers, segments with correct lengths, every table defined and valid before it is used, and entropy-coded scans that decode to exactly the number of blocks the frame header promises, with correct 0xFF stuffing and 1-bit padding. No byte precedes the start marker or follows the end marker, every coefficient of every component is transmitted exactly once, and all decoded values are inside the range baseline/progressive 8-bit JPEG allows.",
 ["inputs","configurations"],"every image (any content, any size 1..65535 in each direction), colour type, quality, quantisation table choice, sampling factor, scan mode, Huffman mode and restart interval",
 "Tests decode two smooth 258x128 / 258x192 pictures and one 1x1 pixel in about 17 settings with one lenient decoder; stuffing, bit-buffer boundaries, rare symbols, most settings and sizes are never reached.",
 ["src/writer.rs","src/encoder.rs","src/huffman.rs","src/marker.rs"],
 [("bit buffer flushing and 0xFF stuffing","src/writer.rs write_bits / write_bit_buffer / flush_byte_from_bit_buffer / finalize_bit_buffer"),("segment writers","src/writer.rs write_segment, write_huffman_segment, write_quantization_segment, write_frame_header, write_scan_header"),("block coding","src/writer.rs write_dc, write_ac_block, get_code")],
 [("bit_buffer/free_bits","pending entropy-coded bits","src/writer.rs JfifWriter")],["bytes received by the JfifWrite destination"])

p("C02","The header describes exactly the image and colour encoding that was requested",
 "The frame header of every produced file states the requested width, height, 8-bit precision, the component count of the colour type, the requested sampling factors (luma and K at the requested factor, the other components at 1x1, a single component at 1x1) and baseline or progressive coding as requested. The JFIF segment comes first and carries the requested density unit and values, and an Adobe segment is present exactly for CMYK (transform 0) and YCCK (transform 2) so that decoders pick the right colour interpretation.",
 ["inputs","configurations"],"all widths and heights, all nine input colour types and custom image sources, all sampling factors incl. aliases, all densities, all scan modes",
 "Tests only look at width, height and pixel format of two sizes through a decoder; density, Adobe flags, per-component factors and large dimensions are never inspected.",
 ["src/encoder.rs","src/writer.rs"],
 [("component table","src/encoder.rs init_components"),("frame header","src/writer.rs write_frame_header"),("JFIF header","src/writer.rs write_header"),("Adobe APP14","src/encoder.rs encode_image_internal")],
 [("components","id, tables and sampling factor of each component","src/encoder.rs Encoder")],["bytes received by the destination"])

p("C03","Decoded coefficients reproduce the picture to within the chosen quantisation",
 "For every encoded image, each transmitted coefficient times its quantiser equals the 8x8 DCT of the corresponding block of colour-converted, level-shifted source samples to within half a quantisation step (plus the small documented fixed-point error). Consequently each decoded block differs from the source by no more than the quantisation error the chosen quality implies, at any quality and for any picture content.",
 ["inputs","configurations"],"all pixel contents (noise, saturated edges, gradients, single impulses, constant), all colour types, all qualities and quantisation tables",
 "Tests compare two smooth gradients at quality 80/85/100 with a tolerance of 20 grey levels; sign, rounding, saturation and coefficient-order errors on busy blocks would pass.",
 ["src/fdct.rs","src/avx2/fdct.rs","src/quantization.rs","src/encoder.rs"],
 [("forward DCT","src/fdct.rs fdct; src/avx2/fdct.rs fdct_avx2"),("quantiser","src/quantization.rs compute_reciprocal, quantize"),("level shift and block fetch","src/encoder.rs get_block"),("zig-zag order","src/writer.rs ZIGZAG; src/encoder.rs quantize_block")],
 (),["coefficients decoded from the output"])

p("C04","Block geometry, chroma subsampling and edge handling are right for every size",
 "For every image size and sampling factor, block (i,j) of each component covers precisely the pixels JPEG assigns to it, in the order JPEG prescribes, and each subsampled value lies within the range of the source pixels of the cell it stands for. Pixels needed beyond the right or bottom edge repeat the nearest edge column or row, so no other data can bleed into the picture or the file.",
 ["inputs","configurations"],"all sizes 1..65535 x 1..65535 (in particular every residue modulo the MCU size, and single rows/columns), all eight sampling factors, interleaved, sequential and progressive layouts",
 "Two multiples-of-2 sizes are tested with smooth content; partial MCUs in both directions for most factors, single-pixel strips and big strips are not.",
 ["src/encoder.rs"],
 [("interleaved MCU walk and padding","src/encoder.rs encode_image_interleaved"),("per-component block extraction","src/encoder.rs encode_blocks"),("sample fetch with stride","src/encoder.rs get_block"),("max sampling","src/encoder.rs get_max_sampling_size")],
 [("row","per-component sample rows incl. padding","src/encoder.rs encode_image_interleaved / encode_blocks")],["coefficients decoded from the output"])

p("C05","Entropy-coding options never change the picture",
 "For a given image, quality, quantisation tables and sampling factor, choosing progressive mode with any number of scans, optimised Huffman tables, or any restart interval yields exactly the same quantised coefficients for every block as the default baseline encoding. These options only change how the coefficients are packed.",
 ["inputs","configurations"],"all pairs of settings that differ only in progressive scans (none, 2..64), Huffman optimisation and restart interval (0..65535), for all images",
 "No test compares two encodings of one image; each is checked alone against a 20-level pixel tolerance.",
 ["src/encoder.rs","src/writer.rs","src/huffman.rs"],
 [("three encode paths","src/encoder.rs encode_image_interleaved, encode_image_sequential, encode_image_progressive"),("Huffman optimisation","src/encoder.rs optimize_huffman_table")],
 (),["coefficients decoded from pairs of outputs"])

p("C06","Restart intervals split every scan exactly as announced",
 "With restart interval n > 0 the file announces n once before the first scan, and in every scan a restart marker separates each group of n MCUs, numbered RST0..RST7 cyclically from RST0, with no marker before the first or after the last MCU. Each group decodes independently of the others (predictors are reset), and with interval 0 there is neither an announcement nor a marker.",
 ["inputs","configurations"],"all intervals 0..65535 against all MCU counts (fewer, equal, multiples, more than 8 and more than 65535 MCUs), all scan modes, sampling factors and Huffman modes",
 "Three tests use interval 32 only and merely look for the DRI bytes and a tolerant decode; optimised tables with restarts, interval 1, wrap-around and exact multiples are untested.",
 ["src/encoder.rs","src/writer.rs"],
 [("restart bookkeeping","src/encoder.rs restarts / restarts_to_go in the three encode paths"),("predictor reset","src/encoder.rs prev_dc"),("DRI","src/writer.rs write_dri"),("bit alignment","src/writer.rs finalize_bit_buffer"),("DC statistics","src/encoder.rs optimize_huffman_table")],
 [("restarts_to_go","MCUs left in the current interval","src/encoder.rs")],["markers and segments in the output"])

p("C07","Progressive files send every coefficient once, in the requested number of scans",
 "With n progressive scans requested (2..64, or 4 by default) each component is sent in exactly one DC scan followed by n-1 AC scans; the AC scans use non-empty ascending spectral bands that together cover coefficients 1..63 once with no gap or overlap. All DC scans precede the AC scans, every scan header is legal, and every scan carries all blocks of its component.",
 ["inputs","configurations"],"all scan counts 2..64, colour types, sampling factors, Huffman modes, restart intervals and sizes",
 "Tests use only the default of 4 scans.",
 ["src/encoder.rs","src/writer.rs"],
 [("scan script","src/encoder.rs encode_image_progressive"),("matching statistics","src/encoder.rs optimize_huffman_table"),("scan header","src/writer.rs write_scan_header")],
 [("progressive_scans","requested scan count","src/encoder.rs Encoder")],["scan headers and decoded scans in the output"])

p("C08","Optimised Huffman tables are legal, sufficient and never worse than the defaults",
 "With optimised tables enabled, every emitted Huffman table is a valid JPEG table (codes of at most 16 bits, prefix-free, no all-ones code) holding a code for precisely the symbols its scans use, whatever the symbol statistics, including extremely skewed ones. The coded data never exceeds what the standard tables need by more than two bytes per table and is of minimal Huffman length whenever the 16-bit limit does not bind; encoding never fails because of the statistics.",
 ["inputs","configurations"],"all symbol distributions reachable from images (one symbol, flat, Fibonacci-skewed beyond 16 and beyond 32 levels), all modes and restart intervals",
 "Two smooth images and a single pixel are encoded with optimised tables; the length-limiting step is never exercised, restarts and optimisation are never combined.",
 ["src/huffman.rs","src/encoder.rs"],
 [("code construction and 16-bit limiting","src/huffman.rs new_optimized"),("canonical codes","src/huffman.rs create_sizes, create_codes, create_lookup_table"),("statistics","src/encoder.rs optimize_huffman_table")],
 [("lookup_table","code and size per symbol; size 0 = absent","src/huffman.rs HuffmanTable")],["DHT segments and decoded symbols of the output"])

p("C09","Quantisation tables in the file are the requested ones and the ones really used",
 "The file's quantisation tables equal the selected preset (Annex K by default) scaled by the standard quality formula and limited to 1..255, or the user's custom table limited to 1..255 and independent of quality, luma table for luma (and K) and chroma table for the other components. The quantiser actually applied to the coefficients is the one written in the file, quality is clamped to 1..100, and a higher quality never coarsens any entry.",
 ["inputs","configurations"],"all qualities 0..255, all nine presets on either side, all custom tables of 64 u16 values",
 "Unit tests check quality 100 of the default preset and a custom table of all ones.",
 ["src/quantization.rs","src/writer.rs","src/encoder.rs"],
 [("quality scaling","src/quantization.rs get_with_quality"),("custom tables","src/quantization.rs get_user_table"),("preset tables","src/quantization.rs DEFAULT_LUMA_TABLES, DEFAULT_CHROMA_TABLES"),("DQT writer","src/writer.rs write_quantization_segment")],
 [("table","divisors premultiplied by 8","src/quantization.rs QuantizationTable")],["DQT segments and coefficients of the output"])

p("C10","The SIMD build produces byte-identical files to the scalar build",
 "For every input and configuration the library built with the SIMD feature on an AVX2 machine produces exactly the same bytes, or the same error, as the library built without it. On a CPU without AVX2 the SIMD build works too, uses no instruction the CPU lacks, and gives the same result. Enabling the optimisation is never observable except in speed.",
 ["inputs","configurations"],"all images (every width residue modulo 8, all colours, extreme blocks), colour types and configurations",
 "Tests run each build separately against tolerant pixel comparisons; no test compares the two, and the AVX2 DCT has no unit test of its own.",
 ["src/avx2/fdct.rs","src/avx2/ycbcr.rs","src/avx2.rs","src/encoder.rs","src/fdct.rs","src/image_buffer.rs"],
 [("AVX2 DCT","src/avx2/fdct.rs fdct_avx2_internal"),("AVX2 colour conversion and tail loop","src/avx2/ycbcr.rs fill_buffers_avx2"),("dispatch","src/encoder.rs encode, encode_image")],
 (),["bytes received by the destination in both builds"])

p("C11","Output does not depend on std, word size or byte order",
 "The same input and configuration give the same bytes, or the same kind of error, with and without the standard library, on 32-bit and 64-bit targets and on little- and big-endian targets. In particular a buffer that is too short for the stated dimensions is rejected on every target, even when the required size exceeds the address space.",
 ["inputs","configurations"],"all inputs and configurations; targets x86_64, i686 (32-bit), mips (32-bit big-endian), s390x (64-bit big-endian), with std and no_std+alloc",
 "Tests run on the 64-bit little-endian host only, and the no_std build is never compared with the std build.",
 ["src/writer.rs","src/encoder.rs","src/lib.rs","src/error.rs"],
 [("word-sized bit buffer","src/writer.rs BUFFER_SIZE, write_bits, write_bit_buffer (to_be_bytes)"),("no_std sinks","src/writer.rs JfifWrite impls"),("size computation","src/encoder.rs encode")],
 [("bit_buffer","usize-wide accumulator","src/writer.rs JfifWriter")],["bytes received by the destination on each target"])

p("C12","No memory error or undefined behaviour is reachable through the safe API",
 "No call sequence through the public safe API, with any slice, dimensions, settings, destination or (even misbehaving) custom image source, reads or writes outside allocated memory, uses uninitialised memory, or executes other undefined behaviour, in the scalar or the SIMD build.",
 ["inputs","configurations","fault_sequences"],"all inputs incl. slices that end exactly at the last needed byte, short slices, huge dimensions, image sources that push too few or too many samples, lie about their size or panic, and destinations that fail or panic",
 "Tests pass well-formed inputs only and run without sanitizers, so a stray read or write by the unsafe AVX2 code would go unnoticed.",
 ["src/avx2/ycbcr.rs","src/avx2/fdct.rs","src/encoder.rs"],
 [("raw pointer loops and set_len","src/avx2/ycbcr.rs fill_buffers_avx2"),("unaligned loads/stores","src/avx2/fdct.rs fdct_avx2_internal"),("length check","src/encoder.rs encode"),("buffer capacity","src/encoder.rs init_rows")],
 [("row","Vec<u8> capacity that the AVX2 code writes into through raw pointers","src/encoder.rs")],["ASan/MSan/Miri/valgrind reports, allocator canaries"])

p("C13","Encoding always terminates with success or the documented error, never a panic",
 "Every valid request succeeds, and every invalid one (zero width or height, buffer too short, bad segment number, oversized segment or profile) returns the specific documented error with the offending values, without panicking, hanging, overflowing or writing a single byte to the destination. Only the documented panic exists: a progressive scan count outside 2..64.",
 ["inputs","configurations"],"all argument values of all public functions: any slice length, any width/height incl. 0 and 65535, any quality 0..255, any restart interval, any scan count, any segment number and length",
 "Tests only exercise successful calls; no error path is tested at all, and arithmetic overflow or missing-code assertions depend on image content.",
 ["src/encoder.rs","src/error.rs","src/huffman.rs","src/writer.rs","src/quantization.rs"],
 [("argument validation","src/encoder.rs encode, encode_image_internal, add_app_segment, add_icc_profile, set_progressive_scans"),("error type","src/error.rs EncodingError")],
 (),["return values, panics and destination calls"])

p("C14","A failing destination yields its error and a clean prefix, never a false success",
 "If the destination fails at any point, encoding stops and returns that destination's error, hands it no further data, and everything accepted before is a prefix of the file a reliable destination would have received. If encoding returns success, every byte was accepted by the destination exactly once and in order, however the destination chunks its writes or interrupts them.",
 ["fault_sequences","inputs","configurations"],"failure at every byte offset of the output, every io::ErrorKind, transient and permanent failures, short writes, interrupted writes, zero-length writes; all scan modes",
 "Tests write to a Vec, which cannot fail.",
 ["src/writer.rs","src/encoder.rs","src/error.rs"],
 [("error propagation","src/writer.rs every ? on write_all; src/encoder.rs ? in the encode paths"),("std adapter","src/writer.rs impl JfifWrite for W: std::io::Write")],
 (),["call/return trace at the destination"])

p("C15","A file encoder that reports success has put the whole image on disk",
 "Encoding through a file encoder returns success only after every byte has been delivered to the operating system: the file then holds exactly the bytes an in-memory encode of the same request produces, replacing any previous content. If the file cannot be created, or any part of the data (including what was still buffered) cannot be written, an I/O error is returned.",
 ["fault_sequences","inputs","configurations"],"all images and settings (outputs below, at and above the buffer size), missing or unwritable paths, every kind of file name, links, existing longer files, device-full and file-size-limit faults at any offset",
 "No test uses a file; errors on the final buffered bytes surface only when the writer is dropped.",
 ["src/encoder.rs","src/writer.rs"],
 [("file constructor","src/encoder.rs Encoder::new_file"),("end of encoding","src/encoder.rs encode_image_internal")],
 [("BufWriter","bytes accepted but not yet written","src/encoder.rs Encoder<BufWriter<File>>")],["return value and file content after encode"])

p("C16","Application segments and ICC profiles arrive verbatim, in order, within limits",
 "Every accepted application segment appears in the file exactly once, byte for byte, with the requested marker number, in the order added, before the frame header; segments up to 65533 bytes with numbers 1..15 are accepted and all others are refused without any effect. An accepted ICC profile of up to 16,707,345 bytes is stored as consecutively numbered chunks with the right count that reassemble to the identical profile, and larger ones are refused without any effect.",
 ["inputs","histories"],"all segment numbers 0..255 and lengths around every limit, all profile lengths (0, exact chunk multiples, 254/255/256 chunks), all sequences mixing successful and refused additions",
 "One 7-byte segment and one 128 KiB profile are tested; limits, ordering, multiples and refused additions are not.",
 ["src/encoder.rs","src/writer.rs"],
 [("segment list","src/encoder.rs add_app_segment"),("ICC chunking","src/encoder.rs add_icc_profile"),("segment writer","src/writer.rs write_segment")],
 [("app_segments","segments to be emitted","src/encoder.rs Encoder")],["APPn segments of the output"])

p("C17","Colour conversion and pixel layouts are exact for every colour",
 "For each of the 16.7 million RGB colours the conversion to YCbCr is the BT.601/JFIF result rounded to within one half (plus fixed-point error) per component and never wraps, and CMYK-to-YCCK applies it to C, M, Y and inverts K. Every pixel layout is honoured exactly: BGR, RGBA and BGRA give the same file as the equivalent RGB data, alpha and bytes after the image never matter, YCbCr and YCCK samples pass through unchanged and CMYK samples are stored inverted.",
 ["inputs"],"all 2^24 colours, all 2^32 CMYK values by sampling, all nine layouts at all positions of a row",
 "About 90 colours are tested on the scalar function only; layouts are checked through lossy comparisons of smooth gradients, BGR/BGRA/YCbCr/YCCK inputs not at all.",
 ["src/image_buffer.rs","src/avx2/ycbcr.rs","src/encoder.rs"],
 [("conversion","src/image_buffer.rs rgb_to_ycbcr, cmyk_to_ycck"),("row readers","src/image_buffer.rs fill_buffers impls"),("AVX2 row readers","src/avx2/ycbcr.rs ycbcr_image_avx2")],
 (),["return values of the public conversion functions; DC coefficients of flat blocks in the output"])

p("C18","Encoding is deterministic and encoders are isolated from each other",
 "The bytes produced depend only on the image and the settings of that encoder: not on earlier, later or concurrent encodes in the process, on the thread, on previous heap contents, or on bytes outside the image. Any number of encoders can run on different threads with results identical to running each alone in a fresh process.",
 ["histories","schedules","inputs"],"all sequences and concurrent schedules of encodes with differing settings and sizes; all initial heap contents",
 "Each test encodes once and never compares two runs.",
 ["src/encoder.rs","src/avx2/ycbcr.rs","src/huffman.rs","src/quantization.rs","src/writer.rs"],
 [("per-encoder state only","src/encoder.rs Encoder, src/writer.rs JfifWriter"),("buffers fully written before use","src/encoder.rs init_rows; src/avx2/ycbcr.rs set_len")],
 (),["bytes received by the destination"])

p("C19","Custom image sources are first-class and are driven within their contract",
 "A user-defined image source that supplies the same samples yields exactly the same file as the built-in pixel formats. The encoder asks it only for rows 0..height-1, asks for every row, accepts samples appended to whatever the buffers hold, and in a zero-sized image asks for no row at all.",
 ["inputs","configurations","histories"],"all colour types, sizes, sampling factors and scan modes; sources that observe or extend the buffers row by row",
 "No test implements an image source.",
 ["src/image_buffer.rs","src/encoder.rs"],
 [("row requests","src/encoder.rs encode_image_interleaved, encode_blocks"),("trait","src/image_buffer.rs ImageBuffer")],
 (),["call trace of the image source; bytes received by the destination"])

p("C20","Settings take effect as set, last one wins, independent of order",
 "Each getter returns what was last set (with interval 0 meaning none, enabling progressive meaning 4 scans), defaults follow the documentation (2x2 subsampling below quality 90, otherwise 1x1; Annex K tables, baseline, no restarts, density none), and the file depends only on the final settings, not on the order or number of setter calls. Sampling-factor aliases and factor lookup agree with their documented factors.",
 ["histories","configurations"],"all sequences of setter calls incl. repeated, reverted and reordered ones, all qualities, all sampling factor variants",
 "One test toggles progressive; factor pairs are checked through a private function; no test repeats or reorders setters.",
 ["src/encoder.rs","src/quantization.rs"],
 [("setters/getters","src/encoder.rs set_*, density, sampling_factor, progressive_scans, restart_interval, optimized_huffman_tables, quantization_tables"),("factor lookup","src/encoder.rs SamplingFactor::from_factors, get_sampling_factors")],
 [("settings fields","density, sampling_factor, progressive_scans, restart_interval, optimize_huffman_table, quantization_tables","src/encoder.rs Encoder")],["getter results and output bytes"])

p("C21","Independent decoders accept every file and show the same picture",
 "Standard decoders that support the chosen features decode every produced file without error or warning-level repair, and agree with the source picture to within the quantisation error. This covers the files' colour interpretation (grey, YCbCr, CMYK, YCCK), baseline and progressive modes, subsampling, restarts, metadata and optimised tables.",
 ["inputs","configurations"],"all images and configurations within what the third-party decoders support",
 "One decoder is used on two pictures with a tolerance of 20 levels.",
 ["src/encoder.rs","src/writer.rs","src/huffman.rs","src/image_buffer.rs"],
 [("stream layout","src/encoder.rs encode_image_internal, write_frame_header"),("colour signalling","src/encoder.rs encode_image_internal"),("CMYK inversion","src/image_buffer.rs CmykImage, cmyk_to_ycck")],
 (),["pixels returned by jpeg-decoder (Rust), Go image/jpeg and libjpeg (Java ImageIO)"])

p("C22","Working memory stays proportional to the picture, to a few rows in baseline mode",
 "Encoding in the default baseline mode needs working memory for a fixed number of pixel rows, independent of the image height, and all other modes need at most a small constant number of bytes per pixel and component. Memory is released when encoding ends, on success and on every error.",
 ["inputs","configurations","fault_sequences"],"all sizes incl. extreme aspect ratios, all colour types, sampling factors and modes; successful and failing encodes",
 "Tests do not measure memory.",
 ["src/encoder.rs"],
 [("row buffer of one MCU row","src/encoder.rs encode_image_interleaved"),("block buffers","src/encoder.rs encode_blocks, init_rows, init_block_buffers")],
 [("row / blocks","sample and coefficient buffers","src/encoder.rs")],["allocator trace"])

here=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here,"properties.jsonl"),"w") as f:
    for x in P:
        assert len(x["title"])<=80,(x["id"],len(x["title"]))
        f.write(json.dumps(x)+"\n")
print(len(P))
