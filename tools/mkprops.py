#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a script so that statements are edited in one place)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, state=None, observe=None, hook=None):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, state=state or [],
            mechanism=[dict(name=n, where=w) for n, w in mech],
            observe_at=observe or [], hook_needed=hook)))

prop("C01", "Damage within the error-correction capacity is always undone",
 "For every version 1-40 and every error-correction level: if in each block of a symbol at most as many codewords are damaged as that version and level is specified to correct - at any positions, data or check codewords, with any wrong values - then decoding succeeds and yields exactly the text of the undamaged symbol.",
 ["inputs"], "all versions and levels, all codeword contents, all sets of damaged positions up to the capacity, all error values",
 "A handful of photographs have a few damaged codewords; the number of error patterns is about 256^15 per block, and the ones that matter (vanishing syndromes, singular leading minors, fewer errors than the capacity) are a small fraction that samples do not hit.",
 ["src/decode/qr/correct.rs", "src/decode/qr/galois.rs", "src/decode/qr/decoder.rs"],
 [("syndromes, error locator, error values", "src/decode/qr/correct.rs: correct_with_error_count, calculate_syndromes, find_locs, calculate_distances"),
  ("linear solver over the field", "src/decode/qr/correct.rs: solve"),
  ("field arithmetic and tables", "src/decode/qr/galois.rs: GF8, EXP8, LOG8")],
 observe=["QRDecoder::decode", "QRDecoderWithInfo::decode"])

prop("C02", "Uncorrectable damage is reported, never decoded from a non-codeword",
 "Whenever decoding a symbol succeeds, every block it used is, after correction, a valid Reed-Solomon codeword of the standard's code for that version and level, and differs from the block as read in at most the number of codewords that version and level is specified to correct. If some block is farther than that from every codeword, decoding returns an error.",
 ["inputs"], "all block contents, in particular every damage pattern beyond the capacity",
 "The tests contain no image damaged beyond repair; soundness is a claim about every one of the 256^n received words, almost all of which are uncorrectable.",
 ["src/decode/qr/correct.rs", "src/decode/qr/galois.rs"],
 [("re-check of the syndromes after correction", "src/decode/qr/correct.rs: correct_with_error_count"),
  ("syndrome evaluation", "src/decode/qr/correct.rs: calculate_syndromes, syndrome")],
 observe=["QRDecoder::decode", "QRDecoderWithInfo::decode"])

prop("C03", "Format information survives any three bit errors and is never guessed",
 "The error-correction level and the mask used are those of the unique valid format word within three bit errors of the first copy in the symbol. If no valid word is that close, the second copy decides by the same rule, and if neither copy is within three bit errors of a valid word, decoding returns an error.",
 ["inputs"], "all 2^15 contents of each copy, for all symbol sizes",
 "Three unit tests correct one particular word (no error, one pair of errors, one five-bit error); the claim covers all 32768 words in both copies.",
 ["src/decode/qr/format.rs", "src/decode/qr/galois.rs"],
 [("reading both copies", "src/decode/qr/format.rs: format, format1, format2"),
  ("BCH(15,5) correction", "src/decode/qr/format.rs: correct"),
  ("level and mask numbers", "src/decode/qr/format.rs: error_correction, mask")],
 observe=["QRDecoder::decode", "QRDecoderWithInfo::decode"])

prop("C04", "Block structure follows the standard for all 160 version/level pairs",
 "For each version 1-40 and each level L, M, Q, H the codewords of a symbol are divided into exactly the blocks ISO/IEC 18004 prescribes: number of blocks, total and data codewords of each, shorter blocks first, and number of correctable codewords per block. Any other version is rejected with an error.",
 ["configurations", "inputs"], "all version numbers (in range and out of range) and all four levels",
 "The image tests use about ten of the 160 pairs; each of the 160 table rows is independent of the others.",
 ["src/decode/qr/mod.rs"],
 [("block table and its expansion", "src/decode/qr/mod.rs: block_info, BlockInfo")],
 observe=["QRDecoder::decode", "QRDecoderWithInfo::decode (total_data)"])

prop("C05", "Codewords are read from exactly the data modules, in order, unmasked",
 "For every version the codeword bits are taken from exactly the modules that are not part of a finder, separator, timing, alignment, format or version pattern, in the standard's zigzag order, each inverted exactly where the selected one of the eight masks says so. The resulting codewords are dealt to the blocks in the standard's interleaving order, so that each block receives exactly its own data and check codewords.",
 ["inputs", "configurations"], "all 40 versions, all levels, all eight masks, all module matrices",
 "The image tests fix a few version/level/mask combinations; a single misplaced module in another version, or a mask formula wrong at some coordinates, is not sampled (and a few wrong bits are silently repaired by error correction).",
 ["src/decode/qr/blocks.rs", "src/decode/qr/format.rs", "src/util/qr.rs"],
 [("zigzag walk", "src/decode/qr/blocks.rs: blocks, y_range"),
  ("function pattern exclusion", "src/decode/qr/blocks.rs: is_data, is_alignment_coord, alignment_location"),
  ("bit packing and de-interleaving", "src/decode/qr/blocks.rs: Codewords, Blocks"),
  ("mask predicates", "src/decode/qr/format.rs: mask, qrmask")],
 observe=["QRDecoder::decode", "QRDecoderWithInfo::decode (errors == 0 for a clean symbol)"])

prop("C06", "Every sequence of segments decodes to exactly the characters it encodes",
 "For every version and every sequence of numeric, alphanumeric and byte segments of any lengths, with the length-field widths the standard gives for that version, the decoded text is the concatenation of the segments' characters and nothing else, ending at the terminator or when fewer than four bits remain. Leading zeros of numeric groups are kept; byte segments are read as UTF-8 if they contain the byte 0xC3 and as ISO 8859-1 otherwise.",
 ["inputs"], "all texts, all splits into segments, all versions",
 "The tests decode about ten fixed texts; groups with leading zeros, one- and two-character remainders, long length fields and mixed segments in all version ranges are not covered.",
 ["src/decode/qr/data.rs", "src/util/chomp.rs"],
 [("segment loop", "src/decode/qr/data.rs: data"),
  ("segment decoders", "src/decode/qr/data.rs: numeric, alphanumeric, eight_bit, ALPHANUMERIC"),
  ("bit reader", "src/util/chomp.rs: Chomp")],
 observe=["QRDecoder::decode"])

prop("C07", "A malformed payload gives an error, never a panic or invented text",
 "If the payload of a symbol declares more characters than it contains, contains a digit or character group whose value does not denote the declared number of characters, an unsupported mode, or byte data that must be UTF-8 but is not, decoding returns an error. No payload whatsoever makes decoding panic or run forever.",
 ["inputs"], "all byte strings as payload, all versions",
 "The tests contain only well-formed payloads; the claim is about every byte string an attacker can print.",
 ["src/decode/qr/data.rs", "src/util/chomp.rs"],
 [("segment decoders and their error returns", "src/decode/qr/data.rs: data, numeric, alphanumeric, eight_bit, read_bits, read_bits_u16")],
 observe=["QRDecoder::decode"])

prop("C08", "The bit reader returns the next bits and refuses only when it must",
 "For any bytes and any sequence of earlier reads, successful or refused: a read of 1 to 8 bits (wide reads: 1 to 16) returns the next bits, most significant first, in the low bits of the result, if at least that many bits remain, and is refused if fewer remain. Requests for zero bits or for more than 8 (wide: 16) bits are refused, no read panics, and a refused narrow read consumes nothing.",
 ["histories", "inputs"], "all byte sequences and all sequences of read operations",
 "The unit tests run seven fixed histories; the reader's internal bit accounting depends on the whole history of reads, including refused ones.",
 ["src/util/chomp.rs"],
 [("remaining-bit accounting", "src/util/chomp.rs: Chomp::chomp, Chomp::nibble, Chomp::chomp_or_u16")],
 state=[dict(name="bits_left, bits_left_in_byte, current_byte", meaning="position in the bit string", where="src/util/chomp.rs: Chomp")],
 observe=["Chomp::chomp", "Chomp::chomp_or", "Chomp::chomp_or_u16"])

prop("C09", "Decoding any module matrix ends with a text or an error",
 "For every version number and every matrix of side x side modules, whatever its contents, both the plain decoder and the decoder with info return a result: no panic, no arithmetic overflow, no out-of-range access and no endless loop. A version outside 1-40 always gives an error.",
 ["inputs"], "all module matrices of all sizes, consistent with their version number",
 "Every test matrix is a valid symbol; the claim covers all 2^(side^2) matrices.",
 ["src/decode/qr/decoder.rs", "src/decode/qr/format.rs", "src/decode/qr/blocks.rs", "src/decode/qr/correct.rs", "src/decode/qr/data.rs", "src/util/qr.rs"],
 [("decode pipeline", "src/decode/qr/decoder.rs: QRDecoder::decode, QRDecoderWithInfo::decode")],
 observe=["QRDecoder::decode", "QRDecoderWithInfo::decode"])

prop("C10", "The decoder with info agrees with the plain decoder and reports true facts",
 "For every input the decoder with info succeeds exactly when the plain decoder does, with the same text or the same error. On success the reported version is the symbol's, the level is the one in its format information, the total is 8 times its number of data codewords, and the error count is the number of bits that correction changed over all blocks.",
 ["inputs"], "all module matrices and all passed-in errors",
 "Four images are decoded with info; agreement and the exact bit count are claims about all inputs, in particular damaged ones.",
 ["src/decode/qr/decoder.rs", "src/decode/qr/correct.rs", "src/util/qr.rs"],
 [("the two decode paths", "src/decode/qr/decoder.rs: QRDecoder, QRDecoderWithInfo"),
  ("error count", "src/decode/qr/correct.rs: correct, correct_with_error_count")],
 observe=["QRDecoder::decode", "QRDecoderWithInfo::decode"])

prop("C11", "One result per detected code, in detection order, independent of the others",
 "Decoding an image yields exactly one entry per location the detector reports on the prepared image, in the same order, and each entry is what the decode component returns for what the extract component returned for that location; without locations the result is empty. A failure for one location leaves the other entries unaffected, and an error from extraction comes back unchanged from both QR decoders.",
 ["inputs", "configurations"], "all components plugged in, all numbers of locations, all combinations of failing and succeeding locations",
 "One test image contains two codes, both good; no test plugs in its own components or has a failing location.",
 ["src/decoder.rs", "src/decode/qr/decoder.rs"],
 [("pipeline loop", "src/decoder.rs: Decoder::decode"),
  ("builder", "src/decoder.rs: DecoderBuilder::prepare, detect, qr, build"),
  ("error pass-through", "src/decode/qr/decoder.rs: decode")],
 observe=["Decoder::decode", "DecoderBuilder"])

prop("C12", "Preparation turns any image into pure black and white of the same size",
 "For every image of any width and height, including empty images and images smaller than a block, preparation returns without panicking an image of the same dimensions whose pixels are all 0 or 255. Within one block of the grid the result depends only on the pixel's own grey value and is monotone: a pixel at least as bright as another pixel of the same block that came out white is white too.",
 ["inputs", "configurations"], "all image sizes and contents, all block sizes of at least 1 and window sizes of at least 1",
 "All test images are hundreds of pixels wide and use one block configuration; sizes at and below the block size are not covered.",
 ["src/prepare/blockedmean.rs"],
 [("block statistics and windows", "src/prepare/blockedmean.rs: as_block_map, to_block_mean_map, range, range_inc, to_index"),
  ("thresholding", "src/prepare/blockedmean.rs: to_threshold")],
 observe=["BlockedMean::prepare"])

prop("C13", "Extraction returns a full matrix of samples or an error, never panics",
 "For every black-and-white image and every location of any version - also one that is rotated, skewed, degenerate or reaches beyond the image - extraction returns either a matrix of exactly side x side entries, each of them a pixel of the image, with the location's version, or an error. It never panics and never reads outside the image.",
 ["inputs"], "all images, all locations (any coordinates), all versions",
 "The test images show complete codes well inside the picture; codes cut off by the border or rotated near it are not covered.",
 ["src/extract/qr/mod.rs"],
 [("sampling loop", "src/extract/qr/mod.rs: QRExtractor::extract"),
  ("alignment pattern search", "src/extract/qr/mod.rs: determine_perspective, is_alignment")],
 observe=["QRExtractor::extract", "Decoder::decode"])

prop("C14", "Detection never panics and reports only plausible code locations",
 "For every greyscale image with sides of up to 2^28 pixels, detection returns without panicking. Every reported location has a version of at least 1, and its three finder centres are three different detected finder candidates.",
 ["inputs"], "all images with sides of at most 2^28 pixels",
 "The tests show the detector about a dozen pictures; run-length patterns at the image border, single-pixel-wide images and noise are not covered.",
 ["src/detect/linescan.rs"],
 [("run-length scan", "src/detect/linescan.rs: LineScan::detect, QRFinderPattern"),
  ("refinement", "src/detect/linescan.rs: refine_horizontal, refine_vertical, refine_diagonal, refine"),
  ("triple check", "src/detect/linescan.rs: find_qr, find_qr_internal")],
 observe=["LineScan::detect", "Decoder::decode"])

prop("C15", "Any standard symbol, even damaged within its limits, decodes to its text",
 "For every text, segmentation, version, level and mask, the module matrix a standard encoder produces decodes to that text. This remains true when up to three bits of the first format copy and, in every block, up to the specified number of codewords are wrong.",
 ["inputs"], "all texts that fit, all versions, levels, masks, all damage within the limits",
 "Round trips are only run for about ten fixed pictures; this is the composition of all decoding stages over all symbols.",
 ["src/decode/qr/decoder.rs", "src/decode/qr/format.rs", "src/decode/qr/blocks.rs", "src/decode/qr/correct.rs", "src/decode/qr/data.rs", "src/decode/qr/mod.rs"],
 [("decode pipeline", "src/decode/qr/decoder.rs: QRDecoder::decode")],
 observe=["QRDecoder::decode"])

prop("C16", "Module lookup is row-major and maps black to one, everything else to zero",
 "A module matrix created for a version has side 4*version+17, and looking up column x, row y gives 1 if the stored pixel at position y*side+x is 0 and gives 0 for every other pixel value, for all coordinates inside the matrix.",
 ["inputs"], "all versions, all coordinates, all pixel values",
 "One documentation example looks at two corners of one matrix with the two extreme pixel values.",
 ["src/util/qr.rs"],
 [("index operator and constructor", "src/util/qr.rs: QRData::new, Index for QRData")],
 observe=["QRData::new", "QRData indexing"])

prop("C17", "Every cleanly rendered code in an image is found and decoded",
 "A code rendered with at least a few pixels per module, a quiet zone and good contrast, upright or rotated by a quarter turn, is detected and decoded to its text by the default decoder.",
 ["inputs"], "all symbols, module sizes, positions and quarter-turn rotations",
 "About a dozen fixed images are decoded; recognition depends on scale, position and neighbouring content.",
 ["src/decoder.rs", "src/detect/linescan.rs", "src/extract/qr/mod.rs", "src/prepare/blockedmean.rs"],
 [("detection heuristics in floating point", "src/detect/linescan.rs: LineScan::detect")],
 observe=["Decoder::decode"])

prop("C18", "The debug-images feature does not change results",
 "With the debug-images feature switched on, detection and extraction return exactly the same results as without it for every image with sides of at most 2^28 pixels, and do not panic where they did not panic before.",
 ["configurations", "inputs"], "all images, both settings of the feature",
 "The feature is only compiled, never run, by the tests.",
 ["src/detect/linescan.rs", "src/extract/qr/mod.rs"],
 [("debug drawing blocks", "src/detect/linescan.rs: detect; src/extract/qr/mod.rs: extract, determine_perspective, is_alignment")],
 observe=["LineScan::detect", "QRExtractor::extract"])

prop("C19", "The default decoders answer every image and invent no text",
 "For every image with sides of at most 2^28 pixels and at most 2^36 pixels in all, the default decoder and the default decoder with info return, without panicking, one entry per detected location; each entry is an error or exactly the text (and facts) that a module matrix of a version from 1 to 40, made of pixels of the black-and-white image that BlockedMean (blocks of 5 pixels, means over 7 blocks) makes of it, denotes by the standard's reading rules.",
 ["inputs"], "all images, both default decoders",
 "About a dozen pictures of codes are decoded; hostile, degenerate and near-miss images are not, and a wrong composition (parameters, order, part) shows only on some of them.",
 ["src/decoder.rs", "src/prepare/blockedmean.rs", "src/detect/linescan.rs", "src/extract/qr/mod.rs", "src/decode/qr/decoder.rs"],
 [("default builders and decoders", "src/decoder.rs: default_builder, default_builder_with_info, default_decoder, default_decoder_with_info"), ("pipeline", "src/decoder.rs: Decoder::decode")],
 observe=["default_decoder().decode", "default_decoder_with_info().decode"])

with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for p in P: f.write(json.dumps(p) + "\n")
