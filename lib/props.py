#!/usr/bin/env python3
"""Source of properties.jsonl and MANIFEST.json (run it after editing)."""
import json, os, subprocess, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from checks import CHECKS

P = []


def prop(id, title, statement, over, text, why, files, mech, note=None, na=None, observe=None, state=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech,
                  note=note, na=na, observe=observe or [], state=state or []))


NOTESTS = "The repository's five stable tests run a handful of constant inputs; "

prop("C01", "Every bit descriptor decodes exactly the bits the format assigns to it",
     "For any byte string and any bit position, each elementary read of the bitstream (fixed width, signed, non-symmetric, "
     "variable length, little endian, LEB128, bounded recentred) returns the value the AV1 format defines for exactly those bits "
     "and moves the cursor past exactly those bits.  Byte alignment moves to the next byte boundary and never backwards, and the "
     "'more data left in this unit' test is true exactly when something other than the trailing bits remains.",
     ["inputs"], "all byte strings, bit positions, descriptor kinds and widths, and chains of reads on one cursor",
     NOTESTS + "they read three constants; widths, positions inside a byte, sign bits and long codes are not sampled.",
     ["internal/bitstream/bitstream.go"], [("bit cursor", "internal/bitstream/bitstream.go")],
     note="TLC compares every recorded read of the real reader with the descriptors of Bits.tla, and checks the descriptors "
          "themselves against independent writers for all small widths and values (MCBitReader).")

prop("C03", "The sequence header reports exactly the fields coded in the bitstream",
     "For any bits, the decoded sequence header carries, field by field, the values that the AV1 sequence header syntax assigns to "
     "those bits, consumes exactly its own bits, and leaves fields that are not coded at the values the format infers.  The "
     "operating points, timing and decoder model information and the colour description follow the same rule.",
     ["inputs"], "all sequence header bit patterns, including reduced still pictures, up to 32 operating points, timing and decoder "
     "models, and every colour configuration",
     NOTESTS + "one constant sequence header is parsed.",
     ["internal/sequenceheader/sequence_header.go"], [("sequence header parser", "internal/sequenceheader/sequence_header.go")],
     note="Each recorded header of the real parser must be a behaviour of SeqHeader.tla (one action per syntax structure), whose "
          "invariants state the inferred values.")

prop("C05", "Tiles partition every frame exactly, within the format's limits",
     "For any frame size, superblock size and tile-info bits, the tile columns and rows produced cover every 4x4 position of the "
     "frame exactly once, in order, with every start on a superblock boundary and no tile wider or larger than the format allows "
     "where the syntax guarantees it.  The context tile and tile size fields are read only when there is more than one tile, and "
     "the parse consumes exactly the tile-info bits.",
     ["inputs", "configurations"], "all frame sizes, both superblock sizes, uniform and explicit spacing, and state left by earlier frames",
     NOTESTS + "only one-tile frames are parsed.",
     ["internal/tileinfo/tileinfo.go"], [("tile grid computation", "internal/tileinfo/tileinfo.go")],
     note="MCTileInfo explores every choice of the tile syntax for small frames and checks that the grid partitions the frame; "
          "recorded grids of the real parser must be behaviours of the same specification.")

FH = ["internal/uncompressedheader/uncompressed_header.go"]
FHM = [("uncompressed header parser", FH[0])]
FHNOTE = ("Each recorded frame header of the real parser (random and steered bits under random sequence headers and reference states) "
          "must be a behaviour of FrameHeader.tla, whose invariants TLC checks on every state: ")
prop("C06", "Frame type, visibility, refresh, ids and size follow the frame header bits",
     "For any sequence header, reference state and bits, the decoded frame header reports the frame's type, visibility, refresh set, "
     "frame id, order hint, primary reference, screen-content, motion-vector and interpolation settings, coded, upscaled and render "
     "sizes exactly as the AV1 syntax assigns them, and consumes exactly the header's bits.  Inferred values hold for every frame "
     "type: shown key frames and switch frames refresh everything, intra and error-resilient frames name no primary reference, and "
     "showing an existing frame reports that frame's type.",
     ["inputs", "histories"], "all header bits, sequence headers and reference-slot contents", NOTESTS + "one key frame header is parsed.",
     FH, FHM, note=FHNOTE + "visibility, refresh and size relations.")
prop("C07", "Quantizer, segmentation, delta and lossless state follow the header bits",
     "For any header bits, the quantizer indices and deltas, quantizer matrix levels, the 8x8 segmentation features with their "
     "signedness and clipping, and the delta-q/delta-lf settings are exactly those the syntax assigns.  A segment is lossless "
     "exactly when its effective quantizer index and all deltas are zero, and the frame-level lossless flags follow from that.",
     ["inputs"], "all quantizer, segmentation and delta bits, planes and chroma settings",
     NOTESTS + "segmentation and quantizer matrices are never enabled in them.", FH, FHM,
     note=FHNOTE + "segment values inside their ranges, lossless relations.")
prop("C08", "In-loop filter, transform and skip-mode settings follow the header bits",
     "For any header bits, the loop filter, CDEF and loop restoration parameters, the transform mode, reference mode, skip-mode frames "
     "and warped-motion permission are exactly those the syntax assigns, and are off where the format switches them off (lossless "
     "frames, intra block copy, missing tools).  Skip mode is offered exactly when compound prediction, order hints and two suitable "
     "references exist, and then names the nearest past and nearest future reference, or the two nearest past ones.",
     ["inputs", "histories"], "all filter bits, plane layouts, order hints of the reference slots",
     NOTESTS + "they reach one key frame without these tools.", FH, FHM, note=FHNOTE + "filters off when lossless or intra block copy; skip-mode frames nearest.")
prop("C09", "Global motion parameters decode to the values the format defines",
     "For any bits, each reference frame's global motion type and six parameters are exactly those of the AV1 signed sub-exponential "
     "syntax, with identity for references without a model and for intra frames.  Rotation-zoom models keep their two dependent "
     "parameters tied, and no parameter leaves its representable range.",
     ["inputs"], "all global motion bits, precisions and model types for the seven references",
     NOTESTS + "no inter frame is parsed.", FH, FHM, note=FHNOTE + "identity, rotation-zoom ties, range.")
prop("C10", "Film grain parameters decode exactly, and are absent when not coded",
     "For any bits and colour layout, the film grain parameters (scaling points, auto-regression coefficients, multipliers, flags) "
     "are exactly those of the AV1 syntax.  Frames that do not code grain, or are never shown, carry none, and monochrome or "
     "luma-derived grain carries no chroma points.",
     ["inputs"], "all film grain bits, colour layouts, frame types and visibilities", NOTESTS + "film grain is never enabled.",
     FH, FHM, note=FHNOTE + "grain presence and lengths.")
prop("C11", "Reference slots are invalidated and ordered exactly as the headers demand",
     "For any reference state and header, after the header is parsed the set of slots still usable and their order hints are exactly "
     "what the format prescribes: a shown key frame empties them, frame ids outside the coded window and contradicted order hints "
     "invalidate their slot, and nothing else does.  Each reference's order hint and direction are those of the slot it names.",
     ["inputs", "histories"], "all reference-slot contents, frame ids, order hints and headers", NOTESTS + "no reference is ever used.",
     FH, FHM, note=FHNOTE + "shown key frames forget all slots.")

prop("C12", "The symbol decoder reads exactly the coded values and stays inside its tile",
     "For any tile bytes, probability tables and sequence of reads, the arithmetic decoder returns the symbols, literals and "
     "non-symmetric values the AV1 decoding process defines, and keeps a normalised range above its value.  It consumes no bit beyond "
     "the tile's size, leaves the cursor exactly at the end of the tile, and refuses a tile that overran its data.",
     ["inputs", "histories"], "all tile contents and sizes, alphabets, tables, read sequences",
     NOTESTS + "no symbol is ever decoded by them.",
     ["internal/symbol/symbol.go", "internal/literal/literal.go", "internal/tilegroup/tile_group.go"],
     [("symbol decoding", "internal/symbol/symbol.go"), ("initialisation and exit", "internal/tilegroup/tile_group.go")],
     note="MCSymbol explores every tile of up to three bytes over a small alphabet with every read sequence up to a bound; recorded "
          "runs of the real decoder (value, range, bits left and cursor after every read) must be behaviours of SymbolRun.tla.")
prop("C13", "Probability tables start as the format lists them and stay valid as they adapt",
     "Every default probability table is the one the format lists, is a valid cumulative distribution with a clear counter, and the "
     "coefficient tables follow the base quantizer index.  Decoding a symbol adapts exactly its own table, at the rate the format "
     "prescribes, leaves a valid distribution whose counter saturates at 32, and changes nothing when adaptation is disabled.",
     ["inputs", "histories", "configurations"], "all default tables and quantizer indices, all adaptation histories",
     NOTESTS + "no table is inspected or adapted by them.",
     ["internal/uncompressedheader/cdf.go", "internal/symbol/symbol.go"],
     [("default tables", "internal/uncompressedheader/cdf.go"), ("adaptation", "internal/symbol/symbol.go")],
     note="All default tables are compared with spec/DefaultCdfs.json (taken from the repaired tree, every table checked to be a CDF) "
          "under the specification's choice by quantizer index; recorded adaptations must be behaviours of SymbolRun.tla, whose "
          "invariant CdfsValid TLC also checks in MCSymbol.")
prop("C14", "Probability contexts move between frames and tiles only where the format says",
     "For any sequence of frames and tiles, every tile starts from its frame's contexts whatever earlier tiles decoded, and reading "
     "symbols changes the contexts of that tile alone.  A frame starts from the defaults or from its primary reference's saved "
     "contexts with counters cleared, ends with those of its context update tile (or unchanged when that is disabled), and the "
     "defaults and the copies saved for references never change behind their owner's back.",
     ["histories", "configurations"], "all sequences of initialisation, tiles, adaptation, frame ends, saves and loads",
     NOTESTS + "no second tile or frame is ever decoded.",
     ["internal/tilegroup/tile_group.go", "internal/uncompressedheader/cdf.go", "internal/state/cdfs.go"],
     [("tile contexts", "internal/tilegroup/tile_group.go"), ("save and load", "internal/uncompressedheader/cdf.go")],
     note="MCCdfContexts explores all short frame and tile histories of CdfContexts.tla; recorded histories of the real decoder, with "
          "the content of every table of all eleven contexts after every step, must be behaviours of the same specification.")

prop("C02", "Streams are cut into exactly their OBUs, and only the right ones are skipped",
     "For any sequence of temporal units, frame units and OBUs, the parser reports each OBU once and in order, with its type, "
     "extension, layer ids and payload size (coded or derived from the unit length), and ends exactly at the end of the data.  OBUs "
     "of layers outside the chosen operating point are skipped whole whatever they contain, except sequence headers and temporal "
     "delimiters, and so are padding, metadata and reserved OBUs; a stream cut short is never reported as read.",
     ["inputs", "histories"], "all nestings, sizes (also padded LEB128), extension bytes, operating points, and cut points",
     NOTESTS + "only two OBU header bytes are parsed by them; no stream is.",
     ["internal/parser/parser.go", "internal/obu/obu.go", "internal/header/header.go"],
     [("unit nesting", "internal/parser/parser.go"), ("OBU framing and layer drop", "internal/obu/obu.go"), ("OBU header", "internal/header/header.go")],
     note="Stream.tla is a state machine of the whole stream (units, OBUs, headers in force, tile groups, references); every recorded "
          "run of the real parser over a generated stream must be one of its behaviours, judged on framing; TLC checks unit nesting "
          "and gap-free ordering on every state.")
prop("C15", "Sequence and frame headers stay in force exactly until the stream replaces them",
     "For any OBU sequence, each OBU is interpreted under the sequence header and frame header in force: the last ones coded, with "
     "repeated and redundant frame headers of an open frame acting as copies, a temporal delimiter closing the open frame, and a "
     "frame closing with its last tile.  Finishing a frame stores its id, order hint and type in exactly the slots its header "
     "refreshes; features that are not supported end decoding instead of yielding output.",
     ["histories"], "all sequences of headers, copies, delimiters, tile groups and refreshes",
     NOTESTS + "no second OBU is ever parsed by them.",
     ["internal/parser/parser.go", "internal/obu/obu.go", "internal/tilegroup/decode_frame_wrapup.go"],
     [("headers in force", "internal/parser/parser.go"), ("frame header copies", "internal/obu/obu.go"),
      ("reference refresh", "internal/tilegroup/decode_frame_wrapup.go")],
     note="As C02, judged on the headers reported with every OBU (show_existing_frame included: what is shown, and the slots a shown key frame "
          "replaces) and the reference slots at the end of the stream; frames up to 64x64 run the real reference update.")
prop("C16", "Each tile is decoded once, in order, on its own area and its own bytes",
     "For any split of a frame's tiles into tile groups and any tile sizes, the tiles named by the groups are decoded in order, each on "
     "exactly its rows and columns of the tile grid, each from exactly the bytes its size field gives it (the last one from the rest), "
     "each starting from the frame's quantizer index and contexts.  The frame is finished exactly after its last tile, and then "
     "adopts the contexts of its context update tile unless that is disabled.",
     ["inputs", "histories"], "all tile grids, group splits, size field widths and tile sizes",
     NOTESTS + "no tile group is parsed by them.",
     ["internal/tilegroup/tile_group.go", "internal/obu/obu.go"],
     [("tile group parsing", "internal/tilegroup/tile_group.go"), ("symbol decoder start", "internal/tilegroup/tile_group.go")],
     note="As C02, judged on what reaches each tile (number, area, first bits, bits left, quantizer index, context marks); the tile's "
          "content itself is replaced by literal bits through a hook.")

prop("C17", "The arithmetic and block geometry every decoding rule builds on",
     "For every argument in its stated range: the integer logarithms, tile logarithm, rounding shifts (also of negative numbers), inverse "
     "recentring, clamps, delta decoding, the integer cosine/sine and bit reversal of the transforms, list sorting, and the tables of "
     "block sizes, subsizes, subsampled sizes and transform sizes equal the functions the standard defines; tables that describe the "
     "same geometry agree with each other.",
     ["inputs"], "all arguments within the ranges the decoder can pass",
     NOTESTS + "a few of the functions have one sample in a unit test; a formula wrong for one argument or a table wrong in one row is invisible to them.",
     ["internal/util/util.go", "internal/shared/constants.go"],
     [("arithmetic", "internal/util/util.go"), ("geometry tables", "internal/shared/constants.go")],
     note="The identities behind the functions (rounding, inverse, logarithm laws, geometry by construction from width and height) are "
          "checked by TLC over whole ranges; the functions of the code are compared with them on recorded arguments, the tables completely.")

T_ = "internal/tilegroup/"
NOTILE = NOTESTS + "no block is ever decoded by them."
TILENOTE = ("Tiles over random data with random probability tables, frame sizes, tools, segmentation and restoration settings are decoded "
            "by the real code, with hooks recording every block and every transform block in place of the pixel work; TLC replays the "
            "whole tile (symbol decoder, adaptive tables, contexts) through Tile.tla and Coeffs.tla and compares ")
prop("C18", "A tile is divided into exactly the blocks its partition symbols describe",
     "For every tile, the blocks decoded are those the partition symbols describe, in that order: each symbol read with the context of "
     "its above and left neighbours, derived from the partition table where a square crosses the bottom or right edge, pieces outside the "
     "frame left out.  Block sizes, availability of neighbours and the presence of chroma follow, every 4x4 of the tile belongs "
     "to exactly one block, and the symbol decoder ends where the format says.",
     ["inputs", "histories"], "all tile data, frame sizes, superblock sizes, subsamplings and probability tables",
     NOTILE, [T_ + "decode_partition.go", T_ + "decode_block.go"], [("partition", T_ + "decode_partition.go"), ("blocks", T_ + "decode_block.go")],
     note=TILENOTE + "position, size, availability and chroma flags of every block, the map of block sizes and the final decoder state.  "
          "MCTile: every partition of every square at every edge position tiles what is visible, neighbours first.")
prop("C19", "Each intra block has the modes its symbols code",
     "For every block of an intra frame: segment id (predicted, read before or after skip, clipped), skip, luma and chroma modes, angle "
     "deltas, chroma-from-luma alphas, filter intra, palettes (cache, colours, colour maps with their contexts) and transform size are "
     "those the format decodes from the tile's symbols, each read with the context its neighbours give it and remembered for "
     "later neighbours.",
     ["inputs", "histories"], "all tile data, neighbourhoods, segmentations and tool sets",
     NOTILE, [T_ + "intra_frame_mode_info.go", T_ + "palette.go", T_ + "palette_tokens.go", T_ + "tx_size.go"],
     [("intra frame mode info", T_ + "intra_frame_mode_info.go"), ("palettes", T_ + "palette.go"), ("transform size", T_ + "tx_size.go")],
     note=TILENOTE + "the mode info of every block and the maps kept for neighbours.  MCTile: the colour map order visits every sample once.")
prop("C20", "Per-block filter controls and restoration units are read where and as coded",
     "For every tile: the cdef index is read with the first coded block of each 64x64 and holds for all 64x64 parts the block covers; "
     "quantizer and loop filter deltas are read once per superblock, accumulate and are clipped; every loop restoration unit whose corner "
     "lies in a superblock is read with it, exactly once per plane, its coefficients coded against the previous unit's.",
     ["inputs", "histories"], "all tile data, frame sizes, upscaling ratios, restoration unit sizes and delta settings",
     NOTILE, [T_ + "intra_frame_mode_info.go", T_ + "read_loop_restoration.go"],
     [("cdef index, delta q, delta lf", T_ + "intra_frame_mode_info.go"), ("loop restoration units", T_ + "read_loop_restoration.go")],
     note=TILENOTE + "cdef index, quantizer index and filter deltas at every block and all restoration units.  MCTile: superblocks of any "
          "frame read every restoration unit exactly once.")
prop("C21", "Transform blocks and their coefficients are those the symbols code",
     "For every block: its transform blocks cover each plane in the format's order, each predicted with the right mode and "
     "availability of the samples around it before its coefficients are read; transform type, scan, end of block, levels, signs and Golomb "
     "codes are those the format decodes, with the contexts neighbouring coefficients and blocks give; contexts left behind and "
     "transform sizes kept for the loop filter are right, and skipped blocks clear them.",
     ["inputs", "histories"], "all tile data, transform sizes and types, neighbourhoods and probability tables",
     NOTILE, [T_ + "residual.go", T_ + "coeffs.go"],
     [("residual and transform blocks", T_ + "residual.go"), ("coefficients and transform type", T_ + "coeffs.go")],
     note=TILENOTE + "every prediction call, transform block, transform type and coefficient and the loop filter's transform sizes.  MCTile: "
          "transform blocks cover every plane once; every scan is a permutation.")


NOPIX = "No test reconstructs a sample; "
RECNOTE = "The driver calls the stage of the decoder on generated state and TLC recomputes every sample it may touch; "
prop("C22", "Coefficients are scaled and inverse transformed exactly as the format does",
     "For every plane, transform size, transform type, bit depth and quantizer setting: a block's coefficients are scaled with the quantizer "
     "of its segment and plane (base or current index, deltas, quantizer matrices), put through the format's integer inverse transforms "
     "(intermediate values saturating at their range) with their flips, rounding and shifts, and added to exactly the block's samples, clipped to the bit depth.",
     ["inputs"], "all coefficients, transform sizes and types, bit depths, quantizer indices, deltas and matrix levels",
     NOPIX + "sizes, types, flips, scaling corner cases and table entries multiply far beyond samples.",
     [T_ + "reconstruct.go", T_ + "transform.go", T_ + "quantizer.go"],
     [("dequantisation", T_ + "reconstruct.go"), ("inverse transforms", T_ + "transform.go"), ("quantizer matrices", T_ + "quantizer.go")],
     note=RECNOTE + "every table entry and matrix weight is dumped through the scaling.  MCTransform: the step lists answer each single "
          "coefficient with the sampled cosine or sine; the lossless transform is undone by its forward one; the tables have the format's structure.")

prop("C23", "Intra prediction computes the format's prediction of every block",
     "For every plane, block size, intra mode, angle, availability of the samples around it, frame edge and bit depth: the predicted samples are "
     "those of the AV1 intra prediction processes (edge preparation, corner and edge filters, upsampling, directional, DC, smooth, Paeth and "
     "recursive filter prediction), they depend on nothing but the frame's samples around the block and the modes of its neighbours, and no sample outside the block changes.",
     ["inputs"], "all block positions and sizes, modes, angles, edges, neighbour modes, subsamplings and bit depths",
     NOPIX + "the product of sizes, angles, availabilities, filter types and frame edges is out of reach of examples.",
     [T_ + "predict_intra.go"], [("intra prediction", T_ + "predict_intra.go")], note=RECNOTE + "a different block is predicted first, so that nothing may be carried over.  MCIntra: every mode over edges of every shape keeps the range of its edges, an even block for even edges, brightness, and turns with the block.")

prop("C24", "Chroma-from-luma and palette prediction follow the format",
     "For every chroma block predicted from luma: the prediction is the DC prediction plus the block's alpha times the deviation of the subsampled, "
     "edge-limited luma from its mean, rounded and clipped as the format says.  For every palette block: each sample is the colour its map names, from "
     "the palette and the part of the map that belong to the plane and the transform block.  Nothing outside the block changes.",
     ["inputs"], "all block sizes, subsamplings, bit depths, alphas, luma extents, palettes and colour maps",
     NOPIX + "subsampling, frame edge limits, rounding of negative products and map offsets are not sampled.",
     [T_ + "residual.go", T_ + "reconstruct.go"],
     [("chroma from luma", T_ + "residual.go"), ("palette prediction", T_ + "reconstruct.go")], note=RECNOTE + "both alphas, all subsamplings and limited luma extents.  MCChroma: only differences of luma count, opposite factors give opposite results, the mean stays.")
prop("C25", "The loop filter smooths exactly the edges the format names",
     "The loop filter goes over transform edges in the order of the format, vertical ones of the whole frame first.  It filters an edge exactly when it "
     "is in the frame, is a block edge or belongs to a block with residual or an intra block, and has a level above zero; the level follows from the "
     "frame's levels, block deltas, segment, reference and mode.  The filter's reach, its limits and its result follow the format; other samples stay.",
     ["inputs"], "all block and transform layouts, frame sizes, subsamplings, bit depths, levels, sharpness, deltas and samples",
     NOPIX + "edges at the limits of the frame, subsampled blocks, levels from neighbours and long filters are not sampled.",
     [T_ + "loop_filter_process.go"],
     [("edge loop", T_ + "loop_filter_process.go"), ("filters", T_ + "loop_filter_process.go")], note=RECNOTE + "frames of up to 72 samples of random partitions; every filter length and subsampling.  MCDeblock: the filter stays in its reach and the range of the samples, spreads a step evenly, leaves flat lines and steps above the limits.")
prop("C26", "CDEF filters each 8x8 block along the direction of its luma",
     "For every 8x8 block that is not skipped and whose 64x64 area has a CDEF index: the direction found is the one whose lines explain the luma best; the "
     "strengths, damping and taps follow from the index, bit depth, direction and its variance; differences are limited by threshold and damping; the "
     "result stays within the samples used, and only samples of the frame are used.  Every other block is copied as it is.",
     ["inputs"], "all samples, bit depths, subsamplings, strengths, damping, skip patterns and frame sizes",
     NOPIX + "directions, edges of the frame and damping are not sampled.",
     [T_ + "cdef.go"],
     [("CDEF", T_ + "cdef.go")], note=RECNOTE + "every direction, strength, damping and subsampling; frames over more than one 64x64 area.")
prop("C27", "Super-resolution and loop restoration follow the format",
     "With super-resolution every row is resampled from the coded width to the upscaled width with the format's positions and filters, edges repeated; "
     "without, frames pass unchanged.  Loop restoration then gives every sample of a unit the Wiener or self-guided result for the unit's coefficients, "
     "seen through its 64-row stripe (two rows of the frame before CDEF beyond it) and the edges of the plane; units without restoration and planes "
     "without it are copies.",
     ["inputs"], "all plane sizes, subsamplings, bit depths, scales, unit layouts, coefficients, sets and samples",
     NOPIX + "stripe and unit limits, upscaling positions and filter sets are not sampled.",
     [T_ + "loop_restoration.go", T_ + "decode_frame_wrapup.go"],
     [("upscaling", T_ + "decode_frame_wrapup.go"), ("loop restoration", T_ + "loop_restoration.go")],
     note=RECNOTE + "frames of up to 130 samples a side: several units and stripes, all sets, scales 9 to 16.  MCRestore: stripes partition the rows and no unit ends within one, the taps of every phase add up to one, a sample reaches three rows and columns within its stripe only.")
prop("C28", "A finished frame is filtered, kept in the named slots and shown as decoded",
     "At the end of a frame the loop filter (unless both luma levels are zero), CDEF, super-resolution and loop restoration run in this order, each on "
     "the samples the format gives it.  The result, with all that later frames need, becomes the content of exactly the slots refresh_frame_flags names; "
     "other slots stay; later frames do not change what is kept.  A frame to be shown is output as the visible part of that result; showing a kept frame "
     "outputs that frame and changes no slot, unless it is a key frame, which then fills every slot with its settings.",
     ["history"], "all sequences of frames, sizes, refresh flags, show flags, filter parameters and samples",
     NOPIX + "no test ends a frame, fills a slot or shows one.",
     [T_ + "tile_group.go", T_ + "decode_frame_wrapup.go", T_ + "output.go"],
     [("end of frame", T_ + "tile_group.go"), ("reference update and loading", T_ + "decode_frame_wrapup.go"), ("output", T_ + "output.go")],
     note=RECNOTE + "sequences of up to 8 frames of up to 22x17 samples; slots compared at the end in full.  Kept filter deltas and segment features are loaded back and compared.  Film grain is refused by the code.")
prop("C29", "A stream of intra frames is decoded to the pictures its bits stand for",
     "For a stream of key and intra-only frames: every picture output, and every picture kept in a reference slot, is the one that the sequence header, "
     "its own frame header and its tiles' bytes determine under the AV1 decoding process - parsing, prediction from the samples decoded so far, "
     "residual, filters, super-resolution, restoration and cropping together, with each setting of the headers reaching the step it governs.  What was "
     "decoded in earlier blocks, tiles and frames has no effect beyond what the format carries over, and the whole stream is consumed.",
     ["inputs", "history"], "all streams of intra frames: sequence and frame headers, tile splits and tile bytes",
     NOPIX + "no test decodes a frame, so nothing shows that the stages fit together or that a second frame decodes like a first.",
     [T_ + "tile_group.go", T_ + "decode_block.go", T_ + "residual.go", T_ + "reconstruct.go", T_ + "decode_frame_wrapup.go", "internal/parser/parser.go",
      "internal/obu/obu.go", "internal/uncompressedheader/uncompressed_header.go"],
     [("tile groups and end of frame", T_ + "tile_group.go"), ("blocks", T_ + "decode_block.go"), ("residual", T_ + "residual.go")],
     note="Frame.tla composes the parsing model (Coeffs) with IntraPred, ChromaPred, Dequant/Transform and Finish.  The driver codes complete streams (headers "
          "from parameters, tiles from random bytes chosen for variety), the unmodified decoder decodes them, and TLC decodes the same streams block by block: "
          "all pictures shown and kept must be equal.  Streams of up to 3 frames, frames of up to 136 samples a side (thin ones to 300), up to 4 tiles "
          "of uniform or explicit sizes in one or more tile groups, frames shown again from their slot.")


def na(id, title, statement, over, text, why, files, mech, reason):
    prop(id, title, statement, over, text, why, files, mech, na=reason)


exec(open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "props_na.py")).read())


HOOKS = subprocess.run(["git", "-C", "/repo", "log", "--format=%H", "--grep=^verif: observation points"],
                       capture_output=True, text=True).stdout.split()[::-1]


def main():
    root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    with open(os.path.join(root, "properties.jsonl"), "w") as o:
        for p in sorted(P, key=lambda p: p["id"]):
            assert len(p["title"]) <= 80, p["id"]
            o.write(json.dumps({
                "id": p["id"], "title": p["title"], "statement": " ".join(p["statement"].split()),
                "quantifier": {"over": p["over"], "text": p["text"]}, "why_tests_cant": p["why"],
                "anchors": {"files": p["files"], "mechanism": [{"name": a, "where": b} for a, b in p["mech"]],
                            "state": [{"name": a, "meaning": b, "where": c} for a, b, c in p["state"]],
                            "observe_at": p["observe"], "hook_needed": None}}) + "\n")
    checks, nas = [], []
    for p in sorted(P, key=lambda p: p["id"]):
        if p["na"]:
            nas.append({"property": p["id"], "reason": p["na"]})
            continue
        assert p["id"] in CHECKS, p["id"]
        checks.append({
            "property": p["id"], "quick_cmd": f"python3 run.py {p['id']}",
            "thorough_cmd": f"VERIF_TIER=thorough python3 run.py {p['id']}",
            "technique": "TLA+ specification checked by TLC; recordings of the real code validated against it",
            "level": "model_checking",
            "level_note": p["note"] + "  The specification is transcribed by hand from the AV1 standard; conformance covers the "
                          "recorded inputs (seeded, biased to corners), not all inputs."})
    assert set(CHECKS) == {c["property"] for c in checks}, set(CHECKS) ^ {c["property"] for c in checks}
    json.dump({"version": 1, "setup_cmd": "python3 setup.py",
               "hooks": {"guard": "verif", "enable": "go build -tags verif -overlay (the drivers join /repo as virtual packages)",
                         "source_commits": HOOKS},
               "checks": checks, "not_applicable": nas,
               "notes": "run.py builds the drivers from /repo's working tree on every run; the hook commits add observation points that do nothing without the build tag."},
              open(os.path.join(root, "MANIFEST.json"), "w"), indent=1)


if __name__ == "__main__":
    main()
