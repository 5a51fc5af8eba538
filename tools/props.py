IN = lambda t: {'over': ['inputs'], 'text': t}
HI = lambda t: {'over': ['inputs', 'histories'], 'text': t}
def A(files, mech, state=(), observe=()):
    return {'files': files, 'state': [dict(zip(('name', 'meaning', 'where'), s)) for s in state],
            'mechanism': [dict(zip(('name', 'where'), m)) for m in mech], 'observe_at': list(observe), 'hook_needed': None}
TESTS = 'the repository\'s tests decode, re-encode and copy a few test videos, all well formed'
PROPS = []
def P(id, title, statement, quantifier, why, anchors, note):
    PROPS.append(dict(id=id, title=title, statement=statement, quantifier=quantifier, why_tests_cant=why, anchors=anchors, note=note))

P('P01', 'Arithmetic coding is lossless',
  'Any sequence of bits written through the boolean entropy encoder with any sequence of probabilities is read back bit for bit by the boolean entropy decoder given the same probabilities. Reading never touches memory outside the supplied buffer: past its end the decoder behaves as if the data continued with zero bytes.',
  HI('every sequence of (bit, probability) pairs, every truncation of the coded bytes'),
  'Needs every history of coder states, including carries that ripple through stored bytes; ' + TESTS + ' and sample a vanishing part of them.',
  A(['src/encoder/bool_encoder.hh', 'src/decoder/bool_decoder.hh'],
    [('BoolEncoder::put', 'src/encoder/bool_encoder.hh'), ('BoolEncoder::flush / finish', 'src/encoder/bool_encoder.hh'), ('BoolDecoder::get', 'src/decoder/bool_decoder.hh')],
    [('range_, bottom_, bit_count_', 'encoder interval', 'src/encoder/bool_encoder.hh'), ('range_, value_, bit_count_', 'decoder interval', 'src/decoder/bool_decoder.hh')]),
  'Inductive coupling invariant between encoder and decoder proved for one arbitrary step from arbitrary related states (so for all histories); carry into stored bytes is bounded in the number of consecutive 0xFF bytes and labelled bounded.')
P('P02', 'Views of compressed data never leave the underlying buffer',
  'Every view, sub-view, bit field and integer read taken from a piece of compressed data either lies entirely inside that data and yields exactly the bytes there (little-endian where it is an integer), or is refused with an exception. No offset and no length can make a read go outside.',
  IN('every buffer size, every offset, every length, every bit position and width'),
  'Boundary arithmetic (including wrap-around) matters for all 64-bit offsets; ' + TESTS + ' and never present an out-of-range request.',
  A(['src/util/chunk.hh'], [('Chunk::operator()', 'src/util/chunk.hh'), ('Chunk::bits', 'src/util/chunk.hh'), ('Chunk::le16/le32/le64', 'src/util/chunk.hh')]),
  'Proved for every size, offset, length and content, with memory-safety obligations on every access.')
P('P03', 'Compressed-frame container is parsed and written faithfully',
  'The frame tag, key-frame start code and dimensions, first partition and residual partitions of a compressed frame are recovered exactly as the VP8 format lays them out, and a frame that is truncated, has the wrong dimensions, asks for scaling or is of an unsupported version is refused (or flagged as corrupt where partial frames are accepted). Writing a frame and parsing it back gives the same flags, the same first partition and the same residual partitions.',
  IN('every byte string as a frame; every set of flags, dimensions and partition contents'),
  'Tests only parse frames made by a reference encoder; malformed and truncated frames, and most partition layouts, never occur.',
  A(['src/decoder/uncompressed_chunk.cc', 'src/encoder/serializer.cc'], [('UncompressedChunk::UncompressedChunk', 'src/decoder/uncompressed_chunk.cc'), ('UncompressedChunk::dct_partitions', 'src/decoder/uncompressed_chunk.cc'), ('make_frame', 'src/encoder/serializer.cc')]),
  'Parsing proved for every byte string; write/parse round trip proved for one and two partitions of arbitrary length and content, and bounded (fixed lengths, arbitrary contents) for four and eight.')
P('P04', 'IVF files are read and written faithfully',
  'An IVF file written frame by frame is read back with the same codec tag, dimensions, time base, frame count and frame contents, and its header always states how many frames were appended. Reading an arbitrary file either yields frames lying entirely inside the file as its headers say, or fails with an exception.',
  HI('every file content and every sequence of appended frames'),
  'Tests copy a few well-formed files; malformed headers, truncated files and odd frame sizes never occur.',
  A(['src/util/ivf.cc', 'src/util/ivf_writer.cc', 'src/util/ivf.hh'], [('IVF::IVF', 'src/util/ivf.cc'), ('IVF::frame', 'src/util/ivf.cc'), ('IVFWriter::append_frame', 'src/util/ivf_writer.cc')]),
  'Header, frame access and the writer\'s step proved over an arbitrary memory-mapped file (the mapping is an assumed contract) and against a stand-in for the file descriptor; the frame index is bounded in the number of frames (files of any length and content), and so is the round trip.')
P('P05', 'Frame headers survive serialization',
  'Serializing the header of any key frame or inter frame and parsing the result gives back an equal header: every optional update, flag and probability is restored, and each field is coded with the width and probability the VP8 format prescribes. Parsing consumes exactly the coded fields.',
  IN('every value of every header field, every combination of present and absent optional fields'),
  'A header has thousands of optional fields; ' + TESTS + ' and exercise only the combinations their encoder chose.',
  A(['src/decoder/frame_header.hh', 'src/decoder/vp8_header_structures.hh', 'src/encoder/serializer.cc'], [('encode( header )', 'src/encoder/serializer.cc'), ('KeyFrameHeader / InterFrameHeader parse constructors', 'src/decoder/frame_header.hh'), ('Flagged, Unsigned, Signed, Array', 'src/decoder/vp8_header_structures.hh')]),
  'Proved over the contract of the boolean coder (P01): both sides see the same ghost sequence of (bit, probability) pairs.')
P('P06', 'Transform coefficients survive entropy coding',
  'Serializing the quantized coefficients of any block and parsing them back with the same probability tables and neighbouring context gives the same coefficients and the same non-zero flag. Token parsing never reads or writes outside its tables or the block, whatever the bits.',
  IN('every block of coefficients within the codable range, every probability table, every context and block type; every bit string for parsing'),
  'The coefficient values, positions and contexts form an astronomically large space; ' + TESTS + '.',
  A(['src/decoder/tokens.cc', 'src/decoder/tokens.hh', 'src/encoder/serializer.cc'], [('Block::parse_tokens', 'src/decoder/tokens.cc'), ('Block::serialize_tokens', 'src/encoder/serializer.cc'), ('Macroblock::parse_tokens', 'src/decoder/macroblock.cc'), ('Macroblock::serialize_tokens, Macroblock::calculate_has_nonzero', 'src/encoder/serializer.cc, src/encoder/encoder.cc')]),
  'Proved over the contract of the boolean coder (P01).')
P('P07', 'Macroblock modes and motion vectors survive entropy coding',
  'Every prediction mode, segment number, reference choice, split layout and motion vector that is written into a frame is parsed back to the same value under the same probabilities.',
  IN('every mode, every segment id, every motion vector in the codable range, every probability'),
  TESTS + '; rare modes and long motion vectors may never occur in them.',
  A(['src/decoder/tree.cc', 'src/encoder/encode_tree.cc', 'src/decoder/modemv_data.cc', 'src/decoder/modemv_data.hh', 'src/decoder/macroblock.cc', 'src/encoder/serializer.cc'], [('Tree parse', 'src/decoder/tree.cc'), ('encode( Tree )', 'src/encoder/encode_tree.cc'), ('MotionVector parse / encode', 'src/decoder/modemv_data.cc, src/encoder/serializer.cc')]),
  'Proved over the contract of the boolean coder (P01).')
P('P08', 'Decoder state can be saved and restored exactly',
  'Saving a decoder state and restoring it gives a state equal in every field: dimensions, probability tables, segmentation with its per-macroblock map, and filter adjustments, each absent exactly when it was absent. Saving the references and restoring them gives the same last picture, pixel for pixel, with which golden and alternate then start (they are deliberately not saved). Restoring from truncated data fails with an exception, and restoring never reads outside the data.',
  IN('every decoder state, every byte string given to the restore operation'),
  'Tests save and restore a few states reached by decoding ordinary videos; absent segmentation maps, extreme values and damaged input are not covered.',
  A(['src/decoder/decoder.cc', 'src/decoder/enc_state_serializer.hh', 'src/decoder/probability_tables.cc'], [('DecoderState::serialize / deserialize', 'src/decoder/decoder.cc'), ('EncoderStateSerializer / EncoderStateDeserializer', 'src/decoder/enc_state_serializer.hh')]),
  'Proved for every state without a segmentation map and for restoring any data without one; sizes of segmentation maps and pictures are fixed where labelled bounded. A restored state is only checked for truncation: the code does not refuse wrong section tags or lengths (assertions, compiled out), and the property does not ask it to.')
P('P09', 'Entropy-coding state evolves exactly as the headers say',
  'After each frame the saved coefficient, mode and motion-vector probabilities equal the previous ones with precisely the updates present in the frame header applied, or the previous ones unchanged when the header says they are not to be kept; a key frame starts again from the default tables. Segmentation and loop-filter adjustments carried over from frame to frame change only where a header updates them (an update states every value, those not coded being zero), are dropped when a header disables them, and start afresh at a key frame; the segment number of a macroblock persists until a macroblock codes a new one.',
  HI('every prior state and every header'),
  'The interaction of optional updates with saved state is a history property; ' + TESTS + '.',
  A(['src/decoder/probability_tables.cc', 'src/decoder/decoder_state.hh', 'src/decoder/decoder.cc'], [('ProbabilityTables::update / coeff_prob_update', 'src/decoder/probability_tables.cc'), ('DecoderState::parse_and_apply', 'src/decoder/decoder_state.hh'), ('Segmentation::update, FilterAdjustments::update', 'src/decoder/decoder.cc')]),
  'Proved for every prior state and every header value.')
P('P10', 'Reference pictures are replaced exactly as the header says',
  'A key frame replaces the last, golden and alternate reference pictures with the decoded picture; an inter frame replaces exactly those named in its header: first the alternate and then the golden picture are copied from another reference where the header asks for it, then golden, alternate and last are replaced with the decoded picture where refreshed. No other reference changes. Prediction uses the references from before the frame, the picture offered as a reference is the loop-filtered one that is also returned, and it is shown exactly when the frame says so.',
  HI('every combination of reference-update fields and every prior set of references'),
  'Buffer-copy combinations (golden from alternate while alternate from golden, and so on) are rare in ' + 'test videos.',
  A(['src/decoder/frame.cc', 'src/decoder/decoder.cc', 'src/decoder/decoder.hh'], [('Frame::copy_to', 'src/decoder/frame.cc'), ('Decoder::decode_frame / get_frame_output / parse_and_decode_frame / apply_decoded_frame', 'src/decoder/decoder.cc, src/decoder/decoder.hh')]),
  'Proved for every header value and every prior set of references.')
P('P11', 'Dequantization factors follow the VP8 tables',
  'For every base quantizer index, every per-coefficient delta and every segment quantizer update, the factors used to dequantize luma, second-order luma and chroma coefficients are those of the VP8 format, with the index clamped to the table. Dequantizing multiplies the first coefficient by the DC factor and every other one by the AC factor.',
  IN('every quantizer index, delta and segment update; every coefficient'),
  'Extreme indices and negative segment deltas do not occur in the test videos.',
  A(['src/decoder/quantization.cc', 'src/decoder/frame.cc', 'src/decoder/decoder.cc'], [('Quantizer::Quantizer', 'src/decoder/quantization.cc'), ('Frame::calculate_segment_quantizers', 'src/decoder/frame.cc'), ('DCTCoefficients::dequantize', 'src/decoder/quantization.cc')]),
  'Proved for all inputs against tables restated in the harness from RFC 6386.')
P('P12', 'Loop-filter strength is derived as the VP8 format prescribes',
  'The filter level of a macroblock is the frame level as modified by its segment and by the reference-frame and mode adjustments, always within 0..63, and the interior, edge and high-edge-variance limits follow from that level, the sharpness and the frame type as the VP8 format defines.',
  IN('every frame level, sharpness, segment update, adjustment, reference frame and prediction mode'),
  'Only the few levels and adjustments chosen by one encoder occur in the test videos.',
  A(['src/decoder/loopfilter.cc', 'src/decoder/frame.cc', 'src/decoder/macroblock.cc'], [('FilterParameters', 'src/decoder/loopfilter.cc'), ('Frame::loopfilter', 'src/decoder/frame.cc'), ('Macroblock::loopfilter', 'src/decoder/macroblock.cc')]),
  'Proved for all parameter values.')
P('P13', 'Motion-vector prediction follows the VP8 census',
  'The best, nearest and near motion vectors of a macroblock, and the mode probabilities that go with them, are computed from its above, left and above-left neighbours exactly as the VP8 format defines, including sign correction between references and clamping to the frame. Chroma motion vectors are the rounded averages of the luma vectors.',
  IN('every combination of neighbour references and motion vectors, every macroblock position'),
  'The neighbour combinations are far too many for sample videos.',
  A(['src/decoder/scorer.hh', 'src/decoder/macroblock.cc', 'src/decoder/modemv_data.hh'], [('Scorer', 'src/decoder/scorer.hh'), ('MotionVector::clamp', 'src/decoder/modemv_data.hh'), ('InterFrameMacroblock MV decode', 'src/decoder/macroblock.cc')]),
  'Proved for all neighbour values.')
P('P14', 'Network packets survive the wire format',
  'Serializing any media or acknowledgement packet and parsing the bytes gives back the same fields and payload. Parsing any byte string either yields a packet whose payload lies inside it or fails with an exception, without reading outside the datagram or allocating memory out of proportion to it.',
  IN('every field value, every payload, every received byte string'),
  'There are no tests of the network code, and the network may deliver anything.',
  A(['src/net/packet.cc', 'src/net/packet.hh'], [('Packet::Packet( Chunk ) / to_string', 'src/net/packet.cc'), ('AckPacket', 'src/net/packet.cc')]),
  'Proved for all field values; payload lengths are arbitrary where labelled prove_, fixed where labelled bounded_.')
P('P15', 'Fragmented frames are reassembled exactly once and in order',
  'Splitting a frame into packets and adding those packets in any order, with any duplicates, to a reassembly buffer completes exactly when every fragment has arrived, and the result is the original frame. Fragments of another frame or connection never contribute bytes.',
  {'over': ['inputs', 'schedules', 'histories'], 'text': 'every frame content and length, every arrival order, duplication and interleaving of fragments'},
  'Arrival orders are exponentially many and no test exercises them.',
  A(['src/net/packet.cc', 'src/net/packet.hh'], [('FragmentedFrame', 'src/net/packet.cc')]),
  'One arbitrary arrival from an arbitrary reassembly state is proved (inductive over histories); number of fragments bounded where labelled.')
P('P16', 'The decoder fingerprint covers every part of the state',
  'Two decoder states that differ in size, in any probability table, segmentation or filter-adjustment value, in the segmentation map or in any reference picture feed different data to the state fingerprint used to match encoder and receiver, and equal states give equal fingerprints.',
  IN('every pair of decoder states'),
  'Only values that occur in the test videos are ever hashed.',
  A(['src/decoder/decoder.cc', 'src/decoder/probability_tables.cc', 'src/decoder/decoder.hh'], [('DecoderState::hash', 'src/decoder/decoder.cc'), ('ProbabilityTables::hash', 'src/decoder/probability_tables.cc'), ('FilterAdjustments::hash', 'src/decoder/decoder.cc'), ('Segmentation::hash', 'src/decoder/decoder.cc')]),
  'Proved with the hash combining function abstracted to a recording of its inputs (collisions of the hash itself are out of scope).')
P('P17', 'Intra prediction follows the VP8 format',
  'Each of the ten subblock prediction modes and the four macroblock modes produces exactly the pixels the VP8 format defines from the neighbouring pixels of the picture under reconstruction, with 127 above and 129 to the left of the picture, the above-right pixels of a macroblock\'s subblocks taken from the row above the macroblock, and writes nothing outside the predicted block. Blocks address only pixels inside the picture.',
  IN('every value of every neighbouring pixel, every mode, every position (inside and at each edge of the picture), every picture size'),
  'Pixel values and positions are sampled only as they occur in the test videos.',
  A(['src/decoder/prediction.cc', 'src/decoder/vp8_raster.hh', 'src/util/2d.hh', 'src/util/raster.hh'], [('VP8Raster::Block::intra_predict', 'src/decoder/prediction.cc'), ('VP8Raster::Block::Predictors', 'src/decoder/vp8_raster.hh'), ('VP8Raster::Macroblock', 'src/decoder/prediction.cc')]),
  'Proved for all pixel values, modes and positions; the assembly predictors are taken at their contract.')
P('P18', 'Inter prediction reads the displaced block, extended from the picture\'s edge',
  'Inter prediction filters the reference pixels displaced by the motion vector with the six-tap filters of the VP8 format: a position outside the picture reads the nearest pixel of its edge, for every position and vector; the fast path is only taken when all it reads lies in the picture; memory outside the picture is never touched and nothing outside the predicted block is written. Saving a picture with a protective border (for motion search) keeps its pixels and repeats its edge into the border, for pictures of any size.',
  IN('every picture size, position, motion vector and pixel value'),
  'Far-out-of-frame vectors and sizes that are not multiples of sixteen are absent from the test videos, and filter inputs are sampled.',
  A(['src/decoder/prediction.cc', 'src/decoder/vp8_raster.hh', 'src/encoder/safe_references.cc'], [('VP8Raster::Block::inter_predict', 'src/decoder/prediction.cc'), ('VP8Raster::Block::safe_inter_predict', 'src/decoder/prediction.cc'), ('EdgeExtendedRaster', 'src/decoder/vp8_raster.hh'), ('SafeReferences::copy_raster', 'src/encoder/safe_references.cc')]),
  'Filter, edge extension and dispatch proved for every size and vector; building the border is bounded (two picture sizes, every pixel value); the assembly filters are taken at their contract.')
P('P19', 'A macroblock is reconstructed from the right predictions and its own residue',
  'Reconstructing a macroblock predicts every one of its blocks exactly once, with that block\'s own mode or motion vector, from the reference picture the macroblock names and the same plane of it; subblocks that predict from their neighbours do so in raster order, after the neighbours are finished. The dequantized residue of each block is then added to it exactly once, and only when the macroblock has coefficients; when there is a second-order luma block, its inverse transform supplies the first coefficient of every luma block.',
  IN('every combination of modes, vectors, reference frame, coefficients, quantizer and position'),
  'Rare combinations (split vectors with a golden reference, a macroblock whose only coefficients are second-order) may not occur in the test videos, and a wrong order of subblocks shows only for some contents.',
  A(['src/decoder/macroblock.cc', 'src/decoder/quantization.cc'], [('Macroblock::reconstruct_intra', 'src/decoder/macroblock.cc'), ('Macroblock::reconstruct_inter', 'src/decoder/macroblock.cc'), ('Macroblock::apply_walsh', 'src/decoder/macroblock.cc')]),
  'Proved over the contracts of prediction (P17, P18), dequantization (P11) and the inverse transforms (assembly, taken at their contract).')
P('P20', 'The encoder tracks exactly the state its decoder will be in',
  'After writing a frame, the encoder holds the state a decoder has after reading it: the same probability tables (kept or dropped as the frame says), loop-filter adjustments and segmentation, and references updated with the reconstructed, filtered frame as its header says. The tokens of the frame are coded with exactly the tables its decoder will use.',
  HI('every encoder state and every frame it can write (which never carries a segmentation update)'),
  'Encoder and decoder drift only after particular histories: frames that do not keep their probabilities, or an encoder that starts from the state of a foreign stream.',
  A(['src/encoder/encoder.cc', 'src/encoder/encode_intra.cc', 'src/encoder/encode_inter.cc', 'src/decoder/decoder_state.hh'], [('Encoder::write_frame', 'src/encoder/encoder.cc'), ('Encoder::update_decoder_state<KeyFrame>', 'src/encoder/encode_intra.cc'), ('Encoder::update_decoder_state<InterFrame>', 'src/encoder/encode_inter.cc')]),
  'Proved against the same specification as the decoder\'s own state (P09), over contracts of reconstruction, loop filter, reference update (P10) and frame serialization.')
NA = {}
