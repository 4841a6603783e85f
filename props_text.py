"""Text of the properties (the source of properties.jsonl and of MANIFEST.json; see gen.py)."""
TECH = ('contract-based deductive verification: contracts on the real C++ functions, verification conditions generated from the LLVM IR that clang '
        'produces from /repo on every run, loop invariants inferred and proved inductive, obligations discharged by z3/cvc5/GF(2) elimination')
NOTES = ('One VC generator (/verif/vcg) for all properties; contracts are C++ drivers in /verif/drivers that call the real code. '
         'A failed obligation is replayed natively on the real code (countermodel, then a search for a concrete input with the same contract).')
INP = 'inputs'
HIS = 'histories'
CFG = 'configurations'
COMMON = ('Every obligation generated from the current source is discharged, for all inputs, with no bound on lengths or iterations; trusted: clang front end, '
          'the VC generator, the solvers, contracts of libc. ')


def P(id, title, statement, over, text, why, files, mech, note, na=None, observe=None):
    d = dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=a, where=b) for a, b in mech], observe_at=observe or [], hook_needed=None), _note=COMMON + note)
    if na:
        d['_na'] = na
    return d


CRC = 'include/novatel_edie/common/crc.hpp'
OCRC = 'include/novatel_edie/decoders/oem/crc.hpp'
FBH = 'include/novatel_edie/common/fixed_buffer.hpp'
FRH = 'include/novatel_edie/decoders/common/framer.hpp'
FRC = 'src/decoders/common/src/framer.cpp'
PROPERTIES = [
    P('C01', 'Block CRC equals the polynomial-division definition for every input',
      'For every supported register width, polynomial and bit order, every initial register value and every byte sequence of any length, the block CRC '
      'calculation returns exactly the value of the bit-at-a-time polynomial-division CRC over those bytes. It reads only those bytes.',
      [INP, CFG], 'all byte sequences of length 0..2^32-1, all initial values, the ten shipped width/polynomial/order combinations',
      'The unit tests compare a few fixed strings; the sliced main loop, its tail and every one of the table entries must agree for all lengths and contents.',
      [CRC], [('slicing-by-8 block loop and byte tail', CRC), ('compile-time tables', CRC)],
      'Machine arithmetic is modelled exactly (bit vectors); tables are the ones clang computes.'),
    P('C02', 'OEM CRC-32 equals the reference CRC-32 for every message length',
      'The CRC-32 used to validate and to generate OEM messages equals the standard reflected CRC-32 (polynomial 0xEDB88320, no final inversion) of the message bytes '
      'continued from the given starting register, whatever the length; in particular the fast path for long messages and the path for short messages agree, '
      'and the older CRC-32 entry points give the same result.',
      [INP], 'all messages of length 0..2^32-49, all initial register values',
      'Tests check a handful of messages; the look-ahead window algorithm for long messages has per-length tails and carries that samples do not settle.',
      [OCRC, CRC], [('Chorba look-ahead CRC with 5-word window', OCRC), ('dispatch on length', OCRC)],
      'Lengths above 2^32-49 excluded (index arithmetic is 32-bit). The generic block CRC is used through its contract, which is discharged in the same check.'),
    P('C03', 'CRC can be computed byte by byte or in any pieces with the same result',
      'Feeding a message to the CRC one byte at a time, as a text view, or in consecutive pieces that each start from the register of the previous piece gives '
      'the same register as one calculation over the whole message.',
      [INP], 'all messages, all split points, all widths/polynomials/orders shipped',
      'Framers validate messages incrementally and encoders generate CRCs in one go; tests only compare a few complete strings.',
      [CRC, OCRC], [('single-byte update', CRC), ('string-view overloads', CRC)],
      'Composition follows because each entry point is proved equal to the same recursive reference register from any starting value.'),
    P('F01', 'The stream buffer behaves as a bounded FIFO and never touches foreign memory',
      'Whatever sequence of writes, discards and reads is applied, the stream buffer holds exactly the most recently written, not yet discarded elements in order; '
      'a write that does not fit completely changes nothing and reports zero, one that fits appends everything, discarding removes from the front, and copying out '
      'changes nothing. No operation reads or writes outside the buffer and the areas handed to it, for any capacity.',
      [INP, HIS], 'all capacities up to 2^40, all reachable states, all operation arguments (including null and oversized ones)',
      'No unit test in the built suite exercises the buffer; wrap/compaction behaviour depends on the history of head and size.',
      [FBH], [('head/size bookkeeping with compaction', FBH), ('all-or-nothing write', FBH)],
      'Induction over histories: each operation preserves the representation invariant and is proved from an arbitrary state satisfying it. Null with non-zero count is rejected by contract as the code does; capacity <= 2^40 so that sizes in bytes do not overflow.'),
    P('F02', 'Buffer element and multi-byte reads return exactly the stored bytes',
      'Element access by position and little-endian multi-byte reads at any valid position return exactly the stored elements in order, and writing one element by position '
      'changes that element only.',
      [INP, HIS], 'all states, all valid positions, 16/32/64-bit reads',
      'Tests do not exercise the buffer; position arithmetic depends on the internal head offset.',
      [FBH], [('operator[] and read_value', FBH)], 'Little-endian host.'),
    P('F03', 'Searching the buffer finds the first match in the window, or reports none',
      'Searching a window of the stream buffer for a byte or a byte pattern returns the first position at which the pattern occurs, where a pattern cut off by the end of the '
      'window counts as a match; it reports not-found only if there is no such position, and never looks outside the contents.',
      [INP, HIS], 'all states, windows and patterns of length 1 to 4',
      'The number of partial matches and overlaps is unbounded; tests do not exercise it.',
      [FBH], [('memchr-based candidate scan', FBH)], 'memchr by its C standard contract. Pattern lengths 1..4 (the ones framers use are 1 to 3).'),
    P('T01', 'Message counters count every key exactly and independently',
      'After any sequence of increments and resets the count reported for a key equals the number of increments of that key since the last reset; keys that were not incremented '
      'since then are absent, and no operation changes the count of another key.',
      [INP, HIS], 'all prior contents, all keys (integer and tuple keys), all interleavings of operations of one thread',
      'Tests use a few keys and small counts; independence must hold for all keys and histories.',
      ['include/novatel_edie/decoders/common/message_counts_tracker.hpp'],
      [('hash map of 64-bit counters', 'include/novatel_edie/decoders/common/message_counts_tracker.hpp')],
      'std::unordered_map is used through an assumed contract (a finite map); hash functors are therefore not examined here.'),
    P('K01', 'Tolerance comparison and digit conversion are exact',
      'Comparing two numbers with a tolerance answers yes exactly when their absolute difference is below the tolerance (one thousandth by default, never for NaN), '
      'and converting a digit character yields its numeric value.',
      [INP], 'all pairs of doubles and tolerances, all characters',
      'Only floating-point reasoning over all values can exclude boundary and NaN errors; the suite samples none.',
      ['src/common/src/common.cpp', 'include/novatel_edie/common/common.hpp'], [('IsEqual, ToDigit', 'src/common/src/common.cpp')],
      'IEEE-754 semantics bit-precise.'),
    P('M01', 'Message identity packing is lossless and collision-free',
      'Packing a message number, sibling, format and response flag into one message identity and unpacking it again returns the same four values; the parts sit in their documented bit '
      'positions and disturb no other part, the message-type byte is the corresponding part of the identity, and identities used as counting keys hash differently exactly when they differ.',
      [INP], 'all 2^16 numbers, 2^5 siblings, 2^2 formats, 2 response values; all 32-bit identities',
      'Filters, counters and headers all key on the packed identity; a dropped or overlapping bit shows only for particular combinations, none of which the suite samples.',
      ['include/novatel_edie/decoders/common/common.hpp'], [('CreateMsgId, UnpackMsgId, PackMsgType and key hash', 'include/novatel_edie/decoders/common/common.hpp')],
      'Exhaustive by proof.'),
    P('K02', 'Alignment padding is minimal and abbreviated-text prefixes are skipped exactly',
      'The padding computed before a binary field is the least number of bytes that aligns the field relative to the start of its message, for every position and power-of-two alignment; '
      'skipping the formatting prefix of abbreviated text stops exactly at the first content character and never runs past the end of the text.',
      [INP], 'all start and field positions, alignments 1,2,4,8; all texts of any length',
      'No unit test in the built suite covers these helpers; both guard reads of received bytes.',
      ['include/novatel_edie/decoders/common/common.hpp'], [('field alignment and abbreviated-ASCII formatting scan', 'include/novatel_edie/decoders/common/common.hpp')],
      'Loop invariant inferred for the text scan.'),
    P('R01', 'Bit fields are read exactly and never beyond the received bytes',
      'Reading the next n bits of a compressed message returns exactly those bits, least significant first, sign-extended when the field is signed and scaled when a scale is given, '
      'and advances the position by exactly n bits; when fewer than n bits remain the read is refused and nothing is consumed. No byte beyond the remaining ones is ever read. '
      'Bit counting and lowest-set-bit agree with their definition.',
      [INP], 'all buffer contents, lengths, bit offsets 0..7 and the field widths and types the decoders use (1..64 bits), run-time widths included',
      'Fields straddle bytes at every offset; the combinations of offset, width, remaining length and content are unbounded and untested in the built suite.',
      ['include/novatel_edie/decoders/oem/rangecmp/common.hpp'], [('ExtractBitfield, PopCount, Lsb, sign extension', 'include/novatel_edie/decoders/oem/rangecmp/common.hpp')],
      'Undefined shifts and out-of-bounds reads are obligations.'),
    P('R02', 'Channel tracking status is carried and derived exactly',
      'A channel tracking status word survives decoding and re-encoding in every documented bit; the status built from a RANGECMP2, RANGECMP4 or RANGECMP5 measurement states the documented satellite '
      'system, signal, validity and grouping bits; satellite numbers, signal wavelengths and the keys that identify a tracked signal follow the documented tables, and different signals get different keys.',
      [INP], 'all 2^32 status words, all systems, signals, satellite numbers and GLONASS frequency numbers',
      'The tables have hundreds of entries and combinations; no unit test in the built suite samples any.',
      ['src/decoders/oem/src/rangecmp/channel_tracking_status.cpp', 'include/novatel_edie/decoders/oem/rangecmp/channel_tracking_status.hpp'],
      [('status word parsing and assembly, signal mapping, wavelength tables, key', 'src/decoders/oem/src/rangecmp/channel_tracking_status.cpp')],
      'Bits 19 and 26 of the word are reserved and excluded. Documented tables were written down from the OEM7 manual text in the code comments and the public field tables.'),
    P('R03', 'Compressed measurement blocks decode to documented values or are refused whole',
      'Every RANGECMP4 and RANGECMP5 measurement block, reference or differential, primary or secondary signal, decodes to exactly the documented values: each field cut from its own bits, '
      'sign-extended at its own width, scaled, offset by its reference, and marked invalid exactly for its reserved value. A block that is cut short is refused and no byte beyond the message is read.',
      [INP], 'all block contents, bit offsets and remaining lengths, all reference values',
      'Each field has its own width, sign and reserved value; an error shows only for particular bit patterns (a genuine one was found in the RANGECMP5 Doppler). The built suite has no decompression test.',
      ['src/decoders/oem/src/rangecmp/range_decompressor.cpp'], [('DecompressReferenceBlock, DecompressDifferentialBlock, DecompressBlock', 'src/decoders/oem/src/rangecmp/range_decompressor.cpp')],
      'Bit extraction is used through its contract, discharged in the same check. Floating-point results are compared as IEEE values.'),
    P('R04', 'Lock times grow from the moment lock was first seen, separately per signal',
      'The lock time derived from compressed range messages follows the documented rule for every history: reported values are passed through, a saturated or ranged value grows with receiver time from the moment it '
      'was reached, loss of lock restarts it, and messages of one signal never change the lock time of another.',
      [INP, HIS], 'all prior tracking states, all message times and all lock-time fields; two arbitrary different signals',
      'The result depends on the whole history of earlier messages of the signal; the built suite has no test of it.',
      ['src/decoders/oem/src/rangecmp/range_decompressor.cpp'], [('per-signal lock time state machines', 'src/decoders/oem/src/rangecmp/range_decompressor.cpp')],
      'Proved as a step from an arbitrary state. Times are finite and non-negative below 1e15 ms. std::unordered_map by assumed contract; the logger changes nothing.'),
    P('R05', 'Decompressed range records state what the compressed record says',
      'Each range record produced from a RANGECMP record or from a RANGECMP4/5 measurement carries the documented pseudorange, carrier phase, Doppler, deviations, carrier-to-noise, lock time, satellite and status of '
      'that measurement; invalid measurements become not-a-number, unknown satellites are refused, and a message that claims more observations than a range log can hold is refused.',
      [INP, HIS], 'all record contents and positions one and two, all measurement values, all deviations, signals with a documented wavelength; all observation counts above the limit',
      'Field cutting, scaling and the carrier-phase roll-over correction must hold for all bit patterns; the built suite has no test of it.',
      ['src/decoders/oem/src/rangecmp/range_decompressor.cpp'], [('PopulateNextRangeData, RangeCmpToRange', 'src/decoders/oem/src/rangecmp/range_decompressor.cpp')],
      'RANGECMP signals without a documented wavelength are excluded (the code divides by zero there). The wavelength is an uninterpreted function of the status (its values are decided by R02); records beyond the second are not examined.'),
    P('N01', 'Binary messages are framed exactly, however the bytes arrive',
      'The binary and short binary framers deliver only byte sequences that start with their sync bytes, have the length their header states and a matching CRC, unchanged, '
      'and they deliver every such message that is at the front of the received bytes. They discard a byte only when it cannot start a valid message that may still arrive, '
      'report incomplete only while a message may be in progress, consume exactly the bytes they report, keep all others in order, and never read or write outside the received bytes or the caller\'s buffer. '
      'This holds whatever arrived before and however the bytes are cut into chunks.',
      [INP, HIS], 'all buffered bytes of any number, all positions, all caller buffer sizes, every state a framer can be left in between calls, metadata-only or not',
      'Whether noise, a damaged message or a chunk border loses or invents a message depends on unbounded contents and cuts; the built suite has no framer test.',
      ['src/decoders/oem/src/framer_binary.cpp', 'src/decoders/oem/src/framer_binary_short.cpp', 'include/novatel_edie/decoders/oem/framer_binary_base.hpp', FRH, FRC],
      [('sync search, frame end, CRC validation', 'include/novatel_edie/decoders/oem/framer_binary_base.hpp'), ('frame loop and consumption', 'src/decoders/common/src/framer.cpp')],
      'Proved as one call from an arbitrary state satisfying the state relation the call itself re-establishes. The CRC is an uninterpreted function of the bytes (its value is decided by C02), searching by a contract discharged in the same check.'),
    P('N02', 'ASCII messages are framed exactly, however the bytes arrive',
      'The ASCII and short ASCII framers deliver only byte sequences that start with their sync character and end at the first CRC field (delimiter, eight characters, CR, LF), with a CRC field whose hexadecimal digits '
      'state the CRC of the text between, unchanged; they deliver every such message at the front of the received bytes. They discard no byte that may start a message except one refuted at the front, consume exactly what they report, keep all '
      'other bytes in order, resume after an incomplete message without passing over a message end, and never read or write outside the received bytes or the caller\'s buffer, however the bytes are cut into chunks.',
      [INP, HIS], 'all buffered bytes of any number, all positions, all caller buffer sizes, every state a framer can be left in between calls, metadata-only or not',
      'The resumption point after each partial chunk and the look-ahead past the delimiter must be right for every cut; the built suite has no framer test.',
      ['src/decoders/oem/src/framer_ascii.cpp', 'src/decoders/oem/src/framer_ascii_short.cpp', 'include/novatel_edie/decoders/oem/framer_ascii_base.hpp', FRH, FRC],
      [('delimiter search, CRC text, validation', 'include/novatel_edie/decoders/oem/framer_ascii_base.hpp'), ('frame loop and consumption', 'src/decoders/common/src/framer.cpp')],
      'CRC fields with characters that are no hexadecimal digits are outside the statement about matching CRC (the code accepts a field by its leading digits). std::from_chars by a contract discharged in the same check.'),
    P('N03', 'Abbreviated ASCII messages are framed exactly, however the bytes arrive',
      'The abbreviated ASCII framer delivers exactly the documented units: a response is its one line; any other message is its header line and all body lines up to the first line that is none, and is delivered only once that next line has begun to arrive. '
      'The response flag is set exactly for responses. It discards no byte that may start a message except one refuted at the front, consumes exactly what it reports, keeps all other bytes in order, '
      'resumes an incomplete message without passing over its end, and never reads or writes outside the received bytes or the caller\'s buffer, however the bytes are cut into chunks.',
      [INP, HIS], 'all buffered bytes of any number, all positions, all caller buffer sizes, every state the framer can be left in between calls, metadata-only or not',
      'Chunk borders between CR and LF and between a line and the next one, and the resumption after each, are unbounded in number (two genuine defects at such borders were repaired); the built suite has no framer test.',
      ['src/decoders/oem/src/framer_abb_ascii.cpp', 'include/novatel_edie/decoders/oem/framer_abb_ascii.hpp', FRH, FRC],
      [('line search, body lines, responses', 'src/decoders/oem/src/framer_abb_ascii.cpp'), ('frame loop and consumption', 'src/decoders/common/src/framer.cpp')],
      'Messages of up to MAX_ASCII_MESSAGE_LENGTH bytes.'),
    P('N04', 'The framer manager loses no bytes and prefers the framer that succeeds',
      'Given framers that keep their contract, the framer manager asks them in order until one finds a message; it then hands out and consumes exactly that message with that framer\'s metadata, moves that framer to the front keeping the order of the others, and restarts all framers. '
      'If none succeeds but one may still, nothing is consumed. If none does, it consumes only the bytes that every framer has ruled out, reports them as unknown when asked to, and never writes beyond the caller\'s buffer.',
      [INP, HIS, CFG], 'all answers of the framers, all buffer contents and sizes, all caller buffer sizes, registries of zero to three framers',
      'The outcome depends on every combination of framer answers and buffer sizes (two genuine overflows were repaired here and in the framers); the built suite has no framer test.',
      ['src/decoders/common/src/framer_manager.cpp', 'include/novatel_edie/decoders/common/framer_manager.hpp'],
      [('choice of the framer, consumption, rotation', 'src/decoders/common/src/framer_manager.cpp')],
      'Each framer is used through its contract (N01 to N03). The number of registered framers is bounded by three (a bounded dimension); everything else is unbounded. A caller buffer of at least one byte.'),
]
