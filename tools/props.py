"""The list of properties; tools/gen.py writes properties.jsonl and MANIFEST.json from it."""
P = []


def prop(id, title, statement, over, quant, why, files, mech, observe=(), state=(), hook=None, note='', na=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, quant=quant, why=why, files=files, mech=mech,
                  observe=list(observe), state=list(state), hook=hook, note=note, na=na))


prop('C01', 'Ring buffer is a bounded FIFO under any mix of calls',
     'A ring buffer of capacity at least one behaves as a bounded FIFO: elements leave (singly, in bulk or by culling) in '
     'exactly the order they were accepted, each once, and peeking or searching changes nothing. An insertion is refused '
     'with -1 only when the buffer is full, insertIfAbsent refuses with -2 exactly when the value is stored, and a bulk '
     'insertion takes the longest prefix that fits and reports its length, as bulk reads report the number of elements '
     'delivered. Count, vacancy, emptiness and capacity agree with the contents after every call.',
     ['histories', 'inputs'], 'every sequence of calls on buffers of any capacity >= 1, at every wrap position of the indices',
     'The tests run a few fixed fill/drain patterns; wrap positions combined with bulk calls and culling are not covered.',
     ['src/RingBuffer.h'], [('read/write index arithmetic modulo the capacity', 'src/RingBuffer.h')],
     ['return values and count()/vacancy()/isEmpty()/capacity() after each call'])

prop('C05', 'StringBuilder content is the concatenation of what was put in',
     'However it is built (raw bytes, strings, single bytes, integers, doubles, printf formats, moved-in heap buffers, copies of other '
     'StringBuilders, prepends, culls, clears, case changes), a StringBuilder holds exactly the byte sequence those operations '
     'define, and length(), string(), byteAt(), copyToBuffer() and isEmpty() report that sequence whatever the internal '
     'fragmentation. Reads never change the content or touch memory outside it, and clearing or destroying it releases every byte it holds.',
     ['histories', 'inputs'], 'every sequence of building and reading calls, for every content, offset and fragmentation',
     'Fragmentation is a product of call history; tests sample a few shapes and cannot see out-of-bounds reads.',
     ['src/StringBuilder.h', 'src/StringBuilder.cpp'],
     [('fragment list and its lazy collapse', 'src/StringBuilder.cpp'), ('cull/prepend/concat on fragments', 'src/StringBuilder.cpp')],
     ['length(), string(), byteAt(), copyToBuffer() after each call', 'heap in use after destruction'])

prop('C06', 'StringBuilder hand-offs move bytes without loss, copy or reorder',
     'concatHandoff and prependHandoff move the whole of one StringBuilder to the end or the front of another and leave the source '
     'empty; concatHandoffLimit moves exactly the first min(limit, length) bytes, and copying calls leave the source unchanged. '
     'The bytes of the two buffers together are conserved, in order, for every fragmentation of either one, and nothing is leaked or freed twice.',
     ['histories', 'inputs'], 'every pair of fragmented buffers and every limit, in every sequence of hand-offs',
     'The limit can fall inside, at or next to a fragment boundary of a buffer with any history; tests pick a few positions.',
     ['src/StringBuilder.h', 'src/StringBuilder.cpp'], [('concatHandoffLimit and fragment re-linking', 'src/StringBuilder.cpp')],
     ['content of both buffers after each call', 'heap in use after destruction'])

prop('C07', 'StringBuilder tokenising and reassembly agree with the text',
     'split() yields exactly the non-empty pieces of the content between delimiter characters, chunk(n) yields consecutive pieces of n '
     'bytes with a shorter last one, and implode() joins the pieces with its delimiter; count() and position() report those pieces in '
     'order and drop_position() removes just the addressed piece. position_as_int() and position_as_uint64() return the number '
     'the piece spells in decimal or in 0x-prefixed hexadecimal.',
     ['inputs', 'histories'], 'every content, fragmentation, delimiter set and piece index',
     'Delimiters may be adjacent, leading or trailing, may straddle fragments, and later calls work on earlier results.',
     ['src/StringBuilder.h', 'src/StringBuilder.cpp'], [('split/chunk/implode and position accessors', 'src/StringBuilder.cpp')],
     ['count() and position(i) after each call'])

prop('C08', 'StringBuilder search, comparison and replacement are exact',
     'locate() returns the offset of the first occurrence of the needle at or after the given start and refuses otherwise; '
     'contains() and cmpBinString() agree with the content, and replace() substitutes every non-overlapping occurrence from '
     'left to right and returns how many. The answers depend only on the bytes (all 256 values), never on how the '
     'content is split into fragments.',
     ['inputs', 'histories'], 'every haystack, fragmentation, needle, start offset and replacement',
     'A needle may straddle fragments or overlap a failed partial match; tests use contiguous text with obvious matches.',
     ['src/StringBuilder.h', 'src/StringBuilder.cpp'], [('locate/replace scanning across fragments', 'src/StringBuilder.cpp')],
     ['return values and the content after each call'])

prop('C02', 'Linked list keeps every element once, in insertion order',
     'A LinkedList of non-null references holds exactly the inserted elements in order (insert appends and reports the position, '
     'insertAtHead prepends), each until it is removed. Removal by position takes and returns exactly that element, remove(T) '
     'removes every element equal to its argument, clear() removes all and reports how many; size(), get(), contains() and hasNext() agree with '
     'the content, and destroying the list releases every node.',
     ['histories', 'inputs'], 'every sequence of calls with repeated and distinct elements and any position',
     'Tests insert distinct elements; duplicates at the head, the tail and in runs are combinations of history.',
     ['src/LightLinkedList.h'], [('node unlinking in remove(T)/remove(int)', 'src/LightLinkedList.h')],
     ['return values, size() and get(i) after each call', 'heap in use after destruction'])

prop('C03', 'Priority queue serves highest priority first, FIFO among equals',
     'For every sequence of calls a PriorityQueue of non-null references stays ordered by descending priority and, within one priority, by arrival; '
     'insert and insertIfAbsent report the position taken (insertIfAbsent refuses with -1 exactly when the element is present), and dequeue serves '
     'the front. incrementPriority, decrementPriority and recycle move just the addressed entry (a raised entry goes behind its new '
     'equals, a lowered one ahead of them, a recycled head to the very end with the last priority); remove(T) removes every '
     'entry holding the element, and all queries agree with the content.',
     ['histories', 'inputs'], 'every sequence of calls with any priorities, including negative ones and ties',
     'Order under ties is a product of history; tests check a few insertion orders and hardly any priority change.',
     ['src/PriorityQueue.h'], [('insertion point search', 'src/PriorityQueue.h'), ('enforce_priorities re-sort', 'src/PriorityQueue.h')],
     ['return values, get(i) and getPriority(i) after each call', 'heap in use after destruction'])

prop('C04', 'Element pool never double-issues, loses or over-draws elements',
     'An ElementPool hands out each preallocated element to at most one holder at a time, falls back to the heap only when every '
     'preallocated element is out, never has more heap elements outstanding than its overdraw limit (take() returns nullptr '
     'instead), and accepts each element back into the place it came from (give() returns 1 for the pool, 0 for the heap). available(), overdraws(), '
     'overdrawsFreed() and lowWaterMark() equal what that history implies, and nothing is leaked.',
     ['histories'], 'every interleaving of take, give and limit changes, with own or supplied memory',
     'Exhaustion, overdraw and return in every order are histories; no test covers this class.',
     ['src/ElementPool.h'], [('take/give and the overdraw accounting', 'src/ElementPool.h')],
     ['result of take()/give(), counters after each call', 'heap in use after destruction'])

prop('C09', 'State machine visits exactly the planned route, rate-limited',
     'A StateMachine changes state through _fsm_advance() only by entering the first planned state, only if the transition code accepts it, and then '
     'consumes exactly that entry and records the state it left as the prior one; a refused transition changes nothing. Routes '
     'and single states are taken whole or refused (-1 nothing to add or invalid single code, -2 invalid code in a route or no room; a route longer '
     'than the room is cut), and the plan is walked in that order. After a transition the machine waits at least the configured slowdown, and '
     'any longer lockout the transition code asked for.',
     ['histories', 'inputs', 'schedules'], 'every interleaving of planning calls, advances, refusals and elapsed time, for any route capacity and clock position',
     'Plans are edited while they are being walked; lockouts depend on elapsed time and the 32-bit clock. The tests walk fixed routes.',
     ['src/FiniteStateMachine.h'], [('route storage and advance', 'src/FiniteStateMachine.h'), ('lockout timer', 'src/TimerTools/TimerTools.h')],
     ['current/prior state, plan and remaining lockout after each call'])

prop('C10', 'Sequencer runs steps only after everything they depend on passed',
     'Requesting steps of an AsyncSequencer requests all their direct and indirect dependencies too (unknown flags are dropped). A step is first '
     'dispatched only after it was requested and all its dependencies have passed; it is polled only after its dispatch succeeded, an answer of '
     '0 is retried on the next poll(), any other answer than 1 completes it as failed, and a completed step is not run again until it is reset. '
     'poll() counts the status changes it made, and the status queries agree with the history.',
     ['histories', 'schedules'], 'every step list (any order and shape of acyclic dependencies, up to 32), every answer of every step function, every interleaving of request, reset and poll',
     'The order in which steps pass or fail is a schedule; tests run one checklist with mostly succeeding steps.',
     ['src/AsyncSequencer.h', 'src/AsyncSequencer.cpp'], [('dependency closure', 'src/AsyncSequencer.cpp'), ('dispatch and poll passes', 'src/AsyncSequencer.cpp')],
     ['which step functions poll() calls', 'the five status words after each call'])

prop('C11', 'Scheduler runs due schedules exactly once each and never early',
     'advanceScheduler() queues every added, enabled schedule whose time has come, at most once until it is serviced, and not while it is '
     'executing; serviceSchedules() does nothing before the first tick and then executes all that is queued, once each, in order. After an '
     'execution the next time is its start plus the period; a recurrence count n > 0 allows n executions (0: one more) and then the schedule is '
     'disabled, -1 is unlimited, and delay() moves the next time (ignored during execution). All of this holds wherever '
     'the 32-bit clock stands or wraps, and addSchedule() refuses duplicates (-2) and more than 8 schedules (-1).',
     ['schedules', 'histories'], 'every interleaving of ticks (also during callbacks), service calls, elapsed time and changes to the schedules',
     'Interrupt-driven ticks against service calls and clock wrap-around are schedules the tests do not produce.',
     ['src/TimerTools/C3PScheduler.h', 'src/TimerTools/C3PScheduler.cpp'], [('execution queue', 'src/TimerTools/C3PScheduler.cpp'), ('C3PSchedule::execute bookkeeping', 'src/TimerTools/C3PScheduler.cpp')],
     ['order and time of executions, schedule fields after each call'])

prop('C12', 'Timeouts and stopwatches are exact across clock wrap-around',
     'A PeriodicTimeout (milliseconds or microseconds) is expired exactly when its period is zero or at least the period has elapsed since '
     'reset(), remaining() is the time still left (0 when expired), trigger() makes it expire at once, and changing the period keeps the mark. A StopWatch counts '
     'a measurement exactly when markStop() follows a markStart(), and last, best, worst, total, mean and count follow from the measured '
     'durations. None of this depends on where the 32-bit clock stands or whether it wraps in between.',
     ['histories', 'inputs'], 'every period, elapsed time up to 2^30 and clock position, in every order of calls',
     'The wrap point of a 32-bit clock is reached after 49 days or 71 minutes; tests run near zero.',
     ['src/TimerTools/TimerTools.h', 'src/TimerTools/StopWatch.cpp', 'src/AbstractPlatform.cpp'],
     [('wrap-aware differences', 'src/AbstractPlatform.cpp'), ('mark/period arithmetic', 'src/TimerTools/TimerTools.h')],
     ['expired(), remaining() and statistics after each call'])

prop('C13', 'A time series is its most recent samples, with exact indices and statistics',
     'A TimeSeries of window w reports full exactly when at least w samples were fed since it was last cleared. Its window is then the most recent w samples: '
     'value() is the newest, copyValueRange() hands back the samples asked for in order (or nothing), and indexIsWhichSample() names the sample that is at a place in memory (0 if none). '
     'Minimum, maximum, mean, RMS, standard deviation, SNR and median are those of the samples in the full window, whatever their size within the type. '
     'A full series that is sent through CBOR arrives with the same type, window, total, name, units and samples, and a '
     'received structure that is not a well-formed series has no effect outside of the memory of the series it makes.',
     ['inputs', 'histories'], 'every sequence of feeds, bulk fills, reads, purges and re-windowing for each integer and real type, with samples at any place in the range of the type, and every foreign CBOR map',
     'Index arithmetic depends on where the window wraps and statistics on the range of the samples; the tests use a few windows of small numbers, and feed no foreign structure.',
     ['src/TimeSeries/TimeSeries.h', 'src/TimeSeries/TimeSeries.cpp'],
     [('circular window and lazy statistics', 'src/TimeSeries/TimeSeries.h'), ('CBOR form', 'src/TimeSeries/TimeSeries.cpp')],
     ['results of every accessor, the sample memory and the counters after each call, the series decoded again'])

prop('C18', 'Byte accepters claim a prefix, report it truthfully, and lose nothing',
     'A BufferAccepter given a buffer removes from its front exactly the bytes it claimed and answers -1 (nothing), 0 (some) or 1 (all). '
     'StringBuilderSink claims as much as its limit leaves room for, and bufferAvailable() is that room. BufferAccepterFork delivers to each '
     'connected side exactly the byte stream the caller offered, each byte once and in order, even if the sides claim different parts of an offer; '
     'what it claims from the caller is what every side has received, and it makes progress when all sides can. '
     'Its bufferAvailable() is the smaller of those of its sides.',
     ['histories', 'schedules'], 'every sequence of offers of any length with any room and claiming behaviour of the accepters downstream',
     'Partial claims by one side of a fork only matter over several offers; the tests offer to sinks that take all.',
     ['src/Pipes/BufferAccepter/BufferAccepter.h', 'src/Pipes/BufferAccepter/BufferAccepter.cpp'],
     [('pushBuffer contract', 'src/Pipes/BufferAccepter/BufferAccepter.h'), ('fork accounting', 'src/Pipes/BufferAccepter/BufferAccepter.cpp')],
     ['the answer of pushBuffer(), the bytes left with the caller, the bytes received downstream'])

prop('C19', 'Base64 encoder and decoder follow RFC 4648 and never lose bytes downstream',
     'Base64Encoder and Base64Decoder pass the RFC 4648 encoding or decoding (standard alphabet, with padding) of one chunk (the configured length, or the whole '
     'buffer) to the accepter downstream and claim exactly that chunk, or pass on nothing and claim nothing (-1): without an accepter, with less '
     'input than the chunk, with too little room downstream, or, when decoding, if the chunk is not valid Base64. Nothing that was claimed is lost '
     'for lack of room.',
     ['inputs', 'histories'], 'every input of every length, fragmentation and chunk length, with any room downstream, valid or not',
     'Padding, alphabet bounds and room limits depend on the input; tests push a few whole messages into an unbounded sink.',
     ['src/Pipes/BufferAccepter/Base64/C3P_B64.cpp'], [('encoding and room check', 'src/Pipes/BufferAccepter/Base64/C3P_B64.cpp'), ('decoding and validation', 'src/Pipes/BufferAccepter/Base64/C3P_B64.cpp')],
     ['the answer of pushBuffer(), the bytes left, the bytes received downstream'])

prop('C14', 'Numeric values convert exactly or the conversion is refused',
     'A C3PValue of a numeric type (signed and unsigned integers of 8 to 64 bits, bool, float, double) holds exactly the number it was given. '
     'Setting it from a number of another type stores that number if the type of the value can represent it (integers into floating point: '
     'the nearest one) and otherwise answers -1 and leaves the value alone. Reading it as another type reports success exactly when '
     'the number is representable, and then delivers it; a bool reads as whether the number is not zero. The textual form of an integer is its '
     'exact decimal form at full width. No conversion reads or writes memory beside the value.',
     ['inputs'], 'every pair of numeric types and every value of each, at and around every power of two',
     'The interesting values are the bounds of eleven types in both directions; the tests try a few per type.',
     ['src/C3PValue/C3PValue.cpp', 'src/C3PValue/C3PValue.h', 'src/C3PValue/C3PType.cpp'],
     [('type-specific setters and getters', 'src/C3PValue/C3PType.cpp')],
     ['the answer of set() and get_as_*(), the raw storage read back'])

prop('C15', 'Values and key-value pairs in lists keep their contents, order and ownership',
     'C3PValue and KeyValuePair objects linked into a list keep their order; each holds its type, its key and its content until it is set again. '
     'Access by position or key finds the first match, keys are listed in order, counts and iteration cover the whole '
     'list. Cutting a chain, dropping one member and destroying the head affect exactly the nodes concerned: members marked to be reaped are '
     'destroyed along with their head or when removal asks for it, others survive. Access with a wrong type is refused and changes '
     'nothing. All memory a value owns is released with it, once.',
     ['histories'], 'every sequence of links, cuts, drops, deletions and updates on lists of any mix of values and pairs',
     'Ownership mistakes show only after particular orders of linking and removal and then as leaks or reads of freed memory.',
     ['src/C3PValue/C3PValue.cpp', 'src/C3PValue/KeyValuePair.cpp', 'src/C3PValue/C3PType.cpp'],
     [('link/unlink/dropValue', 'src/C3PValue/C3PValue.cpp'), ('valueWithKey, keys', 'src/C3PValue/KeyValuePair.cpp')],
     ['identity, type, content and order of the nodes; heap use after everything is destroyed'])

prop('C16', 'CBOR values decode whole or not at all, and serializing is reversible',
     'C3PValueDecoder, fed a byte stream in any pieces, answers nothing and leaves the buffer untouched until a complete item is present, then '
     'delivers the value RFC 8949 assigns to it and removes exactly its bytes. This covers integers over the whole range of the value types, byte '
     'and text strings of any length including zero, bools, null, floats, arrays (as a list), maps with text keys (as pairs, nested where '
     'a value is itself a map) and typed 3-vectors; anything else is refused with nothing consumed. Serializing a value or a list of pairs '
     'yields bytes which decode to the same values and keys. No input, however malformed, makes the decoder read outside it, lose '
     'memory or release memory twice.',
     ['inputs', 'histories'], 'every byte string, split in any way; every value or list of pairs of the supported types to any depth',
     'Truncation points, length forms and nesting are combinatorial and malformed input unlimited; the tests decode a few whole well-formed messages.',
     ['src/C3PValue/C3PValue.cpp', 'src/C3PValue/KeyValuePair.cpp', 'src/C3PValue/C3PType.cpp'],
     [('C3PValueDecoder', 'src/C3PValue/C3PValue.cpp'), ('KeyValuePair::serialize', 'src/C3PValue/KeyValuePair.cpp')],
     ['the decoded value, the bytes left in the buffer, heap use after the value is destroyed'])

prop('C17', 'The streaming CBOR codec reports the same items however the stream is split',
     'The CBOR decoder tells its listener exactly the items RFC 8949 assigns to the bytes received so far, in order and each once, independent of '
     'how the stream was split over calls of run() and of the kind of input: integers with their exact value and sign, strings, array and map '
     'heads, tags, bools, null, undefined, simple values, floats. It stops with an error for good at reserved heads and lengths it cannot '
     'hold. The encoder writes the shortest head for every integer and length, so that what it writes is read back as '
     'the same item; into limited memory it writes everything if it fits and never beyond the limit.',
     ['inputs', 'schedules'], 'every byte stream and every way of splitting it; every number of every width and every output capacity',
     'Bounds of eight widths in both signs and a split at each byte are too many to sample by hand; tests decode whole buffers of their own encoder.',
     ['src/cbor-cpp/cbor.cpp', 'src/cbor-cpp/cbor.h'], [('decoder::run', 'src/cbor-cpp/cbor.cpp'), ('encoder', 'src/cbor-cpp/cbor.cpp')],
     ['calls of the listener, bytes written'])

prop('C21', 'Frames of the link are sized, checked and read back exactly',
     'An M2MMsgHdr made for any code, payload length, flags and ID carries the fewest length and ID bytes that hold its total length and ID, a total '
     'equal to header plus payload, and a checksum over them; payload lengths beyond the 24-bit total are refused. It serializes only if '
     'valid: reserved bits zero, known code, fields of minimal size, an ID exactly if it asks for or is a reply (sync frames excepted). Parsing any '
     'bytes tells too few, not a header, incomplete, and complete apart; what was serialized parses as it was. A message made from a buffer '
     'takes exactly its payload however the rest arrives; a reply keeps code and ID, and sending again yields the same bytes. All memory is released.',
     ['inputs', 'histories'], 'every header field combination and length boundary; every byte string as input, whole or in pieces; every sequence of message calls',
     'The length field counts itself, so faults sit at 251..256 and 65530 and 2^24, and malformed headers are unlimited; the unit tests build a few small ones.',
     ['src/M2MLink/M2MMsgHdr.cpp', 'src/M2MLink/M2MMsg.cpp', 'src/M2MLink/M2MLink.h'],
     [('M2MMsgHdr', 'src/M2MLink/M2MMsgHdr.cpp'), ('attempt_header_parse, accumulate, reply', 'src/M2MLink/M2MMsg.cpp')],
     ['header fields, validity, serialized bytes, parse verdicts, remaining input, payload'])

prop('C22', 'A link is established by sync and CONNECT only, and finds lost sync again',
     'M2MLink goes from its start through resynchronisation (which it leaves only having both seen a sync and had its own answered) and an exchange of '
     'CONNECT to LIVE, through authentication if that is required, and by no other way, whatever bytes arrive, however they are split, and '
     'whether or not its transport accepts data. It answers syncs and CONNECTs, casts syncs until answered, discards noise before a sync without '
     'losing the start of one, returns to resynchronisation after bytes which are no frame or three broken ones, and tells '
     'the application of each arrival at LIVE. Malformed traffic neither crashes it nor makes it read or keep memory it should not.',
     ['schedules', 'inputs', 'histories'], 'every byte stream in any pieces, every order of polls, time, calls and transport refusals',
     'Each state meets each partial frame under each flag; the tests connect two links over a perfect transport.',
     ['src/M2MLink/M2MLink.cpp', 'src/M2MLink/M2MMsg.cpp', 'src/FiniteStateMachine.h'],
     [('_fsm_poll, _fsm_set_position', 'src/M2MLink/M2MLink.cpp'), ('_process_input_buffer, _process_for_sync', 'src/M2MLink/M2MLink.cpp')],
     ['link state, frames sent, callbacks, free receive capacity'])

prop('C23', 'Each message on a link is sent, delivered and answered as promised',
     'A message given to send() while the link takes messages goes out once as one frame in priority order, or, if it wants an answer, is kept and sent '
     'again at each timeout up to three more times until an answer bearing its ID arrives, after which it is released; then it is counted '
     'as unanswered. No other message is released by an answer. Every well-formed inbound frame is given, whole and once, to the handler its code '
     'selects (the application, or the service in that slot) and what the handler replies is sent with the same code and ID; '
     'log, WHO and unknown codes are treated as documented. The queue is bounded and refuses what exceeds it; frames beyond the MTU are not taken in.',
     ['schedules', 'histories', 'inputs'], 'every interleaving of polls, arrivals in any pieces, sends, refusals of the transport and passing of time',
     'Retry, answer and queue order interact over time; the tests exchange single messages on an ideal link.',
     ['src/M2MLink/M2MLink.cpp', 'src/M2MLink/M2MMsg.cpp', 'src/M2MLink/M2MService.cpp'],
     [('send, _churn_outbound, _churn_inbound', 'src/M2MLink/M2MLink.cpp')],
     ['frames sent, calls of the handlers with flags, ID and payload, unanswered count, results of send()'])

prop('C24', 'Hanging up ends the session completely and another can begin',
     'A graceful hangup sends what is queued and a HANGUP, and ends at HUNGUP once the queue is empty and both sides said so; a forced one ends '
     'there at once from any state, dropping what was queued. A HANGUP from the other end is answered and followed. From then on send() refuses and '
     'input is discarded; hangup() reports a repeat as such. After reset() the link begins anew with nothing of the former session: no '
     'queued or partial message, no flags. Destroying a link in any state releases everything it holds.',
     ['histories', 'schedules'], 'every point at which either end hangs up, with any queue, partial input or transport refusal',
     'The tests hang up once, gracefully, from an idle LIVE link.',
     ['src/M2MLink/M2MLink.cpp'], [('hangup, reset, _link_reset', 'src/M2MLink/M2MLink.cpp')],
     ['link state, frames sent, results of hangup/reset/send, heap use after destruction'])

prop('C31', 'An image reads back as it was written, pixel by pixel and as bytes',
     'In every supported format (monochrome with heights divisible by eight, 8, 16 and 24 bit grey, RGB 332, 565, 888, RGBA), orientation and mirroring, setPixel() of a position of the image '
     'makes getPixel() of that position yield the colour (as far as the format keeps it) and changes no other pixel; a position outside is refused, reads as 0, and touches no memory. '
     'Setting by channels, and getPixelAsFormat() between colour formats, keep the high bits of every channel. fill() sets all pixels. '
     'What serialize() writes (10 bytes of header, then the pixels row by row, high byte first, RGBA low byte first, monochrome in columns) deserialize() of an image without a format turns into the same size, format, flags and '
     'pixels; bytes whose header and length disagree, or with an unknown format, are refused. An image replaces, and frees, only a buffer of its own; what cannot be replaced keeps its size, format and pixels.',
     ['inputs', 'histories'], 'every size, format, orientation, coordinate (inside or not), colour and byte string',
     'Off-by-one offsets and byte order show at particular sizes and formats only, and writes outside the buffer corrupt other memory; the tests draw nothing.',
     ['src/Image/Image.cpp', 'src/Image/Image.h'],
     [('setPixel, getPixel, fill, serialize, deserialize, setBufferByCopy, setSize', 'src/Image/Image.cpp')],
     ['pixels', 'serialized bytes', 'return codes', 'size and format', 'memory accesses'])

prop('C32', 'Shapes and text cover exactly the pixels they should, clipped to the image',
     'Lines run from end to end, one pixel per step of the longer side, within half a pixel of the true line; rectangles (plain, filled, rounded), circles and triangles (outlined and filled), bitmaps and '
     'characters set exactly the positions of their shape that are inside the image, to the given colour, and no others, in every format and orientation, wherever they cross an edge; shapes without extent draw nothing; '
     'every call ends. Characters come from the classic font (with or without the historical code page gap) or a custom font, magnified by whole factors, on an opaque or transparent background. '
     'writeString() advances and wraps the cursor as the size and font say, and getTextBounds() is the box around where the text goes.',
     ['inputs', 'histories'], 'every shape at every position and size, in images of any size, format and orientation; every text, magnification and wrap setting',
     'Clipping and degenerate shapes go wrong at particular positions (wrapping into the next row, endless loops, stray columns); the tests draw nothing.',
     ['src/Image/Image.cpp', 'src/Image/Image.h'],
     [('drawLine, fillRect, drawCircle, fillCircleHelper, drawRoundRect, fillTriangle', 'src/Image/Image.cpp'), ('drawChar, writeChar, getTextBounds', 'src/Image/Image.cpp')],
     ['pixels', 'cursor', 'text bounds', 'termination', 'memory accesses'])

prop('C33', 'Two link ends always come to agree, and deliver exactly what was sent',
     'Two M2MLink ends joined by wires reach LIVE together from every state they can be in, once bytes are no longer lost: whatever was lost, cut short or '
     'altered before, and after one of them hung up by force and began anew. Without loss, every message one application sends while both are '
     'LIVE reaches the other once, in order and unaltered, however the bytes are split; with loss, nothing is delivered that was not sent. A '
     'graceful hangup by either brings both to HUNGUP.',
     ['schedules', 'histories', 'crash points'], 'every interleaving of polls and partial deliveries of two ends, with up to two (thorough: three) losses or alterations at any point',
     'Recovery depends on what each end holds when bytes vanish; no test loses any.',
     ['src/M2MLink/M2MLink.cpp', 'src/M2MLink/M2MMsg.cpp'],
     [('poll, _process_for_sync, _churn_inbound', 'src/M2MLink/M2MLink.cpp')],
     ['state of both ends, messages delivered, bytes on the wires'])

prop('C25', 'The console runs exactly the commands typed, and answers in order',
     'A ParsingConsole executes exactly the lines that its configured terminator (zero byte, CR, LF, CRLF) completes: the same commands, with the same '
     'arguments, in the same order, however the input is cut into pieces. Unfinished input waits; a backspace takes back the last waiting '
     'character, wherever it arrives; input beyond the maximum length is discarded whole. A line is matched by command name (ignoring case), else by '
     'one-character shortcut (minding it), and its callback runs once, only with the arguments required; otherwise the answer says why. Answers, echo and prompts '
     'reach the downstream accepter in order, and wait for it when refused. The history holds the executed lines (and failures, if so '
     'configured), the newest up to its depth. The built-in configuration command changes the setting it names only. Destruction frees everything.',
     ['inputs', 'histories'], 'every input byte sequence, cut anywhere, under every setting of terminator, echo, prompt, history and downstream behaviour',
     'Input arrives cut at arbitrary points and settings interact; the test feeds byte by byte with LF only.',
     ['src/Console/C3PConsole.cpp', 'src/Console/C3PConsole.h'],
     [('pushBuffer, _process_buffer, _exec_line, console_handler_conf', 'src/Console/C3PConsole.cpp')],
     ['calls and their arguments', 'output delivered', 'history', 'settings', 'heap'])

prop('C26', 'A stored record reads back as it was written, or is refused',
     'What a SimpleDataRecord saves under a tag and name is a 40-byte descriptor (tag, version, flags, type, format, name cut or padded to 16 bytes, payload '
     'length, timestamp, digest) and then exactly the serialized payload. Loading that image (from a buffer or a StringBuilder, whatever follows it) under the '
     'same tag into a record of the same type yields the same name and payload and a clean, loaded record. An image of another tag, type, version or '
     'format, shorter than it claims to be, or whose digest disagrees with its length is refused with the payload untouched, '
     'and never read beyond its end. The record is dirty whenever its digest differs from that last written or read. A failing serializer or an '
     'empty name saves nothing.',
     ['inputs', 'histories'], 'every payload, name, tag and type; every truncation, extension and alteration of a stored image',
     'A stored image is untrusted input of any length; the tests save and load one valid record.',
     ['src/Storage/SimpleDataRecord.cpp', 'src/Storage/Storage.h'],
     [('save, load, _descriptor_pack, _descriptor_unpack', 'src/Storage/SimpleDataRecord.cpp')],
     ['return codes', 'saved bytes', 'payload', 'name, digest, dirtiness, loadedness'])

prop('C27', 'A bus job is carried out and answered exactly once per request',
     'A job that an I2C or SPI adapter accepts is in one place at a time: waiting, under way, or finished and about to be answered. At most one job has the bus (and, on '
     'SPI, its select line asserted). Jobs are begun by priority, and first come first served within it. Each accepted transfer is answered by one callback carrying its own '
     'outcome (success, the fault of the hardware, refusal before the start, or the purge that ended it); a job is repeated only when its callback asks for it, and callbacks may queue further '
     'jobs. A refused submission leaves the queue alone. Afterwards a job of the pool goes back there wiped, one in excess of the pool is freed, one of the user is left idle and clean for reuse, '
     'and a buffer is freed exactly when the job was told to. Purging ends the current job, everything that waits, or all that one device has waiting, '
     'and nothing else. An offline adapter begins nothing. Transfer and fault counts are exact.',
     ['histories', 'schedules', 'faults'], 'every interleaving of submissions, completions, faults, repeats, nested submissions, purges and polls, for any pool and queue size',
     'Double answers, lost jobs and leaks need particular orders of completion, purge and requeue; no test drives an adapter.',
     ['src/BusQueue/BusQueue.h', 'src/BusQueue/I2CAdapter.cpp', 'src/BusQueue/SPIAdapter.cpp', 'src/BusQueue/I2CBusOp.cpp', 'src/BusQueue/SPIBusOp.cpp'],
     [('BusAdapter::_reclaim_queue_item, purge_queued_work_by_dev', 'src/BusQueue/BusQueue.h'), ('queue_io_job, poll, purge_*', 'src/BusQueue/I2CAdapter.cpp'), ('queue_io_job, _bus_poll, service_callback_queue', 'src/BusQueue/SPIAdapter.cpp')],
     ['return codes', 'callbacks and their faults', 'queue contents', 'job states, select lines', 'pool and transfer counters', 'memory'])

prop('C28', 'The UART adapter neither loses, repeats nor reorders bytes',
     'Every byte that an adapter accepts for sending (by pushBuffer() or any write()) goes out on the line once and in order, and the caller is told exactly how '
     'many were taken: as many as there is room for, none while the adapter is not initialised or cannot send, and what was not taken stays with the caller. '
     'Every byte received and not yet taken is read, or offered to the read callback, once and in order, never more than the callback has announced room for; '
     'what the callback refuses stays, and so does what arrives while it is being asked. deinit() and reset() discard what is pending and leave the adapter '
     'uninitialised unless the platform succeeds. The receive timeout expires when more than its period passed since the last byte.',
     ['histories', 'schedules', 'inputs'], 'every interleaving of sends, reads, polls, partial acceptance, arrivals during a callback and re-initialisation, for any ring size',
     'Loss shows only for particular fill levels and partial acceptance; no test drives a UART.',
     ['src/BusQueue/UARTAdapter.cpp', 'src/BusQueue/UARTAdapter.h', 'src/RingBuffer.h'],
     [('pushBuffer, write, read, _handle_rx_push', 'src/BusQueue/UARTAdapter.cpp')],
     ['bytes sent, read and offered', 'counts and return codes', 'remaining caller buffer'])

prop('C30', 'Enumerated keys and the configuration values under them',
     'An EnumDefList answers for every value and name as its definitions say: validity, name and context of a value by its first definition; a name (letter case '
     'aside) leads to its definition, otherwise to the last catch-all, otherwise reported as not found; the exported keys are those not marked invalid, in order. '
     'A ConfRecord keyed by it holds one value per exported key, of the type that key is defined with, zero at first. setConf() by name or by value '
     'stores exactly the given number if that type can hold it and otherwise refuses, changing nothing; getConf() yields exactly what is stored or refuses; unknown and invalid '
     'keys are refused; no key affects another. The printed form names every key.',
     ['inputs', 'histories'], 'every list of definitions, every sequence of reads and writes of every numeric type under every key',
     'Which conversions lose information depends on the value; the tests set a few keys with matching types.',
     ['src/EnumWrapper.h', 'src/Storage/RecordTypes/ConfRecord.h', 'src/Storage/RecordTypes/ConfRecord.cpp'],
     [('_set_conf, _get_conf, _allocate_kvp', 'src/Storage/RecordTypes/ConfRecord.cpp'), ('getEnumDefByStr, exportKeys', 'src/EnumWrapper.h')],
     ['results of enumeration queries', 'return codes and values', 'stored values'])

prop('C20', 'A type pipe carries each value whole, once and in order',
     'C3PTypePipeSource answers 0 exactly if the accepter downstream announced room for the whole encoding of the value (or of the list of pairs), and then has passed on exactly '
     'that; otherwise it passes on nothing. The bytes, however they are cut up and carried, come out of C3PTypePipeSink as the same values in the same order: '
     'a push delivers every value that is complete within the window, claims exactly the bytes of these, leaves the rest untouched at the front of the '
     'buffer of the caller, and answers 1 exactly if nothing is left. Without a callback it takes nothing. Both ends count the bytes exactly.',
     ['inputs', 'histories'], 'every sequence of values of every type, any fragmentation, window and room downstream',
     'Losses need a value cut at a certain byte, or a room smaller than the encoding by one; tests use a few splits of one buffer.',
     ['src/Pipes/BufferAccepter/C3PTypePipe/C3PTypePipe.cpp', 'src/Pipes/BufferAccepter/C3PTypePipe/C3PTypePipe.h'],
     [('all-or-nothing push', 'src/Pipes/BufferAccepter/C3PTypePipe/C3PTypePipe.cpp'), ('windowed parse and return of the remainder', 'src/Pipes/BufferAccepter/C3PTypePipe/C3PTypePipe.cpp')],
     ['the answers of pushValue() and pushBuffer()', 'bytes downstream and left with the caller', 'delivered values', 'byte counts'])

prop('C29', 'UUIDs and identities keep their value through text and storage',
     'uuid_from_str() takes the hexadecimal digits of the text in order, of either case, ignoring all else, two per byte and no more than 16 bytes; uuid_to_str() writes the '
     'lower-case 8-4-4-4-12 form, given room for it and its terminator, and else nothing; the one reads what the other writes. Generated UUIDs carry version 4 and the variant of RFC 4122, and '
     'the randomness of the platform in every other bit. An identity reports the bytes it takes in storage, serializes to exactly these or, with less room, to nothing, and '
     'Identity::fromBuffer() makes from them an identity of the same name, UUID and flags, save validity and dirtiness. It refuses every buffer that does not wholly '
     'hold one, and reads nothing outside it. An identity is found by its format and by its name.',
     ['inputs'], 'every text, every buffer, every name and every room',
     'The parsers face foreign input: truncated records, missing terminators and lying lengths are not what tests feed them.',
     ['src/uuid.cpp', 'src/Identity/Identity.cpp', 'src/Identity/IdentityUUID.cpp'],
     [('uuid_from_str, uuid_to_str, uuid_gen', 'src/uuid.cpp'), ('Identity::fromBuffer, _serialize', 'src/Identity/Identity.cpp'), ('IdentityUUID', 'src/Identity/IdentityUUID.cpp')],
     ['text and bytes written', 'the identity made, or none', 'return values, flags'])

prop('C34', 'A sensor filter outputs its strategy over exactly the most recent samples',
     'A SensorFilter keeps the samples of its window and no others: each feed takes the place of the oldest, and the filter is full, and says so, from '
     'the sample on that completes the window, counted anew after init(), purge() and every change of the window. Its output is the sample (RAW), the median of the '
     'window (MOVING_MED) or the average that each sample moves by its share of the window (MOVING_AVG), whatever the sign and size of the samples; it is announced by '
     'feedFilter() and dirty() once per new output, until taken. Minimum, maximum, mean, RMS, deviation, median and signal-to-noise are those of the samples that are '
     'in the window now, and nothing of earlier ones. Filters over vectors do so by component. Only memory of the window is touched, foreign memory is '
     'never resized or freed, and the CBOR form holds the samples in the order they were fed.',
     ['inputs', 'histories'], 'every order of feeding, reading, purging, resizing and change of strategy, for every number type and both kinds of memory',
     'Wrapping, restarting and re-windowing make stale places in memory and stale statistics; tests feed once.',
     ['src/TimeSeries/SensorFilter.h'],
     [('feedFilter, _calculate statistics', 'src/TimeSeries/SensorFilter.h'), ('init, purge, windowSize', 'src/TimeSeries/SensorFilter.h')],
     ['samples in memory', 'output, dirty(), windowFull()', 'statistics', 'CBOR bytes', 'accesses outside the memory'])

prop('C35', 'Three-axis pipelines deliver each vector, turned and filtered, where it belongs',
     'A vector pushed into a graph of TripleAxis pipes reaches every terminus and sink it is wired to, in the order left before right, and none else. '
     'A fork tries both sides and answers how many accepted, a convention reorders and inverts the axes of value and error alike as its source gnomon tells, a filter passes on its '
     'output for its own sense and relays every other sense unaltered, and a terminus keeps the latest value and error of its sense, numbers and dates it, and '
     'refuses other senses. Each answers what became of the vector downstream. Freshness is set by what was not noted and cleared by taking it, once. '
     'The vector of the caller is left alone, an error is passed on if and only if there is one, and printing a pipeline changes nothing.',
     ['inputs', 'histories'], 'every acyclic wiring, every sense and gnomon, with and without errors, rewired at any time',
     'The answers and the freshness depend on what is downstream; nothing in the tests builds a pipeline of these.',
     ['src/Pipes/TripleAxisPipe/TripleAxisPipe.cpp', 'src/Pipes/TripleAxisPipe/TripleAxisPipe.h'],
     [('pushVector of the five pipes', 'src/Pipes/TripleAxisPipe/TripleAxisPipe.cpp'), ('getDataWithErr', 'src/Pipes/TripleAxisPipe/TripleAxisPipe.cpp')],
     ['what reaches callbacks and sinks, in order', 'return values', 'value, error, number, freshness of each node'])

prop('C36', 'The GPS sink takes from NMEA text exactly what its sound sentences say',
     'Text may reach a GPSWrapper in any pieces. Once more is held than a sentence can be long, every complete line is dealt with once, in order, and an '
     'unfinished last line is kept for what follows; no more than 1024 bytes are held. A line counts as parsed only if it is of a known kind, printable, not too long, '
     'closed by the right checksum (or without one by a carriage return) and each field has its form, and as rejected otherwise. Position, time, altitude, '
     'satellites, dilution, bearing and speed are those of the last sentence that told them, correctly scaled; a rejected line changes none of them, and an absent altitude, '
     'speed or date leaves the former. The callback is made once per speed sentence, with what was known then. Distances follow the great circle.',
     ['inputs', 'histories'], 'every text, sound or damaged, of every kind of sentence, cut into pieces anywhere',
     'Damage, cuts, omitted fields and numbers with many digits are endless; no test touches this sink.',
     ['src/Pipes/BufferAccepter/GPSWrapper/GPSWrapper.cpp', 'src/Pipes/BufferAccepter/GPSWrapper/GPSWrapper.h'],
     [('pushBuffer, _attempt_parse, _check, _scan', 'src/Pipes/BufferAccepter/GPSWrapper/GPSWrapper.cpp')],
     ['counts of sentences and callbacks, bytes held', 'the frame, and what each callback saw of it', 'distances'])
