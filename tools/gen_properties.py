#!/usr/bin/env python3
"""Writes properties.jsonl (one place to edit the property texts)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                     observe_at=observe or [], hook_needed=None)))

p("C01", "Power-of-two helpers are exact",
  "On 32-bit unsigned integers the power-of-two test answers true exactly for 2, 4, 8, ... 2^31. Rounding up returns the smallest of these not below the argument (0 for 0, and 0 when none fits); rounding down returns the largest of these not above the argument (0 for arguments below 2).",
  ["inputs"], "every 32-bit argument",
  "The integer demo prints a handful of values; the domain is 2^32 and the interesting values sit at its edges.",
  ["src/data/integer.c", "inc/data/integer.h"],
  [("is_power_of_2 / rounddown / roundup", "src/data/integer.c")])

p("C02", "Base64 encode/decode are exact inverses within the advertised buffer sizes",
  "For every non-empty byte buffer the encoder writes the standard padded Base64 text plus a terminating NUL, returns exactly the size its size helper announces and writes nothing outside that many bytes; decoding any such text yields the original bytes and length. Decoding any NUL-terminated text never reads past its terminator, never writes more than the decode size helper announces, and stops at the first character outside the alphabet.",
  ["inputs"], "every byte buffer of every length (including 1 and 2 byte tails), and every NUL-terminated text for the decoder",
  "The demo round-trips two fixed strings; lengths modulo 3, high-bit bytes and the end of the buffer need all inputs.",
  ["src/data/base64.c", "inc/data/base64.h"],
  [("lcu_base64_encode", "src/data/base64.c"), ("lcu_base64_decode", "src/data/base64.c"), ("size helpers", "src/data/base64.c")])

p("C03", "URL encode/decode are inverse, bounded and reject malformed input",
  "Decoding the encoding of any byte string gives back the same bytes and length; unreserved characters are copied, space becomes '+', every other byte becomes '%' and two hexadecimal digits. Neither direction writes beyond the destination size it was given (terminating NUL included): an encoder destination that is too small is reported as an error; a malformed escape or character makes the decoder report an error; otherwise the decoder returns the number of bytes produced and how far it read, stopping only at the end of the text, at an escape cut off by that end, or when the destination is full.",
  ["inputs"], "every source string, every destination capacity, every malformed escape",
  "The demo uses one string with ample buffers; exact-fit capacities, high-bit bytes and truncated escapes are not sampled.",
  ["src/net/url_encoder_decoder.c", "inc/net/url_encoder_decoder.h"],
  [("url_encode", "src/net/url_encoder_decoder.c"), ("url_decode", "src/net/url_encoder_decoder.c")])

p("C04", "Bounded string copy/concatenate always terminate and stay inside the buffer",
  "Copying into or appending to a buffer of stated size never touches a byte outside that size, leaves a NUL-terminated string whenever the size is non-zero (for append: whenever the existing content is terminated inside it), and leaves the longest prefix of the intended result that fits. The return value is the length the untruncated result would have, so truncation is always detectable.",
  ["inputs"], "every source string, every destination content and every size including 0 and exact fit",
  "Tests only copy short strings into roomy buffers; truncation arithmetic at the boundary is the whole contract.",
  ["src/mem/strings.c", "inc/mem/strings.h"],
  [("strlcpy", "src/mem/strings.c"), ("strlcat", "src/mem/strings.c")])

p("C05", "String helpers compute their documented result without leaving their buffers",
  "Trimming removes exactly the leading and trailing white space of the string and nothing else; replacing substitutes every non-overlapping occurrence, left to right, in a freshly allocated string; counting UTF-8 characters counts exactly the characters whose bytes lie in the examined range; the hex dump is the two-digit rendering of each byte, truncated with a mark when it does not fit. None of them reads beyond the input range or writes beyond the stated capacity, whatever the content or length.",
  ["inputs"], "every string, length, pattern and output capacity",
  "The string demo checks a few literals with comfortable capacities; truncation and byte-range ends are not exercised.",
  ["src/mem/strings.c", "inc/mem/strings.h"],
  [("strtrim", "src/mem/strings.c"), ("strreplace", "src/mem/strings.c"), ("strutf8len/strnutf8len", "src/mem/strings.c"), ("str_char2hex", "src/mem/strings.c")])

p("C06", "String builder holds exactly the concatenation of what was appended",
  "After any sequence of appends of strings, characters, bounded strings and formatted text, the builder's text is their concatenation, its length is that text's length and the text is NUL terminated; clearing makes it empty. It grows as needed without ever writing outside its storage, and a rejected append leaves the content unchanged.",
  ["histories", "inputs"], "every sequence of builder operations and every appended text, including those that force growth",
  "Tests append a few short strings; growth boundaries and the length/terminator relation after arbitrary histories are not reached.",
  ["src/mem/stringbuilder.c", "inc/mem/stringbuilder.h"],
  [("stringbuilder_append*", "src/mem/stringbuilder.c"), ("capacity growth", "src/mem/stringbuilder.c")])

p("C07", "Parameter-string store behaves as a key/value map and round-trips as text",
  "After parsing 'k=v;k2=v2' text and any sequence of add/delete operations, lookups return for each key the value set last and report absent keys as absent; values returned or serialised are intact copies independent of the caller's memory. Serialising and parsing again gives the same map, typed getters parse exactly the stored text and fail when it is not a complete number, and no operation leaks or double-frees memory.",
  ["histories", "inputs"], "every text and every sequence of add/delete/get operations",
  "The demo parses one literal; ownership on replace/delete and the parse of odd texts depend on history.",
  ["src/mem/str_params.c", "inc/mem/str_params.h"],
  [("str_params_create_str/add/del/get", "src/mem/str_params.c"), ("str_params_to_str", "src/mem/str_params.c")])

p("C08", "Hash map is a map: one entry per key, exact lookup, size and removal",
  "After any sequence of insert, lookup, memorise, remove and clear operations the map returns for every key the value most recently stored under an equal key and reports absence otherwise, regardless of hash collisions or growth. Replacing a value returns the old one, its size is the number of distinct keys present, and iteration visits every entry exactly once until the callback asks to stop.",
  ["histories", "inputs"], "every sequence of operations, every hash function consistent with equality (all collisions), every bucket shape",
  "There is no hashmap test in the suite; bucket chains and rehashing depend on history and hash values.",
  ["src/data/hashmap.c", "inc/data/hashmap.h", "src/data/hash_functions.c"],
  [("hashmap_put/get/remove", "src/data/hashmap.c"), ("expand_if_necessary", "src/data/hashmap.c"), ("hashmap_foreach", "src/data/hashmap.c")])

p("C09", "Linked list is a faithful sequence",
  "After any sequence of prepend, append, insert-after, remove and clear operations the list's iteration yields exactly the elements of the corresponding mathematical sequence, in order; length, front, back, emptiness and membership agree with it. Removal deletes exactly the first matching element, the list's element-free callback runs exactly once per removed element, and failed allocations leave the list unchanged.",
  ["histories", "inputs", "fault_sequences"], "every list content and length, every operation, every allocation failure",
  "The demo builds one small list; tail maintenance after removing first/last/only elements and allocation failures depend on history.",
  ["src/data/list.c", "inc/data/list.h"],
  [("list_insert_after/prepend/append/remove/clear", "src/data/list.c"), ("head/tail/length invariant", "src/data/list.c")])

p("C10", "Growable array keeps exactly the appended elements",
  "After any sequence of appends the array's length is the number of successful appends and element i is a byte-exact copy of the i-th appended value, across every growth step and non-zero element size. A failed growth or append reports failure and leaves all existing elements intact, and no element is ever written outside the storage.",
  ["histories", "inputs", "fault_sequences"], "every element size, capacity, length and allocation failure",
  "No test exercises the array; growth boundaries and size arithmetic overflow need extreme or failing allocations.",
  ["src/data/array.c", "inc/data/array.h"],
  [("array_append/grow", "src/data/array.c")])

p("C11", "Byte ring buffer is an exact bounded FIFO for every history",
  "The ring with power-of-two capacity behaves as a bounded FIFO of bytes: a write stores the longest prefix that fits, a read returns and removes the oldest bytes in order, a peek returns them without removing, a discard removes without copying, each reporting the count transferred; available-read plus available-write always equals the capacity. This holds when data wraps the end of the storage and when the running positions wrap past 2^32, and nothing is ever accessed outside the storage or the caller's buffers.",
  ["histories", "inputs"], "every capacity, every pair of running positions (hence every history), every requested size",
  "Tests push a few messages through one ring; position wrap-around needs 4 GiB of traffic and alignment corner cases.",
  ["src/ring/ringbuffer.c", "inc/ring/ringbuffer.h"],
  [("RingBuffer_write/read/peek/discard", "src/ring/ringbuffer.c"), ("RingBuffer_create*", "src/ring/ringbuffer.c")])

p("C12", "One writer and one reader may use the byte ring concurrently",
  "With one writing and one reading thread interleaved arbitrarily between the ring's memory effects, the writer never overwrites bytes that have not been read, the reader never returns bytes that have not been completely written, and every byte is read exactly once in order. In particular data is in place before it is announced as readable and space is announced as free only after its data has been copied out.",
  ["schedules", "inputs"], "every interleaving of one producer operation and one consumer's progress at the granularity of copies and position updates",
  "Two-thread tests observe a few schedules; a reversed copy/publish order is invisible unless preempted exactly between them.",
  ["src/ring/ringbuffer.c"],
  [("copy before position update in write", "src/ring/ringbuffer.c"), ("copy before position update in read", "src/ring/ringbuffer.c")])

p("C13", "Simple ring buffer is an all-or-nothing bounded FIFO",
  "The ring of N bytes stores up to N-1 bytes as a FIFO: a write or read of a length that does not fit or is not available transfers nothing and returns 0, otherwise transfers exactly that many bytes in order; peek does not consume, discard consumes without copying. Available-read plus available-write is always N-1, for any size and any wrap position, and no byte outside the storage or the given buffers is touched.",
  ["histories", "inputs"], "every size, every read/write offset, every requested length",
  "No test covers wrap positions; offsets at the exact end of the storage depend on history.",
  ["src/ring/ring_buf.c", "inc/ring/ring_buf.h"],
  [("ring_buf_write/read/peek/discard", "src/ring/ring_buf.c")])

p("C14", "Auto-covering buffer always keeps the newest bytes and never returns overwritten data",
  "A write of at most the capacity always succeeds completely and evicts only as many of the oldest bytes as needed, so the buffer holds the most recent bytes in order. A read at a stream position returns exactly the bytes originally written there and drops what precedes them, reports 'covered' when that position is no longer stored, and reports 'not enough' without consuming anything when more is asked for than is stored from there (positions count modulo the capacity, which is at most 2^30; at the write position itself either of the two reports may be given); every lock acquisition is matched by one release.",
  ["histories", "inputs"], "every capacity, every pair of running positions including past 2^32, every read position and length",
  "The demo walks one short history; wrapped layouts and full buffers depend on position arithmetic.",
  ["src/ring/autocover_buffer.c", "inc/ring/autocover_buffer.h", "src/ring/ringbuffer.c"],
  [("auto_cover_buf_internal_read", "src/ring/autocover_buffer.c"), ("auto_cover_buf_write", "src/ring/autocover_buffer.c")])

p("C15", "Variable-size message queue delivers whole messages in order",
  "Messages come out in the order they went in, byte-exact and with their exact size, for any interleaving of pushes and pops: a push either stores the whole message or stores nothing and reports 'full'; a pop delivers one whole message, or reports empty, not yet complete, or buffer too small (with the needed size) and consumes nothing. The size peeked beforehand is the size popped, and destroying twice is harmless.",
  ["histories", "inputs", "schedules"], "every queue state, message size and buffer size, including a message only partly written by the other thread",
  "Tests send small messages through the handler; wrap-around of headers and too-small buffers depend on history.",
  ["src/ring/msg_queue.c", "inc/ring/msg_queue.h", "src/ring/ringbuffer.c"],
  [("msg_queue_push/pop/next_msg_size", "src/ring/msg_queue.c")])

p("C16", "Fixed-size message queue is an exact bounded FIFO of messages",
  "Every message popped equals the oldest message pushed and not yet popped; a push onto a queue that cannot hold one more whole message is refused without effect, a pop from an empty queue likewise. Amounts available to push and pop, emptiness and fullness agree with the number of stored messages, and the number the queue can hold never exceeds the requested maximum; and a message is never torn for any message size.",
  ["histories", "inputs"], "every message size, capacity and queue state",
  "Only small power-of-two friendly sizes run in tests; message sizes that do not divide the storage wrap in the middle.",
  ["src/ring/fixed_msg_queue.c", "inc/ring/fixed_msg_queue.h", "src/ring/ringbuffer.c"],
  [("fixed_msg_queue_push/pop", "src/ring/fixed_msg_queue.c")])

p("C17", "Memory pool hands out disjoint, adequate, in-pool blocks and recycles them fully",
  "Every block the pool allocator returns lies inside the pool's memory, is at least as large as requested and overlaps no other live block; freeing returns its space so that freeing everything restores the initial state and a maximal allocation succeeds again. Reallocation (power-of-two sizes) preserves the content up to the smaller size, a failed allocation or reallocation leaves existing blocks untouched, and the reported statistics match the live blocks.",
  ["histories", "inputs"], "every sequence of allocate/free/reallocate of every size",
  "The demo performs one scripted sequence; splitting and coalescing bugs need particular histories.",
  ["src/mem/mplite.c", "inc/mem/mplite.h"],
  [("mplite_malloc_unsafe/free_unsafe", "src/mem/mplite.c"), ("buddy split/coalesce and control bytes", "src/mem/mplite.c")])

p("C18", "Tracked allocation is transparent and catches leaks and overruns",
  "Allocations through the library's allocator behave like the C allocator (requested usable size, zeroed calloc, content kept by realloc up to the smaller size, NULL handling), whether or not tracking is on. With tracking on, each live block is accounted exactly once with its size, the outstanding total is the sum of live blocks, and freeing a block whose guard bytes were overwritten or that is not live is detected.",
  ["histories", "inputs"], "every sequence of allocate/realloc/free, every size, every overwritten guard byte",
  "Test builds only show that normal use does not trip it; the detection and accounting need misuse and arbitrary histories.",
  ["src/mem/allocator.c", "src/mem/allocation_tracker.c", "inc/mem/allocator.h", "inc/mem/allocation_tracker.h"],
  [("canary layout", "src/mem/allocation_tracker.c"), ("lcu_malloc/calloc/realloc/free", "src/mem/allocator.c")])

p("C19", "INI document editing behaves as an ordered two-level map",
  "After any sequence of put, get, delete-key, delete-section operations, a lookup returns the value last put under that section and key and reports a missing section or key otherwise, independent of which section was accessed before. Dumping and re-parsing the text yields the same document, iteration visits each entry once in order until told to stop, and no operation touches freed memory.",
  ["histories", "inputs"], "every sequence of editing operations",
  "The demo edits one file in one order; cached lookups and deletion order are history dependent.",
  ["src/file/ini_parser.c", "inc/file/ini_parser.h"],
  [("section lookup cache", "src/file/ini_parser.c"), ("put/get/delete/foreach/dump", "src/file/ini_parser.c")])

p("C20", "INI reader reports exactly the entries of the text, stripped, with line errors",
  "For any text the reader calls the handler once per key/value line, in order, with the enclosing section name, the key and the value stripped of surrounding blanks and inline comments; blank lines and comment lines produce nothing. A malformed line yields the number of the first such line as the result, over-long lines and names never overflow their buffers, and a handler's refusal is reported as an error on that line.",
  ["inputs"], "every text, line length and section/key length",
  "The demo parses one well-formed file; line-length limits, missing delimiters and unusual blanks are not sampled.",
  ["src/file/ini_reader.c", "inc/file/ini_reader.h"],
  [("ini_reader_parse_stream", "src/file/ini_reader.c"), ("rstrip/lskip/find_chars_or_comment/strncpy0", "src/file/ini_reader.c")])

p("C21", "Seconds-to-calendar conversion is exact for every instant and zone",
  "The fast conversion from seconds since 1970 plus a whole-hour time zone to year, month, day, hour, minute and second equals the proleptic Gregorian calendar for every instant from 1970 on, leap years and century rules included, for every zone from -12 to +12. The result depends on the arguments only.",
  ["inputs"], "every second from 1970 through year 9999 and every whole-hour zone",
  "Tests convert 'now'; leap-day, year-end, century and post-2038 instants are never reached.",
  ["src/time/time_util.c", "inc/time/time_util.h"],
  [("time_util_fast_second2date", "src/time/time_util.c")])

p("C22", "Time strings are correct whatever was formatted before",
  "The formatted date/time text for an instant and zone is the fixed-width rendering of that instant's calendar fields and milliseconds, independent of earlier calls: a cached prefix is used only when it is the correct one. The produced length is constant, the text NUL terminated, and no byte outside the documented buffer size is written; the RFC 1123 and RFC 2822 renderings contain the right weekday, day, month, year, time and zone.",
  ["inputs", "histories"], "every pair of consecutive (instant, zone) calls",
  "Tests format the current time once; cache reuse across second, minute or zone changes needs two specific instants.",
  ["src/time/time_util.c", "src/time/time_rfc1123.c", "src/time/time_rfc2822.c", "inc/time/time_util.h"],
  [("cached second prefix", "src/time/time_util.c"), ("rfc renderers", "src/time/time_rfc1123.c")])

p("C23", "File helpers transfer everything or say so",
  "Reading or writing a whole buffer or file returns success only if every byte was transferred, in order, even when the operating system transfers fewer bytes per call than asked, and reports failure on any error without leaking handles or memory; the text reader NUL-terminates exactly after the data. Path helpers append a separator only when missing and create each missing parent directory in turn, for any path length, and refuse what does not fit instead of overrunning a buffer.",
  ["inputs", "fault_sequences"], "every size, every pattern of short reads/writes and failing calls, every path",
  "Tests use tiny files on a well-behaved file system; short transfers and failures in the middle do not occur there.",
  ["src/file/file_util.c", "inc/file/file_util.h"],
  [("read/write loops", "src/file/file_util.c"), ("file_util_mkdirs", "src/file/file_util.c")])

p("C24", "Log lines are filtered by level and never overrun or corrupt the line buffer",
  "A message is emitted exactly when its level is enabled and at least the configured minimum and some target is on; the callback receives the header followed by the complete formatted message with its exact length, NUL terminated, whatever the message length. No tag, function name, line number, thread id or message makes the formatter write outside its buffer, and every lock taken is released exactly once on every path.",
  ["inputs", "configurations"], "every level/threshold/target/format configuration and every tag, function name and message length",
  "Tests log short lines in default configuration; long tags, names and messages around the buffer size are not sampled.",
  ["src/log/xlog.c", "inc/log/xlog.h"],
  [("__xlog_internal_print", "src/log/xlog.c"), ("header printers", "src/log/xlog.c")])

p("C25", "Thread pool runs every accepted job exactly once and wait covers them all",
  "Every job accepted by the pool is taken by exactly one worker, in the order submitted, and executed exactly once with its own argument; a refused job leaves the pool unchanged. Whenever jobs are queued a wake-up is pending so no job is stranded, the wait operation returns only when no job is queued or running, and every lock is released on every path.",
  ["schedules", "histories"], "every interleaving at lock granularity: each critical section from an arbitrary state satisfying the pool invariant",
  "Tests run 16 jobs on 4 threads once; lost wake-ups and double execution need particular interleavings.",
  ["src/thread/thpool.c", "inc/thread/thpool.h"],
  [("jobqueue_push/pull", "src/thread/thpool.c"), ("binary semaphore", "src/thread/thpool.c"), ("thpool_wait", "src/thread/thpool.c")])

p("C26", "Queue handlers deliver each accepted message once, in order, until stopped",
  "Each message accepted by a message-queue handler is passed to the callback exactly once, whole and in acceptance order, unless it was cleared first or the handler stopped; a message refused because the queue is full is never delivered and is reported as refused. After the callback asks to stop or the handler is destroyed no further message is delivered or accepted, and every wait is backed by one post so that no accepted message is left unserved.",
  ["histories", "schedules"], "every queue content, every clear point and every callback result, each worker iteration from an arbitrary valid state",
  "Tests send one short batch; clearing while messages are queued, growth of the receive buffer and stop requests depend on history.",
  ["src/ring/msg_queue_handler.c", "src/ring/fixed_msg_queue_handler.c"],
  [("worker loop", "src/ring/msg_queue_handler.c"), ("token filter", "src/ring/fixed_msg_queue_handler.c"), ("push + post", "src/ring/fixed_msg_queue_handler.c")])

p("C27", "Global initialisation is reference counted",
  "Library-wide initialisation runs its subsystems' set-up exactly once no matter how often it is requested, and clean-up runs exactly once, when the last user leaves; surplus clean-up calls have no effect and a later initialisation works again.",
  ["histories"], "every sequence of initialise and clean-up calls",
  "The demo initialises once and cleans up once.",
  ["src/lcu.c", "inc/lcu.h"],
  [("lcu_global_init/cleanup", "src/lcu.c")])

p("C28", "File logger keeps lines whole, in order, and rotates only at the limit",
  "Every non-empty text (without NUL bytes) accepted by the file logger is written whole, as one line, in acceptance order to the current log file, as long as the file can be opened and written and the logger is not closed before the text's turn comes; a new file is started only once the current one has reached the configured size, and never when no size is configured. A text of any length is either accepted or reported as not accepted, its bytes are copied only inside the logger's own storage, every lock is released, and closing the logger closes the file exactly once.",
  ["histories", "inputs", "fault_sequences"], "every sequence of texts, every size and limit, every outcome of opening and writing the file and of queueing",
  "The demo writes a few lines with default sizes; the limit, refused texts and failing opens are not exercised.",
  ["src/log/file_logger.c", "inc/log/file_logger.h"],
  [("handle_log_queue_msg", "src/log/file_logger.c"), ("file_logger_log", "src/log/file_logger.c")])

p("C29", "Pool shutdown and blocking waits always make progress",
  "Destroying a thread pool, a message handler or a file logger eventually returns under every fair schedule, and a blocked wait on a queue, semaphore or pool eventually returns once its condition holds.",
  ["schedules"], "every fair schedule",
  "Liveness cannot be observed by finite tests.",
  ["src/thread/thpool.c", "src/ring/msg_queue_handler.c", "src/ring/fixed_msg_queue_handler.c", "src/log/file_logger.c"],
  [("thpool_destroy polling", "src/thread/thpool.c")])

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here, "properties.jsonl"), "w") as f:
    for x in P: f.write(json.dumps(x) + "\n")
print(len(P), "properties")
