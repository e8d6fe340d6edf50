CAUGHT = {}
NOTES = {
"C01": "Postconditions against the mathematical definition for all 2^32 arguments.",
"C02": "Encoder and decoder each under loop contracts: output position as a function of input position, the characters written for an arbitrary watched group equal the specification, nothing beyond the announced size. The round trip is a lemma over the two contracts for an arbitrary group and every tail length.",
"C03": "Loop contracts with an arbitrary watched source position and destination range; the round trip is a lemma per character class.",
"C04": "Loop contracts: remaining size, copied prefix (arbitrary offset), terminator; sizes 0 and exact fit included.",
"C05": "Loop contracts for trim, hex dump, UTF-8 counting; replacement allocates in a loop over matches, which needs a summation argument over strstr results and is only run bounded.",
"C06": "Representation invariant (length < capacity, terminated) preserved by every operation for arbitrary contents and sizes; growth through contracts for realloc and vsnprintf.",
"C08": "Window argument: an arbitrary bucket, an arbitrary entry with an arbitrary predecessor and the counts of the rest; get/put/remove/clear/foreach/expand under loop contracts. The lemma over the contracts: the map view of any key changes exactly as specified by each operation.",
"C09": "Window over an arbitrary node and its neighbours; the abstract sequence is tracked by position (ghost index) of the watched node.",
"C10": "In-object first storage and heap storage, each growth path, arbitrary element size and watched element.",
"C11": "Ghost stream positions: the ring holds bytes r..w of an unbounded stream; read/peek/discard/write keep it for an arbitrary watched stream position.",
"C12": "Reader verified against any interleaved writer steps and vice versa (rely/guarantee at every access of the shared indices).",
"C13": "Same stream argument for the simple ring, all-or-nothing.",
"C14": "Same, with eviction of the oldest bytes, stream position arithmetic and the lock around every access.",
"C15": "Abstract queue of (length, bytes) over the ring's contract (C11); an arbitrary watched message.",
"C16": "Fixed-size messages over the ring's contract; never torn because all amounts stay multiples of the size.",
"C17": "Buddy allocator: invariant on free lists and the control bytes through an arbitrary watched block and its buddy; split and merge under loop contracts.",
"C18": "allocator.c and allocation_tracker.c together over a raw heap that may fail, arbitrary sizes, guards at both ends; overwritten guards (an arbitrary byte of the 16), foreign and double frees must abort; intact blocks never.",
"C21": "Straight-line arithmetic with six divisions; SAT does not decide it, integer arithmetic with named lemmas (hours, leap years, centuries, March years) does, split by month. The oracle is the day count 365p + p/4 - p/100 + p/400 + days before the month.",
"C23": "The loops are cut with the operating system behind a contract (any short transfer, any failure); mkdirs is judged at an arbitrary watched path position, read_txt at an arbitrary watched position of an arbitrary line; handles and memory are counted by ghosts.",
"C19": "Each operation is checked from any document satisfying the invariant (names pairwise different ignoring case; the cache names an existing section or none), seen at two arbitrary sections and three arbitrary entries, over the list's contract; blocks are freed for real in the model, so a use after free is an obligation. Dump, re-parse, save and failing memory are covered by random histories against a reference map.",
"C20": "The four text helpers and the string line source are proved for strings of any length at a watched position. The line loop is cut and checked over the helpers' contracts for an arbitrary line of the default 200-byte buffer, any section, previous key and error state; the handler behind its contract may accept or refuse. A case split by line kind (nothing, continuation, section, key) covers every line. A native differential run against an independent reading of the text supplies failing inputs.",
"C22": "The cache is shared state with a lock invariant (empty, or exactly the rendering of the instant and zone it names); each call is checked from any cache satisfying it, under any interleaving, and reads after release see garbage. The RFC renderings for every broken-down time.",
"C25": "Lock invariant on the job queue and the counters; worker loop, add, wait, destroy each verified against it (any number of threads). Histories use cooperative threads with random scheduling.",
"C26": "Front end and worker against the queue contract with lock invariant; delivery exactly once by an arbitrary watched message.",
"C27": "Reference count step and every failure point of the start sequence.",
"C28": "Recorder stubs for stdio; the size limit, the line and the lock pairing on every path, any text length.",
}
