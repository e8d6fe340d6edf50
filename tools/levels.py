CB = "contract-based deductive verification (CBMC on the real C code: "
TECH = {
 "C05": CB + "loop contracts as inductive cuts; strreplace by a bounded run)",
 "C18": CB + "contracts of the C allocator, map and abort; outstanding total of several blocks by a bounded run)",
 "C19": CB + "contracts of the linked list and the string functions; dump, save and parse by random histories)",
 "C20": CB + "loop contracts; the line loop over the contracts of its helpers)",
 "C21": CB + "verification conditions translated exactly to integer arithmetic, z3)",
 "C12": CB + "interference points with the other side's guarantee)",
 "C22": CB + "lock invariant on the shared cache)",
 "C23": CB + "contracts of the operating system's calls, loop contracts)",
 "C25": CB + "lock invariant, loop contracts)",
 "C26": CB + "contract of the queue, loop contracts)",
}
LEVEL = {}
NOTE = {
 "C05": "every function proved for all inputs except strreplace, a bounded run (original up to 4, pattern and replacement up to 2 characters), labelled bounded",
 "C18": "allocator calls, accounting and guard checks of a live block proved; the sum over live blocks is a bounded run (2 blocks), labelled bounded, plus random histories; the map and strlcpy by the contracts discharged in C08 and C04",
 "C19": "put, get, has, delete and iteration proved from any document and cache state at two arbitrary sections and three arbitrary entries; dump, re-parse and save are searched by random histories, not proved",
 "C20": "every text and line content up to the documented line buffer of 200; helpers for every length",
 "C21": "every instant of 1970-9999 and every whole-hour zone from -12 to +12, all obligations discharged in exact integer arithmetic (z3)",
 "C23": "every size, every pattern of short transfers and failing calls, every path; stdio, unistd and the file system by contract",
 "C22": "every instant, zone and earlier cache content; strftime/gmtime_r by contract, the conversion by the contract discharged in C21",
}
