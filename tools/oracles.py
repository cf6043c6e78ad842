# Short text per property: what the check compares with.
ORACLE = {
"A01": "documents are generated from structures (file lists with declared sums), so the expected list is known by construction; the extracted list has to be equal in paths, sizes and every sum, for every layout and compression.",
"A02": "every generated damage is known to make the document unreadable or malformed; the result has to be an error and a nil list. For intact documents the result under every chunking equals that of one read.",
"A03": "the rule itself (size equal and every declared sum equal), computed with the standard hash packages; a record after any sequence of JSON round trips, prefixes and copies answers as before, and the original does not change when a derived record is altered.",
"C01": "per client and index version handed out so far, the newest version whose listing any client has; each later 200 body has to be that version's content or a newer one, and never data that contradicts all of them.",
"C02": "downloads in flight per path counted by the simulated upstream (never above one); outcome of clients that joined a running download equals that of the download; a valid cached item causes no request.",
"C03": "open connections per host (until body EOF or close), never more than N; after the history N requests that the upstream holds open all get through at the same time.",
"C04": "every request has an answer when virtual time has come to rest (no runnable goroutine, no timer), the number of upstream requests per client request is bounded, no panic; the process is still able to answer a fresh request.",
"C05": "reference LRU (ordered list with sizes); after every operation results, listing, sizes, directory contents and file contents are compared.",
"C06": "search for a linearization (real-time order respected) of the recorded calls and results on the reference LRU; at the end listing, sum and disk contents have to agree with that linearization. Happens-before race detection in `race`.",
"C07": "every version of every file the upstream sent; what the restarted cacher serves has to be one of them, complete, and to satisfy the index that the restarted cacher itself serves; starting must succeed; a healthy upstream has to lead to 200s.",
"C08": "reference timeline: item state (cached, failed until t, unknown) as a function of requests, outcomes and virtual time; status and number of upstream requests are compared at each step.",
"C09": "for each publication time, the answers to requests one interval plus download time later, and the upstream's log of checks (no gap above an interval for the life of the process).",
"C10": "the net/http contract and the bytes of the simulated upstream; the response writer rejects a second header, bodies for HEAD and wrong lengths.",
"C11": "reference mapping written from the documentation (configured base URL joined with the cleaned rest, escaping compared after decoding); prefix rules as documented.",
"C12": "which items were cached and still satisfy the sums known to the cache (kept by the harness); in the outage each of them has to be 200 with its bytes, indices always.",
"C13": "race detector reports (any report is a violation).",
"C14": "reference rules per field; an accepted configuration is run: requests or an update must come to an end with success.",
"C15": "bodies of 200 answers are compared with the set of versions of the file; nothing that was aborted, partial or failed is among them.",
"C16": "a second execution without the hostile name: answers for the other prefix, and a byte for byte image of everything outside of the two directories.",
"C17": "the same process earlier: what it holds when quiet must not grow with each of the last three repetitions (differences between first and later ones do not count).",
"M01": "reference mirror (the tree an undisturbed update gives for each upstream version, itself checked by M04): at each instant and in each crash image the public name is absent (only before the first success) or shows exactly one such tree.",
"M02": "the public tree before and after (bytes), or the complete new tree if the switch had happened; exit status must be failure iff the update is not in place, also with failing fsync.",
"M03": "each published index and item is verified with independent code against the published Release files and indices, size and all declared sums.",
"M04": "reference model: from repository and configuration to the set of paths with contents, written from the documentation; trees are compared as a whole.",
"M05": "the tree of a fresh update of the same upstream state; the upstream's log must not contain files whose record is unchanged.",
"M06": "reference of live directories (targets of public links, those of other mirrors); the complete directory listing after the run is compared with the expected one, outside trees byte for byte.",
"M07": "which of the runs held the lock when (from the observed effects): at most one run changes anything in an interval; the others return an error; a further run at the end succeeds.",
"M08": "directory contents (normalised for time stamps) and public trees of a run without the crash.",
"M09": "open connections counted by the simulated transport; at the end N slow requests of a further update run at the same time.",
"M10": "hash of every file found under a by-hash name with standard hash packages; presence under all names of every index; success of the update in those combinations where one location has the announced content.",
"M11": "number of upstream requests per file, the virtual time at which the run ends, and the outcome expected for each failure sequence (up to five transient failures succeed).",
"M12": "image of everything outside the mirror's own directory before and after; either a failed run or a published tree that contains every listed file inside.",
"M13": "reference tree of each mirror by itself; after every file system operation each public name shows an old or new reference tree of its own.",
"M14": "race detector reports (any report is a violation).",
"M16": "an update of a smaller repository of the same kind under the same schedule; the files a run without failures leaves beside the tree.",
"M15": "reference selection written from the documentation, evaluated on every combination; `runs` compares with the files an update really takes.",
}
