FIXED = [
 ("A01", "do not stop at repeated empty lines of index files", "two empty lines between stanzas (or before the first one): the rest of the index was silently left out"),
 ("A03", "absent checksums stay absent when loaded from JSON", "a checksum a record does not declare came back from JSON as an empty one, which no data matches"),
 ("A02", "notice damage behind the first paragraph of Release files", "compressed Release or Index truncated or corrupted behind its only paragraph: accepted"),
 ("A02", "notice xz files that end within a block header", "xz index truncated in a block header, or with a damaged header size: an empty or shortened list without an error"),
 ("C04", "answer requests whose downloads are unusable", "invalid or too large items were downloaded for ever; waiting clients did not share the result; errors expired early"),
 ("C01", "do not cache data that indices outdated during the download", "data checked against an index version that was replaced during the download was cached and served"),
 ("C04", "do not crash if an item cannot be saved", "a failing insert (disk full) ended the process"),
 ("C16", "ignore files listed outside of the repository", "a '..' name in an index set the checksum of a file of another prefix"),
 ("C01", "ignore outdated indices at startup", "a restart took checksums from cached indices that no longer match the cached Release"),
 ("C07", "start with broken indices in the cache", "a cached malformed index (the upstream served it so) prevented every later start"),
 ("C07", "do not refresh cached files of prefixes that are not mapped", "cached Release of a prefix no longer in the configuration: nil dereference at startup"),
 ("C14", "reject unworkable configurations of the cacher", "negative or overflowing intervals, negative max_conns, nested directories, too large capacity, URLs without host and prefixes '.' and '..' were accepted"),
 ("C10", "accept empty paths and paths with leading slashes", "a request for //ubuntu/x crashed the program"),
 ("C10", "return the same Content-Type for HEAD and GET", "GET sniffed a type, HEAD did not"),
 ("C05", "refuse to store items outside of the cache directory", "Insert accepted '../x'"),
 ("C10", "do not pass through statuses that are not final", "an upstream status below 200 made the handler panic or hang"),
 ("C01", "keep checksums of outdated indices at startup", "after a restart, checksums that only an outdated cached index lists were forgotten, and contradicting data was served"),
 ("C06", "do not modify file information returned from Storage.ListAll", "data race: Lookup calculated checksums lazily into the FileInfo ListAll had returned"),
 ("C13", "start checks of Release files after NewCacher has set up checksums", "data race: NewCacher went on writing the checksum map while goroutines checking Release files were reading it"),
 ("C11", "do not send queries of mapped URLs to upstreams", "the query of a mapped URL was sent with every request"),
 ("C04", "end requests and checks when the cacher is stopped while they wait for downloads", "SIGTERM while a request or a check waits for a download that well.Go does not start any more: the request is never answered and the program never ends"),
 ("C12", "do not start if cached indices cannot be read", "a read error on a cached index at startup was taken for a broken index: its checksums were forgotten, cached items became unavailable and contradicting data acceptable"),
 ("M03", "verify all checksums declared for a file by several indices", "two indices, suites or Release files declare different kinds of checksums for a file: only one of the declarations was verified, or equal declarations were taken for inconsistent ones"),
]
FIXED += [
 ("M08", "set the mode of downloaded files before syncing them", "power loss after the switch loses the chmod that followed fsync: the files stay in the mirror with mode 0600, and every following update reuses them so"),
]
FINDINGS = []
