#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (source of truth for the property list)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, state=(), observe=(), hook=None):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files,
            state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
            mechanism=[dict(name=a, where=b) for a, b in mech],
            observe_at=list(observe), hook_needed=hook)))

# ---------------------------------------------------------------- apt
p("A01", "Index parsing yields exactly the listed files with all declared checksums",
  "For every well-formed Release, InRelease, i18n Index, Packages or Sources document, plain or in any supported compressed form, extraction returns exactly the files the document lists, each with its normalised path, its size and every MD5, SHA1 and SHA256 checksum the document declares for it. The order of fields and sections, comments, PGP armour around the document and blank lines between stanzas never change the result.",
  ["inputs"], "every document built from a small grammar (entries x checksum sections x section orders x separators x armour x compression)",
  "The tests parse five fixed files and look for a few entries; they never vary which checksum sections exist, their order, armour or entry collisions.",
  ["apt/meta.go", "apt/parser.go"],
  [("getFilesFromRelease/Packages/Sources merge per-checksum sections by path", "apt/meta.go"), ("Parser.Read splits paragraphs, folds multi-line fields, strips PGP", "apt/parser.go")],
  observe=["apt.ExtractFileInfo", "apt.Parser.Read"])
p("A02", "Damaged indices are rejected, never silently shortened or misread",
  "If reading an index fails part way (read error, truncated or corrupted compressed stream) or the index contains a malformed entry (bad checksum hex, bad size, wrong number of columns, missing file name, size or directory, a line that belongs to no field), extraction reports an error and returns no file list. How the reader splits the bytes into chunks never changes the result.",
  ["inputs", "fault_sequences"], "every byte position of a set of small index documents x {short read, read error, truncation} and every single-field mutation",
  "The tests only feed complete, valid files from disk; no test injects a read error, a truncation or a malformed field.",
  ["apt/meta.go", "apt/parser.go"],
  [("Parser sticky error and Scanner error propagation", "apt/parser.go"), ("parseChecksum validation and error returns", "apt/meta.go")],
  observe=["apt.ExtractFileInfo"])
p("A03", "A file matches a record only if size and every declared checksum match",
  "File data is judged to match an index record if and only if path and size are equal and every checksum the record declares equals that of the data. A record keeps that meaning (declared checksums, by-hash locations, which data it accepts) after it is saved to and reloaded from its persistent JSON form, and after it is re-rooted under a prefix, which changes nothing but the path and leaves the original untouched.",
  ["inputs"], "every pair of records over a small domain of paths, sizes and present/absent/different checksums, and every chunking of the copied data",
  "The tests compare a dozen hand-picked pairs and round-trip one fully populated record.",
  ["apt/fileinfo.go"],
  [("FileInfo.Same", "apt/fileinfo.go"), ("MarshalJSON/UnmarshalJSON", "apt/fileinfo.go"), ("CopyWithFileInfo hashes while copying", "apt/fileinfo.go")],
  observe=["apt.FileInfo.Same", "json.Marshal/Unmarshal of apt.FileInfo", "apt.FileInfo.AddPrefix", "apt.FileInfo.SHA256Path"])

# ---------------------------------------------------------------- cacher
CF = ["cacher/cacher.go", "cacher/storage.go"]
p("C01", "The cache never serves content contradicting an index it already served",
  "For a repository tracked through one Release (or InRelease) file: once any client has received a version of an index (requested by its canonical name) that lists a checksum for a file, every request for that file that starts afterwards is answered with 200 only if the body matches that version's checksum or one from a newer upstream version of the index. Data that fails the known checksum is never served. After a restart this holds for what the cached indices list.",
  ["schedules", "inputs", "fault_sequences"], "all interleavings up to a deviation bound of clients, downloads and periodic refreshes while the upstream switches versions or serves corrupted, truncated or delayed data",
  "No test runs the Cacher at all; the violation needs a download in flight across an index refresh.",
  ["cacher/cacher.go", "cacher/storage.go", "apt/fileinfo.go"],
  [("fiLock makes Storage.Insert and the checksum map update one step", "cacher/cacher.go download"), ("Storage.Lookup compares checksums", "cacher/storage.go")],
  state=[("Cacher.info", "checksums known from indices", "cacher/cacher.go")],
  observe=["HTTP responses of cacher.NewServer(...).Handler", "upstream requests"])
p("C02", "At most one upstream fetch per item is in flight",
  "However many clients (and the periodic refresh) want the same item at the same time, at most one upstream download of that item is in progress at any moment, and clients that arrive while a download is running wait for it and then share its result, whether it succeeded or failed. An item that is cached and still valid is served without contacting the upstream.",
  ["schedules"], "all interleavings up to a deviation bound of 2-3 clients and a refresh on one item",
  "No test issues concurrent requests.",
  ["cacher/cacher.go"],
  [("dlChannels keyed by path under dlLock", "cacher/cacher.go Download")],
  observe=["upstream requests"])
p("C03", "Per-host upstream connection limit holds and no slot is ever lost",
  "With max_conns = N > 0, at no moment are more than N upstream connections open to one host (a connection counts until its response body is finished), and different hosts do not share slots. After any sequence of successes, error statuses, connection failures and broken transfers all N slots are usable again; with max_conns = 0 there is no limit and downloads still work.",
  ["schedules", "fault_sequences"], "all interleavings up to a deviation bound of several downloads over one or two hosts, with every upstream outcome",
  "No test contacts an upstream; a leaked slot only shows after N failures.",
  ["cacher/cacher.go"],
  [("hostSem counting channel", "cacher/cacher.go acquireSemaphore/releaseSemaphore")],
  observe=["open upstream connections per host"])
p("C04", "Every client request is answered",
  "Every GET or HEAD request gets a response after a bounded number of upstream attempts: no schedule, upstream behaviour (error status, connection failure, truncated body, data that never matches its checksum, an item larger than the cache) or storage failure makes a request hang, retry for ever, deadlock the server or crash the process.",
  ["schedules", "fault_sequences"], "all interleavings up to a deviation bound and all upstream outcome sequences up to a bound, including permanently bad upstreams and failing cache-directory operations",
  "The tests never run a request; liveness under persistent faults cannot be shown by samples.",
  ["cacher/cacher.go", "cacher/handler.go"],
  [("Get retry loop, result cache and download completion channel", "cacher/cacher.go")],
  observe=["HTTP responses", "process liveness"])
p("C05", "Cache storage is an exact LRU bounded by its capacity",
  "After any sequence of insert, overwrite, lookup, delete and reload operations, the total size of cached items never exceeds a non-zero capacity, the items kept are exactly those a least-recently-used policy keeps (insert and successful lookup count as use), and the cache files on disk are exactly the files of the listed items with the inserted contents. A lookup succeeds exactly when an item with matching size and checksums is cached, and paths that are absolute, not clean or leave the cache directory are refused.",
  ["histories"], "all operation sequences up to a depth over a small alphabet of paths, contents and sizes, including restart (reload) and files removed or left behind on disk",
  "The tests run three short fixed sequences; accounting and heap bugs need particular longer sequences.",
  ["cacher/storage.go"],
  [("heap ordered by logical clock, used counter, maint eviction", "cacher/storage.go")],
  state=[("Storage.used/lru/cache", "accounting, LRU heap, index", "cacher/storage.go")],
  observe=["Storage.Insert/Lookup/Delete/ListAll/Load results", "cache directory contents"])
p("C06", "Concurrent storage operations are linearizable and race free",
  "Concurrent insert, lookup, delete, list and load calls on one cache storage behave as if executed one at a time in some order consistent with real time, and afterwards accounting, listing and files on disk agree.",
  ["schedules"], "all interleavings up to a deviation bound of 2-3 threads with 1-3 operations on colliding paths",
  "The tests are single threaded.",
  ["cacher/storage.go"], [("Storage.mu", "cacher/storage.go")],
  observe=["Storage operation results", "cache directory contents"])
p("C07", "The cacher restarts after any crash and serves only complete data",
  "After a process crash or power loss at any point of downloading, replacing, evicting or starting up, the cacher starts again on the same directories without manual repair, and everything it then serves is a complete body the upstream once sent for that path (never truncated or mixed) that satisfies the checksums in the cached indices. This holds as well when the upstream had served malformed index files.",
  ["crash_points", "histories"], "every prefix of the file operations of a download history x every bounded loss pattern of unsynced data and directory entries, followed by a restart and requests",
  "No test crashes or restarts the cacher.",
  ["cacher/cacher.go", "cacher/storage.go"],
  [("temp file + fsync + link into place", "cacher/cacher.go download, cacher/storage.go Insert"), ("NewCacher rebuilds checksums from cached indices", "cacher/cacher.go")],
  observe=["NewCacher result after restart", "HTTP responses after restart"])
p("C08", "Upstream failures are remembered for the cache period, and no longer",
  "After an upstream fetch of an item that is not cached ends in a failure, requests for the item within cache_period seconds are answered with that failure status without contacting the upstream, and the first request after the period contacts the upstream again and can succeed. A failure of one item never affects another, and never outlives a later success.",
  ["histories", "schedules"], "all sequences of requests, upstream outcomes and time steps up to a depth",
  "No test covers the result cache or time.",
  ["cacher/cacher.go"], [("results map with delayed deletion", "cacher/cacher.go download/Get")],
  observe=["HTTP status", "upstream requests", "virtual time"])
p("C09", "Upstream index changes are picked up within the check interval",
  "Once a Release or InRelease file is cached (also after a restart), the cacher keeps re-checking it every check_interval for the life of the process, whatever individual checks return; so after the upstream publishes a new consistent version, requests made later than one check interval plus the download time are answered from the new version: the new Release, then new indices and items wherever their checksums changed.",
  ["schedules", "histories", "fault_sequences"], "all histories up to a depth of version switches, failing checks and restarts, with virtual time",
  "No test runs the refresh loop.",
  ["cacher/cacher.go"], [("maintMeta/maintRelease ticker", "cacher/cacher.go")],
  observe=["HTTP responses", "upstream requests", "virtual time"])
p("C10", "HTTP front end contract",
  "GET and HEAD are the only accepted methods (others get 501), HEAD returns the same status, Content-Type and Content-Length as GET with no body, a GET with 200 carries exactly the cached bytes, an unmapped prefix or an index in an unsupported compression gets 404 without contacting any upstream, and upstream error statuses are passed through. No request path, however odd, makes the handler panic.",
  ["inputs"], "every method x every path built from a small alphabet of segments x every upstream status class",
  "No test exercises the HTTP handler.",
  ["cacher/handler.go", "cacher/cacher.go", "apt/meta.go"], [("cacheHandler.ServeHTTP", "cacher/handler.go"), ("IsMeta/IsSupported", "apt/meta.go")],
  observe=["HTTP responses", "upstream requests"])
p("C11", "Client paths map exactly to the same path below the mapped repository URL",
  "For every request path, the upstream URL fetched (if any) has the scheme, host and base path configured for the prefix, and its decoded path is that base path followed by the cleaned remainder of the request path; no request can reach another host, another base path or carry a query or fragment, and invalid prefixes are refused at registration.",
  ["inputs", "configurations"], "every path up to a length over an alphabet of separators, dots and characters special in URLs x base URLs with and without trailing slash",
  "The test checks four ordinary paths.",
  ["cacher/urlmap.go", "cacher/handler.go"], [("URLMap.URL with ResolveReference", "cacher/urlmap.go")],
  observe=["upstream request URL", "URLMap.URL"])
p("C12", "Cached indices and valid items stay available",
  "Index files, once cached, are never removed to make room for other data, and as long as a cached file satisfies the currently known checksums it is served without needing the upstream, whatever the upstream answers to refreshes or other requests. Only non-index items count towards, and are evicted by, the cache capacity.",
  ["histories", "fault_sequences"], "all request histories up to a depth over indices and items that overflow the capacity, with upstream outages",
  "No test runs the cacher with both storages.",
  CF, [("separate meta storage with capacity 0", "cacher/cacher.go NewCacher")],
  observe=["HTTP responses during outage", "cache directories"])
p("C13", "The cacher has no data races",
  "In every explored interleaving of client requests, downloads, refreshes, evictions and result expiry, all conflicting accesses to the cacher's and storage's shared state are ordered by its locks or channels.",
  ["schedules"], "all interleavings up to a deviation bound, each watched by a happens-before race detector",
  "The race detector only sees the schedules that happen in single-threaded unit tests.",
  CF, [("fiLock, dlLock, hostLock, Storage.mu", "cacher/cacher.go, cacher/storage.go")],
  observe=["race detector reports"])
p("C14", "Only workable configurations are accepted",
  "Every cacher or mirror configuration is either rejected with an error before anything starts or works as documented: non-positive intervals or capacity, negative limits, relative, equal or nested directories, unsupported URL schemes, invalid prefixes or mirror ids, missing suites and mixed or over-specified flat repositories are rejected, and no accepted configuration later panics or hangs (max_conns = 0 means unlimited in both programs).",
  ["configurations"], "every combination of boundary values for the configuration fields, each accepted one driven through a download",
  "The tests decode one sample file per program and check single fields.",
  ["cacher/cacher.go", "cacher/config.go", "cacher/urlmap.go", "mirror/config.go", "mirror/mirror.go"],
  [("NewCacher checks", "cacher/cacher.go"), ("MirrConfig.Check, NewMirror checks", "mirror/config.go, mirror/mirror.go")],
  observe=["NewCacher / NewMirror / Run results"])
p("C15", "A response body is always one complete version of the file",
  "A client that receives 200 for a full GET gets exactly the bytes of one version of the file as sent by the upstream, even if the item is replaced, evicted or deleted while the response is being produced; partially downloaded, failed or temporary data is never served.",
  ["schedules", "fault_sequences"], "all interleavings up to a deviation bound of readers with replacement and eviction, with broken transfers",
  "No test reads while writing.",
  ["cacher/cacher.go", "cacher/storage.go", "cacher/handler.go"], [("link of a private temp file, open file outlives unlink", "cacher/storage.go")],
  observe=["HTTP response bodies"])
p("C16", "One repository's indices cannot affect another repository",
  "Whatever file names the indices of one mapped repository contain (including absolute and '..' paths), they never change which content is accepted or served for paths under another prefix, and never cause files outside the cache directories to be created, replaced or removed.",
  ["inputs"], "every index listing with file names from an alphabet of hostile path shapes, followed by requests to a second repository",
  "No test uses two repositories or hostile names.",
  ["cacher/cacher.go", "apt/meta.go"], [("addPrefix", "cacher/cacher.go")],
  observe=["HTTP responses for the other prefix", "file system outside the cache directories"])
p("C17", "The cacher's use of resources does not grow with use",
  "When a history of requests (hits, misses, HEAD, partial, refused ones, clients that go away), downloads with any outcome, new upstream versions, checks of Release files with any outcome, evictions and failing system calls is repeated again and again for the same files (and for arbitrary names that do not exist) and the cacher is quiet for a check interval and the cache period each time, it does not hold more open files, upstream connections, goroutines, files in its directories (temporary ones included) or remembered values each time, nor does it send more and more requests to the upstream. One repetition with another schedule does not leave anything more either.",
  ["histories", "schedules"], "all histories of events up to a length, each repeated until growth shows, every single failing system call, and all interleavings up to a deviation bound",
  "Leaks show after thousands of requests or on error paths; no test runs requests at all.",
  ["cacher/cacher.go", "cacher/handler.go", "cacher/storage.go"],
  [("temporary files and connections are released by deferred calls, results expire, one checker per Release file", "cacher/cacher.go")],
  observe=["open files, connections, goroutines and files of the quiet process", "upstream requests"])

# ---------------------------------------------------------------- mirror
MF = ["mirror/mirror.go", "mirror/storage.go", "mirror/control.go"]
p("M01", "A published mirror is complete and consistent at every instant",
  "At every instant, and after a process crash or power loss at any point of a mirror run (including garbage collection), the public name of each mirror either does not exist yet or resolves to a complete mirror of one upstream version: all Release files and indices of that version and every file its selected indices list, each with the right bytes. Once the public name has existed it never disappears, and after a successful run it durably shows the new version.",
  ["crash_points", "schedules"], "every prefix of the file operations of first and repeated runs x every bounded loss pattern of unsynced data and directory entries, plus an observer at every step",
  "No test runs an update; crash states cannot be produced by unit tests.",
  ["mirror/mirror.go", "mirror/storage.go", "mirror/dirsync.go", "mirror/control.go"],
  [("fsync of files, DirSyncTree, then symlink + rename + directory fsync", "mirror/mirror.go replaceLink, mirror/storage.go Save"), ("gc keeps what symlinks point to", "mirror/control.go")],
  observe=["public symlink and the tree it resolves to"])
p("M02", "A failed update leaves the published mirror untouched",
  "If an update of a mirror fails or is interrupted for any reason (upstream errors, corrupted or missing items, file system errors, cancellation), the run reports an error and what the mirror's public name shows is exactly what it showed before (or, if the failure hits only after the new version was put in place, that complete new version); failures are never reported as success.",
  ["fault_sequences", "schedules"], "every single (and bounded double) fault at every upstream request and every file system operation of an update",
  "No test runs an update or injects faults.",
  MF, [("publish only after all downloads and Save succeed", "mirror/mirror.go Update")],
  observe=["Run result", "public tree before and after"])
p("M03", "Only data verified against the indices is published",
  "Every index and item reachable under a published mirror name has the size and all the checksums that the published Release files and the selected indices declare for it (what a Release file declares for a file goes before other indices), whatever the upstream sent (corrupted, truncated, swapped or stale data), including data reused from the previous version.",
  ["fault_sequences", "inputs"], "every corruption (same size, other size, truncation, other file's data, previous version's data) of every file the upstream serves, and every set of declared checksum kinds",
  "No test downloads anything.",
  ["mirror/mirror.go", "apt/fileinfo.go", "mirror/storage.go"], [("download compares FileInfo.Same", "mirror/mirror.go"), ("Lookup compares recorded checksums", "mirror/storage.go")],
  observe=["published tree", "Run result"])
p("M04", "A successful update mirrors exactly what the configuration selects",
  "After a successful update the mirror contains exactly: the Release files the upstream has for each configured suite, the indices those list that the upstream has (Sources only if sources are mirrored), the by-hash names of those indices where the repository supports them, and every file listed by the selected indices (configured sections, architectures plus 'all', sources if enabled; everything in flat repositories) - nothing selected is missing and nothing else is there, and all of it is world-readable.",
  ["configurations", "inputs"], "every configuration over small sets of suites, sections, architectures, source flag and flat layout x repository layouts (compressions, by-hash, missing indices, shared pool items)",
  "The tests never run an update; MatchingIndex is checked on a dozen paths.",
  ["mirror/mirror.go", "mirror/config.go", "mirror/storage.go"], [("updateSuite/extractItems/downloadFiles", "mirror/mirror.go"), ("MirrConfig.MatchingIndex", "mirror/config.go")],
  observe=["published tree"])
p("M05", "Incremental updates equal fresh ones and reuse unchanged files",
  "Updating a mirror that already holds any earlier version gives exactly the same published tree as mirroring the current upstream version from scratch, and no index or item whose recorded size and checksums are unchanged since the published version is downloaded again.",
  ["histories"], "all histories of upstream versions (add, remove, change, revert, toggle by-hash, failed updates between) up to a depth",
  "No test performs two updates.",
  ["mirror/mirror.go", "mirror/storage.go"], [("reuseOrDownload, Storage.Lookup, info.json", "mirror/mirror.go, mirror/storage.go")],
  observe=["published tree", "upstream requests"])
p("M06", "Garbage collection removes old data and never live data",
  "After a run, whether it succeeded or failed, every mirror's public name that existed still resolves to its complete tree, including mirrors not updated by this run or no longer configured, and the lock file remains; directories of superseded, failed or crashed updates that no symlink uses are gone, and nothing outside the mirror directory is touched.",
  ["histories", "crash_points"], "all histories up to a depth of runs over two mirrors (subset selections, failures, crashes, removed configuration)",
  "No test calls gc.",
  ["mirror/control.go"], [("gc collects symlink targets as in use", "mirror/control.go")],
  observe=["mirror directory listing and trees"])
p("M07", "Only one run at a time works on a mirror directory",
  "While one run is active on a directory, any other run started on it returns an error without changing anything in the directory, and after a run ends in any way (success, failure, crash) the next run can start. This holds also when the directory was empty before and both start simultaneously.",
  ["schedules", "crash_points"], "all interleavings up to a deviation bound of two or three runs on one directory, including crashes",
  "The test locks one file twice; it never starts two runs.",
  ["mirror/control.go", "mirror/flock.go"], [("flock on .lock held for the whole run", "mirror/control.go Run")],
  observe=["Run results", "mirror directory changes while another run holds the lock"])
p("M08", "A run after any crash succeeds and converges",
  "After a process crash or power loss at any point of a run, the next run (started at a later second, with a healthy upstream) succeeds without manual cleaning and leaves the same public trees and the same directory contents, all of it readable by every user, as if no crash had happened.",
  ["crash_points", "histories"], "every crash point and bounded loss pattern of first and repeated runs, each followed by a run",
  "No test crashes a run.",
  MF, [("fresh timestamped directory per run, stale .tmp link removal, gc", "mirror/mirror.go, mirror/control.go")],
  observe=["Run result", "mirror directory after recovery"])
p("M09", "Upstream connection limit per mirror holds and no slot is lost",
  "With max_conns = N > 0 a mirror never has more than N upstream connections open at once (a response counts until its body is finished), including while retrying; after any mix of failures all slots remain usable, and with max_conns = 0 there is no limit and updates work.",
  ["schedules", "fault_sequences"], "all interleavings up to a deviation bound of a small update with every upstream outcome",
  "No test downloads anything.",
  ["mirror/mirror.go"], [("semaphore channel", "mirror/mirror.go")],
  observe=["open upstream connections"])
p("M10", "By-hash names are correct and are used to survive index changes",
  "In a published mirror of a repository that announces by-hash support, every mirrored index is available under its canonical name and under by-hash names for MD5Sum, SHA1 and SHA256, every by-hash name holds exactly the data with that hash, and repositories without by-hash support get no by-hash names. If the upstream serves other content than announced under an index's canonical name but the announced content under a by-hash name, the update uses the by-hash content.",
  ["inputs", "fault_sequences"], "every combination of announced flags, declared checksum kinds, Release/InRelease disagreement and per-name upstream content",
  "One test stores two small files with by-hash links; no download path is tested.",
  ["mirror/mirror.go", "mirror/storage.go", "apt/fileinfo.go", "apt/meta.go"], [("StoreLinkWithHash, by-hash download targets", "mirror/storage.go, mirror/mirror.go")],
  observe=["published tree", "Run result"])
p("M11", "Updates terminate, and tolerate transient upstream failures",
  "Every run terminates for every sequence of upstream failures and cancellations: it never deadlocks, and contacts the upstream at most a bounded number of times per file. A file whose download fails with a connection error, a 5xx status or a broken transfer up to five times and then succeeds does not fail the update; a cancelled run stops promptly with an error.",
  ["fault_sequences", "schedules"], "all upstream outcome sequences up to a bound per file, all interleavings up to a deviation bound, cancellation at every step",
  "No test downloads anything.",
  ["mirror/mirror.go", "mirror/control.go"], [("retry loop with httpRetries and back-off", "mirror/mirror.go download"), ("well.Environment cancellation", "mirror/mirror.go")],
  observe=["Run result", "upstream requests", "virtual time"])
p("M12", "A mirror only ever writes below its own directory",
  "Whatever file names an upstream's Release files and indices contain (absolute, '..', odd or colliding names), an update creates, replaces or removes files only below the mirror directory - and never another mirror's published tree, the lock file or public links - and either publishes a mirror that keeps all listed files inside its own tree or fails.",
  ["inputs"], "every index listing with file names from an alphabet of hostile path shapes in every index kind",
  "No test uses hostile names.",
  ["mirror/mirror.go", "mirror/storage.go", "apt/meta.go"], [("path cleaning and joining below the storage directory", "mirror/storage.go")],
  observe=["all file system changes of the run"])
p("M13", "Mirrors updated in one run do not disturb each other",
  "When several mirrors are updated in one run, each mirror's public name shows, at the end and at every moment, a complete old or complete new version of that mirror only; a run that reports success has published every mirror it was asked to update, and the outcome of a mirror never depends on data of another.",
  ["schedules", "fault_sequences"], "all interleavings up to a deviation bound of two mirrors updating, with failures in either",
  "No test runs updates.",
  MF, [("per-mirror storage, shared environment", "mirror/control.go updateMirrors")],
  observe=["public trees", "Run result"])
p("M14", "The mirror updater has no data races",
  "In every explored interleaving of downloads, result handling, reuse of old files and several mirrors, all conflicting accesses to shared state are ordered by locks or channels.",
  ["schedules"], "all interleavings up to a deviation bound, each watched by a happens-before race detector",
  "Concurrent update code is not executed by the tests.",
  ["mirror/mirror.go", "mirror/storage.go"], [("Storage.mu, result channels, well.Environment", "mirror/mirror.go, mirror/storage.go")],
  observe=["race detector reports"])
p("M15", "Index selection follows the configuration exactly",
  "For every configuration and index path, an index is selected exactly when it is a Release or Index file, or a Packages index of a configured section (matched as whole path components) and a configured or 'all' architecture, or a Sources index of a configured section with sources enabled; flat repositories select all Packages (and Sources if enabled). The Release file names looked up for a suite are exactly those of that suite, and every relative path resolves to the same path below the repository URL.",
  ["configurations", "inputs"], "every configuration over small sections/architectures/suites x every index path over a small alphabet of components and extensions",
  "The tests check about twenty hand-picked paths against one sample configuration.",
  ["mirror/config.go"], [("MatchingIndex, ReleaseFiles, Resolve", "mirror/config.go")],
  observe=["MirrConfig.MatchingIndex", "MirrConfig.ReleaseFiles", "MirrConfig.Resolve"])
p("M16", "An update takes bounded resources and leaves no rubbish",
  "The number of files and connections a running update keeps open depends on max_conns, not on how many files, indices or suites the mirror has (results being stored as they arrive); every file is requested once, and again only after a failure; and after a successful update, whatever failures it recovered from, no connection is open and the directory of the published version holds the mirror, its file list and nothing else (no temporary files of failed or rejected downloads).",
  ["inputs", "fault_sequences", "schedules"], "repositories of two sizes compared for every kind of repository, previous state and transient failure; every fault pair and every schedule within the bound for what is left behind",
  "No test runs an update; limits of open files show on large mirrors only.",
  MF, [("files are closed in loops, temporary files removed on retry", "mirror/mirror.go download, extractItems")],
  observe=["open files and connections of the run", "directory of the published version", "upstream requests"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P: f.write(json.dumps(x) + "\n")
print(len(P))
