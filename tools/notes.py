SMC = "stateless model checking of the real code"
ENV = " Trusted: the simulated file system, HTTP transport and scheduler (mc/vos, mc/vhttp, mc/vsched), the source instrumentation (mc/instr) and the reference models in mc/props."
def n(i, tech, note): NOTE[i] = (tech, note + ENV)
n("M01", SMC + ": all crash images and instants", "Every prefix of the journal of file system operations of the scenarios, process crash and power loss (subsets of unsynced operations), one system call fault, and bounded schedules.")
n("M02", SMC + ": fault enumeration", "Every single fault (two in thorough) at every system call, request and signal point.")
n("M03", SMC + ": upstream fault enumeration", "Every bad answer mode per file, pairs of them, by-hash on and off; every way in which two declarations of a file differ.")
n("M04", SMC + ": repository and schedule enumeration", "22 repository kinds x configurations against a reference model, plus bounded schedules.")
n("M05", SMC + ": version pairs and chains", "Every pair of published and current version of the repository zoo, chains in thorough.")
n("M06", SMC + ": leftovers, faults, crashes, schedules", "Every combination of 9 kinds of leftovers, each with 4 outcomes, single faults, signals, crash images.")
n("M07", SMC + ": interleavings of whole runs", "Two (three in thorough) runs under all interleavings of system calls within the deviation bound; second run at every system call.")
n("M08", SMC + ": crash images, then the next run", "Every crash image (process crash, power loss) of scenario runs incl. two crashes in a row; the next run must succeed and leave what an undisturbed run leaves.")
n("M09", SMC + ": faults x schedules", "Every mix of bad answers within the fault budget x max_conns x bounded schedules; connections counted by the simulated transport until the body is finished.")
n("M10", SMC + ": answers of canonical and by-hash names", "Every combination of wrong/right/missing content per name, declared checksum subsets, histories of by-hash support, moving upstreams, bounded schedules.")
n("M11", SMC + ": failure sequences", "Every sequence of failures per file up to the retry limit and beyond, many failing files, cancellation at any operation, bounded schedules; virtual time decides termination.")
n("M12", SMC + ": hostile names", "A list of hostile names at every place that lists names, pairs and sequences of them; everything outside the mirror, the other mirror, lock and links compared byte by byte.")
n("M13", SMC + ": mirror combinations x schedules", "Every combination of upstream and configuration state of three mirrors and requested ids; schedules and faults on two mirrors with every file system operation watched.")
n("M14", SMC + " under the race detector", "Happens-before race detection on every explored schedule; the controlled scheduler is invisible to the detector.")
n("M15", "exhaustive enumeration of inputs on the real code", "Index selection is pure and sequential: bounded exhaustive evaluation of the real code against a reference, plus whole runs; no schedules are involved.")
SEQ = "exhaustive bounded enumeration of executions of the real code"
n("A01", SEQ + ": documents and layouts", "The parser is sequential: all structures, and all placements of layout variations (two quick, three thorough) on few structures, run on the real code; no schedules are involved.")
n("A02", SEQ + ": reader faults, damage and malformed lines", "Every read failure offset and chunking, every truncation, bit flip, removed/doubled/zeroed byte of small documents in each form, every listed damage of every line.")
n("A03", SEQ + ": records, operation sequences, data", "Every record x operation sequence (JSON round trips, prefixes, copies) x data; reader and writer faults while copying.")
n("C05", SEQ + ": operation sequences", "Every sequence of operations up to the depth on few items against a reference LRU, records, odd paths, larger heaps; sequential, so no schedules.")
n("C01", SMC + ": operation sequences, upstream faults, schedules", "Every step sequence up to the depth (requests, publications, refreshes, restarts), every pair of replaced upstream answers, bounded schedules of clients against the refresh; responses judged by the versions clients had received before.")
n("C02", SMC + ": schedules with slow and failing fetches", "Two or three clients and the refresh on one file in every outcome; the simulated upstream counts fetches in flight.")
n("C03", SMC + ": outcome combinations x schedules", "max_conns 0-3, six requests over two hosts with every mix of outcomes, twice; open connections counted until bodies are finished.")
n("C04", SMC + ": upstream and system call faults, schedules", "Every pair (three in thorough) of bad upstream answers and of failing system calls, all sizes around the capacity, SIGTERM at every point; virtual time decides whether a request is answered.")
n("C06", SMC + ": linearizability of all schedules", "Every pair of programs of two calls (three of one call) under every interleaving within the deviation bound, judged by search for a linearization on a reference LRU; also under the race detector.")
n("C07", SMC + ": crash images, then restart", "Every crash image (process crash, power loss) of download, refresh, eviction and restart histories, incl. malformed indices and two crashes; the cacher is started on each and questioned with and without upstream.")
n("C08", SMC + ": timelines", "Every sequence of requests, outcomes and virtual time steps up to the depth against a reference; schedules around expiry; local failures.")
n("C09", SMC + ": outcomes of checks, publication times, schedules", "Every sequence of check outcomes up to the depth, publication at any half second, restarts, one failing system call, bounded schedules, all in virtual time.")
n("C10", SMC + ": requests, files, statuses", "Every path up to the length over an odd alphabet, every upstream status, request sequences over kinds of files, and HEAD/GET schedules against the net/http contract.")
n("C11", SMC + ": paths x base URLs", "Every path of up to 3 (4) components over 22, every short prefix, 16 base URLs; the requests the simulated upstream gets are compared with a reference mapping.")
n("C12", SMC + ": histories, then outage", "Every step sequence up to the depth that fills the cache and refreshes, then a complete upstream outage; upstream faults and schedules.")
n("C15", SMC + ": readers against replacement and broken transfers", "Every break offset and read size, every interleaving of file operations within the bound of readers with replacement and eviction, failing system calls.")
n("C13", SMC + " under the race detector", "Happens-before race detection on every explored schedule of clients, checks, eviction, expiry, startup and shutdown; the controlled scheduler is invisible to the detector. Accesses separated by an idle stretch of virtual time count as ordered.")
n("C14", "exhaustive enumeration of configurations on the real code", "Combinations of boundary values of the fields of both programs' configurations, decoded as the programs decode them, against reference rules; each accepted one is driven through downloads. Mostly sequential: no preemption bound.")
n("C16", SMC + ": hostile names, requests, schedules", "Every hostile name at every place that lists names, learned from requests, refreshes or at startup; the other repository's answers and every file outside the cache directories are compared with a run without that name; bounded schedules.")
n("C17", SMC + ": repeated histories", "Every history of events up to the depth is run four times on the real code and what the quiet process holds is compared; every failing system call of single events; schedules within a preemption bound compared with the default one.")
n("M16", SMC + ": sizes, faults, schedules", "Open files and connections of updates of 16 and of 40 files are compared for the default schedule and the one that prefers new goroutines (other schedules may pile up downloaded files that wait to be stored); fault pairs and bounded schedules for what is left behind.")
