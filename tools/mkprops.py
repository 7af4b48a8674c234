#!/usr/bin/env python3
"""Source of /verif/properties.jsonl (one place to edit; run to regenerate)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, observe, state=()):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files,
            state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
            mechanism=[dict(name=a, where=b) for a, b in mech],
            observe_at=observe, hook_needed=None)))

prop("C01", "Every stored object is retrievable bit-for-bit, in every form",
 "When a store (resource or metadata, from a file or from a stream delivered in any chunks) exits successfully and prints an ID, every later retrieval of that ID - get plain, get -z, get -n, get -o, and the CGI service with and without gzip - yields exactly the stored bytes and a header whose length, digest, type and media type describe them. This holds for every content, size, number of segments and archive configuration, and for the ID in bare, full-URI, lower- and upper-case spelling. An empty input is refused and adds nothing.",
 ["inputs", "configurations", "schedules"],
 "all byte strings (zeros, incompressible, text, sizes around every internal buffer and segment boundary), all read-chunkings of a stream, id sizes 64-256 bit, silo sizes, silo basenames, positions below and beyond 2 and 4 GB of a silo",
 "The scripts in tests/ store a handful of fixed inputs with two configurations and one read chunking; they never vary stream chunking, id size or where the segment split falls.",
 ["main_store.c", "segjob.c", "wsilo.c", "gzip.c", "header.c", "getjob.c", "rsilo.c", "main_get.c", "main_cgi.c"],
 [("feed loop steering gzip into the silo", "segjob.c SegJob_Feed"), ("header padding / gzip member layout", "wsilo.c Wsilo_Header, Wsilo_Commit"),
  ("gzip member stitching", "gzip.c gzip_stitch_feed"), ("digest re-check on get", "main_get.c main_get")],
 ["stdout, -o file, stderr header and exit status of store/get/cgi"])

prop("C02", "Acknowledged objects survive a crash at any instant",
 "If any set of aardwarc processes (store, housekeeping, reindex, mksilo, stow servers) is killed at any instant and new processes run afterwards, every object whose ID had been printed stays retrievable bit-for-bit, no read operation fails or aborts because of what the dead process left, and later stores (including a retry of the interrupted one) succeed and are retrievable.",
 ["crash_points", "schedules", "histories"],
 "a kill before or after every shared-state system call of every participating process, alone or with other processes running, followed by an arbitrary continuation",
 "No test kills anything: the suite only sees complete runs, so the states between index insert, link, append, merge and unlink are never observed.",
 ["wsilo.c", "index.c", "segjob.c", "silo.c", "getjob.c"],
 [("hold file then link(2) install", "wsilo.c Wsilo_New, Wsilo_Install"), ("single-writev append then index insert", "wsilo.c silo_attempt_append"),
  ("link/unlink snapshot and rename of the sorted index", "index.c idx_attempt_merge, idx_merge"), ("segment commit order", "segjob.c SegJob_Commit")],
 ["get/byid/dumpindex/audit/store after the crash"],
 [("hold files", "exclusive claim on a silo number", "wsilo.c"), ("index appendix/housekeep/sorted", "where each record lives", "index.c")])

prop("C03", "A failing disk or input never turns into a false acknowledgement",
 "If any system call of an operation fails (I/O error, full disk, short write, unreadable input, failed allocation, failed mkdir/link/rename) the operation either still does exactly what it promised or ends with a non-zero exit or signal, without having printed the success result; a store that exits 0 has stored its complete input, a get that exits 0 delivered complete correct data, and objects acknowledged earlier stay retrievable and no silo is left with a damaged record.",
 ["fault_sequences", "inputs", "schedules"],
 "one or more injected failures (EIO, ENOSPC with and without a partial write, EMFILE-like open failures, read errors, malloc failure) at every call index of every operation",
 "The test suite never makes a system call fail.",
 ["main_store.c", "main_get.c", "wsilo.c", "index.c", "segjob.c", "rsilo.c"],
 [("assert on every short write", "wsilo.c Wsilo_Store, silo_attempt_append; index.c IDX_Insert"), ("read-error handling of the input", "main_store.c main_store"),
  ("output checks", "main_get.c get_iter")],
 ["exit status, stdout and the archive contents afterwards"])

prop("C04", "Silos are append-only and write-protected silos are never touched",
 "Once a silo file is visible under its final name, its existing bytes never change, it is never truncated, replaced or removed, and any growth is exactly whole appended records; a silo without the owner write bit never changes at all. This holds during and after any mix of operations, concurrent or interrupted.",
 ["histories", "schedules", "crash_points", "fault_sequences"],
 "every interleaving of stores, metadata stores, housekeeping, reindex, rebuild, mksilo, stow, with kills and faults, checked after every single write",
 "Tests never compare silo bytes before and after, and never use a write-protected silo or two writers.",
 ["wsilo.c", "main_mksilo.c", "main_rebuild.c"],
 [("O_APPEND single writev under the hold", "wsilo.c silo_attempt_append"), ("link(2) refuses to replace", "wsilo.c Wsilo_Install"), ("S_IWUSR check", "wsilo.c silo_attempt_append")],
 ["bytes of every silo file after every mutating system call"])

prop("C05", "Every silo is at all times a valid WARC file and audit agrees",
 "At every quiescent point each silo is a sequence of complete, correctly framed gzip members that form valid WARC/1.1 records: a warcinfo record first which names the silo and says what the configuration says (whatever it says, if anything), every mandatory header present, Content-Length, block/payload digests and record IDs correct for the decoded body, length hints that match; and 'audit' run on it reports zero bad entries for all silos.",
 ["histories", "inputs", "configurations", "crash_points"],
 "all contents, all append/segment mixes, after clean runs, crashes and refused operations",
 "Tests run audit on one small archive; they never parse silos independently or after concurrency, crashes or unusual configurations.",
 ["wsilo.c", "warcinfo.c", "header.c", "segjob.c", "main_audit.c", "ident.c"],
 [("header serialisation with Aa extra field", "gzip.c Gzip_Vsb, Gzip_WriteAa"), ("header padding rewrite", "wsilo.c Wsilo_Commit"), ("audit", "main_audit.c")],
 ["silo bytes (independent parser), audit output"])

prop("C06", "No silo ever exceeds the configured maximum size",
 "No silo file is ever larger than silo.max_size, whatever is stored, appended or segmented and whatever runs concurrently, and a store of an object of any size still succeeds by using more silos.",
 ["inputs", "configurations", "schedules"],
 "all contents and sizes near the remaining space, small, odd and huge (beyond 2 and 4 GB) max_size values, concurrent appenders",
 "Tests check no silo size; limits only bite at exact byte boundaries and when two writers race for the same remaining space.",
 ["wsilo.c", "segjob.c"],
 [("space check repeated under the hold", "wsilo.c silo_attempt_append"), ("flush steering near the end", "segjob.c SegJob_Feed"), ("buffer limited by remaining space", "wsilo.c Wsilo_GetSpace")],
 ["size of every silo file after every write"])

prop("C07", "Concurrent operations are isolated; acknowledged means visible",
 "With any number of operations running at once, none aborts, fails or returns wrong data because of the others; an object whose store was acknowledged before a read began is found by that read, a read of an object being stored either says not found or returns it completely, and no object is lost or mixed up with another.",
 ["schedules", "histories"],
 "all interleavings (at system-call granularity) of stores, gets, lookups, filters, housekeeping, reindex, mksilo, audit",
 "Every test is strictly sequential.",
 ["wsilo.c", "index.c", "getjob.c", "segjob.c", "main_byid.c", "main_filter.c"],
 [("hold files with O_EXCL", "wsilo.c"), ("atomic 32-byte O_APPEND index records", "index.c IDX_Insert"), ("snapshot by link/unlink, publish by rename", "index.c idx_attempt_merge, idx_merge"), ("read order of the index files", "index.c IDX_Iter")],
 ["results of every operation in the recorded history, and of all objects at the end"])

prop("C08", "The index is rebuildable from the silos alone",
 "After deleting any or all index files, 'reindex' (of everything, or silo by silo in any order) restores an archive where exactly the same IDs answer get, byid, filter and cgi with exactly the same data as before; repeated or interrupted reindexing, also on top of an existing index, loses and invents nothing.",
 ["histories", "crash_points", "inputs"],
 "archives with multi-segment objects stored in any order and interleaving, records beyond 2 and 4 GB of a silo, index files lost in any combination, any silo order, kills in mid-reindex followed by a rerun",
 "One test reindexes one archive in one order and only greps the output.",
 ["main_reindex.c", "index.c", "silo.c"],
 [("segment matching list", "main_reindex.c got_seg, try_seg"), ("rematch against existing index", "main_reindex.c reindex_iter")],
 ["get/byid/filter/dumpindex before and after"])

prop("C09", "Housekeeping never changes what the archive contains",
 "Housekeeping, run at any time, any number of times, with any sort size, interrupted anywhere and re-run, never adds, loses or alters an index record: the set of records the index reports (apart from exact duplicates) and the answer to every lookup stay the same.",
 ["histories", "crash_points", "schedules", "configurations"],
 "all record sets (incl. exact duplicates, skewed IDs), sort sizes >= 4096 that force multiple merge passes, kills at every step, races with inserts",
 "Tests run housekeeping once on a small index in a single pass.",
 ["index.c", "main_housekeeping.c"],
 [("chunked sort and merge", "index.c idx_attempt_merge, idx_merge"), ("publish by rename, unlink snapshot last", "index.c idx_merge, idx_attempt_merge"), ("hold", "index.c IDX_Resort")],
 ["dumpindex, byid, get before/after"])

prop("C10", "Index lookup is exact for every key, prefix and index layout",
 "A lookup by full ID or by any hex prefix reports exactly the records whose ID begins with it, no matter which index files hold them, how the IDs are distributed, or whether the key exists; lookups of absent keys answer cleanly not found. dumpindex -t reports of them exactly those of the asked type, segmented objects included.",
 ["inputs", "histories", "configurations"],
 "skewed and clustered IDs (forced IDs, common prefixes), few or many records, all splits of records over sorted/housekeep/appendix, prefixes of every length incl. odd and over-long, upper case",
 "Tests look up a few fixed IDs in an index with a handful of records; the bucket arithmetic is only wrong for particular distributions.",
 ["index.c", "getjob.c", "main_byid.c", "main_dumpindex.c"],
 [("bucket interpolation", "index.c bucket_update, bucket_seek"), ("linear scan and early stop", "index.c IDX_Iter")],
 ["byid/dumpindex/get output and exit status"])

prop("C11", "IDs are content-determined and storing again adds nothing",
 "The ID printed for a resource is the truncated SHA-256 of its bytes and for metadata the documented digest of reference and body (or the forced ID), independent of chunking, configuration of silo sizes, clock and archive state; storing an object that is already present prints the same ID, exits successfully and leaves every silo and the set of index records unchanged.",
 ["inputs", "histories", "schedules"],
 "all contents and sizes incl. multi-segment, repeats in any order, after housekeeping/reindex, under concurrency (at most one copy per overlapping store)",
 "Tests re-store one file; whether the existing copy is found depends on segmentation, index layout and history.",
 ["ident.c", "segjob.c", "getjob.c", "main_store.c"],
 [("ID computation", "ident.c Ident_Create"), ("presence check before commit", "segjob.c SegJob_Commit")],
 ["store stdout/exit status; silo bytes; dumpindex"])

prop("C12", "Audit detects any alteration of stored content",
 "If bytes of a silo are altered, or a tail is cut off, so that any record's decoded content, headers or framing no longer match, then 'audit' of that silo does not report a clean result: it reports bad entries, leftover segments or fails; on an unaltered archive it reports none.",
 ["inputs", "fault_sequences"],
 "every byte position, bit flips, overwrites, truncations, swapped or missing segments, on archives of all shapes",
 "Tests corrupt nothing (a few crafted invalid silos aside).",
 ["main_audit.c", "rsilo.c", "header.c", "ident.c"],
 [("digest and length re-computation", "main_audit.c audit_one, audit_final_pending"), ("gzip CRC", "rsilo.c Rsilo_ReadChunk")],
 ["audit stdout and exit status"])

prop("C13", "Retrieval never delivers wrong data as success",
 "Whatever has happened to the silo or index files (bit flips, truncation, stale, duplicated or misdirected index records), a plain get that exits 0 has delivered exactly the content that its ID stands for; otherwise it ends with a non-zero exit or a signal. (Records rewritten as a whole, with a digest made to match the new content, are for audit to find: C12.)",
 ["fault_sequences", "inputs", "histories"],
 "arbitrary corruption of silo and index bytes at rest, for single and multi-segment objects",
 "Tests never corrupt data under a get.",
 ["main_get.c", "getjob.c", "rsilo.c", "index.c"],
 [("digest and length check after output", "main_get.c main_get"), ("ID comparison of record header", "getjob.c getjob_iter")],
 ["get stdout and exit status"])

prop("C14", "A successful stow leaves everything in the remote archive",
 "When a stow run over a local or remote command ends successfully, every non-empty file of each job's directory (in the version read), the manifest and a metadata record describing them are retrievable from the receiving archive, and the printed ID names that record; files already present are not sent again. This holds for every directory tree, file name, file content, job list, pipe chunking and process scheduling.",
 ["schedules", "inputs", "configurations", "histories"],
 "all trees and names needing escapes, duplicates, already-present and changed files, many files, several jobs, all chunkings and delays of the pipes between the processes",
 "One test stows one directory twice under one timing.",
 ["main_stow.c", "main_stevedore.c", "proto.c", "vlu.c", "main_filter.c", "main_store.c"],
 [("wait/get/ack lists", "main_stow.c filter_resp, data_resp"), ("protocol framing", "proto.c proto_in, proto_out"), ("job processes", "main_stevedore.c job_start")],
 ["stow stdout/stderr/exit; get of every file digest from the receiving archive"])

prop("C15", "A stow that breaks off never claims success",
 "If the connection, the remote command, the manifest generator or any receiving process dies, stalls into EOF or fails at any point, the stow run does not report the job as stowed; what the receiving archive did acknowledge stays intact, and running the stow again completes it.",
 ["fault_sequences", "crash_points", "schedules"],
 "cuts of either direction at every byte, death of every process at every system call, missing or unreadable files, refusing configuration",
 "No test breaks a stow.",
 ["main_stow.c", "main_stevedore.c", "proto.c"],
 [("STOWED acknowledgement of the metadata", "main_stow.c stevedore_in"), ("exit status of wait4", "main_stow.c main_stow")],
 ["stow stdout/stderr/exit status; archive contents afterwards; second run"])

prop("C16", "Filter partitions any ID list exactly",
 "For any list of IDs, in any order, with duplicates, any trailing text, prefix form and letter case, filter prints exactly the lines whose object is absent (or present with -r, or every line with its status with -v), each once, in input order; -s gives the same answer, and with full-length comparison.",
 ["inputs", "histories", "schedules"],
 "all lists, input chunkings, files and stdin mixed, archives with any index layout",
 "Tests filter one short list; sorting, duplicates, restart between index files and input order interact.",
 ["main_filter.c", "index.c"],
 [("sorted candidate walk", "main_filter.c filter_iter"), ("input parsing", "main_filter.c read_file")],
 ["filter stdout"])

prop("C17", "Segmented objects are complete chains and appear atomically",
 "An object larger than a silo is stored as a chain of segments, numbered from 1, with the same origin, correct total length and payload digest, whose bodies concatenate to the object; readers see all of it or nothing, before, during and after the store, also when the store is interrupted or raced by another store of the same or a similar object.",
 ["schedules", "crash_points", "inputs"],
 "contents of 2..n segments incl. identical segments and shared prefixes, kills between the segment commits, retries that split differently, concurrent stores",
 "Tests store two segmented files, alone, uninterrupted.",
 ["segjob.c", "wsilo.c", "getjob.c", "main_reindex.c"],
 [("commit order", "segjob.c SegJob_Commit"), ("continuation prefix chain", "getjob.c getjob_iter, GetJob_New")],
 ["get during/after; silo headers"])

prop("C18", "Rebuild rewrites silos without changing their content",
 "'rebuild' writes for each silo a copy that is itself a valid silo with the same records in the same order, the same IDs, headers and decoded bodies (only padding and obsolete headers removed, index-independent), and leaves the original silo untouched; an archive using the copies passes audit and, after reindex, serves the same objects.",
 ["inputs", "histories", "fault_sequences"],
 "silos with all record kinds, sizes and compressibility; stops at any point leave originals intact",
 "One test rebuilds one archive.",
 ["main_rebuild.c", "gzip.c"],
 [("streaming state machine", "main_rebuild.c rebuild_process")],
 ["copy and original bytes; audit; get after switching"])

prop("C19", "Every operation terminates and cleans up its holds",
 "Every operation ends within a bounded number of steps under any fair schedule; once it has ended normally it leaves no hold or temporary files behind, and hold files left by dead processes never stop later operations from completing.",
 ["schedules", "crash_points", "fault_sequences"],
 "all interleavings; any set of stale holds and temporary files; any failing mkdir/open",
 "Tests run single operations in clean directories.",
 ["wsilo.c", "index.c", "proto.c", "main_stow.c", "main_stevedore.c"],
 [("skip held silo numbers", "wsilo.c Wsilo_Next, silo_attempt_append"), ("unlink of holds", "wsilo.c wsilo_delete"), ("poll loop", "proto.c proto_dispatch_evs")],
 ["step count, deadlock detection, directory listing after exit"])

prop("C20", "Metadata references and forced IDs are honoured exactly",
 "A metadata store is accepted only if the referenced object exists at that time, records that reference exactly, and with a forced ID is retrievable under that ID with its content; a rejected store (missing reference, bad ID, wrong options, disallowed media type, empty input) changes nothing in the archive and exits non-zero.",
 ["inputs", "histories", "schedules"],
 "all reference spellings and targets (resource, metadata, segmented), forced IDs of every shape incl. clustered ones and existing ones, references racing the store they refer to",
 "Tests cover a few option errors and one metadata record.",
 ["main_store.c", "ident.c", "segjob.c", "getjob.c"],
 [("option and reference checks", "main_store.c main_store"), ("forced ident", "ident.c Ident_Set")],
 ["store exit/stdout/stderr; get -n; archive bytes on rejection"])

prop("C21", "Clock behaviour affects nothing but the recorded date",
 "Whatever the system clock does (jumps backwards or forwards, stands still, differs between processes), every record carries as WARC-Date the UTC time at which its store ran, in the required format, and no identity, lookup, retrieval, reindex, audit or stow outcome depends on the clock.",
 ["schedules", "histories"],
 "clock jumps at any point, dates from 1970 to 2100, leap days, year boundaries",
 "Tests run at the real time only.",
 ["header.c", "main_store.c", "main_stow.c", "warcinfo.c"],
 [("date header", "header.c Header_Set_Date")],
 ["get -n, silo headers"])

prop("C22", "The silo-number cache file is only a hint",
 "Deleting, emptying, truncating or rolling back the cache file in the silo directory at any time changes no result: objects stay retrievable, stores succeed, no silo number is reused or overwritten, and no limit is violated.",
 ["fault_sequences", "histories", "schedules"],
 "cache file absent, empty, short, or any earlier version of itself, at any moment, with concurrent writers",
 "Tests never touch the cache file.",
 ["aardwarc.c", "wsilo.c"],
 [("ReadCache ignores short files", "aardwarc.c AardWARC_ReadCache"), ("stat/O_EXCL/link still decide", "wsilo.c Wsilo_New, Wsilo_Install")],
 ["get, store, audit, silo files"])

prop("C23", "Size settings mean exactly what they say, or are refused",
 "Every size expression accepted for silo.max_size and index.sort_size (an optional sign, digits with an optional fraction and exponent, an optional K, M, G, T or P suffix in powers of 1024 in either case, an optional B) is understood as exactly that number of bytes: silos are filled up to that size and not beyond it, and the index is sorted with that much memory. Expressions which are malformed, negative, not below 2^63, given more than once in one setting, or (for index.sort_size) below 4096 are refused with a message and a non-zero exit before anything is changed. A well-formed size for which there is no memory makes housekeeping fail cleanly, with the index as it was.",
 ["configurations", "failing allocations"],
 "all strings",
 "Tests check a few strings.",
 ["vnum.c", "aardwarc.c", "index.c", "wsilo.c"],
 [("VNUM_2bytes", "vnum.c"), ("IDX_Resort", "index.c"), ("Wsilo_GetSpace", "wsilo.c")],
 ["fill level of silos", "allocations", "exit status", "error message", "file system before and after"])

prop("C24", "Malformed IDs, command lines and configurations change nothing",
 "A command given an ID with a wrong prefix, length or character, wrong, missing or superfluous options or arguments, a configuration which does not parse or lacks what it needs, or an object which is not there, is refused with a message and a clean non-zero exit: it prints no result on standard output and creates, truncates or changes no file, neither in the archive nor one named with -o, with or without failing system calls on the way. The same archive and the same command spelled in another valid way (section order and case, comments, white space, full URI or bare ID, upper or lower case) works as usual. Without -c the first configuration there is of $HOME, /etc and /usr/local/etc is the one used, and if it is unusable the command is refused instead of working on another archive.",
 ["inputs", "configurations", "failing system calls"],
 "all argument vectors and configurations",
 "Tests cover the option table of each sub-command once, and look at nothing but the exit status.",
 ["main.c", "aardwarc.c", "config.c", "index.c", "main_get.c", "main_filter.c", "main_store.c", "main_dumpindex.c", "main_mksilo.c"],
 [("IDX_Valid_Id", "index.c"), ("main_get", "main_get.c"), ("Config_Read", "config.c")],
 ["exit status", "standard output and error", "file system before and after"])

prop("C25", "Backup staging is complete, verifiable and forgets nothing",
 "Every run of utilities/select_silos.py which exits successfully leaves in the staging directory, for each silo it selected, a file which decrypts (documented keys, IV derived from the silo's name) to exactly the silo's bytes, with matching .sha256 and .hmac files beside it, and nothing else. The silos staged total at most the quota; they are taken in order of bytes added since last staged, then of time since last staged, until the next one would not fit: so every silo no larger than the quota is staged again and again, and bytes added to a silo are offered until a run that staged them has published its staging directory. Whatever system call fails and whenever a run is killed, the published staging directory is the complete one of some run, is never changed in place, and is at most moved aside for an instant; a run which could not write all of its output fails, the run after a broken one works, and silos are only ever read.",
 ["fault_sequences", "histories", "inputs", "clock"],
 "one run at a time, no silo larger than the quota, silos growing and being added between runs and during them",
 "There is no test of the backup utility at all.",
 ["utilities/select_silos.py"],
 [("main", "utilities/select_silos.py main"), ("Encrypt_File", "utilities/select_silos.py Encrypt_File"), ("sortkey", "utilities/select_silos.py Silo.sortkey"), ("publication", "utilities/select_silos.py __main__")],
 ["staging directory after each run, kill and fault", "silodates.txt as the next run uses it", "exit status", "the silos"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["id"]
        f.write(json.dumps(p) + "\n")
print(len(P))
