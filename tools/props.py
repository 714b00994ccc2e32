#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json (run after editing; both are committed)."""
import json, os, subprocess
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
def prop(id, title, statement, over, text, why, files, mech, observe, state=None, note=None, tech=None):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=a, where=b) for a, b in mech], observe_at=observe, hook_needed=None,
                     **({"state": state} if state else {})), _note=note, _tech=tech))

SCHED = "the tests run each unit alone, on one schedule, against an in-memory cache that never fails"
prop("C01", "Coverage never includes a certificate that storage does not hold",
 "Whenever persistent storage's ct-logs.json states coverage that includes a log entry's timestamp (later than MinTimestamp+MMD or from the log's first entry, and earlier than MaxTimestamp-MMD), the serial of that entry's certificate is in the storage file of its issuer and expiry hour, until that hour has begun. This holds at the moment coverage is replaced and at every later moment, across crashes, failed writes, lost connections, loss of the cache, restarts, and overlapping runs of ct-fetch, aggregate-known and commit.",
 ["schedules","crash_points","fault_sequences","histories","inputs"],
 "every interleaving of downloads, commits, restarts; every crash or I/O error at any system call; every loss of cache data; every content of the logs",
 "The unit tests move a handful of serials once, with no concurrent download, no failing write, no crash and no cache loss; the guarantee is about their combinations.",
 ["go/storage/certdatabase.go","go/storage/rediscache.go","go/cmd/ct-fetch/ct-fetch.go"],
 [("held-back test against MMD and MaxTimestamp","go/storage/certdatabase.go moveOneBinOfCachedSerialsToStorage"),("coverage replaced only after all bins moved","go/storage/certdatabase.go Commit"),("serials stored before the log state is saved","go/cmd/ct-fetch/ct-fetch.go insertCTWorker")],
 ["storage directory after every system call of a commit","ct-logs.json"])
prop("C02", "Stored files are whole and list only serials that logs really hold",
 "Every serial that reaches the cache or a storage file belongs to an entry of an enrolled log, under that entry's issuer and expiry hour (self-signed roots excepted: they are never stored). At every instant, also after a crash or a failed write, each file in storage (serials, coverage, epoch) that a reader can open is complete and well formed, its serials are listed once, and a file that existed does not vanish or lose content unless it expired.",
 ["schedules","crash_points","fault_sequences","inputs"],
 "every crash point and I/O error inside a commit; every interleaving with downloads; every mix of precertificates, final certificates, precertificate signing CAs and serial encodings",
 "Tests check a few serials after an undisturbed run; a torn or duplicated file needs a crash, a short write or a repeated cache listing at the right moment.",
 ["go/storage/certdatabase.go","go/storage/types.go","go/cmd/ct-fetch/ct-fetch.go"],
 [("temporary file and rename","go/storage/certdatabase.go (renameio)"),("issuer and expiry taken from the entry","go/cmd/ct-fetch/ct-fetch.go insertCTWorker, go/storage/certdatabase.go Store")],
 ["SADD commands at the cache","storage directory after every system call"])
prop("C03", "Entries newer than coverage are held back, then moved by a later commit",
 "A commit moves a certificate to storage only if its entry's timestamp is at most MaxTimestamp-MMD of the log's known coverage; otherwise the certificate stays in the cache. No entry is dropped in between: once coverage has reached it, a later successful commit moves it to storage and removes it from the cache.",
 ["schedules","fault_sequences","histories","inputs"],
 "every order of downloads and commits, every log growth pattern and MMD, with crashes, cache and disk errors in between",
 "Tests commit fixed lists once; losing a held-back entry takes two commits with a download or a failure between them.",
 ["go/storage/certdatabase.go","go/storage/rediscache.go"],
 [("MMD hold-back in the bin mover","go/storage/certdatabase.go moveOneBinOfCachedSerialsToStorage"),("removal from the cache after the write","go/storage/certdatabase.go Commit")],
 ["storage files after each commit","cache contents after each commit"])
prop("C04", "A saved log state only covers entries that were stored before it",
 "Whenever the state of a log is saved in the cache, its range of entries is a contiguous range of that log's entries, every unexpired certificate of the range is already in the cache or in storage, and its timestamps are no later (MaxTimestamp) and no earlier (MinTimestamp) than the entries and tree heads it covers justify. The state carries the log's own identity and MMD.",
 ["schedules","crash_points","fault_sequences","inputs"],
 "every interleaving of download, verification, insertion and state saving over several logs; every batch and reply size; every crash, restart, connection loss and cache error",
 SCHED+"; none downloads with short replies, a restart between batches, or two logs at once.",
 ["go/cmd/ct-fetch/ct-fetch.go","go/cmd/ct-fetch/rfc6962.go","go/cmd/ct-fetch/tiled.go","go/storage/certdatabase.go","go/storage/rediscache.go"],
 [("state saved after the batch's entries","go/cmd/ct-fetch/ct-fetch.go insertCTWorker"),("update and backfill ranges","go/cmd/ct-fetch/rfc6962.go LogWorker.Run, go/cmd/ct-fetch/tiled.go TiledLogWorker.Run")],
 ["SET log::* commands at the cache"])
prop("C05", "Data that does not match a log's signed tree never becomes coverage",
 "If a log, or someone between it and ct-fetch, answers with entries, tiles, proofs or tree heads that do not agree with the tree, or with issuer certificates that do not have the fingerprints under which they are listed, then no coverage that ct-fetch saves or a commit publishes includes an entry that was replaced, altered, swapped or left out, and no serial that the log does not hold reaches storage. Genuine entries keep being handled correctly.",
 ["fault_sequences","inputs","schedules"],
 "every position and kind of alteration of entries, tiles, consistency proofs and tree heads, at any request, mixed with restarts and commits",
 "Tests verify one small tree with hand-made wrong proofs; they do not run the downloader against an adversarial log across rounds.",
 ["go/cmd/ct-fetch/ct-fetch.go","go/cmd/ct-fetch/rfc6962.go","go/cmd/ct-fetch/tiled.go"],
 [("subtree verified before it is handed over","go/cmd/ct-fetch/rfc6962.go downloadCTRangeToChannel, CtLogSubtreeVerifier"),("consistency with the previous head","go/cmd/ct-fetch/rfc6962.go consistencyProofToSubtrees")],
 ["cache and storage contents against the genuine log"])
prop("C06", "Once faults stop, every enrolled log is downloaded and covered in time",
 "After network, log, cache and process faults have ended, ct-fetch, running forever or restarted by its supervisor, has within a bounded time (two hours plus six polling intervals and one interval of remote settings, plus the rest of a dead process's commit lock) saved a state that reaches from the first to the newest entry of every enrolled log. Its coverage keeps following the log's tree heads even if the log does not grow, and a commit then publishes it.",
 ["schedules","fault_sequences","configurations"],
 "every fault history before the quiet period; every log size, reply size, batch size and polling interval; both kinds of log",
 "Liveness after faults cannot be seen in unit tests, which stop after one round against a log that always answers.",
 ["go/cmd/ct-fetch/ct-fetch.go","go/cmd/ct-fetch/rfc6962.go","go/cmd/ct-fetch/tiled.go","go/storage/certdatabase.go"],
 [("retry with backoff, RetryGetSTH","go/cmd/ct-fetch/rfc6962.go LogWorker.Run, downloadCTRangeToChannel"),("periodic state save with retry","go/cmd/ct-fetch/ct-fetch.go insertCTWorker")],
 ["log states in the cache","ct-logs.json after the final commit"])
prop("C07", "ct-fetch neither stops early, nor hangs on stop, nor crashes",
 "Told to run forever, ct-fetch does not end by itself while nothing fails; asked to stop (SIGTERM or interrupt) it ends within ten minutes and, with nothing wrong, with exit code 0; told to do one round it ends only after every enrolled log has been contacted and what it downloaded has been saved. None of the programs ever ends with a Go panic or runtime error, whatever peers, cache and disk answer.",
 ["schedules","fault_sequences","inputs"],
 "every goroutine interleaving at start-up, shutdown and in between; every moment of the signal; every peer answer and error",
 "Start-up and shutdown races depend on the order goroutines run in, which tests neither control nor vary.",
 ["go/cmd/ct-fetch/ct-fetch.go","go/cmd/commit/commit.go","go/cmd/aggregate-known/aggregate-known.go"],
 [("wait groups and stop channels","go/cmd/ct-fetch/ct-fetch.go main, LogSyncEngine")],
 ["exit codes, exit times and stderr of the processes"])
prop("C08", "Only enrolled logs are contacted, and enrollment changes take effect",
 "ct-fetch contacts a log only if local configuration or a remote-settings answer has enrolled it. A log that remote settings enroll later is downloaded without a restart; once an answer says that a log is no longer enrolled, no new round with it starts after two minutes. Errors, truncated or malformed answers of remote settings change nothing.",
 ["schedules","fault_sequences","histories","configurations"],
 "every sequence of enrollment changes, interleaved with downloads, restarts and failures of the settings service",
 "The tests fetch a fixed list once; the property is about histories of changes racing with sync rounds.",
 ["go/cmd/ct-fetch/ct-fetch.go"],
 [("enrolledLogs watched by the sync loop","go/cmd/ct-fetch/ct-fetch.go, EnrolledLogs"),("remote settings polling","go/cmd/ct-fetch/ct-fetch.go UpdateFromRemoteSettings")],
 ["connections and requests at the logs"])
prop("C09", "At most one process changes storage, and only under its own commit lock",
 "A process changes persistent storage only after it has taken the commit lock with a token of its own, and not while another process holds the lock; the lock always carries an expiry, so that a crashed holder cannot block others for ever. A process removes the lock only if it holds it, and after a successful run its lock is gone; ct-fetch never changes persistent storage.",
 ["schedules","crash_points","fault_sequences"],
 "every overlap of two or more commit runs and a restoring ct-fetch, with stalls, crashes, lost replies and cache loss at any command",
 "Tests take and release the lock in one thread; exclusion is only at stake between processes.",
 ["go/storage/rediscache.go","go/storage/certdatabase.go","go/cmd/commit/commit.go","go/cmd/aggregate-known/aggregate-known.go","go/cmd/ct-fetch/ct-fetch.go"],
 [("SET NX EX with a random token, re-read","go/storage/rediscache.go AcquireCommitLock"),("lock re-checked before coverage is replaced","go/storage/certdatabase.go Commit")],
 ["lock commands at the cache","file changes in storage"])
prop("C10", "Loss of the cache is noticed and repaired from storage",
 "Once something has been committed, storage and cache carry epochs that differ by exactly one: a commit that finds them inconsistent refuses to touch storage, and storage's epoch never goes back or becomes unreadable. After the cache has lost its data, ct-fetch restores exactly the log states and the epoch that storage holds, with nothing left over, before it downloads on, so that no committed history is skipped.",
 ["crash_points","fault_sequences","histories","schedules"],
 "every moment of a cache loss relative to downloads, commits and restarts; every crash between the steps of a commit and of a restore",
 "Tests cover one restore in a fresh cache; the orders of loss, crash and commit that matter are not sampled.",
 ["go/storage/certdatabase.go","go/storage/rediscache.go","go/cmd/ct-fetch/ct-fetch.go"],
 [("epoch comparison","go/storage/certdatabase.go epochsAreConsistent, EnsureCacheIsConsistent"),("restore","go/storage/rediscache.go Restore")],
 ["epoch file, epoch key and log states after every step"])
prop("C11", "An interrupted or failed commit does no harm and the next one completes it",
 "If a commit run is killed, loses the cache or gets an I/O error at any point, storage stays readable and truthful: no torn file, no foreign serial, no coverage beyond what is stored. A commit never hangs, and once the trouble is over a later run succeeds and moves everything that is covered.",
 ["crash_points","fault_sequences","schedules"],
 "a crash or error at every system call and cache command of a commit, in sequences of several failing runs, with downloads going on",
 "No test interrupts a commit; there is one failure point per system call and their combinations.",
 ["go/storage/certdatabase.go","go/storage/rediscache.go","go/cmd/commit/commit.go","go/cmd/aggregate-known/aggregate-known.go"],
 [("order of steps","go/storage/certdatabase.go Commit"),("idempotent merge of a bin into its file","go/storage/certdatabase.go moveOneBinOfCachedSerialsToStorage")],
 ["storage after each crash and after the next run","exit codes"])
prop("C12", "Certificates leave storage only after their expiry period, and then do leave",
 "A storage file is removed only after the last hour (for files of a whole day, the last day) it stands for is over, and a successful commit leaves no file whose period ended before the run began. In the cache, every set of serials has an expiry that does not precede the expiry hour of its certificates.",
 ["schedules","histories","inputs","fault_sequences"],
 "every expiry time relative to the clock, of hour files and whole-day files, runs across hour and day boundaries, crashes in between",
 "Tests use a few fixed dates; the boundary cases depend on the clock moving during a run.",
 ["go/storage/certdatabase.go","go/storage/types.go"],
 [("expiry of a date's bin","go/storage/types.go ExpDate.IsExpiredAt"),("removal of expired bins","go/storage/certdatabase.go Commit"),("ExpireAt on cache keys","go/storage/rediscache.go")],
 ["storage directory after every step","TTL of cache keys"])
prop("C13", "aggregate-known's output is exactly what storage holds, or it fails",
 "If aggregate-known exits with code 0, its directory of known certificates has, for every enrolled issuer with unexpired serials in storage, one file with exactly those serials grouped by expiry hour, and no other files; and the ct-logs.json it wrote is the coverage of storage at that time. If it cannot read or write all of that, it exits with a non-zero code.",
 ["schedules","crash_points","fault_sequences","inputs"],
 "every content of storage, every read or write error at any file, every number of threads, runs across expiry boundaries and beside other runs",
 "Tests aggregate a few serials from an in-memory backend without errors.",
 ["go/cmd/aggregate-known/aggregate-known.go","go/storage/certdatabase.go"],
 [("worker per issuer","go/cmd/aggregate-known/aggregate-known.go aggregateWorker"),("commit, then read back","go/cmd/aggregate-known/aggregate-known.go main")],
 ["output directory when the process ends","exit code"])
prop("C14", "A list of revoked serials is complete and exact, or it is not written",
 "If aggregate-crls exits with code 0, then for every enrolled issuer that has CRL URLs in the CCADB report: if its store holds, for each of those URLs, a CRL with the issuer's signature whose entries can be decoded, the list of revoked serials for that issuer exists and has, for exactly the entries of those CRLs, one line each of reason code and serial as encoded in the CRL; and if one of the CRLs is missing, forged or cannot be decoded, there is no list for that issuer. There are no other lists. A run that is interrupted or cannot write its output does not exit with code 0.",
 ["fault_sequences","crash_points","schedules","inputs"],
 "every mix of full and partitioned CRLs and of good, empty, forged, cut and undecodable ones; every failed download, read and write; SIGTERM at any moment; every order of the workers",
 "The tests call the aggregation functions one at a time on good disks with prepared files; a list that is cut short or silently left out takes a failure at the right moment of a whole run.",
 ["go/cmd/aggregate-crls/aggregate-crls.go","go/rootprogram/issuers.go","go/storage/types.go"],
 [("no list when any CRL of the issuer failed","go/cmd/aggregate-crls/aggregate-crls.go aggregateCRLWorker"),("write, flush and close of the list","go/cmd/aggregate-crls/aggregate-crls.go StoreRevokedCertificateList"),("decoding of entries and reasons","go/storage/types.go DecodeRawTBSCertList, SerialAndReason")],
 ["revoked directory when the process ends","exit code"])
prop("C15", "The CRL store only ever holds whole CRLs with a good signature, and keeps the newest",
 "At every instant, also after a crash or a failed write, a .crl file in aggregate-crls's store that the program has written is a complete CRL, as its server gave it out, with a valid signature of the issuer whose directory it is in. An answer that is an error, cut short, forged or not a CRL leaves the CRL that was there before untouched and in use; a CRL that was delivered whole with a good signature replaces it. The store never goes back to an earlier version of its own accord and never loses a CRL.",
 ["fault_sequences","crash_points","histories","schedules"],
 "every history of versions at the servers and of runs, with bad answers, broken connections, crashes at any file operation, disk errors, left-over temporary files and damaged files of the store",
 "Tests download one file from a local server without a crash, a cut connection or a full disk in the middle.",
 ["go/downloader/downloader.go","go/downloader/verifying-downloader.go","go/cmd/aggregate-crls/aggregate-crls.go"],
 [("temporary file, verification, rename, fallback","go/downloader/verifying-downloader.go DownloadAndVerifyFileSync"),("resume and up-to-date decisions","go/downloader/downloader.go determineAction, download"),("signature check","go/cmd/aggregate-crls/aggregate-crls.go loadAndCheckSignatureOfCRL")],
 ["store directory after every file operation","store against the servers' answers when a run ends"])
prop("C16", "The audit report tells what became of every CRL",
 "When aggregate-crls exits with code 0 and its disk worked, the audit report is well-formed JSON with, for each CRL URL of each enrolled issuer: exactly one entry saying it was valid (with the right number of revocations and SHA-256 of the file) if it was used, or that it was empty if it was, or a failure if it could not be used; a failure entry if a download failed all its attempts or delivered something without a good signature, and none if it was delivered whole; an entry about the distribution point exactly if the issuer uses partitioned CRLs and the CRL's distribution point does not name its own URL or names another one of the issuer's; an entry about age exactly if the file is older than fourteen days. There are no entries for other issuers.",
 ["fault_sequences","inputs","schedules"],
 "every mix of outcomes over issuers and URLs, of workers reporting concurrently, and of network failures",
 "Tests feed the auditor single events; which events a whole run with failures reports is not tested.",
 ["go/cmd/aggregate-crls/aggregate-crls.go","go/cmd/aggregate-crls/crl-auditor.go","go/downloader/verifying-downloader.go"],
 [("auditor calls","go/cmd/aggregate-crls/aggregate-crls.go, go/downloader/verifying-downloader.go"),("entries and their encoding","go/cmd/aggregate-crls/crl-auditor.go")],
 ["crl-audit.json when the process ends"])
prop("C17", "The enrolled issuers are exactly the trusted CAs of one whole CCADB report",
 "If aggregate-crls exits with code 0, enrolled.json is well-formed and lists, once each and with the right identifiers and use of partitioned CRLs, exactly the CA certificates of one complete edition of the CCADB report that are not revoked and chain, for server authentication, to a root of that report that is not revoked. That edition is a whole one that CCADB has delivered, in this run or earlier: a download that breaks off, at any point, in this run or an earlier one, is never used. An edition older than twelve hours is replaced when CCADB delivers a new one. CRLs are only requested from URLs that a report lists for an enrolled issuer.",
 ["fault_sequences","crash_points","histories","inputs"],
 "every report and history of editions; every break in its download, also at the end of a row; every crash and disk error while it or enrolled.json is written; every order of runs",
 "Tests parse prepared reports from disk; none breaks off a download and then runs again.",
 ["go/rootprogram/issuers.go","go/cmd/aggregate-crls/aggregate-crls.go","go/downloader/downloader.go"],
 [("report on disk or downloaded","go/rootprogram/issuers.go Load"),("trust of intermediates","go/rootprogram/issuers.go LoadFromDisk"),("enrolled.json","go/rootprogram/issuers.go SaveIssuersList")],
 ["enrolled.json and the report on disk when the process ends","requests at the CRL servers"])
prop("C18", "The health endpoint tells working from stuck",
 "While ct-fetch runs, its health endpoint answers within seconds: 200 only if some log update completed within twice the polling interval, 500 only if the last one is older than that, and 503 only before the first one. It is never reported unhealthy while rounds complete, nor healthy while nothing has happened for longer than the limit.",
 ["schedules","fault_sequences","configurations"],
 "every moment of the query relative to rounds, outages of any length of logs and cache, and restarts",
 "Needs a clock: tests do not wait hours, and do not stall logs.",
 ["go/cmd/ct-fetch/ct-fetch.go"],
 [("last update time","go/cmd/ct-fetch/ct-fetch.go LogSyncEngine.ApproximateMostRecentUpdateTimestamp, health handler")],
 ["HTTP answers of the endpoint"])
prop("C19", "aggregate-crls makes use of what it can get, ends, and does not crash",
 "aggregate-crls asks for every CRL of every enrolled issuer; it gives up on one only after four failed attempts. Failures of CRL servers never make it fail as a whole. It always ends: within the time that its retries and timeouts allow, and within 25 minutes after SIGTERM. It never ends with a Go panic or runtime error, whatever servers and disk answer. Once nothing is wrong any more the next run succeeds, whatever crashes and faults came before.",
 ["fault_sequences","crash_points","schedules","histories"],
 "every sequence of failing and hanging servers, partitions, crashes, left-over and damaged files, signals at any moment, every number of threads and order of workers",
 "Tests do not wait for time-outs, do not send signals, and run each piece once.",
 ["go/cmd/aggregate-crls/aggregate-crls.go","go/downloader/downloader.go","go/downloader/verifying-downloader.go","go/rootprogram/issuers.go"],
 [("retries and time-outs","go/downloader/downloader.go DownloadFileSync"),("workers and cancellation","go/cmd/aggregate-crls/aggregate-crls.go crlFetchWorker, aggregateCRLWorker, main")],
 ["exit codes, exit times and stderr of the process","requests at the CRL servers"])

exec(open(os.path.join(V, "tools", "props2.py")).read()) if os.path.exists(os.path.join(V, "tools", "props2.py")) else None

NA = []
for f in [os.path.join(V, "tools", "na.json")]:
    if os.path.exists(f):
        NA = json.load(open(f))
with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for p in P + [x["prop"] for x in NA if "prop" in x]:
        f.write(json.dumps({k: v for k, v in p.items() if not k.startswith("_")}) + "\n")
NOTE = ("Seeded search: every run executes the real binaries with every clock, schedule, network, cache and disk outcome chosen from the seed; "
        "a clean batch is evidence, not proof. Trusts the simulator's model of the kernel, Redis, logs and HTTP peers; "
        "power loss and data races between arbitrary instructions are outside the model.")
TECH = "deterministic simulation of the real processes with seeded fault injection; invariants after every step and history checks"
m = dict(version=1, setup_cmd="sim/build.sh && sim/rust/build.py", hooks=dict(guard="none: /repo is unchanged by instrumentation", enable="go build -overlay (patched Go standard library: clock, scheduler, sockets, files) -tags faketime; nothing in /repo is guarded", source_commits=[]),
  checks=[dict(property=p["id"], quick_cmd=f"./check {p['id']} quick", thorough_cmd=f"./check {p['id']} thorough", technique=p["_tech"] or TECH, level="exploration", level_note=p["_note"] or NOTE) for p in P if p["_note"] != "NA"],
  not_applicable=[dict(property=x["property"], reason=x["reason"]) for x in NA])
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(V, "MANIFEST.json"), "a").write("\n")
