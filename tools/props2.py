# The publishing half: judged by sim/pub.
PTECH = "deterministic simulation of the real Python programs over simulated Remote Settings, storage bucket and clocks with seeded fault injection; invariants at every change and a reference model of each publication"
PNOTE = ("Seeded search: every run executes the real publisher, sign-off tool and workflow scripts, interleaved at their operations on the outside world as the seed says; "
         "a clean batch is evidence, not proof. Trusts the models of Remote Settings, Cloud Storage, their client libraries, and of rust-create-cascade; "
         "assumes that no two publishers overlap.")
MAIN = "moz_kinto_publisher/main.py"
WF = ["workflow/0-allocate_identifier", "workflow/1-upload_data_to_storage", "workflow/2-generate_mlbf", "workflow/3-upload_mlbf_to_storage", "workflow/__init__.py"]
SIGN = "containers/scripts/crlite-signoff-tool.py"
prop("C20", "What reviewers and clients are given is one complete filter chain per channel",
 "Whenever a review of cert-revocations is requested, and whenever it is signed, every enabled channel holds exactly one full filter followed by one chain of increments, each with the previous record as its parent, in the order of their runs and without a repetition. Each record carries the attachment (full filter, or delta) of the right kind, filter type and run; that run was marked completed in the bucket; its effectiveTimestamp is the run's timestamp, and its filter expression selects the channel's clients. A client that applies all the records of its channel knows every revocation that the newest run in it holds.",
 ["schedules","crash_points","fault_sequences","histories","inputs"],
 "every history of runs, publications, sign-offs, retention and clock jumps; every crash, error and lost reply at any operation of the publisher; every state of the records that earlier failures or hands left behind",
 "The publisher's tests call its functions one after the other on mock records that never fail; a broken chain takes a publication that dies half-way, a lost reply, a run that was expired or a clock set back.",
 [MAIN] + WF,
 [("records and attachments of a channel","moz_kinto_publisher/main.py publish_crlite_main_filter, publish_crlite_stash"),("consistency of published and available runs","moz_kinto_publisher/main.py crlite_verify_record_consistency, crlite_verify_run_id_consistency, crlite_determine_publish"),("review only once all channels are consistent","moz_kinto_publisher/main.py request_crlite_review")],
 ["cert-revocations when its status becomes to-review or signed","attachments"], note=PNOTE, tech=PTECH)
prop("C21", "Full filters are replaced in time, and not without need",
 "No review is requested and nothing is signed with an increment that is 45 days or more newer than its channel's full filter. An undisturbed publication leaves in each channel exactly the runs that the rules give: the records that were there plus all newer runs as increments, if the chain was whole, all its runs still exist, the new runs are complete and in order of time and the age limit is not reached; otherwise one full filter of the newest run. So an increment never gives way to a full filter without one of these reasons.",
 ["histories","configurations","inputs"],
 "histories of up to a hundred days, with one to twenty runs a day, retention, clock jumps and gaps in publication, at the age limit and around it",
 "The tests try single histories of a few runs; what is decided depends on the whole history of runs and records, over weeks.",
 [MAIN],
 [("what to publish","moz_kinto_publisher/main.py crlite_determine_publish"),("age of the full filter","moz_kinto_publisher/main.py crlite_determine_publish, PublishedRunDB.get_run_timestamp")],
 ["cert-revocations after each undisturbed publication","cert-revocations when its status changes"], note=PNOTE, tech=PTECH)
prop("C22", "Published intermediates are exactly the enrolled ones",
 "A review of intermediates is requested only while the collection holds exactly the certificates that the newest run (or the list given on the command line) enrolls: each once, with the right derHash and its certificate attached. Invalid entries of the list are left out. Each undisturbed publication of a complete run makes the collection so, whatever state crashes, lost replies or hands left it in.",
 ["crash_points","fault_sequences","histories","inputs"],
 "every sequence of enrolled sets, invalid entries, certificates that share a subject or key, damaged records, and failures at any operation",
 "The tests only load the lists; leftovers of failed uploads arise from failures between the operations.",
 [MAIN],
 [("difference of local and remote intermediates","moz_kinto_publisher/main.py publish_intermediates"),("identity and validation of an entry","moz_kinto_publisher/main.py Intermediate")],
 ["intermediates when its status becomes to-review","intermediates after each undisturbed publication"], note=PNOTE, tech=PTECH)
prop("C23", "The published log list follows the official one and never forgets an enrollment",
 "The publisher changes ct-logs only to what the log list that it fetched says: the data of each listed log, one record per log, and no record for others. A list that is malformed, cut short, lists a log twice or with a wrong identifier changes nothing. The publisher never changes whether a log is enrolled in CRLite, also if somebody changes it at that moment. After an undisturbed publication the records are those of the list.",
 ["fault_sequences","inputs","schedules","histories"],
 "every history of log lists, bad answers, reviewers' changes at any moment of a publication, crashes and lost replies",
 "The test adds the real list to an empty collection once; a lost enrollment needs a change between two operations.",
 [MAIN],
 [("difference of list and records","moz_kinto_publisher/main.py publish_ctlogs"),("validation of the list","moz_kinto_publisher/main.py publish_ctlogs")],
 ["every write to ct-logs","ct-logs after each undisturbed publication"], note=PNOTE, tech=PTECH)
prop("C24", "Run identifiers are never reused and a completed run is complete and final",
 "The workflow never allocates an identifier of which the bucket already holds files, nor one that is not newer than all those it holds. A run writes only files of its own directory and latest/. When it is marked completed, all its files are in the bucket as they are on disk, and none changes afterwards. A run that ends well is marked completed, and latest/ then holds its files.",
 ["crash_points","fault_sequences","histories"],
 "every crash and storage error at any operation of the workflow, kept or lost working directories, clock jumps, more than ten runs a day",
 "There are no tests of the workflow scripts; reuse takes a crashed run or a clock that was set back.",
 WF,
 [("next identifier","workflow/0-allocate_identifier"),("uploads and the completed marker","workflow/1-upload_data_to_storage, workflow/3-upload_mlbf_to_storage, workflow/__init__.py FileUploader")],
 ["every object written to the bucket","identifiers printed by 0-allocate_identifier"], note=PNOTE, tech=PTECH)
prop("C25", "A dry run changes nothing",
 "With --noop, the publisher and the sign-off tool send no change to Remote Settings, neither records, attachments nor status, and the workflow's upload scripts write nothing to the bucket, in any state of both and whatever fails.",
 ["histories","fault_sequences","inputs"],
 "every state of records, log list and bucket that histories with failures produce; every failure during the dry run",
 "Not tested; which branch a dry run takes depends on the state it meets.",
 [MAIN, SIGN] + WF,
 [("noop branches","moz_kinto_publisher/main.py, containers/scripts/crlite-signoff-tool.py, workflow/1-upload_data_to_storage, workflow/3-upload_mlbf_to_storage")],
 ["requests at Remote Settings and the bucket"], note=PNOTE, tech=PTECH)
prop("C26", "Only what was put up for review gets signed",
 "The sign-off tool signs a collection only while it is under review; what is signed is exactly the content for which a review was requested, also if the publisher runs at the same time or died half-way through a change.",
 ["schedules","crash_points","fault_sequences"],
 "every interleaving of publications and sign-offs, every crash and lost reply of both",
 "There are no tests of the sign-off tool; the danger lies in its interleaving with the publisher.",
 [MAIN, SIGN],
 [("status check before signing","containers/scripts/crlite-signoff-tool.py"),("review requested last","moz_kinto_publisher/main.py main")],
 ["status changes of the collections"], note=PNOTE, tech=PTECH)
prop("C27", "Publication always gets through once nothing is in the way",
 "A publisher that meets no failure and finds a complete newest run ends well, with that run at the end of every enabled channel, no records of other channels, and a review requested of whatever changed, whatever state earlier crashes, failures and hands left. Once faults have stopped, one generator run, two publications and one sign-off suffice to have the newest run signed. No process hangs.",
 ["crash_points","fault_sequences","histories"],
 "every state that a history of crashes, errors, lost replies, retention, clock jumps and manual changes leaves behind",
 "The tests publish from clean states only; a state that blocks it forever arises from failures at particular operations.",
 [MAIN, SIGN] + WF,
 [("recovery from unusable records","moz_kinto_publisher/main.py publish_crlite, crlite_determine_publish"),("retries","moz_kinto_publisher/main.py, workflow/__init__.py")],
 ["exit status of the publisher","collections after each undisturbed publication and at the end"], note=PNOTE, tech=PTECH)
# The filter generator: judged by sim/rust.
FTECH = "deterministic simulation of the real rust-create-cascade over a simulated disk, schedule and randomness with seeded fault injection; a reference model of known, revoked and previously published sets judges the files of every run"
FNOTE = ("Seeded search: every run executes the real program with the order of directories, the interleaving of its threads, hash seeds and the outcome of every file operation drawn from the seed; "
         "a clean batch is evidence, not proof. The filter libraries (clubcard, rust_cascade) are not available offline and are replaced by models of their contract; "
         "the encoding itself is therefore not judged.")
RMAIN, RCLUB, RCASC = "rust-create-cascade/src/main.rs", "rust-create-cascade/src/clubcard_helper.rs", "rust-create-cascade/src/cascade_helper.rs"
prop("C28", "A filter answers rightly for every known certificate",
 "When rust-create-cascade ends well, the filter it wrote (clubcard or cascade) answers for every certificate of the known directory: revoked if and only if its issuer's revoked file lists its serial with a reason of the reason set (unknown reason codes count as unspecified). It claims the coverage of ct-logs.json, and reason_codes.csv has each known issuer once, with the right number of revoked certificates. This depends on nothing but the inputs: not on the order of directory entries, the schedule, hash seeds or salts, nor on what earlier or crashed runs left in the output directory when --clobber is given.",
 ["inputs","schedules","histories","configurations"],
 "every known and revoked set (serials shared between issuers, repeated, with leading zeros, of any length; several expiries; issuers without revocations or unknown to the logs; any reason codes), every reason set and filter type, every order of directories and interleaving of threads, every history of runs",
 "The tests build one filter of one issuer with random serials and do not look at its answers other than through the program's own check.",
 [RMAIN, RCLUB, RCASC],
 [("pairing of issuer files","rust-create-cascade/src/main.rs list_issuer_file_pairs"),("reason sets","rust-create-cascade/src/main.rs RevokedSerialAndReasonIterator"),("inclusion and exclusion","rust-create-cascade/src/clubcard_helper.rs, rust-create-cascade/src/cascade_helper.rs"),("counts","rust-create-cascade/src/main.rs count_all")],
 ["filter","reason_codes.csv"], note=FNOTE, tech=FTECH)
prop("C29", "The increments of successive runs add up to the full set",
 "When rust-create-cascade ends well, revset.bin is the set of known certificates that are revoked for a reason of the delta reason set; filter.delta answers revoked, among the known certificates, exactly for those of them that the previous revset lacks (for all, if there is no previous revset or it is damaged); filter.stash and the delta directory list exactly these, the latter with a reason of the delta reason set. So a client that holds the filter of one run and the deltas of all later ones knows every revocation of the newest run.",
 ["histories","inputs","schedules"],
 "every history of runs in which certificates become known, expire, are revoked, unrevoked or change their reason, and issuers come and go; previous revsets that are missing, cut short, empty, not a revset, or of another reason set",
 "The test makes three steps with one issuer; what clients miss shows only when runs follow each other.",
 [RMAIN, RCLUB, RCASC],
 [("revset and delta","rust-create-cascade/src/main.rs write_revset_and_delta"),("stash","rust-create-cascade/src/main.rs write_stash"),("delta filter","rust-create-cascade/src/main.rs main")],
 ["revset.bin","filter.delta","filter.stash","delta/"], note=FNOTE, tech=FTECH)
prop("C30", "A failed filter run never looks like a good one",
 "Whatever file operation of rust-create-cascade fails, is cut short or is the last before a crash, also on a full disk: if it ends with status 0, all its output files are complete and right; otherwise it ends with another status. It never ends well without its inputs or without having written the output, never changes its inputs, and without --clobber never changes outputs that exist. A run that meets no failure succeeds, whatever earlier failed and crashed runs left behind; interrupted and short reads and writes are no failure. It never hangs.",
 ["fault_sequences","crash_points","histories"],
 "every operation on the known, revoked, previous revset and output files and directories failing once or from then on, with any error; crashes before, in and after it; full disks",
 "The tests run on a disk that never fails.",
 [RMAIN, RCLUB, RCASC],
 [("checks before the start and exit status","rust-create-cascade/src/main.rs main"),("reading and listing","rust-create-cascade/src/main.rs list_issuer_file_pairs, KnownSerialIterator, RevokedSerialAndReasonIterator"),("verification of the filter","rust-create-cascade/src/main.rs CheckableFilter"),("status is what the workflow goes by","workflow/2-generate_mlbf")],
 ["exit status","all output files"], note=FNOTE, tech=FTECH)
# The client's tool: judged by sim/query.
QTECH = "deterministic simulation of the real rust-query-crlite over a simulated disk, network, clock and Remote Settings with seeded fault injection; a reference model of databases and of the published chains judges every answer and every database"
QNOTE = ("Seeded search: every run executes the real program with the outcome of every request, connection and file operation, the order of directories and the moment of the next publication drawn from the seed; "
         "a clean batch is evidence, not proof. The clubcard, X.509, TLS and HTTP libraries are not available offline and are replaced by models of their contract; parsing of real certificates and filters is therefore not judged.")
QMAIN = "rust-query-crlite/src/main.rs"
prop("C31", "The query tool answers what the database says, and passes nothing unasked",
 "Every status that rust-query-crlite reports (x509, https, signoff, crtsh) is the one that its database gives: not enrolled unless an enrolled intermediate with the issuer's name verifies the certificate; expired outside its validity; otherwise revoked if any filter or delta says so, good if one covers it, not enrolled, or not covered. From a damaged database it answers nothing and exits with 1. The exit status is 1 if a queried certificate is revoked, else 0; https, signoff and crtsh exit with 0 only if the list of hosts and every certificate could be had and every one was answered for. Each readable certificate file is answered for; a host is tried at all its addresses, each twice.",
 ["inputs","histories","fault_sequences"],
 "every set of issuers that share names or keys, certificates with several, unknown or no timestamps, filters and deltas of any run; every failing request, connection, directory or file, and every damaged file of the database",
 "The tool has no tests; a wrong answer takes several filters, issuers of one name, a failed read or a half-written database.",
 [QMAIN],
 [("answer from all filters","rust-query-crlite/src/main.rs CRLiteDB::query, Filter::has"),("issuer lookup","rust-query-crlite/src/main.rs Intermediates::lookup_issuer_spki"),("loading refuses damage","rust-query-crlite/src/main.rs CRLiteDB::load, Filter::from_file"),("hosts and exit status","rust-query-crlite/src/main.rs signoff, query_https_host, query_certs, query_crtsh_id")],
 ["statuses and exit status of each query"], note=QNOTE, tech=QTECH)
prop("C32", "An update that does not end well never makes a client less safe",
 "Whatever request, file operation or publication disturbs an update of rust-query-crlite, and wherever it dies: no certificate becomes good in the database unless it was good in the database before, or is good in the full filter and the first deltas of a published chain; and no certificate that is revoked both in the database before and in the collection ceases to be. An update that refuses the collection leaves the filters as they are, and a query changes nothing.",
 ["crash_points","fault_sequences","schedules","histories"],
 "every crash point and failing operation of updates from one chain to the next, across new full filters, changes of channel and of server, and publications during the update",
 "The tool has no tests; the danger lies in the mixtures of old and new files that an update leaves when it stops halfway.",
 [QMAIN],
 [("order of fetching and removing","rust-query-crlite/src/main.rs update_db")],
 ["the database after each update"], note=QNOTE, tech=QTECH)
prop("C33", "An update that ends well holds exactly the published filters and intermediates",
 "When an update ends well, the filters in the database are exactly those that the collection lists for the channel, each with its listed digest, and the intermediates are those that the newest of these runs enrolls. Nothing without the listed digest is stored. Filters that are already there and intact are not fetched again; damaged ones are replaced. A collection without exactly one full filter for the channel is refused. An update that nothing disturbs ends well, whatever state earlier failures left; the tool never crashes and never hangs.",
 ["histories","inputs","crash_points","fault_sequences"],
 "every history of publications, channels and servers, of damaged, removed and stray files, and of earlier updates that failed or died",
 "The tool has no tests; leftovers of failed updates arise from failures between the operations.",
 [QMAIN],
 [("selection, digest check and removal of stale filters","rust-query-crlite/src/main.rs update_db"),("intermediates of the newest run","rust-query-crlite/src/main.rs update_intermediates, extract_run_id")],
 ["the database after each update that ends well","requests of each update"], note=QNOTE, tech=QTECH)
# The jobs around all programs: judged by sim/jobs.
JTECH = "deterministic simulation of the real job scripts with the real workflow and Rust programs in histories of containers, over simulated stores, network, clock and disk, with seeded failures of programs, operations and whole jobs; an oracle over buckets, collections and exit statuses judges each job"
JNOTE = ("Seeded search: every job executes the real shell script with every program that it starts, and the plan says which program, store operation, request or file operation fails, is lost, or is the last before the container dies; "
         "a clean batch is evidence, not proof. The aggregation programs, ct-fetch, the publisher and the client libraries are stand-ins here (the first ones run for real in their own worlds).")
GEN, SIGN = "containers/scripts/crlite-generate.sh", "containers/scripts/crlite-signoff.sh"
prop("C34", "A generation job completes a whole run or none",
 "Whatever program, store operation or file operation of the generation job fails, and wherever the job dies: a run that is marked completed in the bucket has everything that was aggregated (known, revoked, enrolled issuers, audit, logs, CRLs, timestamp) and for both reason sets a filter that answers rightly, a delta and a revset that continue the previously published run, and its files are what latest/ has. The run is newer than every run of its bucket; the job changes no earlier run and no other bucket. It ends with status 0 only with a completed run, and without credentials it does nothing. In every documented configuration a job whose programs, stores and disk all work ends well, whatever earlier jobs left behind.",
 ["crash_points","fault_sequences","histories","configurations"],
 "every program of the job failing before, during or after its work, every operation on the store and the disk failing, every crash point, over histories of jobs, buckets and settings",
 "No test runs the scripts; that a failure in the middle still yields a completed run, or that a setting makes every job fail, shows only when all parts run together.",
 [GEN, "workflow/0-allocate_identifier", "workflow/1-upload_data_to_storage", "workflow/2-generate_mlbf", "workflow/3-upload_mlbf_to_storage", RMAIN],
 [("order of the programs, exit on failure","containers/scripts/crlite-generate.sh"),("completed is the last upload","workflow/3-upload_mlbf_to_storage"),("previous revset","workflow/2-generate_mlbf"),("newer identifier","workflow/0-allocate_identifier")],
 ["buckets after every job","exit status of the job"], note=JNOTE, tech=JTECH)
prop("C35", "The sign-off job signs only a filter it has seen to be small enough",
 "cert-revocations goes from to-review to to-sign only by a sign-off job for a known bucket that fetched the full filter of the matching instance and found it no larger than max_filter_size (10 MiB by default); otherwise it stays as it is and the job fails. No status of any collection changes otherwise than from to-review to to-sign, none for an unknown bucket, and nothing else is written. When nothing speaks against it and nothing fails, the job signs and ends well; when it ends well, cert-revocations is not under review any longer.",
 ["inputs","fault_sequences","schedules","configurations"],
 "every published chain (sizes around the limit, none or several full filters), bucket and limit, every request that fails, is cut short or damaged, publications during the job, programs that fail and jobs that die",
 "No test runs the scripts; the limit matters on the day a filter is too large.",
 [SIGN, "containers/scripts/crlite-signoff-tool.py", QMAIN],
 [("instance of the bucket, size limit","containers/scripts/crlite-signoff.sh"),("status changes","containers/scripts/crlite-signoff-tool.py"),("fetching","rust-query-crlite/src/main.rs update_db")],
 ["collection statuses after every job","exit status of the job"], note=JNOTE, tech=JTECH)
prop("C36", "Dry runs change nothing outside, and a failing program fails its job",
 "With DoNotUpload set a generation job writes nothing to any bucket; with DoNotUpload or KINTO_NOOP set a publication job runs the publisher only with --noop, and with KINTO_NOOP a sign-off job signs nothing; without them the publication is real, from the configured bucket. A publication job without credentials does not start the publisher. When the program of a fetch, commit or publication job fails, the job ends with another status than 0, and otherwise with 0.",
 ["configurations","fault_sequences"],
 "every combination of settings and every failing program of each job",
 "No test runs the scripts.",
 ["containers/scripts/crlite-publish.sh", GEN, SIGN, "containers/scripts/crlite-fetch.sh", "containers/scripts/crlite-commit.sh", "containers/scripts/crlite-signoff-tool.py"],
 [("dry run","containers/scripts/crlite-publish.sh, containers/scripts/crlite-generate.sh, containers/scripts/crlite-signoff-tool.py"),("exit status","containers/scripts")],
 ["buckets, collections, arguments of the programs, exit status"], note=JNOTE, tech=JTECH)
