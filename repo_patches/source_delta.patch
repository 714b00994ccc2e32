From b55f8ba684ab664db2fe9998bc685b36fe187f2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:02 +0000
Subject: [PATCH 01/30] fix: ct-fetch: register threads with their wait groups
 before starting them

SyncLog and insertCTWorker called WaitGroup.Add from the new goroutine, so
LogSyncEngine.Wait could find the counters at zero before any log had been
handed to a downloader. ct-fetch then closed entryChan and exited with code 0
(or panicked on a send to the closed channel).
---
 go/cmd/ct-fetch/ct-fetch.go | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/go/cmd/ct-fetch/ct-fetch.go b/go/cmd/ct-fetch/ct-fetch.go
index f2d6c71..c31be90 100644
--- a/go/cmd/ct-fetch/ct-fetch.go
+++ b/go/cmd/ct-fetch/ct-fetch.go
@@ -87,12 +87,13 @@ func NewLogSyncEngine(db storage.CertDatabase) *LogSyncEngine {
 }
 
 func (ld *LogSyncEngine) StartDatabaseThread(ctx context.Context) {
+	ld.ThreadWaitGroup.Add(1)
 	go ld.insertCTWorker(ctx)
 }
 
-// Blocking function, run from a thread
+// Blocking function, run from a thread. The caller must have registered the
+// thread with |ld.DownloaderWaitGroup|.
 func (ld *LogSyncEngine) SyncLog(ctx context.Context, enrolledLogs *EnrolledLogs, logMeta types.CTLogMetadata) error {
-	ld.DownloaderWaitGroup.Add(1)
 	defer ld.DownloaderWaitGroup.Done()
 
 	if err := ld.database.Migrate(&logMeta); err != nil {
@@ -215,7 +216,6 @@ func (ld *LogSyncEngine) tryUpdate(queue []storage.SetMemberWithExpiry, logState
 }
 
 func (ld *LogSyncEngine) insertCTWorker(ctx context.Context) {
-	ld.ThreadWaitGroup.Add(1)
 	defer ld.ThreadWaitGroup.Done()
 
 	healthStatusPeriod := time.Duration(15000+rand.Int63n(15000)) * time.Millisecond
@@ -463,10 +463,15 @@ func main() {
 	// Start a thread to store LogSyncMessages
 	syncEngine.StartDatabaseThread(ctx)
 
-	// Sync with logs as they are enrolled
+	// Sync with logs as they are enrolled. This thread counts as a
+	// downloader, so that syncEngine.Wait() can't return before every
+	// enrolled log has been handed to a downloader.
+	syncEngine.DownloaderWaitGroup.Add(1)
 	go func() {
+		defer syncEngine.DownloaderWaitGroup.Done()
 		for ctLog := range enrolledLogs.NewChan {
 			glog.Infof("[%s] Starting download.", ctLog.URL)
+			syncEngine.DownloaderWaitGroup.Add(1)
 			go syncEngine.SyncLog(ctx, enrolledLogs, ctLog)
 		}
 	}()
-- 
2.43.0


From 51a345ca2478c81c2e5e56129c6f74d09b54b3f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:43 +0000
Subject: [PATCH 02/30] fix: ct-fetch: download entry 0 of a tiled log

A log state that was never saved has MaxEntry = 0, which TiledLogWorker took
to mean that entry 0 had been downloaded. It started at entry 1 and then
claimed coverage of entry 0. A fresh log of size 1 was claimed without any
download at all, and a state was saved when the first download failed.
---
 go/cmd/ct-fetch/tiled.go | 38 +++++++++++++++++++++++++++-----------
 1 file changed, 27 insertions(+), 11 deletions(-)

diff --git a/go/cmd/ct-fetch/tiled.go b/go/cmd/ct-fetch/tiled.go
index 86a6139..a0aa1d9 100644
--- a/go/cmd/ct-fetch/tiled.go
+++ b/go/cmd/ct-fetch/tiled.go
@@ -29,6 +29,16 @@ type TiledLogWorker struct {
 	MetricKey    string
 }
 
+// firstMissingEntry returns the index of the first entry that we have yet to
+// download.
+func firstMissingEntry(logObj *types.CTLogState) uint64 {
+	if logObj.LastUpdateTime.IsZero() {
+		// First contact with log
+		return 0
+	}
+	return logObj.MaxEntry + 1
+}
+
 func NewTiledLogWorker(ctx context.Context, logObj *types.CTLogState, ctLogMeta *types.CTLogMetadata, issuerMap *map[string]*types.Certificate) (*TiledLogWorker, error) {
 	batchSize := *ctconfig.BatchSize
 
@@ -80,6 +90,8 @@ func NewTiledLogWorker(ctx context.Context, logObj *types.CTLogState, ctLogMeta
 		sthTimestamp = uint64(noteTimestamp)
 	}
 
+	nextEntry := firstMissingEntry(logObj)
+
 	// Determine what the worker should do.
 	var task LogWorkerTask
 	if fetchErr != nil {
@@ -89,13 +101,13 @@ func NewTiledLogWorker(ctx context.Context, logObj *types.CTLogState, ctLogMeta
 	} else {
 		metrics.SetGauge([]string{metricKey, "coverage"}, float32(logObj.MaxEntry-logObj.MinEntry+1)/float32(checkpoint.Tree.N))
 
-		if logObj.MaxEntry+batchSize < uint64(checkpoint.Tree.N) {
+		if nextEntry+batchSize <= uint64(checkpoint.Tree.N) {
 			// There are many new entries to download.
 			task = Update
 		} else if time.Since(logObj.LastUpdateTime) < 10*time.Minute {
 			// There are few new entries, and we updated recently.
 			task = Sleep
-		} else if logObj.MaxEntry+1 < uint64(checkpoint.Tree.N) {
+		} else if nextEntry < uint64(checkpoint.Tree.N) {
 			// There is at least one new entry and we haven't
 			// downloaded anything recently.
 			task = ForceUpdate
@@ -252,6 +264,7 @@ func (lw *TiledLogWorker) Run(ctx context.Context, entryChan chan<- LogSyncMessa
 	minTimestamp := lw.LogState.MinTimestamp
 	maxTimestamp := lw.LogState.MaxTimestamp
 	maxEntry := lw.LogState.MaxEntry
+	nextEntry := firstMissingEntry(lw.LogState)
 
 	if lw.WorkOrder == RetryGetSTH {
 		lw.sleep(ctx)
@@ -268,7 +281,7 @@ func (lw *TiledLogWorker) Run(ctx context.Context, entryChan chan<- LogSyncMessa
 		// than `STH.Timestamp - LogState.MMD` will be added. This
 		// ensures that we will eventually cover the tail of a log that
 		// is no longer receiving new entries.
-		if lw.LogState.MaxEntry+1 == uint64(lw.Checkpoint.Tree.N) {
+		if nextEntry > 0 && nextEntry == uint64(lw.Checkpoint.Tree.N) {
 			maxTimestamp = lw.SthTimestamp
 			err := lw.updateState(ctx, maxEntry, minTimestamp, maxTimestamp, entryChan)
 			if err != nil {
@@ -284,21 +297,22 @@ func (lw *TiledLogWorker) Run(ctx context.Context, entryChan chan<- LogSyncMessa
 		return fmt.Errorf("Unexpected work order: %d", lw.WorkOrder)
 	}
 
-	// readLogEntries mutably captures lw, ctx, maxEntry, minTimestamp,
-	// and maxTimestamp.
+	// readLogEntries mutably captures lw, ctx, maxEntry, nextEntry,
+	// minTimestamp, and maxTimestamp.
 	//
 	// Return codes:
 	//   - (true, nil): success
 	//   - (false, nil): intermittent error, the TileLogWorker should sleep.
 	//   - (false, err): fatal error, log ingestion should halt.
 	readLogEntries := func() (bool, error) {
-		for i, entry := range lw.Client.Entries(ctx, lw.Checkpoint.Tree, int64(maxEntry+1)) {
+		for i, entry := range lw.Client.Entries(ctx, lw.Checkpoint.Tree, int64(nextEntry)) {
 			keepGoing, err := lw.storeLogEntry(ctx, entry, entryChan)
 			if !(keepGoing && err == nil) {
 				return keepGoing, err
 			}
 
 			maxEntry = uint64(i)
+			nextEntry = maxEntry + 1
 			minTimestamp = uint64Min(minTimestamp, uint64(entry.Timestamp))
 			maxTimestamp = uint64Max(maxTimestamp, uint64(entry.Timestamp))
 
@@ -311,13 +325,15 @@ func (lw *TiledLogWorker) Run(ctx context.Context, entryChan chan<- LogSyncMessa
 			}
 		}
 
-		err := lw.updateState(ctx, maxEntry, minTimestamp, maxTimestamp, entryChan)
-		if err != nil {
-			glog.Errorf("[%s] : Error saving log state %s", lw.Name(), err)
-			return false, err
+		if nextEntry > 0 {
+			err := lw.updateState(ctx, maxEntry, minTimestamp, maxTimestamp, entryChan)
+			if err != nil {
+				glog.Errorf("[%s] : Error saving log state %s", lw.Name(), err)
+				return false, err
+			}
 		}
 
-		err = lw.Client.Err()
+		err := lw.Client.Err()
 		if err != nil {
 			glog.Errorf("[%s] : Sunlight client error %s", lw.Name(), err)
 			return false, nil
-- 
2.43.0


From 8342b3e17f2820cc20a3017551906140929f8c70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:43 +0000
Subject: [PATCH 03/30] fix: ct-fetch: don't claim entry 0 of a log before
 first contact

A log state that was never saved has MaxEntry = 0, so a worker sleeping
because the log has a single entry saved a state that claims that entry.
---
 go/cmd/ct-fetch/rfc6962.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/go/cmd/ct-fetch/rfc6962.go b/go/cmd/ct-fetch/rfc6962.go
index bf5acfe..e977728 100644
--- a/go/cmd/ct-fetch/rfc6962.go
+++ b/go/cmd/ct-fetch/rfc6962.go
@@ -354,7 +354,7 @@ func (lw *LogWorker) Run(ctx context.Context, entryChan chan<- LogSyncMessage) e
 		// than `STH.Timestamp - LogState.MMD` will be added. This
 		// ensures that we will eventually cover the tail of a log that
 		// is no longer receiving new entries.
-		if lw.LogState.MaxEntry == lw.STH.TreeSize-1 {
+		if !lw.LogState.LastUpdateTime.IsZero() && lw.LogState.MaxEntry == lw.STH.TreeSize-1 {
 			err := lw.updateState(ctx, nil, lw.LogState.MinEntry, lw.STH.Timestamp, entryChan)
 			if err != nil {
 				glog.Errorf("[%s] Failed to update log state: %s", lw.Name(), err)
-- 
2.43.0


From 6ebf3cfb29c8caca45bb69272bf47c2ed392e305 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:43 +0000
Subject: [PATCH 04/30] fix: ct-fetch: complete logs whose backlog is shorter
 than four entries

On first contact with a log of JobSize+1 to JobSize+3 entries, the Init job
left a backlog of one to three entries, and an interrupted Backfill job could
leave two or three. There is no consistency proof for a range that ends at or
before index 2, so the log was then never completed, or its downloader ended
with an error.
---
 go/cmd/ct-fetch/rfc6962.go | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/go/cmd/ct-fetch/rfc6962.go b/go/cmd/ct-fetch/rfc6962.go
index e977728..97c1706 100644
--- a/go/cmd/ct-fetch/rfc6962.go
+++ b/go/cmd/ct-fetch/rfc6962.go
@@ -325,6 +325,10 @@ func (lw *LogWorker) Run(ctx context.Context, entryChan chan<- LogSyncMessage) e
 		} else {
 			firstIndex = lw.STH.TreeSize - lw.JobSize
 		}
+		if firstIndex <= 3 {
+			// Don't leave a backlog that is too short to verify.
+			firstIndex = 0
+		}
 		lastIndex = lw.STH.TreeSize - 1
 		glog.Infof("[%s] Running Init job %d %d", lw.Name(), firstIndex, lastIndex)
 	case Update:
@@ -397,9 +401,16 @@ func (lw *LogWorker) Run(ctx context.Context, entryChan chan<- LogSyncMessage) e
 		// Special case: the consistency proof with |oldSize| =
 		// 0 is empty. With |oldSize| = 1 (or |oldSize| = 2) it
 		// doesn't include a hash that depends on entry 0 (resp.
-		// 0 or 1). We ensured newSize > 3 when we assigned this
-		// worker its job, so we can use oldSize = 3.
+		// 0 or 1). We ensured that the log has more than 3 entries
+		// when we assigned this worker its job, so we can use
+		// oldSize = 3.
 		oldSize = 3
+		if newSize <= oldSize {
+			// An interrupted Backfill job left us with a few
+			// entries. We'll ignore the terms of the proof that
+			// depend on entries after |lastIndex|.
+			newSize = oldSize + 1
+		}
 	}
 	proof, err := lw.Client.GetSTHConsistency(ctx, oldSize, newSize)
 	if err != nil {
-- 
2.43.0


From 9caab5933c7fe4ae64798aacbb6b5f8ed1fe6924 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:27 +0000
Subject: [PATCH 05/30] fix: report write errors when storing serials, coverage
 and epochs

WriteSerialList, Commit and aggregate-known ignored the error of the final
Flush (or Close) of a file. When the disk was full, Commit replaced a list of
serials by a truncated one and removed the serials from the cache, and
aggregate-known exited with code 0 leaving a truncated list of serials.
---
 go/cmd/aggregate-known/aggregate-known.go | 18 +++++++++++++++---
 go/storage/certdatabase.go                |  9 ++++++---
 2 files changed, 21 insertions(+), 6 deletions(-)

diff --git a/go/cmd/aggregate-known/aggregate-known.go b/go/cmd/aggregate-known/aggregate-known.go
index 7823224..3fd3441 100644
--- a/go/cmd/aggregate-known/aggregate-known.go
+++ b/go/cmd/aggregate-known/aggregate-known.go
@@ -55,7 +55,7 @@ func (kw knownWorker) run(ctx context.Context, cancelMain context.CancelFunc, wg
 	}
 
 	for tuple := range workChan {
-		// Wrap in anonymous function to defer a writer.Flush & fd.Close per work unit
+		// Wrap in anonymous function to defer a fd.Close per work unit
 		func() {
 			path := filepath.Join(kw.savePath, tuple.issuer.ID())
 			fd, err := os.OpenFile(path, os.O_WRONLY|os.O_CREATE|os.O_TRUNC, permMode)
@@ -67,7 +67,6 @@ func (kw knownWorker) run(ctx context.Context, cancelMain context.CancelFunc, wg
 			defer fd.Close()
 
 			writer := bufio.NewWriter(fd)
-			defer writer.Flush()
 
 			var serialCount uint64
 
@@ -102,6 +101,17 @@ func (kw knownWorker) run(ctx context.Context, cancelMain context.CancelFunc, wg
 					return
 				}
 			}
+
+			err = writer.Flush()
+			if err == nil {
+				err = fd.Close()
+			}
+			if err != nil {
+				glog.Errorf("[%s] Could not write serials: %s", tuple.issuer.ID(), err)
+				cancelMain()
+				return
+			}
+
 			glog.Infof("[%s] %d total known serials for %s (shards=%d)", tuple.issuer.ID(),
 				serialCount, tuple.issuerDN, len(tuple.expDates))
 		}()
@@ -197,7 +207,9 @@ func work() error {
 	if err := enc.Encode(logList); err != nil {
 		return fmt.Errorf("Error marshaling ct-logs list %s: %s", *ctlogspath, err)
 	}
-	ctLogFD.Close()
+	if err := ctLogFD.Close(); err != nil {
+		return fmt.Errorf("Error writing %s: %s", *ctlogspath, err)
+	}
 
 	glog.Infof("Listing issuers and their expiration dates...")
 	issuerList, err := certDB.GetIssuerAndDatesFromStorage()
diff --git a/go/storage/certdatabase.go b/go/storage/certdatabase.go
index b9d7a98..d84cb1b 100644
--- a/go/storage/certdatabase.go
+++ b/go/storage/certdatabase.go
@@ -32,7 +32,6 @@ func serialListExpiryLine(aExpDate types.ExpDate) string {
 
 func WriteSerialList(w io.Writer, aExpDate types.ExpDate, aIssuer types.Issuer, aSerials []types.Serial) error {
 	writer := bufio.NewWriter(w)
-	defer writer.Flush()
 
 	// Write the expiry date for this collection of serial numbers as a unix
 	// timestamp encoded as a zero-padded 16 digit hex string. The expiry
@@ -56,7 +55,7 @@ func WriteSerialList(w io.Writer, aExpDate types.ExpDate, aIssuer types.Issuer,
 		}
 	}
 
-	return nil
+	return writer.Flush()
 }
 
 type CertDatabase struct {
@@ -619,7 +618,11 @@ func (db *CertDatabase) Commit(aProofOfLock string) error {
 		glog.Warningf("Failed to increment epochs: %s", err)
 		return nil
 	}
-	writer.Flush()
+	err = writer.Flush()
+	if err != nil {
+		glog.Warningf("Failed to increment epochs: %s", err)
+		return nil
+	}
 
 	err = db.cache.NextEpoch()
 	if err != nil {
-- 
2.43.0


From 57bf090eb8a620f05e8adb0edc2b280f4cea3738 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:27 +0000
Subject: [PATCH 06/30] fix: process a bin of cached serials once per commit

Redis' SCAN may return a key more than once. Commit then moved that bin to
storage twice at the same time, and the slower of the two, which could list
the bin after the faster had removed the serials from the cache, replaced the
stored list by one without these serials.
---
 go/storage/certdatabase.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/go/storage/certdatabase.go b/go/storage/certdatabase.go
index d84cb1b..3d3551c 100644
--- a/go/storage/certdatabase.go
+++ b/go/storage/certdatabase.go
@@ -117,7 +117,15 @@ func (db *CertDatabase) GetIssuerAndDatesFromChannel(reader <-chan string) ([]ty
 	// We gather these by issuer to obtain a list of the form
 	//    [(issuer 1, [date 1, date 2, ...]), (issuer 2, [...]), ...].
 	issuerMap := make(map[string]types.IssuerDate)
+	// Redis' scan methods regularly provide duplicates. The same bin must not
+	// be listed twice, as the callers process bins in parallel.
+	seen := make(map[string]struct{})
 	for entry := range reader {
+		if _, dup := seen[entry]; dup {
+			continue
+		}
+		seen[entry] = struct{}{}
+
 		parts := strings.Split(entry, "::")
 		if len(parts) != 3 {
 			return []types.IssuerDate{}, fmt.Errorf("Unexpected key format: %s", entry)
-- 
2.43.0


From d8ec3a489a0446fb4bfbe8bdc5af9c546e572199 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:27 +0000
Subject: [PATCH 07/30] fix: don't act on incomplete lists from the cache

KeysToChan and SetToChan close their channel before they return an error. The
reader of the channel took what it had got for the complete list, in a race
with the call of glog.Fatal in the thread that got the error. Commit could so
state coverage of serials that it had not moved to storage.
---
 go/storage/certdatabase.go | 27 ++++++++++++++++++---------
 go/storage/rediscache.go   | 11 +++++++----
 2 files changed, 25 insertions(+), 13 deletions(-)

diff --git a/go/storage/certdatabase.go b/go/storage/certdatabase.go
index 3d3551c..2b5c769 100644
--- a/go/storage/certdatabase.go
+++ b/go/storage/certdatabase.go
@@ -162,14 +162,20 @@ func (db *CertDatabase) GetIssuerAndDatesFromCache() ([]types.IssuerDate, error)
 	// The cache stores sets of serial numbers in bins that are keyed by strings
 	// of the form "serials::<date>::<issuer id>".
 	allChan := make(chan string)
+	errChan := make(chan error, 1)
 	go func() {
-		err := db.cache.KeysToChan("serials::*", allChan)
-		if err != nil {
-			glog.Fatalf("Couldn't list from cache")
-		}
+		errChan <- db.cache.KeysToChan("serials::*", allChan)
 	}()
 
-	return db.GetIssuerAndDatesFromChannel(allChan)
+	issuerList, err := db.GetIssuerAndDatesFromChannel(allChan)
+	if err != nil {
+		return issuerList, err
+	}
+	// The list is incomplete if KeysToChan encountered an error.
+	if err := <-errChan; err != nil {
+		return nil, fmt.Errorf("Couldn't list from cache: %s", err)
+	}
+	return issuerList, nil
 }
 
 func (db *CertDatabase) GetIssuerAndDatesFromStorage() ([]types.IssuerDate, error) {
@@ -679,16 +685,19 @@ func (db *CertDatabase) List(k *SerialCacheKey) map[string]struct{} {
 	uniqueEntries := make(map[string]struct{})
 
 	strChan := make(chan string)
+	errChan := make(chan error, 1)
 	go func() {
-		err := db.cache.SetToChan(k.ID(), strChan)
-		if err != nil {
-			glog.Fatalf("Error obtaining list of known certificates: %v", err)
-		}
+		errChan <- db.cache.SetToChan(k.ID(), strChan)
 	}()
 
 	for str := range strChan {
 		uniqueEntries[str] = struct{}{}
 	}
 
+	// The list is incomplete if SetToChan encountered an error.
+	if err := <-errChan; err != nil {
+		glog.Fatalf("Error obtaining list of known certificates: %v", err)
+	}
+
 	return uniqueEntries
 }
diff --git a/go/storage/rediscache.go b/go/storage/rediscache.go
index e2b1665..3598b88 100644
--- a/go/storage/rediscache.go
+++ b/go/storage/rediscache.go
@@ -249,11 +249,9 @@ func (ec *RedisCache) LoadLogState(shortUrl string) (*types.CTLogState, error) {
 func (ec *RedisCache) LoadAllLogStates() ([]types.CTLogState, error) {
 	ctLogList := make([]types.CTLogState, 0)
 	keyChan := make(chan string)
+	errChan := make(chan error, 1)
 	go func() {
-		err := ec.KeysToChan("log::*", keyChan)
-		if err != nil {
-			glog.Fatalf("Couldn't list CT logs from cache: %s", err)
-		}
+		errChan <- ec.KeysToChan("log::*", keyChan)
 	}()
 
 	for entry := range keyChan {
@@ -268,6 +266,11 @@ func (ec *RedisCache) LoadAllLogStates() ([]types.CTLogState, error) {
 		}
 	}
 
+	// The list is incomplete if KeysToChan encountered an error.
+	if err := <-errChan; err != nil {
+		return nil, fmt.Errorf("Couldn't list CT logs from cache: %s", err)
+	}
+
 	return ctLogList, nil
 }
 
-- 
2.43.0


From 40b5514b2b3d43c8dbc2f81cde6d09a71a9a752e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:27 +0000
Subject: [PATCH 08/30] fix: don't publish coverage if the cache lost its data
 during a commit

Commit reads the log states, moves cached serials to storage, and then
publishes the log states. If the cache is reset between the first two steps,
the serials are gone and the published coverage includes serials that are not
in storage. Check that we still hold the commit lock, which is lost with the
rest of the cache, before publishing.
---
 go/storage/certdatabase.go | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/go/storage/certdatabase.go b/go/storage/certdatabase.go
index 2b5c769..ac2c239 100644
--- a/go/storage/certdatabase.go
+++ b/go/storage/certdatabase.go
@@ -606,6 +606,17 @@ func (db *CertDatabase) Commit(aProofOfLock string) error {
 		return err
 	}
 
+	// If the cache lost its data after we obtained logList then the serials
+	// that logList covers might not have been moved to storage. The commit
+	// lock is lost with the data.
+	hasLock, err = db.cache.HasCommitLock(aProofOfLock)
+	if err != nil {
+		return err
+	}
+	if !hasLock {
+		return errors.New("Lost the commit lock while moving serials to storage")
+	}
+
 	err = ctLogFD.CloseAtomicallyReplace()
 	if err != nil {
 		return err
-- 
2.43.0


From bcdfbf4e7f5b5bcb14fe834cb6cc95780b0de2b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:42 +0000
Subject: [PATCH 09/30] fix: don't mistake an emptied cache for a new one after
 the first commit

The first commit leaves the epochs at 0 (storage) and 1 (cache). A cache that
loses its data then reports epoch 0 as well, which looked like the state before
the first commit, so the log states in the cache were not reset to what storage
covers and the serials that had been in the cache were covered but never
stored.
---
 go/storage/certdatabase.go | 33 ++++++++++++++++++++++++++++++---
 1 file changed, 30 insertions(+), 3 deletions(-)

diff --git a/go/storage/certdatabase.go b/go/storage/certdatabase.go
index ac2c239..8fd5526 100644
--- a/go/storage/certdatabase.go
+++ b/go/storage/certdatabase.go
@@ -95,7 +95,11 @@ func (db *CertDatabase) EnsureCacheIsConsistent() error {
 		return err
 	}
 
-	if cacheEpoch == storageEpoch+1 || (cacheEpoch == 0 && storageEpoch == 0) {
+	consistent, err := db.epochsAreConsistent(storageEpoch, cacheEpoch)
+	if err != nil {
+		return err
+	}
+	if consistent {
 		return nil
 	}
 
@@ -536,6 +540,24 @@ func (db *CertDatabase) getStorageEpoch() (uint64, error) {
 	return 0, nil
 }
 
+// epochsAreConsistent returns true if the cache is one epoch ahead of storage,
+// or if both epochs are 0 because nothing has been committed yet. The first
+// commit leaves storage at epoch 0, so a cache that loses its data after that
+// commit is told from a new one by the coverage metadata file.
+func (db *CertDatabase) epochsAreConsistent(storageEpoch, cacheEpoch uint64) (bool, error) {
+	if cacheEpoch == storageEpoch+1 {
+		return true, nil
+	}
+	if cacheEpoch != 0 || storageEpoch != 0 {
+		return false, nil
+	}
+	_, err := os.Stat(db.coverageFile())
+	if errors.Is(err, os.ErrNotExist) {
+		return true, nil
+	}
+	return false, err
+}
+
 func (db *CertDatabase) Commit(aProofOfLock string) error {
 	// Commit() moves serials from cache to storage, removes expired serial
 	// numbers from storage, and updates the coverage metadata file. This is
@@ -557,7 +579,8 @@ func (db *CertDatabase) Commit(aProofOfLock string) error {
 	//
 	// The epoch value in storage must be one less than the epoch value in
 	// cache (unless this is the first time that Commit() has been called,
-	// in which case both epochs will be equal to 0).
+	// in which case both epochs will be equal to 0 and there will be no
+	// coverage metadata file in storage).
 
 	if db.readOnlyStorage {
 		return fmt.Errorf("Cannot commit serials to read-only storage")
@@ -581,7 +604,11 @@ func (db *CertDatabase) Commit(aProofOfLock string) error {
 		return err
 	}
 
-	if (cacheEpoch != storageEpoch+1) && !(cacheEpoch == 0 && storageEpoch == 0) {
+	consistent, err := db.epochsAreConsistent(storageEpoch, cacheEpoch)
+	if err != nil {
+		return err
+	}
+	if !consistent {
 		return errors.New("Inconsistent cache and storage epochs. Restart ct-fetch.")
 	}
 
-- 
2.43.0


From 8abce5aef6b78e8b387150d681ac49a7e8054f90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:05 +0000
Subject: [PATCH 10/30] fix: ct-fetch: check a tiled log's issuer certificates
 against their fingerprints

A wrong certificate (a corrupted answer, a bad mirror) would have its entries
stored under the wrong issuer, while coverage includes them.
---
 go/cmd/ct-fetch/tiled.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/go/cmd/ct-fetch/tiled.go b/go/cmd/ct-fetch/tiled.go
index a0aa1d9..8137ccd 100644
--- a/go/cmd/ct-fetch/tiled.go
+++ b/go/cmd/ct-fetch/tiled.go
@@ -2,6 +2,7 @@ package main
 
 import (
 	"context"
+	"crypto/sha256"
 	"encoding/hex"
 	"fmt"
 	"math/rand"
@@ -151,6 +152,12 @@ func (lw TiledLogWorker) GetCertificate(ctx context.Context, fingerprint string)
 		return nil, nil
 	}
 
+	digest := sha256.Sum256(data)
+	if hex.EncodeToString(digest[:]) != fingerprint {
+		glog.Warningf("[%s] Issuer cert does not match its fingerprint %s", lw.Name(), fingerprint)
+		return nil, nil
+	}
+
 	cert, err = types.ParseCertificate(data)
 	if cert == nil {
 		return nil, fmt.Errorf("[%s] Fatal parsing error: fingerprint: %s error: %s", lw.Name(), fingerprint, err)
-- 
2.43.0


From dd57a597a06f376f613547dfdf7333fd5ad8e049 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:01 +0000
Subject: [PATCH 11/30] fix: aggregate-crls: report errors that truncate a list
 of revoked serials

StoreRevokedCertificateList flushed its buffer in a deferred call and ignored
the result, so a full disk left a truncated list behind while the program
went on and exited with success.
---
 go/cmd/aggregate-crls/aggregate-crls.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/go/cmd/aggregate-crls/aggregate-crls.go b/go/cmd/aggregate-crls/aggregate-crls.go
index 97d6201..674be2a 100644
--- a/go/cmd/aggregate-crls/aggregate-crls.go
+++ b/go/cmd/aggregate-crls/aggregate-crls.go
@@ -471,7 +471,6 @@ func (ae *AggregateEngine) StoreRevokedCertificateList(ctx context.Context, issu
 	defer fd.Close()
 
 	writer := bufio.NewWriter(fd)
-	defer writer.Flush()
 
 	for _, s := range serials {
 		select {
@@ -492,7 +491,11 @@ func (ae *AggregateEngine) StoreRevokedCertificateList(ctx context.Context, issu
 			}
 		}
 	}
-	return nil
+
+	if err := writer.Flush(); err != nil {
+		return err
+	}
+	return fd.Close()
 }
 
 func checkPathArg(strObj string, confOptionName string, ctconfig *config.CTConfig) {
-- 
2.43.0


From cdce15238f0ee8736c6b0808d5907d7e66c2ce27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:01 +0000
Subject: [PATCH 12/30] fix: aggregate-crls: do not exit with success when
 interrupted

After SIGTERM the workers stop at the next opportunity, leaving issuers without
their lists of revoked serials, yet the program wrote its list of enrolled
issuers (or nothing at all) and exited with code 0. crlite-generate.sh then
went on, and an issuer without a list counts as one that revoked nothing.
---
 go/cmd/aggregate-crls/aggregate-crls.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/go/cmd/aggregate-crls/aggregate-crls.go b/go/cmd/aggregate-crls/aggregate-crls.go
index 674be2a..d516886 100644
--- a/go/cmd/aggregate-crls/aggregate-crls.go
+++ b/go/cmd/aggregate-crls/aggregate-crls.go
@@ -561,10 +561,15 @@ func main() {
 	crlPaths, count := ae.downloadCRLs(ctx, mozIssuers)
 
 	if ctx.Err() != nil {
-		return
+		glog.Exitf("Interrupted while downloading CRLs")
 	}
 
 	ae.aggregateCRLs(ctx, count, crlPaths)
+
+	if ctx.Err() != nil {
+		glog.Exitf("Interrupted while aggregating CRLs, not all lists of revoked serials were written")
+	}
+
 	if err := mozIssuers.SaveIssuersList(*enrolledpath); err != nil {
 		glog.Fatalf("Unable to save the crlite-informed intermediate issuers to %s: %s", *enrolledpath, err)
 	}
-- 
2.43.0


From d1f7a80d712ce194ee670e71b7da7f32515fc83d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:01 +0000
Subject: [PATCH 13/30] fix: rootprogram: never leave an incomplete CCADB
 report at DiskPath

The report was downloaded over the copy on disk. A download that broke off
left a part of it there, which, when it ended with a complete row, the next
run loaded as a recent report: every issuer in the missing part was dropped.
---
 go/rootprogram/issuers.go | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/go/rootprogram/issuers.go b/go/rootprogram/issuers.go
index 7383ca6..7e85b30 100644
--- a/go/rootprogram/issuers.go
+++ b/go/rootprogram/issuers.go
@@ -80,13 +80,23 @@ func (mi *MozIssuers) Load() error {
 		return err
 	}
 
-	err = downloader.DownloadFileSync(ctx, *dataUrl, mi.DiskPath, 3, 300*time.Second)
+	// Download to a temporary file, so that an incomplete report never ends up
+	// at DiskPath, where a later run would take it for a recent one.
+	tmpPath := mi.DiskPath + ".tmp"
+	defer os.Remove(tmpPath)
+
+	err = downloader.DownloadFileSync(ctx, *dataUrl, tmpPath, 3, 300*time.Second)
 	if err != nil {
 		glog.Errorf("Error downloading CCADB report: %s", err)
 		return err
 	}
 
-	return mi.LoadFromDisk(mi.DiskPath)
+	err = mi.LoadFromDisk(tmpPath)
+	if err != nil {
+		return err
+	}
+
+	return os.Rename(tmpPath, mi.DiskPath)
 }
 
 func (mi *MozIssuers) LoadFromDisk(aPath string) error {
-- 
2.43.0


From de9675811a1187ece646075d440892393fba6221 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:01 +0000
Subject: [PATCH 14/30] fix: rootprogram: SaveIssuersList returns the error of
 a failed write

The error was shadowed, so a full disk left a truncated enrolled.json behind
and aggregate-crls exited with success.
---
 go/rootprogram/issuers.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/go/rootprogram/issuers.go b/go/rootprogram/issuers.go
index 7e85b30..90fc0ec 100644
--- a/go/rootprogram/issuers.go
+++ b/go/rootprogram/issuers.go
@@ -347,6 +347,8 @@ func (mi *MozIssuers) SaveIssuersList(filePath string) error {
 
 	if err := enc.Encode(issuers); err != nil {
 		glog.Errorf("Error marshaling enrolled issuer %s: %s", filePath, err)
+		fd.Close()
+		return err
 	}
 
 	if err = fd.Close(); err != nil {
-- 
2.43.0


From bb87d954c9046144a0c81eaee8169a4294ca89dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:05 +0000
Subject: [PATCH 15/30] fix: don't overwrite concurrent changes to ct-logs
 records

A reviewer's change of crlite_enrolled between the publisher's read of the
collection and its update of the record was silently undone.
---
 moz_kinto_publisher/main.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/moz_kinto_publisher/main.py b/moz_kinto_publisher/main.py
index 6dc3824..9de50ea 100755
--- a/moz_kinto_publisher/main.py
+++ b/moz_kinto_publisher/main.py
@@ -1243,6 +1243,9 @@ def publish_ctlogs(*, args, rw_client):
                 collection=settings.KINTO_CTLOGS_COLLECTION,
                 data=upstream_log,
                 id=known_log["id"],
+                # Fail if the record was edited (e.g. if its enrollment was
+                # changed) since we read it. The next run will update it.
+                if_match=known_log.get("last_modified"),
             )
         except KintoException as ke:
             log.error("Update failed, %s", ke)
-- 
2.43.0


From 2961e7d7d155fc6fe90f5725d5f494b53394f1bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:05 +0000
Subject: [PATCH 16/30] fix: determine the oldest published run numerically

"20210101-10" sorts before "20210101-9", so the age of the full filter was
underestimated if it came from a day with more than ten runs.
---
 moz_kinto_publisher/main.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/moz_kinto_publisher/main.py b/moz_kinto_publisher/main.py
index 9de50ea..1107ca4 100755
--- a/moz_kinto_publisher/main.py
+++ b/moz_kinto_publisher/main.py
@@ -967,7 +967,9 @@ def crlite_determine_publish(*, existing_records, run_db, channel):
         return default
 
     # If the full filter is too old, publish a full filter.
-    earliest_timestamp = run_db.get_run_timestamp(min(record_run_ids))
+    earliest_timestamp = run_db.get_run_timestamp(
+        min(record_run_ids, key=workflow.normalize_identifier)
+    )
     new_timestamp = run_db.get_run_timestamp(new_run_id)
     if new_timestamp - earliest_timestamp >= timedelta(
         days=channel.max_filter_age_days
-- 
2.43.0


From 24a8f4e3d5bfb163606e14bc240c1010feaf8f5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:05 +0000
Subject: [PATCH 17/30] fix: don't append a run whose timestamp precedes the
 existing records

The records are ordered by timestamp. A delta with an earlier timestamp than
its parent was published again by the next run, with the same parent.
---
 moz_kinto_publisher/main.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/moz_kinto_publisher/main.py b/moz_kinto_publisher/main.py
index 1107ca4..2a5f2eb 100755
--- a/moz_kinto_publisher/main.py
+++ b/moz_kinto_publisher/main.py
@@ -966,6 +966,14 @@ def crlite_determine_publish(*, existing_records, run_db, channel):
         log.error("Failed to verify run ID consistency: %s", se)
         return default
 
+    # The records are ordered by timestamp, so the new runs must be later than
+    # every existing record. (Clocks can be set back between runs.)
+    if new_run_ids and run_db.get_run_timestamp(
+        new_run_ids[0]
+    ) <= run_db.get_run_timestamp(record_run_ids[-1]):
+        log.error("Run %s is not later than the existing records.", new_run_ids[0])
+        return default
+
     # If the full filter is too old, publish a full filter.
     earliest_timestamp = run_db.get_run_timestamp(
         min(record_run_ids, key=workflow.normalize_identifier)
-- 
2.43.0


From 918be1f91abe69df64131fa81cee4bda9c15e721 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:05 +0000
Subject: [PATCH 18/30] fix: request review of cert-revocations once all
 channels are consistent

Review was requested after each channel, so that the records of a channel
which an interrupted run had left without its full filter, or without
attachments, could be signed off. On the other hand, a failed request was not
repeated until the next new run, and the removal of records of disabled
channels withdrew the request.
---
 moz_kinto_publisher/main.py | 35 ++++++++++++++++++++++++++++++-----
 1 file changed, 30 insertions(+), 5 deletions(-)

diff --git a/moz_kinto_publisher/main.py b/moz_kinto_publisher/main.py
index 2a5f2eb..454c750 100755
--- a/moz_kinto_publisher/main.py
+++ b/moz_kinto_publisher/main.py
@@ -1077,14 +1077,36 @@ def publish_crlite(*, args, rw_client, channel, timeout=timedelta(minutes=5)):
                 noop=args.noop,
             )
 
-    if not args.noop:
-        rw_client.request_review_of_collection(
-            collection=settings.KINTO_CRLITE_COLLECTION
-        )
-
     return rv
 
 
+def request_crlite_review(*, rw_client):
+    # Signing off publishes the records of all channels, so only request review
+    # if every enabled channel is usable. A channel might not be if an earlier
+    # run was interrupted and there is nothing to publish now.
+    existing_records = sorted(
+        rw_client.get_records(collection=settings.KINTO_CRLITE_COLLECTION),
+        key=lambda x: x["details"]["name"],
+    )
+    for channel in CHANNELS:
+        if not channel.enabled:
+            continue
+        try:
+            crlite_verify_record_consistency(
+                existing_records=existing_records, channel=channel
+            )
+        except ConsistencyException as ce:
+            log.error("Not requesting review, channel %s: %s", channel.slug, ce)
+            return
+        if not any(
+            x.get("channel", CHANNEL_DEFAULT) == channel.slug for x in existing_records
+        ):
+            log.error("Not requesting review, channel %s is empty.", channel.slug)
+            return
+
+    rw_client.request_review_of_collection(collection=settings.KINTO_CRLITE_COLLECTION)
+
+
 def publish_ctlogs(*, args, rw_client):
     # Copy CT log metadata from google's v3 log_list to our kinto collection.
     # This will notify reviewers who can then manually enroll the log in CRLite.
@@ -1339,6 +1361,9 @@ def main():
                     noop=args.noop, channel=channel, rw_client=rw_client
                 )
 
+        if not args.noop:
+            request_crlite_review(rw_client=rw_client)
+
         log.info("Updating intermediates collection")
         publish_intermediates(args=args, rw_client=rw_client)
     except KintoException as ke:
-- 
2.43.0


From d5585c7d745bb69de5774c5e503049f7b8095b69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:05 +0000
Subject: [PATCH 19/30] fix: allocate increasing run identifiers even if the
 clock was set back

If the newest run was from a later day than today, index 0 of the current day
was allocated, even if that run existed. Otherwise the identifier sorted before
the newest run, and the publisher never used it, although the next delta was
relative to it.
---
 workflow/0-allocate_identifier | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/workflow/0-allocate_identifier b/workflow/0-allocate_identifier
index 2ca919c..71fdd4b 100755
--- a/workflow/0-allocate_identifier
+++ b/workflow/0-allocate_identifier
@@ -27,7 +27,9 @@ all_identifiers = workflow.get_run_identifiers(args.filter_bucket)
 if all_identifiers:
     most_recent_identifier = all_identifiers.pop()
     (date_part, idx_part) = most_recent_identifier.split("-")
-    if date_part == dateprefix:
+    # Identifiers must increase even if the clock was set back
+    if date_part >= dateprefix:
+        dateprefix = date_part
         next_idx = int(idx_part) + 1
 
 allocatedName = "{}-{}".format(dateprefix, next_idx)
-- 
2.43.0


From 93524e63eb5193596ddd677d77f1117662a7c6ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:54 +0000
Subject: [PATCH 20/30] fix: compute deltas against a previous revset for the
 same reasons

---
 workflow/2-generate_mlbf          | 8 +++++++-
 workflow/3-upload_mlbf_to_storage | 3 +++
 2 files changed, 10 insertions(+), 1 deletion(-)

diff --git a/workflow/2-generate_mlbf b/workflow/2-generate_mlbf
index ebc0a60..d3d6b47 100755
--- a/workflow/2-generate_mlbf
+++ b/workflow/2-generate_mlbf
@@ -88,9 +88,15 @@ def main():
             dest = Path(tempfile.mkdtemp())
             prev_revset = dest / Path("prev_revset.bin")
 
+            # The previous revset has to be for the same reasons. Otherwise the
+            # delta lacks revocations whose reason has since become one of them.
+            latest_dir = "latest"
+            if delta_reason_set != "all":
+                latest_dir = f"latest/clubcard-{delta_reason_set}"
+
             workflow.download_from_google_cloud(
                 args.filter_bucket,
-                "latest/revset.bin",
+                f"{latest_dir}/revset.bin",
                 prev_revset,
             )
 
diff --git a/workflow/3-upload_mlbf_to_storage b/workflow/3-upload_mlbf_to_storage
index f108303..c7829a5 100755
--- a/workflow/3-upload_mlbf_to_storage
+++ b/workflow/3-upload_mlbf_to_storage
@@ -82,6 +82,9 @@ def main():
         localFolder = Path(path)
         remoteFolder = localFolder.relative_to(runIdPath.parent)
         uploadFiles(files, localFolder, remoteFolder, bucket, args=args)
+        # Add a copy to /latest/clubcard-priority
+        subFolder = localFolder.relative_to(runIdPath)
+        uploadFiles(files, localFolder, Path("latest") / subFolder, bucket, args=args)
 
     sentinel = bucket.blob(str(Path(runIdPath.name) / "completed"))
     log.info(f"Saving 'completed' marker to {sentinel.name}")
-- 
2.43.0


From 0aac27250f73a8e1b55893c50f4970e1baeeed4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:06:43 +0000
Subject: [PATCH 21/30] fix: rust-create-cascade: fail when it cannot start

With a missing input, an output directory that it could not clear or
create, or outputs that it must not overwrite, the program logged an error
and exited with status 0, so that the workflow took the run for a good one
and went on to upload what was left from before.
---
 rust-create-cascade/src/main.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rust-create-cascade/src/main.rs b/rust-create-cascade/src/main.rs
index 5c7a239..39c2dc4 100644
--- a/rust-create-cascade/src/main.rs
+++ b/rust-create-cascade/src/main.rs
@@ -781,7 +781,7 @@ fn main() {
         err = true;
     }
     if err {
-        return;
+        std::process::exit(1);
     }
 
     let hash_alg = match args.murmurhash3 {
-- 
2.43.0


From bcfb49f4bb61b4aabc694ecc19b7d5e466b33d0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:06:43 +0000
Subject: [PATCH 22/30] fix: rust-create-cascade: do not ignore I/O errors when
 looking for files

An error while reading a directory dropped the issuers that were not read
yet, and an error while looking for an issuer's revoked file was taken for
its absence. The result was a filter that calls every certificate of the
issuer valid, or a revset, stash and delta without its revocations. An
error while looking for the output directory left old delta files in it,
or was taken for permission to overwrite.
---
 rust-create-cascade/src/main.rs | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/rust-create-cascade/src/main.rs b/rust-create-cascade/src/main.rs
index 39c2dc4..83e75ec 100644
--- a/rust-create-cascade/src/main.rs
+++ b/rust-create-cascade/src/main.rs
@@ -295,15 +295,17 @@ fn list_issuer_file_pairs(
 ) -> Vec<(OsString, Option<PathBuf>, PathBuf)> {
     let known_files = Path::read_dir(known_dir).unwrap();
     let known_issuers: Vec<OsString> = known_files
-        .filter_map(|x| x.ok())
-        .map(|x| x.file_name())
+        .map(|x| x.expect("could not list known issuers").file_name())
         .collect();
 
     let mut pairs = vec![];
     for issuer in known_issuers {
         let k_file = known_dir.join(&issuer);
         let r_file = revoked_dir.join(&issuer);
-        if r_file.exists() {
+        if r_file
+            .try_exists()
+            .expect("could not look for revoked file")
+        {
             pairs.push((issuer, Some(r_file), k_file));
         } else {
             pairs.push((issuer, None, k_file));
@@ -646,8 +648,7 @@ fn write_stash(
 ) {
     let delta_files = Path::read_dir(delta_dir).unwrap();
     let delta_issuers: Vec<OsString> = delta_files
-        .filter_map(|x| x.ok())
-        .map(|x| x.file_name())
+        .map(|x| x.expect("could not list delta issuers").file_name())
         .collect();
 
     let mut stash_bytes = vec![];
@@ -751,7 +752,7 @@ fn main() {
     }
 
     if args.clobber {
-        if out_dir.exists() && std::fs::remove_dir_all(out_dir).is_err() {
+        if out_dir.try_exists().unwrap_or(true) && std::fs::remove_dir_all(out_dir).is_err() {
             error!("could not clobber output directory");
             err = true;
         }
@@ -763,7 +764,7 @@ fn main() {
             delta_dir,
             delta_filter_file,
         ] {
-            if f.exists() {
+            if f.try_exists().unwrap_or(true) {
                 error!(
                     "{} exists! Will not overwrite without --clobber.",
                     f.display()
-- 
2.43.0


From 58f9c43a270e5e73fd5406019ccb7611f39b94a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:04:34 +0000
Subject: [PATCH 23/30] fix: rust-query-crlite keeps the old filters until the
 new ones are there

An update removed the files that are no longer listed before it fetched their
replacements, and fetched those in the order of the collection, deltas before
the full filter. If it then failed or died, certificates that were known to
be revoked became good (a delta covers them, and the filter that lists them is
missing) or not covered. Fetch the full filter first, then the deltas in the
order of their runs, and remove the old files last.
---
 rust-query-crlite/src/main.rs | 41 ++++++++++++++++++++++-------------
 1 file changed, 26 insertions(+), 15 deletions(-)

diff --git a/rust-query-crlite/src/main.rs b/rust-query-crlite/src/main.rs
index 0633d73..f5bb55f 100644
--- a/rust-query-crlite/src/main.rs
+++ b/rust-query-crlite/src/main.rs
@@ -163,7 +163,7 @@ fn update_db(
             .json()
             .map_err(|_| CRLiteDBError::from("could not read remote settings data"))?;
 
-    let filters: Vec<&CertRevRecord> = cert_rev_records
+    let mut filters: Vec<&CertRevRecord> = cert_rev_records
         .data
         .iter()
         .filter(|x| x.channel.unwrap_or_default() == *channel)
@@ -180,20 +180,14 @@ fn update_db(
         .map(|x| x.attachment.filename.clone().into())
         .collect();
 
-    // Remove any filter or delta files that are not listed in the collection
-    for dir_entry in std::fs::read_dir(db_dir)? {
-        let Ok(dir_entry) = dir_entry else { continue };
-        let dir_entry_path = dir_entry.path();
-        let extension = dir_entry_path
-            .extension()
-            .and_then(|os_str| os_str.to_str());
-        if (extension == Some("delta") || extension == Some("filter"))
-            && !expected_filenames.contains(&dir_entry.file_name())
-        {
-            debug!("Removing {:?}", dir_entry.file_name());
-            let _ = std::fs::remove_file(dir_entry_path);
-        }
-    }
+    // A delta only adds to the filter and the deltas before it. Fetch them in
+    // this order, so that an update that stops halfway leaves no gap.
+    filters.sort_by_key(|x| {
+        (
+            x.incremental,
+            extract_run_id(Path::new(&x.attachment.filename)),
+        )
+    });
 
     for filter in filters {
         let expected_digest = hex::decode(&filter.attachment.hash)
@@ -225,6 +219,23 @@ fn update_db(
         std::fs::write(&path, filter_bytes)?;
     }
 
+    // Remove any filter or delta files that are not listed in the collection.
+    // This comes last: until the filters that replace them are in place, the
+    // old files are all that is known about some revocations.
+    for dir_entry in std::fs::read_dir(db_dir)? {
+        let Ok(dir_entry) = dir_entry else { continue };
+        let dir_entry_path = dir_entry.path();
+        let extension = dir_entry_path
+            .extension()
+            .and_then(|os_str| os_str.to_str());
+        if (extension == Some("delta") || extension == Some("filter"))
+            && !expected_filenames.contains(&dir_entry.file_name())
+        {
+            debug!("Removing {:?}", dir_entry.file_name());
+            let _ = std::fs::remove_file(dir_entry_path);
+        }
+    }
+
     Ok(())
 }
 
-- 
2.43.0


From 0849f3275478d37e45e091986a2667ef14183f66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:04:34 +0000
Subject: [PATCH 24/30] fix: rust-query-crlite does not skip filters when a
 directory cannot be read

An error while listing the database directory was ignored, so that queries
were answered without some of the filters, and updates left old ones behind.
---
 rust-query-crlite/src/main.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/rust-query-crlite/src/main.rs b/rust-query-crlite/src/main.rs
index f5bb55f..4b8714e 100644
--- a/rust-query-crlite/src/main.rs
+++ b/rust-query-crlite/src/main.rs
@@ -120,7 +120,7 @@ fn update_intermediates(db_dir: &Path) -> Result<(), CRLiteDBError> {
     // Find the lexicographically largest "yyyymmdd-r" prefix among downloaded filter files.
     let mut latest_run_id: Option<(String, u32)> = None;
     for dir_entry in std::fs::read_dir(db_dir)? {
-        let Ok(dir_entry) = dir_entry else { continue };
+        let dir_entry = dir_entry?;
         if let Some(run_id) = extract_run_id(&dir_entry.path()) {
             latest_run_id = Some(match latest_run_id {
                 None => run_id,
@@ -223,7 +223,7 @@ fn update_db(
     // This comes last: until the filters that replace them are in place, the
     // old files are all that is known about some revocations.
     for dir_entry in std::fs::read_dir(db_dir)? {
-        let Ok(dir_entry) = dir_entry else { continue };
+        let dir_entry = dir_entry?;
         let dir_entry_path = dir_entry.path();
         let extension = dir_entry_path
             .extension()
@@ -307,7 +307,7 @@ impl CRLiteDB {
         let mut filters = vec![];
         let mut most_recent_time = None;
         for dir_entry in std::fs::read_dir(db_dir)? {
-            let Ok(dir_entry) = dir_entry else { continue };
+            let dir_entry = dir_entry?;
             let dir_entry_path = dir_entry.path();
             let extension = dir_entry_path
                 .extension()
-- 
2.43.0


From 65b2b3b22dcf434aa9642b24640f28a0b3b442e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:04:34 +0000
Subject: [PATCH 25/30] fix: rust-query-crlite reports old filters that it
 cannot remove

The update went on as if it had removed them, and queries then used them
alongside the new ones.
---
 rust-query-crlite/src/main.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rust-query-crlite/src/main.rs b/rust-query-crlite/src/main.rs
index 4b8714e..391eb56 100644
--- a/rust-query-crlite/src/main.rs
+++ b/rust-query-crlite/src/main.rs
@@ -232,7 +232,7 @@ fn update_db(
             && !expected_filenames.contains(&dir_entry.file_name())
         {
             debug!("Removing {:?}", dir_entry.file_name());
-            let _ = std::fs::remove_file(dir_entry_path);
+            std::fs::remove_file(dir_entry_path)?;
         }
     }
 
-- 
2.43.0


From c76289220d2b5616f51d795aad2abc3a7a0e5986 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:04:34 +0000
Subject: [PATCH 26/30] fix: rust-query-crlite signoff fails if the list of
 hosts is not there

An error response without a body counted as a list without hosts, and the
signoff passed (exit status 0) without having queried anything.
---
 rust-query-crlite/src/main.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/rust-query-crlite/src/main.rs b/rust-query-crlite/src/main.rs
index 391eb56..34bde4c 100644
--- a/rust-query-crlite/src/main.rs
+++ b/rust-query-crlite/src/main.rs
@@ -490,6 +490,7 @@ impl rustls::client::ServerCertVerifier for AcceptAllCertsVerifier {
 
 fn signoff(db: &CRLiteDB, host_file_url: &str) -> Result<CmdResult, CRLiteDBError> {
     let host_file = reqwest::blocking::get(host_file_url)
+        .and_then(|response| response.error_for_status())
         .map_err(|_| CRLiteDBError::from("could not fetch hosts file"))?
         .text()
         .map_err(|_| CRLiteDBError::from("could not read hosts file"))?;
-- 
2.43.0


From 715f0a838571f66263b60b1ba90631bc8f891ba3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:19:10 +0000
Subject: [PATCH 27/30] fix: crlite-generate.sh works without statsdHost

---
 containers/scripts/crlite-generate.sh | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/containers/scripts/crlite-generate.sh b/containers/scripts/crlite-generate.sh
index 04ba6fc..05636a0 100755
--- a/containers/scripts/crlite-generate.sh
+++ b/containers/scripts/crlite-generate.sh
@@ -53,13 +53,13 @@ fi
 
 ${workflow}/2-generate_mlbf ${ID} \
               --filter-bucket ${crlite_filter_bucket:-crlite_filters_staging} \
-              --statsd-host ${statsdHost} \
+              ${statsdHost:+--statsd-host ${statsdHost}} \
               --reason-set all \
               --filter-type clubcard
 
 ${workflow}/2-generate_mlbf ${ID} \
               --filter-bucket ${crlite_filter_bucket:-crlite_filters_staging} \
-              --statsd-host ${statsdHost} \
+              ${statsdHost:+--statsd-host ${statsdHost}} \
               --reason-set priority \
               --filter-type clubcard
 
-- 
2.43.0


From 26263e9d8fb11ad3d5c9af95689df36dd5b2f427 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:19:10 +0000
Subject: [PATCH 28/30] fix: crlite-signoff.sh fetches the filter whose size it
 checks

---
 containers/scripts/crlite-signoff.sh | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/containers/scripts/crlite-signoff.sh b/containers/scripts/crlite-signoff.sh
index 4820f64..903b744 100755
--- a/containers/scripts/crlite-signoff.sh
+++ b/containers/scripts/crlite-signoff.sh
@@ -24,7 +24,8 @@ fi
 python3 "${SCRIPTS}/crlite-signoff-tool.py" intermediates
 
 # sign off on cert-revocations if the filter is less than MAX_FILTER_SIZE.
-FILTER_SIZE=$(stat --format=%s "${OUTPUT}/crlite.filter")
+"${RUST_QUERY_CRLITE}" --db "${OUTPUT}" --update "${INSTANCE}" x509 || exit 1
+FILTER_SIZE=$(stat --format=%s "${OUTPUT}"/*.filter) || exit 1
 echo "Filter is ${FILTER_SIZE} bytes."
 
 if (( FILTER_SIZE > MAX_FILTER_SIZE ))
-- 
2.43.0


From b352771f712800bf1c8ac25a4e1ee5f98c79a3c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:19:10 +0000
Subject: [PATCH 29/30] fix: the uploads abort if a directory cannot be listed

---
 workflow/1-upload_data_to_storage | 7 ++++++-
 workflow/3-upload_mlbf_to_storage | 9 +++++++--
 2 files changed, 13 insertions(+), 3 deletions(-)

diff --git a/workflow/1-upload_data_to_storage b/workflow/1-upload_data_to_storage
index c915d53..b3508a8 100755
--- a/workflow/1-upload_data_to_storage
+++ b/workflow/1-upload_data_to_storage
@@ -49,6 +49,11 @@ def uploadFiles(files, localFolder, remoteFolder, bucket, *, args):
         uploadBlob(bucket, remoteFilePath, localFilePath)
 
 
+def abortWalk(error):
+    # os.walk otherwise skips directories that it cannot list
+    raise error
+
+
 def main():
     args = parser.parse_args()
 
@@ -61,7 +66,7 @@ def main():
 
     runIdPath = args.results_path[0].resolve()
 
-    for path, dirs, files in os.walk(runIdPath):
+    for path, dirs, files in os.walk(runIdPath, onerror=abortWalk):
         localFolder = Path(path)
         remoteFolder = localFolder.relative_to(runIdPath.parent)
         uploadFiles(files, localFolder, remoteFolder, bucket, args=args)
diff --git a/workflow/3-upload_mlbf_to_storage b/workflow/3-upload_mlbf_to_storage
index c7829a5..42c0254 100755
--- a/workflow/3-upload_mlbf_to_storage
+++ b/workflow/3-upload_mlbf_to_storage
@@ -56,6 +56,11 @@ def ensureFileOrAbort(runIdPath, path):
         sys.exit(1)
 
 
+def abortWalk(error):
+    # os.walk otherwise skips directories that it cannot list
+    raise error
+
+
 def main():
     args = parser.parse_args()
 
@@ -70,7 +75,7 @@ def main():
 
     ensureFileOrAbort(runIdPath, Path("clubcard-all/filter"))
 
-    for path, dirs, files in os.walk(runIdPath / "clubcard-all"):
+    for path, dirs, files in os.walk(runIdPath / "clubcard-all", onerror=abortWalk):
         localFolder = Path(path)
         remoteFolder = localFolder.relative_to(runIdPath.parent)
         uploadFiles(files, localFolder, remoteFolder, bucket, args=args)
@@ -78,7 +83,7 @@ def main():
         subFolder = localFolder.relative_to(runIdPath / "clubcard-all")
         uploadFiles(files, localFolder, Path("latest") / subFolder, bucket, args=args)
 
-    for path, dirs, files in os.walk(runIdPath / "clubcard-priority"):
+    for path, dirs, files in os.walk(runIdPath / "clubcard-priority", onerror=abortWalk):
         localFolder = Path(path)
         remoteFolder = localFolder.relative_to(runIdPath.parent)
         uploadFiles(files, localFolder, remoteFolder, bucket, args=args)
-- 
2.43.0


From ccc647521ee1766f00e02e8d76f071ed5192f60d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:29:04 +0000
Subject: [PATCH 30/30] fix: compare the token on the server when releasing the
 commit lock

A DEL whose answer came late was sent again by the client, and removed
the lock that another process had acquired in the meantime.
---
 go/storage/rediscache.go | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/go/storage/rediscache.go b/go/storage/rediscache.go
index 3598b88..7bfd864 100644
--- a/go/storage/rediscache.go
+++ b/go/storage/rediscache.go
@@ -29,6 +29,14 @@ const NO_EXPIRATION time.Duration = 0
 const COMMIT_LOCK_KEY string = "lock::commit"
 const COMMIT_LOCK_EXPIRATION time.Duration = 4 * time.Hour
 
+// releaseCommitLockScript deletes KEYS[1] if its value is ARGV[1].
+const releaseCommitLockScript string = `
+if redis.call("get", KEYS[1]) == ARGV[1] then
+	return redis.call("del", KEYS[1])
+end
+return 0
+`
+
 const EPOCH_KEY string = "epoch"
 
 type RedisCache struct {
@@ -292,9 +300,12 @@ func (ec *RedisCache) AcquireCommitLock() (*string, error) {
 }
 
 func (ec *RedisCache) ReleaseCommitLock(aToken string) {
-	hasLock, err := ec.HasCommitLock(aToken)
-	if err == nil && hasLock {
-		ec.client.Del(COMMIT_LOCK_KEY)
+	// The token has to be compared by the server. A client that gets no
+	// answer in time sends the command again, and by then the lock might
+	// have been released and acquired by another process.
+	err := ec.client.Eval(releaseCommitLockScript, []string{COMMIT_LOCK_KEY}, aToken).Err()
+	if err != nil {
+		glog.Warningf("Failed to release the commit lock: %s", err)
 	}
 }
 
-- 
2.43.0

