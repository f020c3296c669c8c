From dd2e3595c8a78488fe740bf4a8ad66a29125deea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:42 +0000
Subject: [PATCH 01/50] fix: place the first sample of a new view at the row of
 its id

A view that did not exist yet was filled with blanks from row 1 on, so a
first sample with a non zero id was stored one row too early and could
not be read back.
---
 internal/dataframe/dataframe.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/internal/dataframe/dataframe.go b/internal/dataframe/dataframe.go
index e88c989..c430774 100644
--- a/internal/dataframe/dataframe.go
+++ b/internal/dataframe/dataframe.go
@@ -222,21 +222,21 @@ func (df *DataFrame) appendView(ctx context.Context, view string, samples []*v1.
 		}
 		// Sample ID == Row ID, for each view we need to store a contiguous rows
 		// starting from 0
-		var lastId uint64
+		var nextId uint64
 		if r != nil {
-			lastId = uint64(r.NumRows()) - 1
+			nextId = uint64(r.NumRows())
 			defer r.Release()
 		}
 		empty := &v1.Data{}
 		for _, s := range samples {
 			setSample(s)
-			for i := lastId + 1; i < s.Id; i++ {
+			for i := nextId; i < s.Id; i++ {
 				// we fill the blanks with empty data. All records in all views have the
 				// same number of columns
 				schema.Append(empty)
 			}
 			schema.Append(s.Data)
-			lastId = s.Id
+			nextId = s.Id + 1
 		}
 		if r != nil {
 			b := schema.NewRecord()
-- 
2.43.0


From 7f68c858d57d967218c53afdeea9fbbc935edbce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:36 +0000
Subject: [PATCH 02/50] fix: store absent messages as absent

The frames were encoded by the published arrow3, which stores every unset
message, list and bytes field as set; a sample without a resource, a scope
or an attribute value was read back with an empty one. The copy of arrow3
in this repository already keeps the difference, so use it.
---
 internal/dataframe/columns.go   | 2 +-
 internal/dataframe/dataframe.go | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/internal/dataframe/columns.go b/internal/dataframe/columns.go
index 1cb4adc..6a12ac5 100644
--- a/internal/dataframe/columns.go
+++ b/internal/dataframe/columns.go
@@ -4,8 +4,8 @@ import (
 	"strings"
 
 	"github.com/apache/arrow/go/v17/parquet/schema"
-	"github.com/gernest/arrow3"
 	v1 "github.com/gernest/requiemdb/gen/go/rq/v1"
+	"github.com/gernest/requiemdb/internal/arrow3"
 )
 
 type Column struct {
diff --git a/internal/dataframe/dataframe.go b/internal/dataframe/dataframe.go
index c430774..98eeedb 100644
--- a/internal/dataframe/dataframe.go
+++ b/internal/dataframe/dataframe.go
@@ -11,10 +11,10 @@ import (
 	"github.com/apache/arrow/go/v17/arrow"
 	"github.com/apache/arrow/go/v17/arrow/memory"
 	"github.com/dgraph-io/badger/v4"
-	"github.com/gernest/arrow3"
 	"github.com/gernest/rbf/quantum"
 	v1 "github.com/gernest/requiemdb/gen/go/rq/v1"
 	"github.com/gernest/requiemdb/internal/arena"
+	"github.com/gernest/requiemdb/internal/arrow3"
 	"github.com/gernest/requiemdb/internal/batch"
 	"github.com/gernest/requiemdb/internal/bitmaps"
 	"github.com/gernest/requiemdb/internal/logger"
-- 
2.43.0


From d2b23a9de7b9ea921f4ca7003114ec764b724aca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:02 +0000
Subject: [PATCH 03/50] fix: scan every view that a time range touches

The end of a range that is not aligned to its unit (hour, day, month or
year) was not searched: 10:50-11:05 looked only at 10:00-11:00 and a range
of days never at its last day.
---
 internal/dataframe/dataframe.go |  3 +--
 internal/shards/shards.go       |  8 +------
 internal/view/view.go           | 40 ++++++++++++++++++++++++++++++---
 3 files changed, 39 insertions(+), 12 deletions(-)

diff --git a/internal/dataframe/dataframe.go b/internal/dataframe/dataframe.go
index 98eeedb..013328c 100644
--- a/internal/dataframe/dataframe.go
+++ b/internal/dataframe/dataframe.go
@@ -11,7 +11,6 @@ import (
 	"github.com/apache/arrow/go/v17/arrow"
 	"github.com/apache/arrow/go/v17/arrow/memory"
 	"github.com/dgraph-io/badger/v4"
-	"github.com/gernest/rbf/quantum"
 	v1 "github.com/gernest/requiemdb/gen/go/rq/v1"
 	"github.com/gernest/requiemdb/internal/arena"
 	"github.com/gernest/requiemdb/internal/arrow3"
@@ -79,7 +78,7 @@ func readRows(r arrow.Record, rows []int) []*v1.Data {
 }
 
 func (df *DataFrame) View(ctx context.Context, resource v1.Scan_SCOPE, start, end time.Time, columns []int, rows *bitmaps.Bitmap, f ViewFn) error {
-	all := quantum.ViewsByTimeRange(view.StdView, start, end, view.ChooseQuantum(end.Sub(start)))
+	all := view.Search(start, end)
 	var set string
 	switch resource {
 	case v1.Scan_METRICS:
diff --git a/internal/shards/shards.go b/internal/shards/shards.go
index 9faac59..1fa00f3 100644
--- a/internal/shards/shards.go
+++ b/internal/shards/shards.go
@@ -12,7 +12,6 @@ import (
 
 	"github.com/gernest/rbf"
 	"github.com/gernest/rbf/cfg"
-	"github.com/gernest/rbf/quantum"
 	"github.com/gernest/requiemdb/internal/bitmaps"
 	"github.com/gernest/requiemdb/internal/rows"
 	"github.com/gernest/requiemdb/internal/view"
@@ -20,8 +19,6 @@ import (
 	"github.com/gernest/roaring/shardwidth"
 )
 
-const stdView = view.StdView
-
 type Shards struct {
 	config cfg.Config
 	mu     sync.RWMutex
@@ -104,10 +101,7 @@ func (s *Shards) Rows(start, end time.Time, columns *bitmaps.Bitmap) (*bitmaps.B
 		shard := col / shardwidth.ShardWidth
 		m[shard] = append(m[shard], col)
 	}
-	views := quantum.ViewsByTimeRange(stdView, start, end, view.ChooseQuantum(
-		end.Sub(start),
-	))
-	return s.rows(views, m)
+	return s.rows(view.Search(start, end), m)
 }
 
 func (s *Shards) rows(views []string, columns map[uint64][]uint64) (r *bitmaps.Bitmap, err error) {
diff --git a/internal/view/view.go b/internal/view/view.go
index 8deb4ab..c5814f9 100644
--- a/internal/view/view.go
+++ b/internal/view/view.go
@@ -47,9 +47,43 @@ func ChooseQuantum(duration time.Duration) quantum.TimeQuantum {
 	return QH
 }
 
-func Search(start, end time.Time) []string {
-	return quantum.ViewsByTimeRange(StdView, start, end,
-		ChooseQuantum(end.Sub(start)))
+// Search returns all views that hold samples of the range [start,end). The
+// first and the last view are usually only partly covered by the range.
+func Search(start, end time.Time) (views []string) {
+	unit := ChooseQuantum(end.Sub(start)).Granularity()
+	for ts := floor(start.UTC(), unit); ts.Before(end); ts = next(ts, unit) {
+		views = append(views, quantum.ViewByTimeUnit(StdView, ts, unit))
+	}
+	return
+}
+
+// floor returns the beginning of the unit of time containing ts.
+func floor(ts time.Time, unit rune) time.Time {
+	y, m, d := ts.Date()
+	switch unit {
+	case 'Y':
+		return time.Date(y, time.January, 1, 0, 0, 0, 0, time.UTC)
+	case 'M':
+		return time.Date(y, m, 1, 0, 0, 0, 0, time.UTC)
+	case 'D':
+		return time.Date(y, m, d, 0, 0, 0, 0, time.UTC)
+	default:
+		return time.Date(y, m, d, ts.Hour(), 0, 0, 0, time.UTC)
+	}
+}
+
+// next returns the beginning of the unit of time following ts.
+func next(ts time.Time, unit rune) time.Time {
+	switch unit {
+	case 'Y':
+		return ts.AddDate(1, 0, 0)
+	case 'M':
+		return ts.AddDate(0, 1, 0)
+	case 'D':
+		return ts.AddDate(0, 0, 1)
+	default:
+		return ts.Add(hour)
+	}
 }
 
 // Pos generates position in a bitmap
-- 
2.43.0


From 7c90a309e9ba31bb1e05d8bef608f92dfb6ea997 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:26 +0000
Subject: [PATCH 04/50] fix: label a sample with its own resource

The label that selects samples by resource was computed before the
resource of the sample was set, so each sample got the label of the one
processed before it: scans without filters missed samples, and found
samples of another resource.
---
 internal/transform/transform.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/internal/transform/transform.go b/internal/transform/transform.go
index f84019f..da903a3 100644
--- a/internal/transform/transform.go
+++ b/internal/transform/transform.go
@@ -46,9 +46,11 @@ func (c *Context) processSample(sample *v1.Sample) {
 	c.minTs = 0
 	c.maxTs = 0
 	c.positions = bitmaps.New()
-	c.init()
 	c.WithSample(sample.Id).
+		WithResource(v1.RESOURCE_UNKOWN).
 		data(sample.Data)
+	// The label of the resource is only known after data is processed.
+	c.init()
 	sample.MinTs = c.minTs
 	sample.MaxTs = c.maxTs
 	c.batch.Add(
-- 
2.43.0


From d479c0de3725b9318fbbf26d3774e75b00d64adc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:51 +0000
Subject: [PATCH 05/50] fix: report a failed scan, and return empty data when
 no sample is read

Scan dropped the error of reading samples, and answered nil instead of
empty data when there were no samples, which gRPC can not marshal.
---
 internal/store/scan.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/internal/store/scan.go b/internal/store/scan.go
index c13c14c..52ffd98 100644
--- a/internal/store/scan.go
+++ b/internal/store/scan.go
@@ -66,6 +66,12 @@ func (s *Storage) Scan(ctx context.Context, scan *v1.Scan) (result *v1.Data, err
 	default:
 		return nil, fmt.Errorf("%d is not a supported resource", resource)
 	}
+	if err != nil {
+		return nil, err
+	}
+	if len(rs) == 0 {
+		return data.Zero(resource), nil
+	}
 	return data.Collapse(rs), nil
 }
 
-- 
2.43.0


From e10bbee76cfeda5ea2c241b9539da5a9aec3fa6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:53 +0000
Subject: [PATCH 06/50] fix: honour limit and reverse of a scan

Both are part of the documented request and of the script API but were
ignored.
---
 internal/store/scan.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/internal/store/scan.go b/internal/store/scan.go
index 52ffd98..b2bdaae 100644
--- a/internal/store/scan.go
+++ b/internal/store/scan.go
@@ -5,6 +5,7 @@ import (
 	"errors"
 	"fmt"
 	"log/slog"
+	"slices"
 
 	"github.com/dgraph-io/badger/v4"
 	v1 "github.com/gernest/requiemdb/gen/go/rq/v1"
@@ -72,6 +73,12 @@ func (s *Storage) Scan(ctx context.Context, scan *v1.Scan) (result *v1.Data, err
 	if len(rs) == 0 {
 		return data.Zero(resource), nil
 	}
+	if scan.Reverse {
+		slices.Reverse(rs)
+	}
+	if scan.Limit != 0 && uint64(len(rs)) > scan.Limit {
+		rs = rs[:scan.Limit]
+	}
 	return data.Collapse(rs), nil
 }
 
-- 
2.43.0


From ef2614630b26ace6a4573e5d94dc091ed55ffebb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:25 +0000
Subject: [PATCH 07/50] fix: open the database of a shard once

Two concurrent first uses of a shard both opened its database, and the
one that was replaced in the map kept writing to the same files.
---
 internal/shards/shards.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/internal/shards/shards.go b/internal/shards/shards.go
index 1fa00f3..32ad6de 100644
--- a/internal/shards/shards.go
+++ b/internal/shards/shards.go
@@ -200,6 +200,12 @@ func (s *Shards) get(shard uint64) (*rbf.DB, error) {
 		return r, nil
 	}
 	s.mu.RUnlock()
+	s.mu.Lock()
+	defer s.mu.Unlock()
+	r, ok = s.db[shard]
+	if ok {
+		return r, nil
+	}
 	path := filepath.Join(s.dir, strconv.FormatUint(shard, 10))
 	config := s.config
 	config.Logger = slog.Default().With(
@@ -210,9 +216,7 @@ func (s *Shards) get(shard uint64) (*rbf.DB, error) {
 	if err != nil {
 		return nil, err
 	}
-	s.mu.Lock()
 	s.db[shard] = r
-	s.mu.Unlock()
 	return r, nil
 }
 
-- 
2.43.0


From 09c511596c1f0f05560f734d7c28505cd30a7cdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:27 +0000
Subject: [PATCH 08/50] fix: a shard without a match means that no row matches

Columns of a scan that live in different shards must all match, but a
shard that matched nothing was ignored.
---
 internal/shards/shards.go | 24 ++++++++++--------------
 1 file changed, 10 insertions(+), 14 deletions(-)

diff --git a/internal/shards/shards.go b/internal/shards/shards.go
index 32ad6de..b001a00 100644
--- a/internal/shards/shards.go
+++ b/internal/shards/shards.go
@@ -139,22 +139,18 @@ func (s *Shards) rows(views []string, columns map[uint64][]uint64) (r *bitmaps.B
 			}
 		}
 		tx.Rollback()
-		if !b.IsEmpty() {
-			if r == nil {
-				// first column set
-				r = bitmaps.New()
-				r.Or(&b.Bitmap)
-			} else {
-				some := !r.IsEmpty()
-				r.And(&b.Bitmap)
-				if r.IsEmpty() && some {
-					// this shard resulted in no match. No need to keep searching
-					b.Release()
-					return
-				}
-			}
+		if r == nil {
+			// first column set
+			r = bitmaps.New()
+			r.Or(&b.Bitmap)
+		} else {
+			r.And(&b.Bitmap)
 		}
 		b.Release()
+		if r.IsEmpty() {
+			// this shard resulted in no match. No need to keep searching
+			return
+		}
 	}
 	return
 }
-- 
2.43.0


From 201659dbc5c6de51ec82e252517702fbe9f20d31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:29 +0000
Subject: [PATCH 09/50] fix: find the samples of earlier runs

Only shards that were written to since the start of the process were
searched, so after a restart every scan was empty until the next flush.
---
 internal/shards/shards.go | 36 +++++++++++++++++++++++++++++++++++-
 1 file changed, 35 insertions(+), 1 deletion(-)

diff --git a/internal/shards/shards.go b/internal/shards/shards.go
index b001a00..991cafe 100644
--- a/internal/shards/shards.go
+++ b/internal/shards/shards.go
@@ -4,6 +4,7 @@ import (
 	"errors"
 	"io"
 	"log/slog"
+	"os"
 	"path/filepath"
 	"slices"
 	"strconv"
@@ -24,17 +25,42 @@ type Shards struct {
 	mu     sync.RWMutex
 	db     map[uint64]*rbf.DB
 	dir    string
+	load   func() error
 }
 
 func New(path string, config *cfg.Config) *Shards {
 	if config == nil {
 		config = cfg.NewDefaultConfig()
 	}
-	return &Shards{
+	s := &Shards{
 		db:     make(map[uint64]*rbf.DB),
 		dir:    path,
 		config: *config,
 	}
+	s.load = sync.OnceValue(s.open)
+	return s
+}
+
+// open opens all shards that already exist in the index directory.
+func (s *Shards) open() error {
+	ls, err := os.ReadDir(s.dir)
+	if err != nil {
+		if errors.Is(err, os.ErrNotExist) {
+			return nil
+		}
+		return err
+	}
+	for _, e := range ls {
+		shard, err := strconv.ParseUint(e.Name(), 10, 64)
+		if err != nil {
+			continue
+		}
+		_, err = s.get(shard)
+		if err != nil {
+			return err
+		}
+	}
+	return nil
 }
 
 func (s *Shards) View(shard uint64, f func(tx *rbf.Tx) error) error {
@@ -72,6 +98,10 @@ func (s *Shards) Update(shard uint64, f func(tx *rbf.Tx) error) error {
 // transaction. If f returns io.EOF it signals end of iterations which will
 // return a nil error.
 func (s *Shards) AllShards(f func(tx *rbf.Tx, shard uint64) error) error {
+	err := s.load()
+	if err != nil {
+		return err
+	}
 	s.mu.RLock()
 	defer s.mu.RUnlock()
 	for shard, db := range s.db {
@@ -105,6 +135,10 @@ func (s *Shards) Rows(start, end time.Time, columns *bitmaps.Bitmap) (*bitmaps.B
 }
 
 func (s *Shards) rows(views []string, columns map[uint64][]uint64) (r *bitmaps.Bitmap, err error) {
+	err = s.load()
+	if err != nil {
+		return
+	}
 	s.mu.RLock()
 	defer s.mu.RUnlock()
 
-- 
2.43.0


From 28811a81f9315f2bb89d4af06c52432de776da77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:01 +0000
Subject: [PATCH 10/50] fix: never hand out a label id twice

The keys derived from prefix shared its spare capacity, which a one byte
prefix converted from a string has: the key of the id sequence was
overwritten with the prefix of the ids. After the first lease of 4096 ids
the sequence started again at 0 under the new key and labels shared ids.
---
 internal/translate/translate.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/internal/translate/translate.go b/internal/translate/translate.go
index ff9da7b..27e370a 100644
--- a/internal/translate/translate.go
+++ b/internal/translate/translate.go
@@ -4,6 +4,7 @@ import (
 	"bytes"
 	"encoding/binary"
 	"errors"
+	"slices"
 	"sync"
 
 	"github.com/dgraph-io/badger/v4"
@@ -17,6 +18,8 @@ type Translate struct {
 }
 
 func New(db *badger.DB, prefix []byte) (*Translate, error) {
+	// The keys below are kept, they must not share the spare capacity of prefix.
+	prefix = slices.Clip(prefix)
 	seq, err := db.GetSequence(append(prefix, []byte("seq")...), 4<<10)
 	if err != nil {
 		return nil, err
@@ -121,7 +124,7 @@ var kb = &sync.Pool{New: func() any { return new(bytes.Buffer) }}
 // Find finds translated key. Returns 0 if no key was found
 func (b *Translate) Find(key []byte) (n uint64, err error) {
 	err = b.db.Update(func(txn *badger.Txn) error {
-		k := append(b.keys, key...)
+		k := append(slices.Clip(b.keys), key...)
 		it, err := txn.Get(k)
 		if err != nil {
 			return err
-- 
2.43.0


From 06e3a86c3b5cd412358c77769be82287d1b6baec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:41 +0000
Subject: [PATCH 11/50] fix: match attribute filters against attributes

A filter on the attributes of data points, log records or spans was
matched against the attributes of their scope.
---
 internal/visit/visit.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/visit/visit.go b/internal/visit/visit.go
index 6a250ab..3c72391 100644
--- a/internal/visit/visit.go
+++ b/internal/visit/visit.go
@@ -115,7 +115,7 @@ func (o *All) Compile(filters ...*v1.Scan_Filter) {
 			case v1.Scan_SCOPE_ATTRIBUTES:
 				o.SetScopeAttr(e.Attr.Key, e.Attr.Value)
 			case v1.Scan_ATTRIBUTES:
-				o.SetScopeAttr(e.Attr.Key, e.Attr.Value)
+				o.SetAttr(e.Attr.Key, e.Attr.Value)
 			}
 		}
 	}
-- 
2.43.0


From f9275811fcad13f758219efde3f0f9a271718f9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:43 +0000
Subject: [PATCH 12/50] fix: apply span and trace id filters

Filters on the span id were ignored, those on the parent span id were
matched against the span id, and logs ignored both of their id filters.
---
 internal/visit/logs.go  | 2 ++
 internal/visit/trace.go | 3 ++-
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/internal/visit/logs.go b/internal/visit/logs.go
index 861ccbd..e001ed1 100644
--- a/internal/visit/logs.go
+++ b/internal/visit/logs.go
@@ -24,6 +24,8 @@ func (Logs) Visit(data *logsv1.LogsData, visitor *All) *logsv1.LogsData {
 			for _, ms := range sm.LogRecords {
 				if !(visitor.AcceptLogLevel(ms.SeverityText) &&
 					visitor.AcceptTimestamp(ms.TimeUnixNano) &&
+					visitor.AcceptTraceID(ms.TraceId) &&
+					visitor.AcceptSpanID(ms.SpanId) &&
 					visitor.AcceptAttributes(ms.Attributes)) {
 					continue
 				}
diff --git a/internal/visit/trace.go b/internal/visit/trace.go
index a610ad4..3a25c95 100644
--- a/internal/visit/trace.go
+++ b/internal/visit/trace.go
@@ -25,7 +25,8 @@ func (Trace) Visit(data *tracev1.TracesData, visitor *All) *tracev1.TracesData {
 				if !(visitor.AcceptName(ms.Name) &&
 					visitor.AcceptTimestamp(ms.StartTimeUnixNano) &&
 					visitor.AcceptTraceID(ms.TraceId) &&
-					visitor.AcceptParentSpanID(ms.SpanId) &&
+					visitor.AcceptSpanID(ms.SpanId) &&
+					visitor.AcceptParentSpanID(ms.ParentSpanId) &&
 					visitor.AcceptAttributes(ms.Attributes)) {
 					continue
 				}
-- 
2.43.0


From ed62bea2c929947bac7d9b79e4d2d3c182e5074d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:46 +0000
Subject: [PATCH 13/50] fix: report the end of the time range of a visitor

---
 internal/visit/visit.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/visit/visit.go b/internal/visit/visit.go
index 3c72391..3fd1044 100644
--- a/internal/visit/visit.go
+++ b/internal/visit/visit.go
@@ -262,7 +262,7 @@ func (a *All) AcceptAttributes(attr []*commonV1.KeyValue) bool {
 }
 
 func (a *All) TimeRange() (start, end uint64) {
-	return a.start_nano, a.start_nano
+	return a.start_nano, a.end_nano
 }
 
 func (a *All) AcceptLogLevel(lvl string) bool {
-- 
2.43.0


From b285ae5845d694dd29412b018b3f011b83dc14d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:48 +0000
Subject: [PATCH 14/50] fix: accept attributes without a value

Filtering by an attribute panicked on a key that has no value.
---
 internal/visit/visit.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/visit/visit.go b/internal/visit/visit.go
index 3fd1044..a97aa1e 100644
--- a/internal/visit/visit.go
+++ b/internal/visit/visit.go
@@ -291,7 +291,7 @@ func matchAttr(a *roaring64.Bitmap, ls []*commonV1.KeyValue) bool {
 	defer b.Release()
 	var h xxhash.Digest
 	for _, k := range ls {
-		switch e := k.Value.Value.(type) {
+		switch e := k.GetValue().GetValue().(type) {
 		case *commonV1.AnyValue_StringValue:
 			h.Reset()
 			h.WriteString(k.Key)
-- 
2.43.0


From b35f8a39b8fe867c2256b37b61051d1a31d005b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:50 +0000
Subject: [PATCH 15/50] fix: match long attributes

The digest of an attribute filter was used without Reset, which gives
another hash than the one it is compared with from 32 bytes on.
---
 internal/visit/visit.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/internal/visit/visit.go b/internal/visit/visit.go
index a97aa1e..0913dfb 100644
--- a/internal/visit/visit.go
+++ b/internal/visit/visit.go
@@ -162,6 +162,7 @@ var sep = []byte("=")
 
 func attr(k, v string) uint64 {
 	var h xxhash.Digest
+	h.Reset()
 	h.WriteString(k)
 	h.Write(sep)
 	h.WriteString(v)
-- 
2.43.0


From b673b1525f7e07d07af87315fcba0ed640d75a7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:52 +0000
Subject: [PATCH 16/50] fix: keep the schema of scopes and the description of
 metrics

A filtered result lost the schema url of its scopes and the unit,
description and metadata of its metrics, so values were rendered without
their unit.
---
 internal/visit/logs.go    |  3 ++-
 internal/visit/metrics.go | 40 +++++++++++++++++++++++++++++----------
 internal/visit/trace.go   |  3 ++-
 3 files changed, 34 insertions(+), 12 deletions(-)

diff --git a/internal/visit/logs.go b/internal/visit/logs.go
index e001ed1..71017d4 100644
--- a/internal/visit/logs.go
+++ b/internal/visit/logs.go
@@ -31,7 +31,8 @@ func (Logs) Visit(data *logsv1.LogsData, visitor *All) *logsv1.LogsData {
 				}
 				if scope == nil {
 					scope = &logsv1.ScopeLogs{
-						Scope: sm.Scope,
+						Scope:     sm.Scope,
+						SchemaUrl: sm.SchemaUrl,
 					}
 				}
 				scope.LogRecords = append(scope.LogRecords, ms)
diff --git a/internal/visit/metrics.go b/internal/visit/metrics.go
index 886ebff..780f19d 100644
--- a/internal/visit/metrics.go
+++ b/internal/visit/metrics.go
@@ -38,11 +38,15 @@ func (Metrics) Visit(data *metricsV1.MetricsData, visitor *All) *metricsV1.Metri
 					if len(points) > 0 {
 						if scope == nil {
 							scope = &metricsV1.ScopeMetrics{
-								Scope: sm.Scope,
+								Scope:     sm.Scope,
+								SchemaUrl: sm.SchemaUrl,
 							}
 						}
 						scope.Metrics = append(scope.Metrics, &metricsV1.Metric{
-							Name: ms.Name,
+							Name:        ms.Name,
+							Description: ms.Description,
+							Unit:        ms.Unit,
+							Metadata:    ms.Metadata,
 							Data: &metricsV1.Metric_Gauge{
 								Gauge: &metricsV1.Gauge{
 									DataPoints: points,
@@ -62,11 +66,15 @@ func (Metrics) Visit(data *metricsV1.MetricsData, visitor *All) *metricsV1.Metri
 					if len(points) > 0 {
 						if scope == nil {
 							scope = &metricsV1.ScopeMetrics{
-								Scope: sm.Scope,
+								Scope:     sm.Scope,
+								SchemaUrl: sm.SchemaUrl,
 							}
 						}
 						scope.Metrics = append(scope.Metrics, &metricsV1.Metric{
-							Name: ms.Name,
+							Name:        ms.Name,
+							Description: ms.Description,
+							Unit:        ms.Unit,
+							Metadata:    ms.Metadata,
 							Data: &metricsV1.Metric_Sum{
 								Sum: &metricsV1.Sum{
 									DataPoints:             points,
@@ -89,11 +97,15 @@ func (Metrics) Visit(data *metricsV1.MetricsData, visitor *All) *metricsV1.Metri
 					if len(points) > 0 {
 						if scope == nil {
 							scope = &metricsV1.ScopeMetrics{
-								Scope: sm.Scope,
+								Scope:     sm.Scope,
+								SchemaUrl: sm.SchemaUrl,
 							}
 						}
 						scope.Metrics = append(scope.Metrics, &metricsV1.Metric{
-							Name: ms.Name,
+							Name:        ms.Name,
+							Description: ms.Description,
+							Unit:        ms.Unit,
+							Metadata:    ms.Metadata,
 							Data: &metricsV1.Metric_Histogram{
 								Histogram: &metricsV1.Histogram{
 									DataPoints:             points,
@@ -115,11 +127,15 @@ func (Metrics) Visit(data *metricsV1.MetricsData, visitor *All) *metricsV1.Metri
 					if len(points) > 0 {
 						if scope == nil {
 							scope = &metricsV1.ScopeMetrics{
-								Scope: sm.Scope,
+								Scope:     sm.Scope,
+								SchemaUrl: sm.SchemaUrl,
 							}
 						}
 						scope.Metrics = append(scope.Metrics, &metricsV1.Metric{
-							Name: ms.Name,
+							Name:        ms.Name,
+							Description: ms.Description,
+							Unit:        ms.Unit,
+							Metadata:    ms.Metadata,
 							Data: &metricsV1.Metric_ExponentialHistogram{
 								ExponentialHistogram: &metricsV1.ExponentialHistogram{
 									DataPoints:             points,
@@ -141,11 +157,15 @@ func (Metrics) Visit(data *metricsV1.MetricsData, visitor *All) *metricsV1.Metri
 					if len(points) > 0 {
 						if scope == nil {
 							scope = &metricsV1.ScopeMetrics{
-								Scope: sm.Scope,
+								Scope:     sm.Scope,
+								SchemaUrl: sm.SchemaUrl,
 							}
 						}
 						scope.Metrics = append(scope.Metrics, &metricsV1.Metric{
-							Name: ms.Name,
+							Name:        ms.Name,
+							Description: ms.Description,
+							Unit:        ms.Unit,
+							Metadata:    ms.Metadata,
 							Data: &metricsV1.Metric_Summary{
 								Summary: &metricsV1.Summary{
 									DataPoints: points,
diff --git a/internal/visit/trace.go b/internal/visit/trace.go
index 3a25c95..5c0aa20 100644
--- a/internal/visit/trace.go
+++ b/internal/visit/trace.go
@@ -32,7 +32,8 @@ func (Trace) Visit(data *tracev1.TracesData, visitor *All) *tracev1.TracesData {
 				}
 				if scope == nil {
 					scope = &tracev1.ScopeSpans{
-						Scope: sm.Scope,
+						Scope:     sm.Scope,
+						SchemaUrl: sm.SchemaUrl,
 					}
 				}
 				scope.Spans = append(scope.Spans, ms)
-- 
2.43.0


From be1d13734bbd954cb0c916bc771ea677ce135f1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:15 +0000
Subject: [PATCH 17/50] fix: keep the labels of different attributes apart

The attribute "a=b" with value "c" had the label of the attribute "a" with
value "b=c", so a filter on one also found the other.
---
 internal/labels/labels.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/internal/labels/labels.go b/internal/labels/labels.go
index 70efebf..14c19a2 100644
--- a/internal/labels/labels.go
+++ b/internal/labels/labels.go
@@ -2,6 +2,7 @@ package labels
 
 import (
 	"fmt"
+	"strings"
 	"sync"
 
 	v1 "github.com/gernest/requiemdb/gen/go/rq/v1"
@@ -39,8 +40,11 @@ func (l *Label) WithValue(v string) *Label {
 	return l
 }
 
+// The first = that is not escaped separates key and value.
+var escape = strings.NewReplacer(`\`, `\\`, `=`, `\=`)
+
 func (l *Label) Encode() []byte {
-	l.buf = fmt.Appendf(l.buf[:0], "%d:%d:%s", l.Resource, l.Prefix, l.Key)
+	l.buf = fmt.Appendf(l.buf[:0], "%d:%d:%s", l.Resource, l.Prefix, escape.Replace(l.Key))
 	if l.Value != "" {
 		l.buf = fmt.Appendf(l.buf, "=%s", l.Value)
 	}
-- 
2.43.0


From d59435ab1577b71ba31940334b556be03db7d765 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:17 +0000
Subject: [PATCH 18/50] fix: keep the hashes of different attributes apart

As for labels, the attribute "a=b" with value "c" matched a filter on the
attribute "a" with value "b=c".
---
 internal/visit/visit.go | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/internal/visit/visit.go b/internal/visit/visit.go
index 0913dfb..27dd6a6 100644
--- a/internal/visit/visit.go
+++ b/internal/visit/visit.go
@@ -1,6 +1,7 @@
 package visit
 
 import (
+	"encoding/binary"
 	"encoding/hex"
 	"sync"
 
@@ -158,13 +159,18 @@ func (a *All) SetResourceAttr(k, v string) {
 	a.resource_attr.Add(attr(k, v))
 }
 
-var sep = []byte("=")
-
 func attr(k, v string) uint64 {
 	var h xxhash.Digest
+	return hashAttr(&h, k, v)
+}
+
+func hashAttr(h *xxhash.Digest, k, v string) uint64 {
 	h.Reset()
+	// the size of the key tells where the value starts
+	var size [8]byte
+	binary.BigEndian.PutUint64(size[:], uint64(len(k)))
+	h.Write(size[:])
 	h.WriteString(k)
-	h.Write(sep)
 	h.WriteString(v)
 	return h.Sum64()
 }
@@ -294,11 +300,7 @@ func matchAttr(a *roaring64.Bitmap, ls []*commonV1.KeyValue) bool {
 	for _, k := range ls {
 		switch e := k.GetValue().GetValue().(type) {
 		case *commonV1.AnyValue_StringValue:
-			h.Reset()
-			h.WriteString(k.Key)
-			h.Write(sep)
-			h.WriteString(e.StringValue)
-			b.Add(h.Sum64())
+			b.Add(hashAttr(&h, k.Key, e.StringValue))
 		}
 	}
 	// For labels, we use And to make sure we only take data points that have all
-- 
2.43.0


From 91c3e0ad7f3a41498a90e3a600d3d5a0cf9767e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:20 +0000
Subject: [PATCH 19/50] fix: index the attributes of spans

They were the only attributes that a filter could not find.
---
 internal/transform/trace.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/internal/transform/trace.go b/internal/transform/trace.go
index 5805585..ec6c369 100644
--- a/internal/transform/trace.go
+++ b/internal/transform/trace.go
@@ -41,6 +41,7 @@ func (c *Context) transformTrace(rm *tracev1.ResourceSpans) {
 						WithKey(hex.EncodeToString(span.ParentSpanId))
 				})
 			}
+			c.attributes(v1.PREFIX_ATTRIBUTES, span.Attributes)
 			c.Range(span.StartTimeUnixNano, span.EndTimeUnixNano)
 		}
 	}
-- 
2.43.0


From 4f6b778bc091937179daed589fb0afc6da8f33b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:05 +0000
Subject: [PATCH 20/50] fix: do not merge different resources and scopes

The parts of their identity were hashed without a boundary: a scope "ab"
without version was merged into scope "a" with version "b", and the data
of one was returned as data of the other.
---
 internal/data/sort.go | 26 +++++++++++++++++---------
 1 file changed, 17 insertions(+), 9 deletions(-)

diff --git a/internal/data/sort.go b/internal/data/sort.go
index c2f3401..65cf9c0 100644
--- a/internal/data/sort.go
+++ b/internal/data/sort.go
@@ -55,11 +55,18 @@ func (r *Sorter[T, R, S]) hashNum(v uint64) {
 	r.buf = r.buf[:0]
 }
 
+// hashString includes the size so that consecutive strings are kept apart.
+func (r *Sorter[T, R, S]) hashString(v string) {
+	r.hashNum(uint64(len(v)))
+	r.h.WriteString(v)
+}
+
 func (r *Sorter[T, R, S]) hashResource(schema string, resource *resourcev1.Resource) uint64 {
 	r.h.Reset()
-	r.h.WriteString(schema)
+	r.hashString(schema)
 	if resource != nil {
 		r.attr(resource.Attributes)
+		r.hashNum(uint64(resource.DroppedAttributesCount))
 	}
 	return r.h.Sum64()
 }
@@ -67,13 +74,12 @@ func (r *Sorter[T, R, S]) hashResource(schema string, resource *resourcev1.Resou
 func (r *Sorter[T, R, S]) hashScope(resource uint64, schema string, scope *commonv1.InstrumentationScope) uint64 {
 	r.h.Reset()
 	r.hashNum(resource)
-	r.h.WriteString(schema)
+	r.hashString(schema)
 	if scope != nil {
-		r.h.WriteString(scope.Name)
-		r.h.WriteString(scope.Version)
-		if scope.Attributes != nil {
-			r.attr(scope.Attributes)
-		}
+		r.hashString(scope.Name)
+		r.hashString(scope.Version)
+		r.attr(scope.Attributes)
+		r.hashNum(uint64(scope.DroppedAttributesCount))
 	}
 	return r.h.Sum64()
 }
@@ -112,8 +118,10 @@ func (r *Sorter[T, R, S]) Swap(i, j int) {
 }
 
 func (r *Sorter[T, R, S]) attr(kv []*commonv1.KeyValue) {
+	r.hashNum(uint64(len(kv)))
 	for _, v := range kv {
-		r.buf, _ = proto.MarshalOptions{}.MarshalAppend(r.buf[:0], v)
-		r.h.Write(r.buf)
+		data, _ := proto.Marshal(v)
+		r.hashNum(uint64(len(data)))
+		r.h.Write(data)
 	}
 }
-- 
2.43.0


From 2990c71dca6b846d077796824ebeca35dfe785d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:07 +0000
Subject: [PATCH 21/50] fix: merge data points only into a metric of the same
 kind

Metrics were merged by name alone. Two samples that used a name for
metrics of different types made the scan panic, and with another unit,
temporality or monotonicity points were returned under the wrong one.
---
 internal/data/metrics.go |  6 +++---
 internal/data/sort.go    | 27 +++++++++++++++++++++++++--
 2 files changed, 28 insertions(+), 5 deletions(-)

diff --git a/internal/data/metrics.go b/internal/data/metrics.go
index 7ab6622..c3986bf 100644
--- a/internal/data/metrics.go
+++ b/internal/data/metrics.go
@@ -25,7 +25,7 @@ func CollapseMetrics(ds []*metricsV1.MetricsData) *metricsV1.MetricsData {
 					sh := xm.hashScope(rh, sm.SchemaUrl, sm.Scope)
 					xm.scope[sh] = sm
 					for _, m := range sm.Metrics {
-						mh := xm.hashMetrics(sh, m.Name)
+						mh := xm.hashMetrics(sh, m)
 						xm.metrics[mh] = m
 					}
 				}
@@ -38,13 +38,13 @@ func CollapseMetrics(ds []*metricsV1.MetricsData) *metricsV1.MetricsData {
 					xm.scope[sh] = sm
 					resource.ScopeMetrics = append(resource.ScopeMetrics, sm)
 					for _, m := range sm.Metrics {
-						mh := xm.hashMetrics(sh, m.Name)
+						mh := xm.hashMetrics(sh, m)
 						xm.metrics[mh] = m
 					}
 					continue
 				}
 				for _, m := range sm.Metrics {
-					mh := xm.hashMetrics(sh, m.Name)
+					mh := xm.hashMetrics(sh, m)
 					om, ok := xm.metrics[mh]
 					if !ok {
 						scope.Metrics = append(scope.Metrics, m)
diff --git a/internal/data/sort.go b/internal/data/sort.go
index 65cf9c0..fda18cf 100644
--- a/internal/data/sort.go
+++ b/internal/data/sort.go
@@ -7,6 +7,7 @@ import (
 
 	"github.com/cespare/xxhash/v2"
 	commonv1 "go.opentelemetry.io/proto/otlp/common/v1"
+	metricsV1 "go.opentelemetry.io/proto/otlp/metrics/v1"
 	resourcev1 "go.opentelemetry.io/proto/otlp/resource/v1"
 	"google.golang.org/protobuf/proto"
 )
@@ -42,10 +43,32 @@ func newSorter[T any, R any, S any]() *Sorter[T, R, S] {
 	}
 }
 
-func (r *Sorter[T, R, S]) hashMetrics(scope uint64, name string) uint64 {
+func (r *Sorter[T, R, S]) hashMetrics(scope uint64, m *metricsV1.Metric) uint64 {
 	r.h.Reset()
 	r.hashNum(scope)
-	r.h.WriteString(name)
+	r.hashString(m.Name)
+	r.hashString(m.Description)
+	r.hashString(m.Unit)
+	r.attr(m.Metadata)
+	// only data points of the same kind can be merged
+	switch e := m.Data.(type) {
+	case *metricsV1.Metric_Gauge:
+		r.hashNum(1)
+	case *metricsV1.Metric_Sum:
+		r.hashNum(2)
+		r.hashNum(uint64(e.Sum.GetAggregationTemporality()))
+		if e.Sum.GetIsMonotonic() {
+			r.hashNum(1)
+		}
+	case *metricsV1.Metric_Histogram:
+		r.hashNum(3)
+		r.hashNum(uint64(e.Histogram.GetAggregationTemporality()))
+	case *metricsV1.Metric_ExponentialHistogram:
+		r.hashNum(4)
+		r.hashNum(uint64(e.ExponentialHistogram.GetAggregationTemporality()))
+	case *metricsV1.Metric_Summary:
+		r.hashNum(5)
+	}
 	return r.h.Sum64()
 }
 
-- 
2.43.0


From 2a0f64a4fa318c46f96d1536d5ff41ced982d685 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:45 +0000
Subject: [PATCH 22/50] fix: save accepted samples on shutdown

Everything exported since the last tick was acknowledged and then dropped
when the server was stopped, and a flush that was under way was cut short.
---
 internal/service/service.go | 28 +++++++++++++++++++---------
 1 file changed, 19 insertions(+), 9 deletions(-)

diff --git a/internal/service/service.go b/internal/service/service.go
index 80e548f..8349a4d 100644
--- a/internal/service/service.go
+++ b/internal/service/service.go
@@ -34,6 +34,7 @@ type Service struct {
 	store    *store.Storage
 	dataMu   sync.Mutex
 	data     *samples.List
+	flushMu  sync.Mutex
 	seq      *seq.Seq
 	stats    struct {
 		processed metric.Int64Counter
@@ -87,19 +88,27 @@ func (s *Service) start(ctx context.Context) {
 		case <-ctx.Done():
 			return
 		case <-tick.C:
-			s.dataMu.Lock()
-			ls := s.data
-			s.data = samples.Get()
-			s.dataMu.Unlock()
-			err := s.store.SaveSamples(ctx, ls)
-			if err != nil {
-				slog.Error("Failed to save samples", "err", err)
-			}
-			ls.Release()
+			s.flush(ctx)
 		}
 	}
 }
 
+// flush saves all buffered samples. Samples that were accepted must reach the
+// store, so a flush is not interrupted when ctx is cancelled.
+func (s *Service) flush(ctx context.Context) {
+	s.flushMu.Lock()
+	defer s.flushMu.Unlock()
+	s.dataMu.Lock()
+	ls := s.data
+	s.data = samples.Get()
+	s.dataMu.Unlock()
+	err := s.store.SaveSamples(context.WithoutCancel(ctx), ls)
+	if err != nil {
+		slog.Error("Failed to save samples", "err", err)
+	}
+	ls.Release()
+}
+
 func (s *Service) Save(data *v1.Data) error {
 	s.dataMu.Lock()
 	defer s.dataMu.Unlock()
@@ -111,6 +120,7 @@ func (s *Service) Save(data *v1.Data) error {
 }
 
 func (s *Service) Close() {
+	s.flush(context.Background())
 	s.store.Close()
 	s.snippets.Close()
 }
-- 
2.43.0


From 3fd3ba3ea5b99e45e154ba14857ca60b6f4c7fe8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:07 +0000
Subject: [PATCH 23/50] fix: allow reading a zstd stream after its end

Reading again after io.EOF or an error, or closing a writer twice,
dereferenced the codec that was already given back to the pool.
---
 internal/compress/grpc.go | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/internal/compress/grpc.go b/internal/compress/grpc.go
index d2398f8..5cd9d10 100644
--- a/internal/compress/grpc.go
+++ b/internal/compress/grpc.go
@@ -36,6 +36,9 @@ type writeCodec struct {
 }
 
 func (w *writeCodec) Close() (err error) {
+	if w.Encoder == nil {
+		return
+	}
 	err = w.Encoder.Close()
 	w.Reset(nil)
 	putEncoder(w.Encoder)
@@ -45,22 +48,38 @@ func (w *writeCodec) Close() (err error) {
 
 type readCodec struct {
 	*zstd.Decoder
+	err error
 }
 
 func (r *readCodec) Read(p []byte) (n int, err error) {
+	if r.Decoder == nil {
+		// Ended before, the decoder is back in the pool.
+		return 0, r.err
+	}
 	n, err = r.Decoder.Read(p)
 	if err != nil {
 		r.Reset(nil)
 		putDecoder(r.Decoder)
 		r.Decoder = nil
+		r.err = err
 	}
 	return
 }
 
 func (r *readCodec) WriteTo(w io.Writer) (n int64, err error) {
+	if r.Decoder == nil {
+		if r.err != io.EOF {
+			err = r.err
+		}
+		return
+	}
 	n, err = r.Decoder.WriteTo(w)
 	r.Reset(nil)
 	putDecoder(r.Decoder)
 	r.Decoder = nil
+	r.err = io.EOF
+	if err != nil {
+		r.err = err
+	}
 	return
 }
-- 
2.43.0


From 1324200d1506ae597dd54625a876aa529ab1d2bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:09 +0000
Subject: [PATCH 24/50] fix: render attributes without a value

Rendering panicked on an attribute that has a key only.
---
 internal/render/attribute.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/render/attribute.go b/internal/render/attribute.go
index 8a64086..fd07060 100644
--- a/internal/render/attribute.go
+++ b/internal/render/attribute.go
@@ -18,7 +18,7 @@ func attr(kv []*v1.KeyValue) string {
 }
 
 func value(b *bytes.Buffer, v *v1.AnyValue) {
-	switch e := v.Value.(type) {
+	switch e := v.GetValue().(type) {
 	case *v1.AnyValue_StringValue:
 		fmt.Fprintf(b, "%q", e.StringValue)
 	case *v1.AnyValue_BoolValue:
-- 
2.43.0


From b45c8a228905eb1525b5bf0f5a510b7dd5fc2411 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:11 +0000
Subject: [PATCH 25/50] fix: compute relative time ranges from the time of the
 scan

today(), ago() and the like ignored now(), so scripts that set it to be
reproducible still searched a range that ends at the current time.
---
 internal/js/scan.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/internal/js/scan.go b/internal/js/scan.go
index b3f90a1..4ad5dda 100644
--- a/internal/js/scan.go
+++ b/internal/js/scan.go
@@ -159,7 +159,11 @@ func (s *Scan) rangeTS(from, to time.Time) {
 	}
 }
 
+// ts returns evaluation time of the scan.
 func (s *Scan) ts() time.Time {
+	if s.scan.Now != nil {
+		return s.scan.Now.AsTime()
+	}
 	return s.o.GetNow()
 }
 
-- 
2.43.0


From ecfba41f06b2de24d0033fdb209e803c55437c0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:31 +0000
Subject: [PATCH 26/50] fix: trim results to the time range of the scan's clock

The script runtime was given a clock, but samples were trimmed to a range
computed from the system time.
---
 internal/js/rq.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/js/rq.go b/internal/js/rq.go
index 42352a6..ffcaf2e 100644
--- a/internal/js/rq.go
+++ b/internal/js/rq.go
@@ -90,7 +90,7 @@ func (r *JS) Scan(a *v1.Scan) (*v1.Data, error) {
 		vs := visit.New()
 		defer vs.Release()
 
-		start, end := x.TimeBounds(x.UTC, a)
+		start, end := x.TimeBounds(r.GetNow, a)
 		vs.SetTimeRange(uint64(start.UnixNano()), uint64(end.UnixNano()))
 		vs.Compile(a.Filters...)
 		return vs.Visit(data), nil
-- 
2.43.0


From c66b7b7b4d60ec325e0ec800804db24cc0f57d05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:38 +0000
Subject: [PATCH 27/50] fix: never leave a part of a compiled script in the
 cache

---
 internal/commands/query/query.go | 20 +++++++++++++++++++-
 1 file changed, 19 insertions(+), 1 deletion(-)

diff --git a/internal/commands/query/query.go b/internal/commands/query/query.go
index 61b012b..29414e1 100644
--- a/internal/commands/query/query.go
+++ b/internal/commands/query/query.go
@@ -86,7 +86,7 @@ func build(log *slog.Logger, data []byte) (*goja.Program, error) {
 			if err != nil {
 				return nil, err
 			}
-			err = os.WriteFile(key, cached, 0600)
+			err = save(key, cached)
 			if err != nil {
 				return nil, err
 			}
@@ -98,3 +98,21 @@ func build(log *slog.Logger, data []byte) (*goja.Program, error) {
 	}
 	return goja.Compile("scan.js", string(cached), true)
 }
+
+// save writes data to path all at once, an interrupted or failed save never
+// leaves a part of a package in the cache.
+func save(path string, data []byte) error {
+	f, err := os.CreateTemp(filepath.Dir(path), "tmp-*")
+	if err != nil {
+		return err
+	}
+	_, err = f.Write(data)
+	err = errors.Join(err, f.Close())
+	if err == nil {
+		err = os.Rename(f.Name(), path)
+	}
+	if err != nil {
+		os.Remove(f.Name())
+	}
+	return err
+}
-- 
2.43.0


From 275d8da5e55a07284ea903b97ee15511cc32666f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:14 +0000
Subject: [PATCH 28/50] fix: an empty time range touches no view

---
 internal/view/view.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/internal/view/view.go b/internal/view/view.go
index c5814f9..fe35e79 100644
--- a/internal/view/view.go
+++ b/internal/view/view.go
@@ -50,6 +50,9 @@ func ChooseQuantum(duration time.Duration) quantum.TimeQuantum {
 // Search returns all views that hold samples of the range [start,end). The
 // first and the last view are usually only partly covered by the range.
 func Search(start, end time.Time) (views []string) {
+	if !start.Before(end) {
+		return
+	}
 	unit := ChooseQuantum(end.Sub(start)).Granularity()
 	for ts := floor(start.UTC(), unit); ts.Before(end); ts = next(ts, unit) {
 		views = append(views, quantum.ViewByTimeUnit(StdView, ts, unit))
-- 
2.43.0


From 2141bd99efdbf885cf245485b0b987d7ae4a7a13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:06 +0000
Subject: [PATCH 29/50] fix: time bounds do not depend on the order of points
 without a time

---
 internal/transform/transform.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/internal/transform/transform.go b/internal/transform/transform.go
index da903a3..ea24c4d 100644
--- a/internal/transform/transform.go
+++ b/internal/transform/transform.go
@@ -182,11 +182,12 @@ func (c *Context) attributes(prefix v1.PREFIX, kv []*commonv1.KeyValue) {
 	}
 }
 
+// Timestamp extends the time bounds with ts. Zero is an unknown time, it has no
+// effect on the bounds.
 func (c *Context) Timestamp(ts uint64) {
-	if c.minTs == 0 {
+	if ts != 0 && (c.minTs == 0 || ts < c.minTs) {
 		c.minTs = ts
 	}
-	c.minTs = min(c.minTs, ts)
 	c.maxTs = max(c.maxTs, ts)
 }
 
@@ -199,9 +200,8 @@ func (c *Context) Reset() {
 }
 
 func (c *Context) Range(start, end uint64) {
-	if c.minTs == 0 {
+	if start != 0 && (c.minTs == 0 || start < c.minTs) {
 		c.minTs = start
 	}
-	c.minTs = min(c.minTs, start)
 	c.maxTs = max(c.maxTs, end)
 }
-- 
2.43.0


From 63d8dc2b36c707918ba8eb03677204d97b67118f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:44 +0000
Subject: [PATCH 30/50] fix: match labels of one shard that are far apart

---
 internal/shards/shards.go | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/internal/shards/shards.go b/internal/shards/shards.go
index 991cafe..6815cc0 100644
--- a/internal/shards/shards.go
+++ b/internal/shards/shards.go
@@ -20,6 +20,9 @@ import (
 	"github.com/gernest/roaring/shardwidth"
 )
 
+// Number of columns in a container of a bitmap
+const containerWidth = 1 << 16
+
 type Shards struct {
 	config cfg.Config
 	mu     sync.RWMutex
@@ -123,13 +126,14 @@ func (s *Shards) AllShards(f func(tx *rbf.Tx, shard uint64) error) error {
 }
 
 func (s *Shards) Rows(start, end time.Time, columns *bitmaps.Bitmap) (*bitmaps.Bitmap, error) {
-	// divide columns by shard
+	// divide columns by container. A row filter with several columns only
+	// matches when all of them are in the same container.
 	m := make(map[uint64][]uint64)
 	it := columns.Iterator()
 	for it.HasNext() {
 		col := it.Next()
-		shard := col / shardwidth.ShardWidth
-		m[shard] = append(m[shard], col)
+		container := col / containerWidth
+		m[container] = append(m[container], col)
 	}
 	return s.rows(view.Search(start, end), m)
 }
@@ -145,7 +149,7 @@ func (s *Shards) rows(views []string, columns map[uint64][]uint64) (r *bitmaps.B
 	var tx *rbf.Tx
 	var fs []roaring.BitmapFilter
 	for k, f := range columns {
-		db, ok := s.db[k]
+		db, ok := s.db[k*containerWidth/shardwidth.ShardWidth]
 		if !ok {
 			// Matches should be true for all filters.
 			if r != nil {
@@ -182,7 +186,7 @@ func (s *Shards) rows(views []string, columns map[uint64][]uint64) (r *bitmaps.B
 		}
 		b.Release()
 		if r.IsEmpty() {
-			// this shard resulted in no match. No need to keep searching
+			// this container resulted in no match. No need to keep searching
 			return
 		}
 	}
-- 
2.43.0


From 321970ded094e9b305adf659309faf490f58368a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:43 +0000
Subject: [PATCH 31/50] fix: render negative sizes

---
 internal/render/unit.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/internal/render/unit.go b/internal/render/unit.go
index a0b1b7c..d3e75d2 100644
--- a/internal/render/unit.go
+++ b/internal/render/unit.go
@@ -20,6 +20,9 @@ func formatUnit(value float64, unit string) string {
 	case "ns":
 		return time.Duration(value * float64(time.Nanosecond)).String()
 	case "By":
+		if value < 0 {
+			return "-" + humanize.IBytes(uint64(-value))
+		}
 		return humanize.IBytes(uint64(value))
 	default:
 		return fmt.Sprint(value)
-- 
2.43.0


From 9e12a89faa849e81b16af3e182c7655de9811332 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:13 +0000
Subject: [PATCH 32/50] fix: export the metrics that can be transformed when
 one can not

---
 internal/self/metrics.go | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/internal/self/metrics.go b/internal/self/metrics.go
index 40d62f6..203da4c 100644
--- a/internal/self/metrics.go
+++ b/internal/self/metrics.go
@@ -2,6 +2,7 @@ package self
 
 import (
 	"context"
+	"errors"
 
 	"github.com/gernest/requiemdb/internal/self/metrics/transform"
 	"go.opentelemetry.io/otel/sdk/metric"
@@ -19,16 +20,14 @@ var _ metric.Exporter = (*Metrics)(nil)
 
 func (m *Metrics) Export(ctx context.Context, rm *metricdata.ResourceMetrics) error {
 
-	tlpRm, err := transform.ResourceMetrics(rm)
-	if err != nil {
-		return err
-	}
-	_, err = m.Collector.Export(ctx, &collector_metrics.ExportMetricsServiceRequest{
+	// Metrics which can not be transformed are reported, the rest is exported.
+	tlpRm, transformErr := transform.ResourceMetrics(rm)
+	_, err := m.Collector.Export(ctx, &collector_metrics.ExportMetricsServiceRequest{
 		ResourceMetrics: []*metricsv1.ResourceMetrics{
 			tlpRm,
 		},
 	})
-	return err
+	return errors.Join(transformErr, err)
 }
 
 func (m *Metrics) Temporality(kind metric.InstrumentKind) metricdata.Temporality {
-- 
2.43.0


From 05e352aea2cae994234774ad67bd4eb558ea3b1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:14 +0000
Subject: [PATCH 33/50] fix: keep the trace state of the links of own spans

---
 internal/self/trace/tracetransform/span.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/internal/self/trace/tracetransform/span.go b/internal/self/trace/tracetransform/span.go
index ce69cfa..91ce823 100644
--- a/internal/self/trace/tracetransform/span.go
+++ b/internal/self/trace/tracetransform/span.go
@@ -149,6 +149,7 @@ func links(links []tracesdk.Link) []*tracepb.Span_Link {
 		sl = append(sl, &tracepb.Span_Link{
 			TraceId:                tid[:],
 			SpanId:                 sid[:],
+			TraceState:             otLink.SpanContext.TraceState().String(),
 			Attributes:             KeyValues(otLink.Attributes),
 			DroppedAttributesCount: uint32(otLink.DroppedAttributeCount),
 		})
-- 
2.43.0


From ced6a61e4a26c17eee0341177c6d6fd331cc1326 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:42 +0000
Subject: [PATCH 34/50] fix: do not share memory of the metrics SDK with stored
 metrics

The SDK reuses it after Export has returned, before the samples are flushed.
---
 internal/self/metrics/transform/metricdata.go | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/internal/self/metrics/transform/metricdata.go b/internal/self/metrics/transform/metricdata.go
index b6d0b76..90b2dd4 100644
--- a/internal/self/metrics/transform/metricdata.go
+++ b/internal/self/metrics/transform/metricdata.go
@@ -10,6 +10,7 @@ package transform
 
 import (
 	"fmt"
+	"slices"
 	"time"
 
 	"go.opentelemetry.io/otel/sdk/metric/metricdata"
@@ -183,8 +184,8 @@ func HistogramDataPoints[N int64 | float64](dPts []metricdata.HistogramDataPoint
 			TimeUnixNano:      timeUnixNano(dPt.Time),
 			Count:             dPt.Count,
 			Sum:               &sum,
-			BucketCounts:      dPt.BucketCounts,
-			ExplicitBounds:    dPt.Bounds,
+			BucketCounts:      slices.Clone(dPt.BucketCounts),
+			ExplicitBounds:    slices.Clone(dPt.Bounds),
 			Exemplars:         Exemplars(dPt.Exemplars),
 		}
 		if v, ok := dPt.Min.Value(); ok {
@@ -252,7 +253,7 @@ func ExponentialHistogramDataPoints[N int64 | float64](dPts []metricdata.Exponen
 func ExponentialHistogramDataPointBuckets(bucket metricdata.ExponentialBucket) *mpb.ExponentialHistogramDataPoint_Buckets {
 	return &mpb.ExponentialHistogramDataPoint_Buckets{
 		Offset:       bucket.Offset,
-		BucketCounts: bucket.Counts,
+		BucketCounts: slices.Clone(bucket.Counts),
 	}
 }
 
@@ -292,8 +293,8 @@ func Exemplars[N int64 | float64](exemplars []metricdata.Exemplar[N]) []*mpb.Exe
 		e := &mpb.Exemplar{
 			FilteredAttributes: KeyValues(exemplar.FilteredAttributes),
 			TimeUnixNano:       timeUnixNano(exemplar.Time),
-			SpanId:             exemplar.SpanID,
-			TraceId:            exemplar.TraceID,
+			SpanId:             slices.Clone(exemplar.SpanID),
+			TraceId:            slices.Clone(exemplar.TraceID),
 		}
 		switch v := any(exemplar.Value).(type) {
 		case int64:
-- 
2.43.0


From 943fac4d4dd5016879f9f188af70436ccca6b3f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:48 +0000
Subject: [PATCH 35/50] fix: accept labels of any length

---
 internal/translate/translate.go | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/internal/translate/translate.go b/internal/translate/translate.go
index 27e370a..cb81f9b 100644
--- a/internal/translate/translate.go
+++ b/internal/translate/translate.go
@@ -2,6 +2,7 @@ package translate
 
 import (
 	"bytes"
+	"crypto/sha256"
 	"encoding/binary"
 	"errors"
 	"slices"
@@ -80,7 +81,7 @@ func (b *Translate) TranslateKey(key []byte) (n uint64, err error) {
 	err = b.db.Update(func(txn *badger.Txn) error {
 		g := get()
 		g.Write(b.keys)
-		g.Write(key)
+		g.Write(bounded(key))
 		defer put(g)
 		it, err := txn.Get(g.Bytes())
 		if err != nil {
@@ -124,7 +125,7 @@ var kb = &sync.Pool{New: func() any { return new(bytes.Buffer) }}
 // Find finds translated key. Returns 0 if no key was found
 func (b *Translate) Find(key []byte) (n uint64, err error) {
 	err = b.db.Update(func(txn *badger.Txn) error {
-		k := append(slices.Clip(b.keys), key...)
+		k := append(slices.Clip(b.keys), bounded(key)...)
 		it, err := txn.Get(k)
 		if err != nil {
 			return err
@@ -137,6 +138,19 @@ func (b *Translate) Find(key []byte) (n uint64, err error) {
 	return
 }
 
+// Keys of the database are limited to 65000 bytes.
+const maxKey = 32 << 10
+
+// bounded returns key when it is short enough for the database, otherwise the
+// beginning of it followed by a hash of all of it.
+func bounded(key []byte) []byte {
+	if len(key) <= maxKey {
+		return key
+	}
+	sum := sha256.Sum256(key)
+	return append(slices.Clip(key[:maxKey]), sum[:]...)
+}
+
 // u64tob encodes v to big endian encoding.
 func u64tob(v uint64) []byte {
 	b := make([]byte, 8)
-- 
2.43.0


From 901c6f7c81c39b4bcd03eb3f09492f7e1a780453 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:48 +0000
Subject: [PATCH 36/50] fix: refuse scans with invalid times

They made the server walk over billions of years.
---
 internal/store/scan.go |  3 +++
 internal/x/valid.go    | 35 +++++++++++++++++++++++++++++++++++
 2 files changed, 38 insertions(+)
 create mode 100644 internal/x/valid.go

diff --git a/internal/store/scan.go b/internal/store/scan.go
index b2bdaae..eb803bb 100644
--- a/internal/store/scan.go
+++ b/internal/store/scan.go
@@ -19,6 +19,9 @@ import (
 )
 
 func (s *Storage) Scan(ctx context.Context, scan *v1.Scan) (result *v1.Data, err error) {
+	if err := x.CheckTimes(scan); err != nil {
+		return nil, err
+	}
 	resource := v1.RESOURCE(scan.Scope)
 	start, end := x.TimeBounds(x.UTC, scan)
 
diff --git a/internal/x/valid.go b/internal/x/valid.go
new file mode 100644
index 0000000..b236b2d
--- /dev/null
+++ b/internal/x/valid.go
@@ -0,0 +1,35 @@
+package x
+
+import (
+	"fmt"
+
+	v1 "github.com/gernest/requiemdb/gen/go/rq/v1"
+)
+
+// CheckTimes returns an error when scan has a timestamp or a duration that is
+// not valid. Absent ones are valid.
+func CheckTimes(scan *v1.Scan) error {
+	if r := scan.TimeRange; r != nil {
+		if r.Start != nil {
+			if err := r.Start.CheckValid(); err != nil {
+				return fmt.Errorf("invalid start of time range: %w", err)
+			}
+		}
+		if r.End != nil {
+			if err := r.End.CheckValid(); err != nil {
+				return fmt.Errorf("invalid end of time range: %w", err)
+			}
+		}
+	}
+	if scan.Now != nil {
+		if err := scan.Now.CheckValid(); err != nil {
+			return fmt.Errorf("invalid current time: %w", err)
+		}
+	}
+	if scan.Offset != nil {
+		if err := scan.Offset.CheckValid(); err != nil {
+			return fmt.Errorf("invalid offset: %w", err)
+		}
+	}
+	return nil
+}
-- 
2.43.0


From 4f18aade69a99e3e5b344c1927bd8e9c7eb24623 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:30:30 +0000
Subject: [PATCH 37/50] fix: sync a compiled script before it is put in the
 cache

---
 internal/commands/query/query.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/internal/commands/query/query.go b/internal/commands/query/query.go
index 29414e1..b8eb9d1 100644
--- a/internal/commands/query/query.go
+++ b/internal/commands/query/query.go
@@ -107,6 +107,10 @@ func save(path string, data []byte) error {
 		return err
 	}
 	_, err = f.Write(data)
+	if err == nil {
+		// a rename can outlive a power failure that loses what was written
+		err = f.Sync()
+	}
 	err = errors.Join(err, f.Close())
 	if err == nil {
 		err = os.Rename(f.Name(), path)
-- 
2.43.0


From 16a19301a075acc9440ae244d8512c6b1a6487ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:30:33 +0000
Subject: [PATCH 38/50] fix: accept gzip, which OTLP requires of a server

---
 cmd/rq/main.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/cmd/rq/main.go b/cmd/rq/main.go
index d99c0a0..934a918 100644
--- a/cmd/rq/main.go
+++ b/cmd/rq/main.go
@@ -31,6 +31,7 @@ import (
 	collector_metrics "go.opentelemetry.io/proto/otlp/collector/metrics/v1"
 	collector_trace "go.opentelemetry.io/proto/otlp/collector/trace/v1"
 	"google.golang.org/grpc"
+	_ "google.golang.org/grpc/encoding/gzip"
 )
 
 func main() {
-- 
2.43.0


From 9ca7c35e86d52921f4630b63c0fda57037e04394 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:30:28 +0000
Subject: [PATCH 39/50] fix: keep the containers of a parsed row in an ordinary
 bitmap

A copy of a tree bitmap of roaring does not find its first container, so a
copied or changed row that was made by NewRowFromRoaring lost columns.
---
 internal/rows/row.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/internal/rows/row.go b/internal/rows/row.go
index 906b73e..b914f3a 100644
--- a/internal/rows/row.go
+++ b/internal/rows/row.go
@@ -249,9 +249,17 @@ func NewRowFromRoaring(data []byte) *Row {
 	bitmaps, shards := roaring.RoaringToBitmaps(data, shardwidth.ShardWidth)
 	r := &Row{Segments: make([]RowSegment, len(bitmaps))}
 	for i := range bitmaps {
+		// The bitmaps that roaring reads lose sight of their first container when
+		// they are cloned or frozen, keep the containers in an ordinary one.
+		data := roaring.NewBitmap()
+		it, _ := bitmaps[i].Containers.Iterator(0)
+		for it.Next() {
+			data.Containers.Put(it.Value())
+		}
+		it.Close()
 		segment := RowSegment{
 			shard:    shards[i],
-			data:     bitmaps[i],
+			data:     data,
 			writable: false,
 			n:        bitmaps[i].Count(),
 		}
-- 
2.43.0


From c270eb4f5cc77d1ecc24b1c7beea00809f833389 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:26:27 +0000
Subject: [PATCH 40/50] fix: do not confuse labels that have the same xxhash

---
 internal/store/store.go | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/internal/store/store.go b/internal/store/store.go
index 3ea5e44..e9ab1ac 100644
--- a/internal/store/store.go
+++ b/internal/store/store.go
@@ -4,7 +4,6 @@ import (
 	"context"
 	"time"
 
-	"github.com/cespare/xxhash/v2"
 	"github.com/dgraph-io/badger/v4"
 	"github.com/dgraph-io/ristretto"
 	"github.com/gernest/rbf"
@@ -56,15 +55,14 @@ func NewStore(db *badger.DB, rdb *shards.Shards, tr *translate.Translate, seq *s
 }
 
 func (s *Storage) Translate(key []byte) uint64 {
-	h := xxhash.Sum64(key)
-	if v, ok := s.columnsCache.Get(h); ok {
+	if v, ok := s.columnsCache.Get(key); ok {
 		return v.(uint64)
 	}
 	v, err := s.translate.TranslateKey(key)
 	if err != nil {
 		logger.Fail("BUG: failed tp translate column", "err", err)
 	}
-	s.columnsCache.Set(h, v, 8)
+	s.columnsCache.Set(key, v, 8)
 	return v
 }
 
-- 
2.43.0


From 139de5e8e5ff948890701daa0d7c3663328dfca4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:26:27 +0000
Subject: [PATCH 41/50] fix: values with the same xxhash do not satisfy each
 other's filters

---
 internal/visit/visit.go | 50 ++++++++++++++++++++++-------------------
 1 file changed, 27 insertions(+), 23 deletions(-)

diff --git a/internal/visit/visit.go b/internal/visit/visit.go
index 27dd6a6..09e04b1 100644
--- a/internal/visit/visit.go
+++ b/internal/visit/visit.go
@@ -3,16 +3,20 @@ package visit
 import (
 	"encoding/binary"
 	"encoding/hex"
+	"hash/maphash"
 	"sync"
 
 	"github.com/RoaringBitmap/roaring/roaring64"
-	"github.com/cespare/xxhash/v2"
 	v1 "github.com/gernest/requiemdb/gen/go/rq/v1"
 	"github.com/gernest/requiemdb/internal/bitmaps"
 	commonV1 "go.opentelemetry.io/proto/otlp/common/v1"
 	resourceV1 "go.opentelemetry.io/proto/otlp/resource/v1"
 )
 
+// Values are compared by their hash. It is a random one, telemetry can not be
+// made to collide.
+var seed = maphash.MakeSeed()
+
 type BaseResource interface {
 	GetSchemaUrl() string
 	GetResource() *resourceV1.Resource
@@ -152,7 +156,7 @@ func (a *All) Release() {
 }
 
 func (a *All) SetResourceSchema(schema string) {
-	a.resource_schema.Add(xxhash.Sum64String(schema))
+	a.resource_schema.Add(maphash.String(seed, schema))
 }
 
 func (a *All) SetResourceAttr(k, v string) {
@@ -160,12 +164,12 @@ func (a *All) SetResourceAttr(k, v string) {
 }
 
 func attr(k, v string) uint64 {
-	var h xxhash.Digest
+	var h maphash.Hash
 	return hashAttr(&h, k, v)
 }
 
-func hashAttr(h *xxhash.Digest, k, v string) uint64 {
-	h.Reset()
+func hashAttr(h *maphash.Hash, k, v string) uint64 {
+	h.SetSeed(seed)
 	// the size of the key tells where the value starts
 	var size [8]byte
 	binary.BigEndian.PutUint64(size[:], uint64(len(k)))
@@ -176,14 +180,14 @@ func hashAttr(h *xxhash.Digest, k, v string) uint64 {
 }
 
 func (a *All) SetScopeSchema(schema string) {
-	a.scope_schema.Add(xxhash.Sum64String(schema))
+	a.scope_schema.Add(maphash.String(seed, schema))
 }
 func (a *All) SetScopeName(name string) {
-	a.scope_name.Add(xxhash.Sum64String(name))
+	a.scope_name.Add(maphash.String(seed, name))
 }
 
 func (a *All) SetScopVersion(version string) {
-	a.scope_version.Add(xxhash.Sum64String(version))
+	a.scope_version.Add(maphash.String(seed, version))
 }
 
 func (a *All) SetScopeAttr(k, v string) {
@@ -195,7 +199,7 @@ func (a *All) SetAttr(k, v string) {
 }
 
 func (a *All) SetName(name string) {
-	a.name.Add(xxhash.Sum64String(name))
+	a.name.Add(maphash.String(seed, name))
 }
 
 func (a *All) SetTraceID(id string) error {
@@ -203,7 +207,7 @@ func (a *All) SetTraceID(id string) error {
 	if err != nil {
 		return err
 	}
-	a.trace_id.Add(xxhash.Sum64(h))
+	a.trace_id.Add(maphash.Bytes(seed, h))
 	return nil
 }
 
@@ -212,7 +216,7 @@ func (a *All) SetSpanID(id string) error {
 	if err != nil {
 		return err
 	}
-	a.span_id.Add(xxhash.Sum64(h))
+	a.span_id.Add(maphash.Bytes(seed, h))
 	return nil
 }
 
@@ -221,12 +225,12 @@ func (a *All) SetParentSpanID(id string) error {
 	if err != nil {
 		return err
 	}
-	a.parent_span_id.Add(xxhash.Sum64(h))
+	a.parent_span_id.Add(maphash.Bytes(seed, h))
 	return nil
 }
 
 func (a *All) SetLogLevel(lvl string) {
-	a.log_level.Add(xxhash.Sum64String(lvl))
+	a.log_level.Add(maphash.String(seed, lvl))
 }
 
 func (a *All) SetTimeRange(start, end uint64) {
@@ -237,7 +241,7 @@ func (a *All) AcceptResourceSchema(schema string) bool {
 	if a.resource_schema.IsEmpty() {
 		return true
 	}
-	return a.resource_schema.Contains(xxhash.Sum64String(schema))
+	return a.resource_schema.Contains(maphash.String(seed, schema))
 }
 
 func (a *All) AcceptResourceAttributes(kv []*commonV1.KeyValue) bool {
@@ -245,15 +249,15 @@ func (a *All) AcceptResourceAttributes(kv []*commonV1.KeyValue) bool {
 }
 func (a *All) AcceptScopeSchema(schema string) bool {
 	return a.scope_schema.IsEmpty() ||
-		a.scope_schema.Contains(xxhash.Sum64String(schema))
+		a.scope_schema.Contains(maphash.String(seed, schema))
 }
 func (a *All) AcceptScopeName(name string) bool {
 	return a.scope_name.IsEmpty() ||
-		a.scope_name.Contains(xxhash.Sum64String(name))
+		a.scope_name.Contains(maphash.String(seed, name))
 }
 func (a *All) AcceptScopeVersion(version string) bool {
 	return a.scope_version.IsEmpty() ||
-		a.scope_version.Contains(xxhash.Sum64String(version))
+		a.scope_version.Contains(maphash.String(seed, version))
 }
 func (a *All) AcceptScopeAttributes(attr []*commonV1.KeyValue) bool {
 	return matchAttr(&a.scope_attr, attr)
@@ -261,7 +265,7 @@ func (a *All) AcceptScopeAttributes(attr []*commonV1.KeyValue) bool {
 
 func (a *All) AcceptName(name string) bool {
 	return a.name.IsEmpty() ||
-		a.name.Contains(xxhash.Sum64String(name))
+		a.name.Contains(maphash.String(seed, name))
 }
 
 func (a *All) AcceptAttributes(attr []*commonV1.KeyValue) bool {
@@ -274,16 +278,16 @@ func (a *All) TimeRange() (start, end uint64) {
 
 func (a *All) AcceptLogLevel(lvl string) bool {
 	return a.log_level.IsEmpty() ||
-		a.log_level.Contains(xxhash.Sum64String(lvl))
+		a.log_level.Contains(maphash.String(seed, lvl))
 }
 func (a *All) AcceptTraceID(id []byte) bool {
-	return a.trace_id.IsEmpty() || a.trace_id.Contains(xxhash.Sum64(id))
+	return a.trace_id.IsEmpty() || a.trace_id.Contains(maphash.Bytes(seed, id))
 }
 func (a *All) AcceptSpanID(id []byte) bool {
-	return a.span_id.IsEmpty() || a.span_id.Contains(xxhash.Sum64(id))
+	return a.span_id.IsEmpty() || a.span_id.Contains(maphash.Bytes(seed, id))
 }
 func (a *All) AcceptParentSpanID(id []byte) bool {
-	return a.parent_span_id.IsEmpty() || a.parent_span_id.Contains(xxhash.Sum64(id))
+	return a.parent_span_id.IsEmpty() || a.parent_span_id.Contains(maphash.Bytes(seed, id))
 }
 
 func (a *All) AcceptTimestamp(ts uint64) bool {
@@ -296,7 +300,7 @@ func matchAttr(a *roaring64.Bitmap, ls []*commonV1.KeyValue) bool {
 	}
 	b := bitmaps.New()
 	defer b.Release()
-	var h xxhash.Digest
+	var h maphash.Hash
 	for _, k := range ls {
 		switch e := k.GetValue().GetValue().(type) {
 		case *commonV1.AnyValue_StringValue:
-- 
2.43.0


From 89dae487b287ab77892894c13464c9551da9ba8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:26:27 +0000
Subject: [PATCH 42/50] fix: do not merge what differs and has the same xxhash

---
 internal/data/sort.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/internal/data/sort.go b/internal/data/sort.go
index fda18cf..6377f72 100644
--- a/internal/data/sort.go
+++ b/internal/data/sort.go
@@ -2,10 +2,10 @@ package data
 
 import (
 	"encoding/binary"
+	"hash/maphash"
 	"slices"
 	"sort"
 
-	"github.com/cespare/xxhash/v2"
 	commonv1 "go.opentelemetry.io/proto/otlp/common/v1"
 	metricsV1 "go.opentelemetry.io/proto/otlp/metrics/v1"
 	resourcev1 "go.opentelemetry.io/proto/otlp/resource/v1"
@@ -13,7 +13,7 @@ import (
 )
 
 type Sorter[T any, R any, S any] struct {
-	h        xxhash.Digest
+	h        maphash.Hash
 	resource map[uint64]R
 	scope    map[uint64]S
 	metrics  map[uint64]T
-- 
2.43.0


From cd50ddd126a1d0d09a952049ba7d6ac71c899aec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:26:42 +0000
Subject: [PATCH 43/50] fix: do not run the cached package of a script with the
 same xxhash

---
 internal/commands/query/query.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/internal/commands/query/query.go b/internal/commands/query/query.go
index b8eb9d1..c0d7f05 100644
--- a/internal/commands/query/query.go
+++ b/internal/commands/query/query.go
@@ -2,6 +2,7 @@ package query
 
 import (
 	"context"
+	"crypto/sha256"
 	"errors"
 	"fmt"
 	"log/slog"
@@ -9,7 +10,6 @@ import (
 	"path/filepath"
 	"time"
 
-	"github.com/cespare/xxhash/v2"
 	"github.com/dop251/goja"
 	v1 "github.com/gernest/requiemdb/gen/go/rq/v1"
 	"github.com/gernest/requiemdb/internal/commands"
@@ -76,8 +76,8 @@ func run(ctx context.Context, cmd *cli.Command) error {
 }
 
 func build(log *slog.Logger, data []byte) (*goja.Program, error) {
-	hash := xxhash.Sum64(data)
-	key := filepath.Join(commands.Cache(), fmt.Sprint(hash))
+	hash := sha256.Sum256(data)
+	key := filepath.Join(commands.Cache(), fmt.Sprintf("%x", hash))
 	cached, err := os.ReadFile(key)
 	if err != nil {
 		if os.IsNotExist(err) {
-- 
2.43.0


From 807bce0a21459500cf20a6b36d1d97dcefe23b13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:26:42 +0000
Subject: [PATCH 44/50] fix: do not confuse snippets that have the same xxhash

---
 internal/snippets/snippets.go | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/internal/snippets/snippets.go b/internal/snippets/snippets.go
index e9b52a7..34d8c1e 100644
--- a/internal/snippets/snippets.go
+++ b/internal/snippets/snippets.go
@@ -1,7 +1,6 @@
 package snippets
 
 import (
-	"github.com/cespare/xxhash/v2"
 	"github.com/dgraph-io/ristretto"
 	"github.com/dop251/goja"
 )
@@ -27,8 +26,7 @@ func (s *Snippets) Close() {
 }
 
 func (s *Snippets) GetProgramData(data []byte) (*goja.Program, error) {
-	hash := xxhash.Sum64(data)
-	if o, ok := s.hashed.Get(hash); ok {
+	if o, ok := s.hashed.Get(data); ok {
 		return o.(*goja.Program), nil
 	}
 	program, err := goja.Compile("index.js", string(data), true)
@@ -36,6 +34,6 @@ func (s *Snippets) GetProgramData(data []byte) (*goja.Program, error) {
 		return nil, err
 	}
 	cost := len(data)
-	s.hashed.Set(hash, program, int64(cost))
+	s.hashed.Set(data, program, int64(cost))
 	return program, nil
 }
-- 
2.43.0


From 3b55aa31af6301b2e615f1c1ac886e741718f61a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:26:26 +0000
Subject: [PATCH 45/50] fix: show integers of data points exactly

They were shown as float64, so integers above 2^53 lost digits.
---
 internal/render/metrics.go | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/internal/render/metrics.go b/internal/render/metrics.go
index a30182e..e5cca0f 100644
--- a/internal/render/metrics.go
+++ b/internal/render/metrics.go
@@ -2,6 +2,7 @@ package render
 
 import (
 	"fmt"
+	"strconv"
 	"strings"
 	"text/tabwriter"
 	"time"
@@ -113,7 +114,7 @@ func numeric(points []*v1.NumberDataPoint, unit string) string {
 	for _, d := range points {
 		fmt.Fprintf(w, "%s \t%s \t%s \t\n",
 			formatTime(d.TimeUnixNano),
-			formatUnit(numericDataValue(d), unit),
+			formatValue(d, unit),
 			attr(d.Attributes))
 	}
 	w.Flush()
@@ -124,11 +125,18 @@ func formatTime(ns uint64) string {
 	return time.Unix(0, int64(ns)).UTC().Format(time.DateTime)
 }
 
-func numericDataValue(d *v1.NumberDataPoint) float64 {
-	switch e := d.Value.(type) {
-	case *v1.NumberDataPoint_AsInt:
-		return float64(e.AsInt)
+// formatValue shows integers as they are, not all of them are a float64.
+func formatValue(d *v1.NumberDataPoint, unit string) string {
+	e, ok := d.Value.(*v1.NumberDataPoint_AsInt)
+	if !ok {
+		return formatUnit(d.GetAsDouble(), unit)
+	}
+	switch unit {
+	case "h", "m", "s", "ms", "By":
+		return formatUnit(float64(e.AsInt), unit)
+	case "ns":
+		return time.Duration(e.AsInt).String()
 	default:
-		return d.GetAsDouble()
+		return strconv.FormatInt(e.AsInt, 10)
 	}
 }
-- 
2.43.0


From 1526adc6f07c13f85a011047dddf8710c40752c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:26:33 +0000
Subject: [PATCH 46/50] fix: show values that a duration or a size cannot hold
 as they are

NaN, infinities and numbers out of range were converted to integers, which
gave unrelated values like -2562047h47m16.854775808s.
---
 internal/render/unit.go | 23 ++++++++++++++++++-----
 1 file changed, 18 insertions(+), 5 deletions(-)

diff --git a/internal/render/unit.go b/internal/render/unit.go
index d3e75d2..edabc09 100644
--- a/internal/render/unit.go
+++ b/internal/render/unit.go
@@ -2,6 +2,7 @@ package render
 
 import (
 	"fmt"
+	"math"
 	"time"
 
 	"github.com/dustin/go-humanize"
@@ -10,16 +11,19 @@ import (
 func formatUnit(value float64, unit string) string {
 	switch unit {
 	case "h":
-		return time.Duration(value * float64(time.Hour)).String()
+		return formatDuration(value, time.Hour, unit)
 	case "m":
-		return time.Duration(value * float64(time.Minute)).String()
+		return formatDuration(value, time.Minute, unit)
 	case "s":
-		return time.Duration(value * float64(time.Second)).String()
+		return formatDuration(value, time.Second, unit)
 	case "ms":
-		return time.Duration(value * float64(time.Millisecond)).String()
+		return formatDuration(value, time.Millisecond, unit)
 	case "ns":
-		return time.Duration(value * float64(time.Nanosecond)).String()
+		return formatDuration(value, time.Nanosecond, unit)
 	case "By":
+		if !(math.Abs(value) < math.MaxUint64) {
+			return fmt.Sprint(value) + " B"
+		}
 		if value < 0 {
 			return "-" + humanize.IBytes(uint64(-value))
 		}
@@ -28,3 +32,12 @@ func formatUnit(value float64, unit string) string {
 		return fmt.Sprint(value)
 	}
 }
+
+// formatDuration shows values that a duration can not hold as they are.
+func formatDuration(value float64, scale time.Duration, unit string) string {
+	ns := value * float64(scale)
+	if !(ns >= math.MinInt64 && ns < math.MaxInt64) {
+		return fmt.Sprint(value) + unit
+	}
+	return time.Duration(ns).String()
+}
-- 
2.43.0


From 542f62c9a3ca1134423dcf589b2d833194ba4d96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:48:50 +0000
Subject: [PATCH 47/50] fix: export the last telemetry of the server when it
 stops

The context was done by then, so the spans of the last seconds and all
metrics since the last period were lost.
---
 cmd/rq/main.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cmd/rq/main.go b/cmd/rq/main.go
index 934a918..660cb07 100644
--- a/cmd/rq/main.go
+++ b/cmd/rq/main.go
@@ -136,7 +136,8 @@ func run(ctx context.Context, cmd *cli.Command) (exit error) {
 		return err
 	}
 
-	defer providers.Shutdown(ctx)
+	// ctx is done when this runs, the last telemetry still has to be exported.
+	defer providers.Shutdown(context.WithoutCancel(ctx))
 	store.MonitorSize(ctx, db)
 
 	go api.Start(ctx)
-- 
2.43.0


From d03c707893a27af8dc953bc79831db876f8c1267 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:36:12 +0000
Subject: [PATCH 48/50] fix: keep telemetry with a time after 2262 under its
 time

Timestamps are unsigned, those that do not fit into an int64 were taken as
times before 1970.
---
 internal/dataframe/dataframe.go | 3 ++-
 internal/render/metrics.go      | 3 ++-
 internal/transform/transform.go | 5 ++---
 internal/x/x.go                 | 5 +++++
 4 files changed, 11 insertions(+), 5 deletions(-)

diff --git a/internal/dataframe/dataframe.go b/internal/dataframe/dataframe.go
index 013328c..8b9385b 100644
--- a/internal/dataframe/dataframe.go
+++ b/internal/dataframe/dataframe.go
@@ -18,6 +18,7 @@ import (
 	"github.com/gernest/requiemdb/internal/bitmaps"
 	"github.com/gernest/requiemdb/internal/logger"
 	"github.com/gernest/requiemdb/internal/view"
+	"github.com/gernest/requiemdb/internal/x"
 )
 
 const (
@@ -141,7 +142,7 @@ func (df *DataFrame) Append(ctx context.Context, samples ...*v1.Sample) error {
 	q := batch.NeqQuantumTime()
 	buf := make([]string, 0, 3)
 	for _, s := range samples {
-		q.Set(time.Unix(0, int64(s.MinTs)).UTC())
+		q.Set(x.Time(s.MinTs))
 		v, err := q.ViewsBuf(buf[:0], batch.Quantum)
 		if err != nil {
 			return err
diff --git a/internal/render/metrics.go b/internal/render/metrics.go
index e5cca0f..c4b419b 100644
--- a/internal/render/metrics.go
+++ b/internal/render/metrics.go
@@ -7,6 +7,7 @@ import (
 	"text/tabwriter"
 	"time"
 
+	"github.com/gernest/requiemdb/internal/x"
 	v1 "go.opentelemetry.io/proto/otlp/metrics/v1"
 	"google.golang.org/protobuf/encoding/protojson"
 )
@@ -122,7 +123,7 @@ func numeric(points []*v1.NumberDataPoint, unit string) string {
 }
 
 func formatTime(ns uint64) string {
-	return time.Unix(0, int64(ns)).UTC().Format(time.DateTime)
+	return x.Time(ns).Format(time.DateTime)
 }
 
 // formatValue shows integers as they are, not all of them are a float64.
diff --git a/internal/transform/transform.go b/internal/transform/transform.go
index ea24c4d..9346d67 100644
--- a/internal/transform/transform.go
+++ b/internal/transform/transform.go
@@ -6,12 +6,11 @@
 package transform
 
 import (
-	"time"
-
 	v1 "github.com/gernest/requiemdb/gen/go/rq/v1"
 	"github.com/gernest/requiemdb/internal/batch"
 	"github.com/gernest/requiemdb/internal/bitmaps"
 	"github.com/gernest/requiemdb/internal/labels"
+	"github.com/gernest/requiemdb/internal/x"
 	commonv1 "go.opentelemetry.io/proto/otlp/common/v1"
 	resource1 "go.opentelemetry.io/proto/otlp/resource/v1"
 )
@@ -55,7 +54,7 @@ func (c *Context) processSample(sample *v1.Sample) {
 	sample.MaxTs = c.maxTs
 	c.batch.Add(
 		sample.Id,
-		time.Unix(0, int64(c.minTs)).UTC(),
+		x.Time(c.minTs),
 		c.positions,
 	)
 	c.positions = nil
diff --git a/internal/x/x.go b/internal/x/x.go
index 4d7b329..01162cf 100644
--- a/internal/x/x.go
+++ b/internal/x/x.go
@@ -29,6 +29,11 @@ func UTC() time.Time {
 	return time.Now().UTC()
 }
 
+// Time returns the time of ns, a timestamp of telemetry.
+func Time(ns uint64) time.Time {
+	return time.Unix(int64(ns/1e9), int64(ns%1e9)).UTC()
+}
+
 // finds time boundary for the scan
 func TimeBounds(now func() time.Time, scan *v1.Scan) (start, end time.Time) {
 	var ts time.Time
-- 
2.43.0


From d2c43927e2498acdaa82bf811e8516f32c0882fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:36:23 +0000
Subject: [PATCH 49/50] fix: accept records of a range that begins before 1970
 or ends after 2262

The bounds were converted to nanoseconds that do not fit, a script with such
a range saw no records.
---
 internal/js/rq.go |  2 +-
 internal/x/x.go   | 14 ++++++++++++++
 2 files changed, 15 insertions(+), 1 deletion(-)

diff --git a/internal/js/rq.go b/internal/js/rq.go
index ffcaf2e..d200185 100644
--- a/internal/js/rq.go
+++ b/internal/js/rq.go
@@ -91,7 +91,7 @@ func (r *JS) Scan(a *v1.Scan) (*v1.Data, error) {
 		defer vs.Release()
 
 		start, end := x.TimeBounds(r.GetNow, a)
-		vs.SetTimeRange(uint64(start.UnixNano()), uint64(end.UnixNano()))
+		vs.SetTimeRange(x.Nanos(start), x.Nanos(end))
 		vs.Compile(a.Filters...)
 		return vs.Visit(data), nil
 	}
diff --git a/internal/x/x.go b/internal/x/x.go
index 01162cf..20e8ffd 100644
--- a/internal/x/x.go
+++ b/internal/x/x.go
@@ -1,6 +1,7 @@
 package x
 
 import (
+	"math"
 	"time"
 
 	v1 "github.com/gernest/requiemdb/gen/go/rq/v1"
@@ -34,6 +35,19 @@ func Time(ns uint64) time.Time {
 	return time.Unix(int64(ns/1e9), int64(ns%1e9)).UTC()
 }
 
+// Nanos returns the timestamp of ts. It is the first or the last one when ts is
+// before or after all of them.
+func Nanos(ts time.Time) uint64 {
+	sec := ts.Unix()
+	if sec < 0 {
+		return 0
+	}
+	if uint64(sec) >= math.MaxUint64/uint64(time.Second) {
+		return math.MaxUint64
+	}
+	return uint64(sec)*1e9 + uint64(ts.Nanosecond())
+}
+
 // finds time boundary for the scan
 func TimeBounds(now func() time.Time, scan *v1.Scan) (start, end time.Time) {
 	var ts time.Time
-- 
2.43.0


From 8790ccfe46d10fd89133efbaacaf4f9215dcf25b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:51:04 +0000
Subject: [PATCH 50/50] fix: do not skip a million sample ids when the process
 is killed

The rows of every view are filled up to the id of a sample, a flush after a
kill took gigabytes of memory and some ten seconds per kill.
---
 internal/seq/seq.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/internal/seq/seq.go b/internal/seq/seq.go
index 4bed430..47bf7cb 100644
--- a/internal/seq/seq.go
+++ b/internal/seq/seq.go
@@ -17,7 +17,9 @@ func New(db *badger.DB) (*Seq, error) {
 	seqKey := make([]byte, 8+4)
 	binary.LittleEndian.PutUint32(seqKey[8:], uint32(v1.RESOURCE_SAMPLE_ID))
 
-	sample, err := db.GetSequence(seqKey, 1<<20)
+	// Ids that are leased when the process is killed are lost, and rows of views
+	// are filled up to the id of a sample.
+	sample, err := db.GetSequence(seqKey, 1<<10)
 	if err != nil {
 		return nil, err
 	}
-- 
2.43.0

