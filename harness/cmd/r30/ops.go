package main

import (
	"bytes"
	"context"
	"encoding/hex"
	"errors"
	"fmt"
	"io"
	"sort"
	"strings"
	"time"

	"github.com/dgraph-io/badger/v4"
	"github.com/dop251/goja"
	v1 "github.com/gernest/requiemdb/gen/go/rq/v1"
	"github.com/gernest/requiemdb/internal/arena"
	"github.com/gernest/requiemdb/internal/bitmaps"
	"github.com/gernest/requiemdb/internal/compress"
	"github.com/gernest/requiemdb/internal/data"
	"github.com/gernest/requiemdb/internal/dataframe"
	"github.com/gernest/requiemdb/internal/js"
	"github.com/gernest/requiemdb/internal/keys"
	"github.com/gernest/requiemdb/internal/labels"
	"github.com/gernest/requiemdb/internal/render"
	"github.com/gernest/requiemdb/internal/retry"
	"github.com/gernest/requiemdb/internal/transform"
	"github.com/gernest/requiemdb/internal/translate"
	"github.com/gernest/requiemdb/internal/visit"
	"github.com/gernest/requiemdb/internal/zzverif/lib"
	"github.com/gernest/requiemdb/internal/zzverif/stack"
	"github.com/gernest/requiemdb/internal/zzverif/tel"
	"google.golang.org/grpc/encoding"
	"google.golang.org/protobuf/encoding/prototext"
	"google.golang.org/protobuf/proto"
	"google.golang.org/protobuf/types/known/durationpb"
	"google.golang.org/protobuf/types/known/timestamppb"

	"github.com/cenkalti/backoff/v4"
)

// An op uses reused objects the way a request does. run gives what the request
// gives; its result is a function, as what a request gave must stay as it is.
// It calls mid in the middle of the request, if it has a place for that.
type op struct {
	name string
	mid  bool // calls mid
	slow bool
	run  func(mid func()) func() string
}

var boom = errors.New("boom")

func text(s string) func() string { return func() string { return s } }

func msg(m proto.Message) string {
	if m == nil || !m.ProtoReflect().IsValid() {
		return "none"
	}
	b, err := proto.MarshalOptions{Deterministic: true}.Marshal(m)
	if err != nil {
		return err.Error()
	}
	return string(b)
}

func fail(err error) string {
	if err != nil {
		return "error"
	}
	return "ok"
}

// A writer that calls mid and then takes n bytes.
type writer struct {
	bytes.Buffer
	n   int
	mid func()
}

func (w *writer) Write(p []byte) (int, error) {
	if w.mid != nil {
		w.mid()
		w.mid = nil
	}
	if w.n >= 0 && w.Len()+len(p) > w.n {
		return 0, boom
	}
	return w.Buffer.Write(p)
}

type reader struct {
	io.Reader
	mid func()
}

func (r *reader) Read(p []byte) (int, error) {
	if r.mid != nil {
		r.mid()
		r.mid = nil
	}
	return r.Reader.Read(p)
}

func noise(n int) []byte {
	b := make([]byte, n)
	x := uint32(7)
	for i := range b {
		x = x*1664525 + 1013904223
		b[i] = byte(x >> 24)
	}
	return b
}

var at = lib.Day0.Add(90 * time.Minute)

var messages = []struct {
	name string
	make func() *v1.Data
}{
	{"metrics", func() *v1.Data { return tel.RichMetrics(3, at) }},
	{"plain", func() *v1.Data { return tel.PlainMetrics(5, at.Add(time.Minute)) }},
	{"logs", func() *v1.Data { return tel.RichLogs(3, at) }},
	{"traces", func() *v1.Data { return tel.RichTraces(3, at) }},
	{"empty", func() *v1.Data { return tel.Metrics() }},
	{"hollow", func() *v1.Data { return tel.OneLog(nil, nil) }},
	{"nothing", func() *v1.Data { return &v1.Data{} }},
}

func message(name string) *v1.Data {
	for _, m := range messages {
		if m.name == name {
			return m.make()
		}
	}
	panic(name)
}

// collapse and its results: the groups of the result in their order.
func collapse(names ...string) op {
	return op{name: "merge " + strings.Join(names, "+"), run: func(func()) func() string {
		var ds []*v1.Data
		for _, n := range names {
			ds = append(ds, message(n))
		}
		d := data.Collapse(ds)
		return func() string { return msg(d) }
	}}
}

func ingest(names ...string) op {
	return op{name: "ingest " + strings.Join(names, "+"), mid: true, run: func(mid func()) func() string {
		ids := map[string]uint64{}
		c := transform.NewContext(func(k []byte) uint64 {
			if mid != nil {
				m := mid
				mid = nil
				m()
			}
			id, ok := ids[string(k)]
			if !ok {
				id = uint64(len(ids))
				ids[string(k)] = id
			}
			return id
		})
		var ss []*v1.Sample
		for i, n := range names {
			ss = append(ss, &v1.Sample{Id: uint64(i), Data: message(n)})
		}
		f, err := c.ProcessSamples(ss...)
		if mid != nil {
			mid()
		}
		if err != nil {
			return text("error " + err.Error())
		}
		return func() string {
			var ls []string
			for shard, vs := range f {
				for v, b := range vs {
					ls = append(ls, fmt.Sprint(shard, v, b.Slice()))
				}
			}
			sort.Strings(ls)
			for _, s := range ss {
				ls = append(ls, fmt.Sprint(s.MinTs, s.MaxTs))
			}
			var ks []string
			for k, id := range ids {
				ks = append(ks, fmt.Sprint(k, id))
			}
			sort.Strings(ks)
			return strings.Join(append(ls, ks...), "\n")
		}
	}}
}

func filter(name, of string, span bool, fs ...*v1.Scan_Filter) op {
	return op{name: "filter " + of + " by " + name, run: func(func()) func() string {
		a := visit.New()
		if span {
			a.SetTimeRange(uint64(at.UnixNano()), uint64(at.Add(time.Second).UnixNano()))
		}
		a.Compile(fs...)
		d := a.Visit(message(of))
		a.Release()
		return func() string { return msg(d) }
	}}
}

func table(of string, o render.MetricsFormatOption) op {
	return op{name: fmt.Sprintf("table of %s %v", of, o), run: func(func()) func() string {
		s := render.MetricsData(message(of).GetMetrics(), o)
		return func() string { return s }
	}}
}

// frames hands out a database for columnar files.
type frames struct {
	db *badger.DB
	n  int
}

func (f *frames) get() *badger.DB {
	if f.db == nil || f.n > 300 {
		if f.db != nil {
			f.db.Close()
		}
		f.db, f.n = lib.MemDB(), 0
	}
	f.n++
	return f.db
}

var fr frames

func wipe(db *badger.DB) {
	var ks [][]byte
	db.View(func(txn *badger.Txn) error {
		o := badger.DefaultIteratorOptions
		o.PrefetchValues = false
		it := txn.NewIterator(o)
		defer it.Close()
		for it.Rewind(); it.Valid(); it.Next() {
			ks = append(ks, it.Item().KeyCopy(nil))
		}
		return nil
	})
	db.Update(func(txn *badger.Txn) error {
		for _, k := range ks {
			txn.Delete(k)
		}
		return nil
	})
}

// store appends messages in the given portions and reads all back.
func columns(name string, spoil func(*badger.DB), portions ...[]string) op {
	return op{name: "columns " + name, slow: true, run: func(func()) func() string {
		db := fr.get()
		defer wipe(db)
		df := dataframe.New(db)
		ctx := context.Background()
		var id uint64
		var out []string
		for _, p := range portions {
			var ss []*v1.Sample
			for _, n := range p {
				var d *v1.Data
				if n == "huge" {
					d = tel.OneLog(nil, nil, tel.RichLogs(1, at).GetLogs().ResourceLogs[0].ScopeLogs[0].LogRecords...)
					d.GetLogs().ResourceLogs[0].ScopeLogs[0].LogRecords[0].Body = tel.Str(hex.EncodeToString(noise(1 << 20)))
				} else {
					d = message(n)
				}
				ss = append(ss, &v1.Sample{Id: id, Data: d, MinTs: uint64(at.UnixNano()), MaxTs: uint64(at.UnixNano())})
				id += 2
			}
			out = append(out, fail(df.Append(ctx, ss...)))
			if spoil != nil {
				spoil(db)
			}
		}
		rows := bitmaps.New()
		defer rows.Release()
		for i := uint64(0); i < id; i++ {
			rows.Add(i)
		}
		start, end := at.Add(-time.Hour), at.Add(time.Hour)
		var all []*v1.Data
		for i, f := range []func(context.Context, time.Time, time.Time, *bitmaps.Bitmap) ([]*v1.Data, error){df.Metrics, df.Logs, df.Traces} {
			ds, err := f(ctx, start, end, rows)
			out = append(out, fmt.Sprint(i, len(ds), fail(err)))
			all = append(all, ds...)
		}
		return func() string {
			s := strings.Join(out, " ")
			for _, d := range all {
				s += "\n" + msg(d)
			}
			return s
		}
	}}
}

func script(name, src string, set func(o *js.JS, w io.Writer, mid func())) op {
	var p *goja.Program
	return op{name: "script " + name, mid: true, run: func(mid func()) func() string {
		if p == nil {
			p = goja.MustCompile("x.js", "(function () {"+src+"})()", true)
		}
		var w bytes.Buffer
		o := js.New()
		set(o, &w, mid)
		err := o.Run(p)
		req := o.ScanRequest
		o.Release()
		var e string
		if err != nil {
			e = strings.SplitN(err.Error(), " at ", 2)[0]
		}
		return func() string { return e + "\n" + w.String() + "\n" + prototext.Format(req) + msg(req) }
	}}
}

type fixed struct {
	s   *stack.Stack
	tr  *translate.Translate
	ids []uint64
}

// preloaded is a server with some telemetry that is only read.
var pre fixed

func prepare(dir string) error {
	s, err := stack.Open(dir, true)
	if err != nil {
		return err
	}
	pre.s = s
	for i := 0; i < 3; i++ {
		for _, m := range []*v1.Data{tel.RichMetrics(i, at.Add(time.Duration(i)*time.Minute)), tel.RichLogs(i, at.Add(time.Duration(i)*time.Minute)), tel.RichTraces(i, at.Add(time.Duration(i)*time.Minute))} {
			if err := s.Export(m); err != nil {
				return err
			}
		}
	}
	if err := s.Flush(); err != nil {
		return err
	}
	if pre.tr, err = translate.New(lib.MemDB(), []byte("x")); err != nil {
		return err
	}
	for _, k := range []string{"a", "bb", strings.Repeat("c", 40000), ""} {
		id, err := pre.tr.TranslateKey([]byte(k))
		if err != nil {
			return err
		}
		pre.ids = append(pre.ids, id)
	}
	return nil
}

func scan(name string, q *v1.Scan) op {
	return op{name: "scan " + name, slow: true, run: func(func()) func() string {
		d, err := pre.s.Scan(proto.Clone(q).(*v1.Scan))
		return func() string { return fail(err) + msg(d) }
	}}
}

func lookups() []op {
	var os []op
	for i := 0; i < 4; i++ {
		os = append(os, op{name: fmt.Sprintf("label of id %d", i), run: func(func()) func() string {
			k, err := pre.tr.TranslateID(pre.ids[i])
			return func() string { return k + fail(err) }
		}})
	}
	bulk := func(name string, ids func() []uint64, stop bool) op {
		return op{name: "labels of ids " + name, mid: true, run: func(mid func()) func() string {
			var out []string
			err := pre.tr.TranslateBulkID(ids(), func(k []byte) error {
				out = append(out, string(k))
				if mid != nil {
					mid()
					mid = nil
				}
				if stop {
					return boom
				}
				return nil
			})
			if mid != nil {
				mid()
			}
			return func() string { return fmt.Sprint(out, fail(err)) }
		}}
	}
	return append(os,
		op{name: "label of no id", run: func(func()) func() string {
			k, err := pre.tr.TranslateID(1 << 40)
			return func() string { return k + fail(err) }
		}},
		op{name: "id of a label", run: func(func()) func() string {
			a, err := pre.tr.TranslateKey([]byte("bb"))
			b, err2 := pre.tr.Find([]byte("a"))
			_, err3 := pre.tr.Find([]byte("zz"))
			return text(fmt.Sprint(a, fail(err), b, fail(err2), fail(err3)))
		}},
		bulk("all", func() []uint64 { return pre.ids }, false),
		bulk("unknown", func() []uint64 { return []uint64{pre.ids[0], 1 << 40, pre.ids[1]} }, false),
		bulk("stopped", func() []uint64 { return pre.ids }, true),
	)
}

func codecs() []op {
	plain := []byte(strings.Repeat("some text ", 30))
	big := noise(40 << 10)
	comp, _ := compress.Compress(plain)
	compBig, _ := compress.Compress(big)
	cut := compBig[:len(compBig)/2]
	broken := bytes.Clone(compBig)
	for i := 20; i < len(broken); i += 97 {
		broken[i] ^= 0x5a
	}
	to := func(name string, in []byte, n int) op {
		return op{name: "compress to " + name, mid: true, run: func(mid func()) func() string {
			w := &writer{n: n, mid: mid}
			err := compress.To(w, in)
			if w.mid != nil {
				mid()
			}
			return func() string {
				s := fail(err)
				if err == nil {
					d, err := compress.Decompress(w.Bytes())
					s += string(d) + fail(err)
				}
				return s
			}
		}}
	}
	un := func(name string, in []byte) op {
		return op{name: "decompress " + name, run: func(func()) func() string {
			d, err := compress.Decompress(in)
			return func() string { return string(d) + fail(err) }
		}}
	}
	cp := func(name string, in []byte) op {
		return op{name: "compress " + name, run: func(func()) func() string {
			c, err := compress.Compress(in)
			return func() string {
				d, err2 := compress.Decompress(c)
				return string(d) + fail(err) + fail(err2)
			}
		}}
	}
	rpc := func(name string, in []byte, left bool, wrong bool) op {
		return op{name: "codec " + name, mid: true, run: func(mid func()) func() string {
			z := encoding.GetCompressor("zstd")
			w := &writer{n: -1}
			if wrong {
				w.n = 10
			}
			c, err := z.Compress(w)
			if err != nil {
				return text("error")
			}
			_, err = c.Write(in)
			if left {
				mid()
				return text("left " + fail(err)) // a stream that was torn down
			}
			err = errors.Join(err, c.Close())
			if err != nil {
				mid()
				return text("error")
			}
			r, err := z.Decompress(&reader{bytes.NewReader(w.Bytes()), mid})
			if err != nil {
				return text("error")
			}
			d, err := io.ReadAll(r)
			return text(string(d) + fail(err))
		}}
	}
	return []op{cp("nothing", nil), cp("text", plain), cp("noise", big),
		un("nothing", nil), un("text", comp), un("noise", compBig), un("a part", cut), un("garbage", broken),
		to("memory", plain, -1), to("full disk", big, 100), to("full disk at once", plain, 0),
		rpc("text", plain, false, false), rpc("noise", big, false, false), rpc("torn down", plain, true, false), rpc("to a closed connection", plain, false, true),
	}
}

func small() []op {
	long := strings.Repeat("long", 500)
	lbl := func(name string, f func(*labels.Label)) op {
		return op{name: "index label " + name, run: func(func()) func() string {
			l := labels.NewLabel()
			f(l)
			s := string(l.Encode()) + l.String()
			l.Release()
			return text(s)
		}}
	}
	key := func(name string, f func(*keys.Sample)) op {
		return op{name: "key " + name, run: func(func()) func() string {
			k := keys.New()
			f(k)
			s := fmt.Sprint(k.Resource, k.ID, string(k.Encode()), string(k.Prefix()), k.String())
			k.Release()
			return text(s)
		}}
	}
	set := func(name string, key []byte, f func(b *bitmaps.Bitmap)) op {
		return op{name: "set " + name, run: func(func()) func() string {
			b := bitmaps.New()
			f(b.WithKey(key))
			s := fmt.Sprint(string(b.Key()), b.ToArray(), b.GetCardinality(), b.IsEmpty())
			b.Release()
			return text(s)
		}}
	}
	var saved bytes.Buffer
	func() {
		b := bitmaps.New()
		b.AddRange(1<<33, 1<<33+100)
		b.Add(4)
		b.WriteTo(&saved)
	}()
	ar := func(name string, f func(a *arena.Arena, add func(any))) op {
		return op{name: "arena " + name, run: func(func()) func() string {
			a := arena.New()
			var out []string
			f(a, func(v any) {
				switch e := v.(type) {
				case []byte:
					out = append(out, string(e))
				case error:
					out = append(out, "error")
				default:
					out = append(out, fmt.Sprint(e))
				}
			})
			a.Release()
			return text(strings.Join(out, "|"))
		}}
	}
	bad := &v1.Scan_AttrFilter{Key: "\xff"}
	return []op{
		lbl("empty", func(l *labels.Label) {}),
		lbl("key", func(l *labels.Label) { l.WithKey("k") }),
		lbl("prefix", func(l *labels.Label) { l.WithPrefix(v1.PREFIX_ATTRIBUTES) }),
		lbl("full", func(l *labels.Label) {
			l.WithResource(v1.RESOURCE_LOGS).WithPrefix(v1.PREFIX_SCOPE_NAME).WithKey("a").WithValue(long)
		}),
		key("empty", func(*keys.Sample) {}),
		key("id", func(k *keys.Sample) { k.WithID(1 << 60) }),
		key("full", func(k *keys.Sample) { k.WithResource(v1.RESOURCE_TRACES).WithID(9) }),
		set("empty", nil, func(*bitmaps.Bitmap) {}),
		set("one", []byte("one"), func(b *bitmaps.Bitmap) { b.Add(7) }),
		set("many", []byte(long), func(b *bitmaps.Bitmap) { b.AddRange(3, 300); b.RunOptimize() }),
		set("loaded", nil, func(b *bitmaps.Bitmap) { b.UnmarshalBinary(saved.Bytes()) }),
		set("far", nil, func(b *bitmaps.Bitmap) { b.Add(1 << 40); b.Add(5); b.Remove(5) }),
		ar("nothing", func(a *arena.Arena, add func(any)) { add(a.Bytes()) }),
		ar("message", func(a *arena.Arena, add func(any)) {
			b, err := a.Marshal(message("logs"))
			add(b)
			add(fail(err))
			add(a.Bytes())
		}),
		ar("written", func(a *arena.Arena, add func(any)) {
			w := a.NewWriter()
			w.Write([]byte("first"))
			add(a.Bytes())
			w = a.NewWriter()
			io.WriteString(w, long)
			add(a.Bytes())
		}),
		ar("compressed", func(a *arena.Arena, add func(any)) {
			b, err := a.Compress(message("metrics"))
			add(fail(err))
			d, err := compress.Decompress(b)
			add(fail(err))
			m := &v1.Data{}
			add(fail(proto.Unmarshal(d, m)))
			add(msg(m))
		}),
		ar("failed", func(a *arena.Arena, add func(any)) {
			b, err := a.Marshal(bad)
			add(b)
			add(fail(err))
			b, err = a.Compress(bad)
			add(b)
			add(fail(err))
			b, err = a.Marshal(&v1.Scan_AttrFilter{Key: "good"})
			add(b)
			add(fail(err))
			b, err = a.Marshal(bad)
			add(b)
			add(fail(err))
		}),
		{name: "retry done", mid: true, run: func(mid func()) func() string {
			n := 0
			err := retry.Do(func() error { n++; mid(); return nil })
			return text(fmt.Sprint(n, fail(err)))
		}},
		{name: "retry given up", mid: true, run: func(mid func()) func() string {
			n := 0
			err := retry.Do(func() error { n++; mid(); return backoff.Permanent(boom) })
			return text(fmt.Sprint(n, fail(err)))
		}},
	}
}

func operations() []op {
	os := append(small(), codecs()...)
	os = append(os, lookups()...)
	for _, m := range messages {
		os = append(os, ingest(m.name))
	}
	os = append(os, ingest("logs", "metrics", "empty", "traces"), ingest())
	os = append(os, collapse("metrics", "plain", "metrics"), collapse("plain", "metrics"), collapse("logs", "logs"),
		collapse("traces", "traces"), collapse("hollow", "logs"), collapse("empty", "empty"), collapse())
	id := func(b ...byte) string { return hex.EncodeToString(b) }
	span := tel.RichTraces(3, at).GetTraces().ResourceSpans[0].ScopeSpans[0].Spans[0]
	os = append(os,
		filter("time", "metrics", true), filter("time", "logs", true), filter("time", "traces", true), filter("nothing", "logs", false),
		filter("name", "metrics", true, tel.Base(v1.Scan_NAME, "g")),
		filter("schema", "metrics", true, tel.Base(v1.Scan_RESOURCE_SCHEMA, "https://r/1"), tel.Base(v1.Scan_SCOPE_SCHEMA, "https://s/1")),
		filter("scope", "metrics", true, tel.Base(v1.Scan_SCOPE_NAME, "lib"), tel.Base(v1.Scan_SCOPE_VERSION, "v1")),
		filter("attributes", "metrics", true, tel.Attr(v1.Scan_RESOURCE_ATTRIBUTES, "service.name", "a"), tel.Attr(v1.Scan_ATTRIBUTES, "state", "idle"), tel.Attr(v1.Scan_SCOPE_ATTRIBUTES, "k", "v")),
		filter("unknown attribute", "logs", true, tel.Attr(v1.Scan_ATTRIBUTES, "no", "no")),
		filter("level", "logs", true, tel.Base(v1.Scan_LOGS_LEVEL, "INFO")),
		filter("ids", "traces", true, tel.Base(v1.Scan_TRACE_ID, id(span.TraceId...)), tel.Base(v1.Scan_SPAN_ID, id(span.SpanId...)), tel.Base(v1.Scan_PARENT_SPAN_ID, id(span.ParentSpanId...))),
		filter("bad ids", "traces", true, tel.Base(v1.Scan_TRACE_ID, "xyz")),
	)
	full := render.MetricsFormatOption{Resource: true, Scope: true, Metrics: true}
	os = append(os, table("metrics", full), table("metrics", render.MetricsFormatOption{}), table("plain", full), table("empty", full),
		op{name: "json", run: func(func()) func() string {
			b, err := render.MetricsDataJSON(message("plain").GetMetrics(), render.JSONOptions{})
			return func() string { return strings.ReplaceAll(string(b), " ", "") + fail(err) }
		}})
	noon := func() time.Time { return at.Add(11 * time.Hour) }
	os = append(os,
		script("bare", `RQ.Print("lost"); const s = SCAN.Create("logs"); RQ.Scan(s.Scan())`, func(o *js.JS, w io.Writer, mid func()) { mid() }),
		script("output only", `RQ.PrintLn("hello", 1)`, func(o *js.JS, w io.Writer, mid func()) { o.WithOutput(w); mid() }),
		script("clock and data", `const s = SCAN.Create("metrics"); s.Today(); s.Name("g"); RQ.RenderMetricsDataJSON(RQ.Scan(s.Scan()).GetMetrics(), {})`, func(o *js.JS, w io.Writer, mid func()) {
			o.WithOutput(lessBlank{w}).WithNow(noon).WithData(message("metrics"))
			mid()
		}),
		script("own scan", `const s = SCAN.Create("metrics"); s.Limit(3); const d = RQ.Scan(s.Scan()); RQ.RenderMetricsData(d.GetMetrics(), {resource: true, scope: true, metrics: true})`, func(o *js.JS, w io.Writer, mid func()) {
			o.WithOutput(w).WithScan(func(s *v1.Scan) (*v1.Data, error) {
				mid()
				return message("plain"), nil
			})
		}),
		script("failing scan", `RQ.Print("a"); RQ.Scan(SCAN.Create("traces").Scan()); RQ.Print("b")`, func(o *js.JS, w io.Writer, mid func()) {
			o.WithOutput(w).WithScan(func(s *v1.Scan) (*v1.Data, error) { mid(); return nil, boom })
		}),
		script("throws", `RQ.Print("x"); throw new Error("no")`, func(o *js.JS, w io.Writer, mid func()) { o.WithOutput(w).WithNow(noon); mid() }),
	)
	os = append(os, op{name: "clock of an engine", run: func(func()) func() string {
		o := js.New()
		d := time.Since(o.GetNow())
		o.Release()
		return text(fmt.Sprint(d > -time.Hour && d < time.Hour))
	}})
	cancel := func(db *badger.DB) {
		db.Update(func(txn *badger.Txn) error {
			k := []byte("std_" + at.Format("2006010215"))
			if _, err := txn.Get(k); err != nil {
				// whatever the files are called
				it := txn.NewIterator(badger.DefaultIteratorOptions)
				defer it.Close()
				for it.Rewind(); it.Valid(); it.Next() {
					if it.Item().EstimatedSize() > 2000 {
						k = it.Item().KeyCopy(nil)
					}
				}
			}
			return txn.Set(k, []byte("not a file"))
		})
	}
	os = append(os,
		columns("one", nil, []string{"metrics"}),
		columns("gaps", nil, []string{"logs", "traces", "plain"}),
		columns("two portions", nil, []string{"logs", "metrics"}, []string{"plain", "hollow", "nothing"}),
		columns("nothing", nil, nil),
		columns("corrupt", cancel, []string{"traces", "logs"}, []string{"metrics"}),
		columns("too large", nil, []string{"metrics", "huge"}, []string{"plain"}),
	)
	day := []time.Time{lib.Day0, lib.Day0.AddDate(0, 0, 1)}
	lim := tel.Range(v1.Scan_LOGS, day[0], day[1])
	lim.Limit = 2
	rev := tel.Range(v1.Scan_TRACES, day[0], day[1])
	rev.Reverse, rev.Limit = true, 1
	os = append(os,
		scan("metrics", tel.Range(v1.Scan_METRICS, day[0], day[1])),
		scan("logs", lim), scan("traces", rev),
		scan("elsewhere", tel.Range(v1.Scan_METRICS, day[1], day[1].AddDate(0, 1, 0))),
		scan("filtered", tel.Range(v1.Scan_METRICS, day[0], day[1], tel.Base(v1.Scan_NAME, "g"), tel.Attr(v1.Scan_RESOURCE_ATTRIBUTES, "service.name", "a"))),
		scan("unknown", tel.Range(v1.Scan_METRICS, day[0], day[1], tel.Base(v1.Scan_NAME, "g"), tel.Base(v1.Scan_NAME, "none"))),
		scan("instant", &v1.Scan{Scope: v1.Scan_METRICS, Now: timestamppb.New(at.Add(5 * time.Minute)), Offset: durationpb.New(time.Minute)}),
		scan("invalid", &v1.Scan{Scope: v1.Scan_METRICS, Now: &timestamppb.Timestamp{Nanos: -1}}),
		scan("no such signal", &v1.Scan{Scope: 77, TimeRange: tel.Range(v1.Scan_LOGS, day[0], day[1]).TimeRange}),
	)
	return os
}

// The marshaller of JSON adds blanks at will.
type lessBlank struct{ w io.Writer }

func (l lessBlank) Write(p []byte) (int, error) {
	l.w.Write(bytes.ReplaceAll(p, []byte(" "), nil))
	return len(p), nil
}
