// R15: what is stored in the columnar frames is what is read back.
package main

import (
	"context"
	"fmt"
	"time"

	"github.com/dgraph-io/badger/v4"
	v1 "github.com/gernest/requiemdb/gen/go/rq/v1"
	"github.com/gernest/requiemdb/internal/bitmaps"
	"github.com/gernest/requiemdb/internal/dataframe"
	"github.com/gernest/requiemdb/internal/zzverif/gen"
	"github.com/gernest/requiemdb/internal/zzverif/lib"
	"google.golang.org/protobuf/encoding/protojson"
	"google.golang.org/protobuf/proto"
)

var ctx = context.Background()

var at = time.Date(2024, 4, 3, 10, 30, 0, 0, time.UTC)

func read(df *dataframe.DataFrame, d *v1.Data, rows *bitmaps.Bitmap) ([]*v1.Data, error) {
	end := at.Add(time.Minute)
	switch d.Data.(type) {
	case *v1.Data_Metrics:
		return df.Metrics(ctx, at, end, rows)
	case *v1.Data_Logs:
		return df.Logs(ctx, at, end, rows)
	default:
		return df.Traces(ctx, at, end, rows)
	}
}

func kind(d *v1.Data) int {
	switch d.Data.(type) {
	case *v1.Data_Metrics:
		return 0
	case *v1.Data_Logs:
		return 1
	}
	return 2
}

// roundTrip appends the rows of ms in the given groups (one Append each),
// with ids[i] the id of ms[i], and compares what every row reads back as.
func roundTrip(ms []*v1.Data, ids []uint64, groups []int) error {
	db := lib.MemDB()
	defer db.Close()
	return roundTripOn(db, ms, ids, groups)
}

func roundTripOn(db *badger.DB, ms []*v1.Data, ids []uint64, groups []int) error {
	df := dataframe.New(db)
	i := 0
	for _, g := range groups {
		var ss []*v1.Sample
		for k := 0; k < g; k++ {
			ss = append(ss, &v1.Sample{Id: ids[i], Data: proto.Clone(ms[i]).(*v1.Data), MinTs: uint64(at.UnixNano()), MaxTs: uint64(at.UnixNano())})
			i++
		}
		if err := df.Append(ctx, ss...); err != nil {
			return fmt.Errorf("append: %w", err)
		}
	}
	var byKind [3][]int
	for i := range ms {
		byKind[kind(ms[i])] = append(byKind[kind(ms[i])], i)
	}
	for k := range byKind {
		if len(byKind[k]) == 0 {
			continue
		}
		rows := bitmaps.New()
		for _, i := range byKind[k] {
			rows.Add(ids[i])
		}
		got, err := read(df, ms[byKind[k][0]], rows)
		if err != nil {
			return fmt.Errorf("read: %w", err)
		}
		if len(got) != len(byKind[k]) {
			return fmt.Errorf("stored %d samples, read %d back", len(byKind[k]), len(got))
		}
		for n, i := range byKind[k] {
			if !proto.Equal(got[n], ms[i]) {
				return fmt.Errorf("sample %d stored as %s reads back as %s", ids[i], protojson.Format(ms[i]), protojson.Format(got[n]))
			}
		}
	}
	return nil
}

func seqIDs(n int, from, step uint64) []uint64 {
	o := make([]uint64, n)
	for i := range o {
		o[i] = from + uint64(i)*step
	}
	return o
}

type item struct {
	name string
	d    *v1.Data
}

func main() {
	lib.Main("R15", "model_checking", func(r *lib.Run) {
		lib.FastParquet()
		r.Rule("schema-complete: every OTLP field path x every value of its domain, alone and in pairs (same element, fresh element of each repeated level), packed in frames; plus every split of a short append history over signals, id gaps and flush boundaries; lists of thousands of elements at every repeated level; and gaps of thousands of ids")
		r.Assume("arrow's zstd codec is replaced by one of the same format that reuses its encoder")
		paths := gen.Paths()
		r.Note("field_paths", len(paths))

		// 1. every leaf alone.
		var singles []item
		for _, p := range paths {
			if len(p.Fields) == 1 {
				// {metrics:{}}: a sample without any content; still a leaf case
				singles = append(singles, item{p.String(), p.Build(0)})
				continue
			}
			for v := 0; v < p.Variants(); v++ {
				singles = append(singles, item{fmt.Sprintf("%s#%d", p, v), p.Build(v)})
			}
		}
		// 2. pairs of leaves of the same signal.
		var pairs []item
		for i, p := range paths {
			for j := i; j < len(paths); j++ {
				q := paths[j]
				if p.Fields[0] != q.Fields[0] || len(p.Fields) == 1 || len(q.Fields) == 1 {
					continue
				}
				d := p.Build(0)
				q.Set(d, 0, -1)
				pairs = append(pairs, item{p.String() + "+" + q.String(), d})
				if q.Repeated() > 0 {
					// the innermost repeated level gets another element
					d := p.Build(0)
					q.Set(d, 0, q.Repeated()-1)
					pairs = append(pairs, item{p.String() + "|" + q.String(), d})
				}
				if !r.Quick() {
					for l := 0; l+1 < q.Repeated(); l++ {
						d := p.Build(0)
						q.Set(d, 0, l)
						pairs = append(pairs, item{fmt.Sprintf("%s|%d|%s", p, l, q), d})
					}
					for l := 0; l < p.Repeated(); l++ {
						d := q.Build(0)
						p.Set(d, 0, l)
						pairs = append(pairs, item{fmt.Sprintf("%s|%d|%s", q, l, p), d})
					}
				}
			}
		}
		run := func(what string, items []item, chunk int) {
			n := (len(items) + chunk - 1) / chunk
			r.Parallel(n, 8, func(c int) {
				part := items[c*chunk : min(len(items), (c+1)*chunk)]
				ms := make([]*v1.Data, len(part))
				for i := range part {
					ms[i] = part[i].d
				}
				err := lib.Guard(func() error { return roundTrip(ms, seqIDs(len(ms), 0, 1), []int{len(ms)}) })
				r.Trace()
				r.Transitions(len(ms))
				for i := range part {
					r.State(part[i].name)
				}
				if err == nil {
					return
				}
				// find the rows to blame
				bad := 0
				for i := range part {
					if !r.Case(part[i].name, protojson.Format(part[i].d), func() error {
						return roundTrip(ms[i:i+1], []uint64{0}, []int{1})
					}) {
						bad++
						if bad >= 3 {
							return
						}
					}
				}
				if bad == 0 {
					r.Case(fmt.Sprintf("%s-rows-%d", what, c), fmt.Sprint(part[0].name, "..", part[len(part)-1].name), func() error {
						return roundTrip(ms, seqIDs(len(ms), 0, 1), []int{len(ms)})
					})
				}
			})
		}
		run("single", singles, 40)
		run("pair", pairs, 120)
		r.Note("single_messages", len(singles))
		r.Note("pair_messages", len(pairs))

		// 3. histories: sequences over an alphabet of samples with id gaps and
		// every way to cut them into flushes.
		full := richMessages(paths)
		type step struct {
			m   int
			gap uint64
		}
		var alpha []step
		for m := range full {
			if r.Quick() && m%2 == 1 {
				continue
			}
			for _, g := range []uint64{0, 2} {
				alpha = append(alpha, step{m, g})
			}
		}
		depth := lib.Pick(r, 3, 4)
		var hist [][]step
		var build func(h []step)
		build = func(h []step) {
			if len(h) > 0 {
				hist = append(hist, append([]step{}, h...))
			}
			if len(h) == depth {
				return
			}
			for _, s := range alpha {
				build(append(h, s))
			}
		}
		build(nil)
		r.Note("histories", len(hist))
		r.Parallel(len(hist), 8, func(i int) {
			h := hist[i]
			var ms []*v1.Data
			var ids []uint64
			id := uint64(0)
			name := ""
			for k, s := range h {
				id += s.gap
				if k > 0 {
					id++
				}
				ms = append(ms, full[s.m].d)
				ids = append(ids, id)
				name += fmt.Sprintf("%s@%d ", full[s.m].name, id)
			}
			for cut := 0; cut < 1<<(len(h)-1); cut++ {
				var groups []int
				g := 1
				for k := 1; k < len(h); k++ {
					if cut&(1<<(k-1)) != 0 {
						groups = append(groups, g)
						g = 0
					}
					g++
				}
				groups = append(groups, g)
				if i == len(hist)-1 {
					r.Sample(map[string]any{"history": name, "flushes": groups})
				}
				r.Case(fmt.Sprintf("history %scut%v", name, groups), map[string]any{"samples": name, "flushes": groups}, func() error {
					return roundTrip(ms, ids, groups)
				})
				r.Trace()
				r.Transitions(len(h))
				r.State(fmt.Sprint("history ", name, groups))
				if r.Expired() {
					return
				}
			}
		})

		// 4. long lists, at every repeated level and of every repeated leaf
		var long []item
		for _, p := range paths {
			if len(p.Fields) == 1 {
				continue
			}
			last := p.Fields[len(p.Fields)-1]
			for _, n := range lib.Pick(r, []int{1500}, []int{1500, 70000}) {
				if p.Leaf && last.IsList() {
					d := &v1.Data{}
					for k := 0; k < n*4; k++ {
						p.Set(d, k%p.Variants(), -1)
					}
					long = append(long, item{fmt.Sprintf("%d of %s", n*4, p), d})
				}
				for l := 0; l < p.Repeated(); l++ {
					if r.Quick() && len(long)%3 != 0 && l+1 < p.Repeated() {
						continue
					}
					d := &v1.Data{}
					for k := 0; k < n; k++ {
						p.Set(d, k%p.Variants(), l)
					}
					long = append(long, item{fmt.Sprintf("%d elements of level %d on the way to %s", n, l, p), d})
				}
			}
		}
		r.Note("long_lists", len(long))
		r.Parallel(len(long), 8, func(i int) {
			r.State(long[i].name)
			r.Trace()
			r.Transitions(2)
			r.Case(long[i].name, nil, func() error {
				return brief(roundTrip([]*v1.Data{full[0].d, long[i].d, full[1].d}, []uint64{0, 1, 2}, []int{1, 2}))
			})
		})

		// 5. wide gaps of ids, as after a crash
		gaps := lib.Pick(r, []uint64{255, 1023, 1024, 5000, 33000, 70000}, []uint64{255, 256, 1023, 1024, 4095, 4096, 5000, 33000, 70000, 200000, 1<<20 + 5})
		r.Parallel(len(gaps)*3, 4, func(i int) {
			g := gaps[i/3]
			groups := [][]int{{3}, {1, 2}, {2, 1}}[i%3]
			key := fmt.Sprintf("gap of %d, flushes of %v", g, groups)
			r.State(key)
			r.Trace()
			r.Transitions(3)
			r.Case(key, nil, func() error {
				return brief(roundTrip([]*v1.Data{full[0].d, full[1].d, full[2].d}, []uint64{g, g + 1, 2 * g}, groups))
			})
		})
		r.Sample(map[string]any{"single": singles[5].name})
		r.Sample(map[string]any{"pair": pairs[17].name})
	})
}

// brief cuts long messages in the text of an error.
func brief(err error) error {
	if err == nil {
		return nil
	}
	s := err.Error()
	return fmt.Errorf("%s", s[:min(len(s), 600)])
}

// richMessages has one message per signal with every field set, in two
// shapes.
func richMessages(paths []gen.Path) []item {
	var out []item
	for k, sig := range []string{"metrics", "logs", "traces"} {
		_ = k
		for shape := 0; shape < 2; shape++ {
			d := &v1.Data{}
			for i, p := range paths {
				if string(p.Fields[0].Name()) != sig {
					continue
				}
				if shape == 0 {
					p.Set(d, 0, -1)
				} else if i%2 == 0 {
					p.Set(d, p.Variants()-1, p.Repeated()-1)
				}
			}
			out = append(out, item{fmt.Sprintf("%s%d", sig, shape), d})
		}
	}
	return out
}
