// R17: the index answers conjunctions exactly.
package main

import (
	"context"
	"fmt"
	"slices"
	"sort"
	"strings"
	"time"

	"github.com/gernest/rbf"
	v1 "github.com/gernest/requiemdb/gen/go/rq/v1"
	"github.com/gernest/requiemdb/internal/batch"
	"github.com/gernest/requiemdb/internal/bitmaps"
	"github.com/gernest/requiemdb/internal/labels"
	"github.com/gernest/requiemdb/internal/samples"
	"github.com/gernest/requiemdb/internal/shards"
	"github.com/gernest/requiemdb/internal/store"
	"github.com/gernest/requiemdb/internal/zzverif/lib"
	"github.com/gernest/requiemdb/internal/zzverif/stack"
	"github.com/gernest/requiemdb/internal/zzverif/tel"
	"github.com/gernest/roaring/shardwidth"
)

const W = shardwidth.ShardWidth

// A world is one index: label positions, the ids of the first, second and
// third sample of every assignment and the split into transactions.
type world struct {
	name   string
	pos    []uint64 // the columns of the labels
	bases  []uint64 // sample j of assignment i has id bases[j]+i
	splits []int    // transaction of sample j
}

func (w world) String() string {
	return fmt.Sprintf("%s labels=%v ids=%v+i transactions=%v", w.name, w.pos, w.bases, w.splits)
}

type fact struct {
	id  uint64
	at  time.Time
	set []int // labels
}

func (w world) facts() (fs []fact) {
	n := 1
	for range w.bases {
		n <<= len(w.pos)
	}
	for i := 0; i < n; i++ {
		m := i
		for j := range w.bases {
			f := fact{id: w.bases[j] + uint64(i), at: lib.Day0.Add(time.Duration(i) * time.Hour).Add(time.Duration(j) * time.Minute)}
			for k := range w.pos {
				if m&1 != 0 {
					f.set = append(f.set, k)
				}
				m >>= 1
			}
			fs = append(fs, f)
		}
	}
	return
}

func write(idx *shards.Shards, w world, fs []fact) error {
	b := batch.New()
	for _, f := range fs {
		bm := bitmaps.New()
		for _, l := range f.set {
			bm.Add(w.pos[l])
		}
		b.Add(f.id, f.at, bm)
	}
	frags, err := b.Build()
	if err != nil {
		return err
	}
	for shard, views := range frags {
		err := idx.Update(shard, func(tx *rbf.Tx) error {
			for name, bm := range views {
				if _, err := tx.AddRoaring(name, bm); err != nil {
					return err
				}
			}
			return nil
		})
		if err != nil {
			return err
		}
	}
	return nil
}

func list(b *bitmaps.Bitmap) []uint64 {
	if b == nil {
		return nil
	}
	return b.ToArray()
}

func contains(set []int, mask int) bool {
	for k := 0; mask>>k != 0; k++ {
		if mask>>k&1 != 0 && !slices.Contains(set, k) {
			return false
		}
	}
	return true
}

func (w world) columns(mask int) *bitmaps.Bitmap {
	c := bitmaps.New()
	for k := range w.pos {
		if mask>>k&1 != 0 {
			c.Add(w.pos[k])
		}
	}
	return c
}

func same(got, want []uint64) bool { return slices.Equal(got, want) }

type held struct {
	what string
	want []uint64
	got  func() []uint64
}

// verify compares every lookup with the facts.
func verify(r *lib.Run, idx *shards.Shards, w world, fs []fact, repeat int, when string) (hs []held, err error) {
	byHour := map[time.Time][]fact{}
	byDay := map[time.Time][]fact{}
	for _, f := range fs {
		h := f.at.Truncate(time.Hour)
		d := f.at.Truncate(24 * time.Hour)
		byHour[h] = append(byHour[h], f)
		byDay[d] = append(byDay[d], f)
	}
	lookup := func(start, end time.Time, in []fact, what string, repeat int) error {
		for mask := 1; mask < 1<<len(w.pos); mask++ {
			var want []uint64
			for _, f := range in {
				if contains(f.set, mask) {
					want = append(want, f.id)
				}
			}
			slices.Sort(want)
			want = slices.Compact(want)
			for k := 0; k < repeat; k++ {
				b, err := idx.Rows(start, end, w.columns(mask))
				if err != nil {
					return fmt.Errorf("%s: lookup of labels %03b in %s: %w", when, mask, what, err)
				}
				if got := list(b); !same(got, want) {
					return fmt.Errorf("%s: lookup of labels %03b in %s gives samples %v, want %v", when, mask, what, got, want)
				}
				if b != nil {
					b.Release()
				}
				r.Count("transitions", 1)
			}
		}
		return nil
	}
	hours := make([]time.Time, 0, len(byHour))
	for h := range byHour {
		hours = append(hours, h)
	}
	sort.Slice(hours, func(i, j int) bool { return hours[i].Before(hours[j]) })
	for _, h := range hours {
		if err := lookup(h, h.Add(59*time.Minute), byHour[h], "the hour "+h.Format("2006010215"), repeat); err != nil {
			return nil, err
		}
		for _, view := range []string{"std_" + h.Format("2006010215")} {
			asked := map[uint64]bool{}
			for _, f := range byHour[h] {
				for _, id := range []uint64{f.id, f.id + 1} {
					if asked[id] {
						continue
					}
					asked[id] = true
					var want []uint64
					for _, g := range byHour[h] {
						if g.id == id {
							for _, l := range g.set {
								want = append(want, w.pos[l])
							}
						}
					}
					slices.Sort(want)
					row, err := idx.Row(view, id)
					if err != nil {
						return nil, fmt.Errorf("%s: labels of sample %d in %s: %w", when, id, view, err)
					}
					if got := row.Columns(); !same(got, want) {
						return nil, fmt.Errorf("%s: sample %d has labels %v in %s, want %v", when, id, got, view, want)
					}
					if row.Count() != uint64(len(want)) {
						return nil, fmt.Errorf("%s: sample %d has %d labels in %s, want %d", when, id, row.Count(), view, len(want))
					}
					hs = append(hs, held{fmt.Sprintf("labels of sample %d in %s", id, view), want, row.Columns})
					r.Count("transitions", 1)
				}
			}
		}
	}
	// two adjacent hours, whole days and everything
	for i := 0; i+1 < len(hours); i += 7 {
		a, b := hours[i], hours[i+1]
		if err := lookup(a.Add(30*time.Minute), b.Add(30*time.Minute), append(slices.Clone(byHour[a]), byHour[b]...), "two hours from "+a.Format("2006010215"), 1); err != nil {
			return nil, err
		}
	}
	for d, in := range byDay {
		if err := lookup(d, d.Add(24*time.Hour), in, "the day "+d.Format("20060102"), 1); err != nil {
			return nil, err
		}
		// a day before any sample and years without one
	}
	if err := lookup(lib.Day0.AddDate(0, 0, -1), lib.Day0, nil, "the day before", 1); err != nil {
		return nil, err
	}
	m0 := time.Date(2024, 4, 1, 0, 0, 0, 0, time.UTC)
	if err := lookup(m0, m0.AddDate(0, 2, 0), fs, "two months", 1); err != nil {
		return nil, err
	}
	return hs, lookup(m0.AddDate(-1, 0, 0), m0.AddDate(1, 0, 0), fs, "two years", 1)
}

func explore(r *lib.Run, w world) error {
	dir := r.Scratch("idx")
	idx := shards.New(dir, nil)
	all := w.facts()
	parts := map[int][]fact{}
	max := 0
	for i, f := range all {
		s := w.splits[i%len(w.bases)]
		parts[s] = append(parts[s], f)
		if s > max {
			max = s
		}
	}
	var seen []fact
	var hs []held
	for t := 0; t <= max; t++ {
		if err := write(idx, w, parts[t]); err != nil {
			return err
		}
		seen = append(seen, parts[t]...)
		h, err := verify(r, idx, w, seen, lib.Pick(r, 2, 6), fmt.Sprintf("after transaction %d", t+1))
		if err != nil {
			idx.Close()
			return err
		}
		// what was returned earlier stays what it was
		for _, x := range hs {
			if got := x.got(); !same(got, x.want) {
				idx.Close()
				return fmt.Errorf("after transaction %d: the earlier result %s became %v, was %v", t+1, x.what, got, x.want)
			}
		}
		hs = h
		r.State(fmt.Sprint(w, t))
	}
	if err := idx.Close(); err != nil {
		return err
	}
	idx = shards.New(dir, nil)
	_, err := verify(r, idx, w, seen, 1, "after a restart")
	if e := idx.Close(); err == nil {
		err = e
	}
	if err != nil {
		return err
	}
	r.State(fmt.Sprint(w, "reopened"))
	r.Trace()
	r.Count("assignments", len(all)/len(w.bases))
	return nil
}

func worlds(r *lib.Run) (ws []world) {
	positions := []uint64{0, 1, W - 1, W, W + 1, 2 * W}
	if !r.Quick() {
		positions = append(positions, 65535, 65536, 2*W-1, 5*W+3)
	}
	bases := [][]uint64{{0, 600, 1 << 20}, {1<<20 - 256, 1 << 30, 1<<16 - 256}}
	splits := [][]int{{0, 0, 0}, {0, 1, 2}, {1, 0, 0}, {2, 1, 0}}
	for a := 0; a < len(positions); a++ {
		for b := a + 1; b < len(positions); b++ {
			for c := b + 1; c < len(positions); c++ {
				for i, ids := range bases {
					for j, sp := range splits {
						if r.Quick() && (a+b+c+i+j)%4 != 0 {
							continue
						}
						ws = append(ws, world{"", []uint64{positions[a], positions[b], positions[c]}, ids, sp})
					}
				}
			}
		}
	}
	// storage shards with numbers of several digits
	for i, p := range [][]uint64{{9 * W, 10 * W, 36*W + 1}, {11 * W, 100*W + 7, 1000 * W}, {0, 10*W - 1, 12*W + 65536}} {
		ws = append(ws, world{"many shards", p, bases[i%2], splits[1]})
	}
	return
}

// stored saves messages through the store and lists their labels back.
func stored(r *lib.Run) error {
	s, err := stack.Open(r.Scratch("labels"), true)
	if err != nil {
		return err
	}
	defer s.Close()
	st, err := store.NewStore(s.DB, s.Idx, s.Tr, s.Seq, s.Now)
	if err != nil {
		return err
	}
	defer st.Close()
	type msg struct {
		d    *v1.Data
		want []string
	}
	lbl := func(rs v1.RESOURCE, p v1.PREFIX, k, v string) string {
		l := labels.NewLabel()
		defer l.Release()
		return string(l.WithResource(rs).WithPrefix(p).WithKey(k).WithValue(v).Encode())
	}
	base := func(rs v1.RESOURCE, schema, res, lib, ver, sschema string) []string {
		o := []string{lbl(rs, v1.PREFIX_UNKNOWN, "", "")}
		if schema != "" {
			o = append(o, lbl(rs, v1.PREFIX_RESOURCE_SCHEMA, schema, ""))
		}
		if res != "" {
			o = append(o, lbl(rs, v1.PREFIX_RESOURCE_ATTRIBUTES, "service.name", res))
		}
		if lib != "" {
			o = append(o, lbl(rs, v1.PREFIX_SCOPE_NAME, lib, ""))
		}
		if ver != "" {
			o = append(o, lbl(rs, v1.PREFIX_SCOPE_VERSION, ver, ""))
		}
		if sschema != "" {
			o = append(o, lbl(rs, v1.PREFIX_SCOPE_SCHEMA, sschema, ""))
		}
		return o
	}
	m, l, t := v1.RESOURCE_METRICS, v1.RESOURCE_LOGS, v1.RESOURCE_TRACES
	at := lib.Day0
	var ms []msg
	for n := 0; n < 6; n++ {
		ts := uint64(at.UnixNano())
		ms = append(ms,
			msg{tel.One(tel.Res("service.name", fmt.Sprint("a", n)), tel.Scope("lib", "v1", "k", "v"), tel.Gauge("g", tel.Num(ts, 1, "state", "idle"), tel.Num(ts, 1, "state", fmt.Sprint("user", n)))),
				append(base(m, "", fmt.Sprint("a", n), "lib", "v1", ""), lbl(m, v1.PREFIX_SCOPE_ATTRIBUTES, "k", "v"), lbl(m, v1.PREFIX_NAME, "g", ""),
					lbl(m, v1.PREFIX_ATTRIBUTES, "state", "idle"), lbl(m, v1.PREFIX_ATTRIBUTES, "state", fmt.Sprint("user", n)))},
			msg{tel.RichLogs(n, at),
				append(base(l, "https://r/1", "a", "lib", "v1", "https://s/1"), lbl(l, v1.PREFIX_LOGS_LEVEL, "INFO", ""), lbl(l, v1.PREFIX_LOGS_LEVEL, "ERROR", ""),
					lbl(l, v1.PREFIX_ATTRIBUTES, "s", "v"), lbl(l, v1.PREFIX_TRACE_ID, fmt.Sprintf("ab%02x", n), ""), lbl(l, v1.PREFIX_SPAN_ID, "cd", ""))},
			msg{tel.RichTraces(n, at),
				append(base(t, "https://r/1", "a", "lib", "v1", "https://s/1"), lbl(t, v1.PREFIX_NAME, "op", ""), lbl(t, v1.PREFIX_NAME, "child", ""),
					lbl(t, v1.PREFIX_TRACE_ID, fmt.Sprintf("01%02x", n), ""), lbl(t, v1.PREFIX_SPAN_ID, fmt.Sprintf("02%02x", n), ""), lbl(t, v1.PREFIX_SPAN_ID, "04", ""),
					lbl(t, v1.PREFIX_PARENT_SPAN_ID, "03", ""), lbl(t, v1.PREFIX_ATTRIBUTES, "http.method", "GET"))},
		)
	}
	for i := range ms {
		sl := samples.Get()
		sl.Items = append(sl.Items, &v1.Sample{Id: uint64(i), Data: ms[i].d})
		if err := st.SaveSamples(context.Background(), sl); err != nil {
			return err
		}
		for j := 0; j <= i; j++ {
			for _, view := range []string{"std_2024", "std_202404", "std_20240403", "std_2024040300"} {
				got, err := st.Labels(view, uint64(j))
				if err != nil {
					return fmt.Errorf("labels of sample %d: %w", j, err)
				}
				sort.Strings(got)
				want := slices.Clone(ms[j].want)
				sort.Strings(want)
				want = slices.Compact(want)
				if !slices.Equal(got, want) {
					return fmt.Errorf("after %d samples: sample %d has in %s the labels\n%s\nwant\n%s", i+1, j, view, strings.Join(got, "\n"), strings.Join(want, "\n"))
				}
				r.Transitions(1)
			}
		}
		r.State(fmt.Sprint("labels ", i))
	}
	r.Trace()
	return nil
}

func main() {
	lib.Main("R17", "model_checking", func(r *lib.Run) {
		lib.FastParquet()
		ws := worlds(r)
		r.Rule("all 512 assignments of 3 labels to 3 samples (each in its own hour) for every choice of label columns around the boundaries of storage shards, of sample ids and of splits into transactions (quick: a quarter of the choices); after every transaction and after a restart all lookups of every label set in hours, pairs of hours, days, months and years, and the labels of every sample, are compared with the relation; returned sets must stay what they were while later transactions are written. A state is an index content.")
		r.Note("worlds", len(ws))
		r.Case("labels of stored messages", nil, func() error { return stored(r) })
		r.Sample(ws[0].String())
		r.Parallel(len(ws), 0, func(i int) {
			w := ws[i]
			r.Case(w.String(), w.String(), func() error { return explore(r, w) })
		})
	})
}
