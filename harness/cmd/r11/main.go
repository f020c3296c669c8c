// R11: sample ids are unique and increase, through restarts and crashes.
package main

import (
	"fmt"
	"strings"

	"github.com/dgraph-io/badger/v4"
	"github.com/gernest/requiemdb/internal/seq"
	"github.com/gernest/requiemdb/internal/translate"
	"github.com/gernest/requiemdb/internal/zzverif/lib"
)

// maxSkip is how many ids a crash may skip: the rows of a view are filled up to
// the id of a sample.
const maxSkip = 1 << 16

func main() {
	lib.Main("R11", "model_checking", func(r *lib.Run) {
		r.Rule("an id exceeds the one before by at most 2^16 for each crash between them; every sequence of {take an id, clean restart, restart without release, translate a label} up to the depth in a database shared with the label dictionary; every kind of restart at each position around the ends of the first leases")
		ops := []string{"id", "release", "crash", "label"}
		depth := lib.Pick(r, 7, 10)
		run := func(h []string, n int) error {
			db := lib.MemDB()
			defer db.Close()
			s, err := seq.New(db)
			if err != nil {
				return err
			}
			tr, err := translate.New(db, []byte("5"))
			if err != nil {
				return err
			}
			defer func() { s.Release(); tr.Close() }()
			last, some, skip := uint64(0), false, uint64(1)
			labels := map[uint64]bool{}
			for i, o := range h {
				switch o {
				case "id":
					id := s.SampleID()
					if some && id <= last {
						return fmt.Errorf("step %d: id %d after %d", i, id, last)
					}
					if id > last+skip {
						return fmt.Errorf("step %d: id %d after %d, a gap of %d", i, id, last, id-last)
					}
					last, some, skip = id, true, 1
				case "release":
					if err := s.Release(); err != nil {
						return err
					}
					if s, err = seq.New(db); err != nil {
						return err
					}
				case "crash":
					skip += maxSkip
					if s, err = seq.New(db); err != nil {
						return err
					}
				case "label":
					n, err := tr.TranslateKey([]byte(fmt.Sprint("1:7:", i)))
					if err != nil {
						return err
					}
					if labels[n] {
						return fmt.Errorf("step %d: label id %d twice", i, n)
					}
					labels[n] = true
				}
			}
			return nil
		}
		total := 1
		for i := 0; i < depth; i++ {
			total *= len(ops)
		}
		r.Parallel(total, 8, func(i int) {
			h := make([]string, depth)
			x := i
			for k := range h {
				h[k] = ops[x%len(ops)]
				x /= len(ops)
			}
			key := strings.Join(h, " ")
			r.State(key)
			r.Trace()
			r.Transitions(depth)
			if i%4001 == 0 {
				r.Sample(key)
			}
			r.Case(key, key, func() error { return run(h, i) })
		})
		// ends of leases
		type c struct {
			at    int
			clean bool
			after int
		}
		var cs []c
		for d := -1; d <= 1; d++ {
			for _, clean := range []bool{true, false} {
				for _, lease := range []int{1 << 7, 1 << 8, 1 << 10, 1 << 12, 1 << 16} {
					cs = append(cs, c{lease + d, clean, 3}, c{2*lease + d, clean, 3}, c{lease + d, clean, lease + 2})
				}
				lease := 1 << 20
				cs = append(cs, c{lease + d, clean, 3}, c{2*lease + d, clean, 3}, c{lease + d, clean, lease + 2})
			}
		}
		r.Parallel(len(cs), 6, func(i int) {
			x := cs[i]
			key := fmt.Sprintf("restart (clean %v) after %d ids, then %d", x.clean, x.at, x.after)
			r.State(key)
			r.Trace()
			r.Case(key, key, func() error {
				db := lib.MemDB()
				defer db.Close()
				return lease1(db, x.at, x.clean, x.after, r)
			})
		})
	})
}

func lease1(db *badger.DB, at int, clean bool, after int, r *lib.Run) error {
	s, err := seq.New(db)
	if err != nil {
		return err
	}
	last, some, skip := uint64(0), false, uint64(1)
	take := func(n int) error {
		for i := 0; i < n; i++ {
			id := s.SampleID()
			if some && id <= last {
				return fmt.Errorf("id %d after %d", id, last)
			}
			if id > last+skip {
				return fmt.Errorf("id %d after %d, a gap of %d", id, last, id-last)
			}
			last, some, skip = id, true, 1
		}
		r.Transitions(n)
		return nil
	}
	if err := take(at); err != nil {
		return err
	}
	if !clean {
		skip += maxSkip
	}
	if clean {
		if err := s.Release(); err != nil {
			return err
		}
	}
	if s, err = seq.New(db); err != nil {
		return err
	}
	return take(after)
}
