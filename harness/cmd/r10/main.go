// R10: the label dictionary is a bijection that survives restarts and
// crashes and never changes its mind.
package main

import (
	"encoding/json"
	"errors"
	"fmt"
	"os"
	"strings"

	"github.com/dgraph-io/badger/v4"
	"github.com/gernest/requiemdb/internal/translate"
	"github.com/gernest/requiemdb/internal/zzverif/lib"
)

type op struct {
	name string
	kind byte // t: translate, f: find, r: clean restart, c: restart without close
	key  string
}

// world is the reference dictionary.
type world struct {
	ids  map[string]uint64
	keys map[uint64]string
}

func (w *world) learn(key string, id uint64) error {
	if old, ok := w.ids[key]; ok {
		if old != id {
			return fmt.Errorf("key %q was %d and is %d now", key, old, id)
		}
		return nil
	}
	if k, ok := w.keys[id]; ok {
		return fmt.Errorf("id %d of %q is given to %q too", id, k, key)
	}
	w.ids[key], w.keys[id] = id, key
	return nil
}

// agree compares every entry in all directions.
func (w *world) agree(tr *translate.Translate, unknown []string) error {
	var all []uint64
	for k, id := range w.ids {
		got, err := tr.TranslateID(id)
		if err != nil {
			return fmt.Errorf("id %d of %q: %w", id, k, err)
		}
		if got != k {
			return fmt.Errorf("id %d is %q instead of %q", id, got, k)
		}
		n, err := tr.Find([]byte(k))
		if err != nil {
			return fmt.Errorf("find %q: %w", k, err)
		}
		if n != id {
			return fmt.Errorf("find %q is %d instead of %d", k, n, id)
		}
		all = append(all, id)
	}
	i := 0
	err := tr.TranslateBulkID(all, func(key []byte) error {
		if string(key) != w.keys[all[i]] {
			return fmt.Errorf("bulk: id %d is %q instead of %q", all[i], key, w.keys[all[i]])
		}
		i++
		return nil
	})
	if err != nil {
		return err
	}
	if i != len(all) {
		return fmt.Errorf("bulk: %d keys for %d ids", i, len(all))
	}
	for _, u := range unknown {
		if _, ok := w.ids[u]; ok {
			continue
		}
		if n, err := tr.Find([]byte(u)); !errors.Is(err, badger.ErrKeyNotFound) {
			return fmt.Errorf("find of unknown %q: %d %v", u, n, err)
		}
	}
	return nil
}

func main() {
	if len(os.Args) > 4 && os.Args[1] == "worker" {
		json.NewEncoder(os.Stdout).Encode(crashWorker(os.Args[2], os.Args[3] == "true", os.Args[4]))
		return
	}
	lib.Main("R10", "model_checking", func(r *lib.Run) {
		r.Rule("every sequence of translate, find, restart and restart without close over 4 keys up to the depth, two dictionaries side by side in one database; restarts of both kinds at every position around the first id leases; labels that are too large for the database among others; on disk, every history of first and repeated uses of short and long labels and restarts up to the depth, with a crash at every point of the code at which the files differ, also with the last write cut short, and two restarts after it")
		keys := []string{"1:0:", "1:7:a=b", "1:7:a", "seq"}
		var ops []op
		for _, k := range keys {
			ops = append(ops, op{"translate " + k, 't', k})
		}
		ops = append(ops, op{"find " + keys[2], 'f', keys[2]}, op{"restart", 'r', ""}, op{"crash", 'c', ""}, op{"other", 'o', keys[1]})
		depth := lib.Pick(r, 5, 7)
		total := 1
		for i := 0; i < depth; i++ {
			total *= len(ops)
		}
		const workers = 8
		dbs := make(chan *badger.DB, workers)
		for i := 0; i < workers; i++ {
			dbs <- lib.MemDB()
		}
		run := func(h []op, prefix string) error {
			db := <-dbs
			defer func() { dbs <- db }()
			// the prefix has spare capacity, the way a caller's buffer may
			p := append(make([]byte, 0, 64), prefix...)
			tr, err := translate.New(db, p)
			if err != nil {
				return err
			}
			defer func() { tr.Close() }()
			w := &world{map[string]uint64{}, map[uint64]string{}}
			w2 := &world{map[string]uint64{}, map[uint64]string{}}
			var other *translate.Translate
			for i, o := range h {
				switch o.kind {
				case 't':
					n, err := tr.TranslateKey([]byte(o.key))
					if err != nil {
						return fmt.Errorf("step %d: %w", i, err)
					}
					if err := w.learn(o.key, n); err != nil {
						return fmt.Errorf("step %d: %w", i, err)
					}
				case 'f':
					n, err := tr.Find([]byte(o.key))
					id, ok := w.ids[o.key]
					if ok && (err != nil || n != id) || !ok && !errors.Is(err, badger.ErrKeyNotFound) {
						return fmt.Errorf("step %d: find is %d %v, known %v %d", i, n, err, ok, id)
					}
				case 'r':
					if err := tr.Close(); err != nil {
						return err
					}
					fallthrough
				case 'c':
					if tr, err = translate.New(db, p); err != nil {
						return err
					}
				case 'o':
					if other == nil {
						if other, err = translate.New(db, []byte(prefix+"x")); err != nil {
							return err
						}
					}
					n, err := other.TranslateKey([]byte(o.key))
					if err != nil {
						return err
					}
					if err := w2.learn(o.key, n); err != nil {
						return fmt.Errorf("step %d, other dictionary: %w", i, err)
					}
				}
			}
			if err := w.agree(tr, keys); err != nil {
				return err
			}
			if other != nil {
				return w2.agree(other, keys)
			}
			return nil
		}
		r.Parallel(total, workers, func(i int) {
			h := make([]op, depth)
			var ns []string
			x := i
			for k := range h {
				h[k] = ops[x%len(ops)]
				x /= len(ops)
				ns = append(ns, h[k].name)
			}
			key := strings.Join(ns, "; ")
			r.State(key)
			r.Trace()
			r.Transitions(depth)
			if i%9973 == 0 {
				r.Sample(key)
			}
			n := 0
			r.Case(key, key, func() error {
				n++
				return run(h, fmt.Sprintf("%d.%d/", i, n))
			})
		})
		// leases of ids
		lease := 4 << 10
		var cuts [][]int
		for d := -2; d <= 2; d++ {
			for e := -2; e <= 2; e++ {
				if d < 0 && e > 0 && r.Quick() {
					continue
				}
				cuts = append(cuts, []int{lease + d, 2*lease + e})
			}
			cuts = append(cuts, []int{1, lease + d}, []int{lease + d, lease + d + 1})
		}
		r.Note("lease_histories", 2*len(cuts))
		r.Parallel(2*len(cuts), workers, func(i int) {
			cut, clean := cuts[i/2], i%2 == 0
			key := fmt.Sprintf("leases: restart after %v labels, clean %v", cut, clean)
			r.State(key)
			r.Trace()
			round := 0
			r.Case(key, key, func() error {
				round++
				db := <-dbs
				defer func() { dbs <- db }()
				p := append(make([]byte, 0, 64), fmt.Sprintf("L%d.%d/", i, round)...)
				tr, err := translate.New(db, p)
				if err != nil {
					return err
				}
				w := &world{map[string]uint64{}, map[uint64]string{}}
				total := cut[len(cut)-1] + 6
				for k := 0; k < total; k++ {
					for _, c := range cut {
						if c != k {
							continue
						}
						if clean {
							if err := tr.Close(); err != nil {
								return err
							}
						}
						if tr, err = translate.New(db, p); err != nil {
							return err
						}
					}
					lbl := fmt.Sprintf("1:7:k=%d", k)
					n, err := tr.TranslateKey([]byte(lbl))
					if err != nil {
						return err
					}
					if err := w.learn(lbl, n); err != nil {
						return err
					}
				}
				r.Transitions(total)
				defer tr.Close()
				return w.agree(tr, []string{"1:7:k", "1:7:k=-1"})
			})
		})
		refusals(r)
		crashes(r)
	})
}
