package main

import (
	"bytes"
	"encoding/json"
	"errors"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"strings"

	"github.com/dgraph-io/badger/v4"
	"github.com/gernest/requiemdb/internal/translate"
	"github.com/gernest/requiemdb/internal/zzverif/conc"
	"github.com/gernest/requiemdb/internal/zzverif/crash"
	"github.com/gernest/requiemdb/internal/zzverif/lib"
	"github.com/gernest/requiemdb/internal/zzverif/sched"
)

// label is the key of an operation of a crash history:
//
//	a b c  short labels
//	L M    labels that are longer than keys of the database can be
//	r      clean restart
func label(op byte) string {
	switch op {
	case 'L', 'M':
		return "1:7:long=" + strings.Repeat("v", 40<<10) + string(op)
	}
	return "1:7:" + string(op) + "=x"
}

var labels = []string{label('a'), label('b'), label('c'), label('L'), label('M')}

type crashPoint struct {
	where string
	files crash.Picture
	w     *world // what was answered
	doing string // what was asked
}

func (w *world) clone() *world {
	o := &world{map[string]uint64{}, map[uint64]string{}}
	for k, v := range w.ids {
		o.ids[k] = v
		o.keys[v] = k
	}
	return o
}

var dictPrefix = []byte("7")

// record runs a history on a database in dir and takes pictures of its files.
func record(dir, history string, torn bool) (pics []crashPoint, points, torns int, err error) {
	var last crash.Picture
	lastKey, doing, asked := "", "", ""
	w := &world{map[string]uint64{}, map[uint64]string{}}
	// what was answered when the last picture was taken: a write that is cut
	// short came before the answers since then
	before := w.clone()
	i := -1
	sched.SetHook(func(at string) {
		points++
		p, e := crash.Take(dir, last)
		if e != nil {
			err = e
			return
		}
		k := p.Key() + fmt.Sprint(len(w.ids), doing)
		if k == lastKey {
			before = w.clone()
			return
		}
		where := fmt.Sprintf("operation %d of %q, before %s", i, history, at)
		if torn && last != nil {
			ts, what := crash.Torn(last, p)
			for j, t := range ts {
				torns++
				pics = append(pics, crashPoint{where + ", " + what[j], t, before, asked})
			}
		}
		last, lastKey, before = p, k, w.clone()
		pics = append(pics, crashPoint{where, p, w.clone(), doing})
	})
	defer sched.SetHook(nil)
	res := sched.Execute(nil, false, 0, func() {
		var db *badger.DB
		var tr *translate.Translate
		open := func() (e error) {
			if db, e = lib.DirDB(dir); e == nil {
				tr, e = translate.New(db, dictPrefix)
			}
			return
		}
		shut := func() error { return errors.Join(tr.Close(), db.Close()) }
		if err = open(); err != nil {
			return
		}
		for i = range history {
			sched.Point("operation")
			if history[i] == 'r' {
				if err = shut(); err == nil {
					err = open()
				}
				if err != nil {
					return
				}
				continue
			}
			doing = label(history[i])
			asked = doing
			id, e := tr.TranslateKey([]byte(doing))
			if e == nil {
				e = w.learn(doing, id)
			}
			if e != nil {
				err = fmt.Errorf("operation %d of %q: %w", i, history, e)
				return
			}
			doing = ""
		}
		i = len(history)
		sched.Point("the end")
		if e := shut(); e != nil && err == nil {
			err = e
		}
		sched.Point("stopped")
	})
	if res.Verdict != "" && err == nil {
		err = fmt.Errorf("%s", res.Verdict)
	}
	return
}

// afterCrash opens the dictionary on the files of a picture.
func afterCrash(p crashPoint, dir string) error {
	if err := p.files.Restore(dir); err != nil {
		panic(err)
	}
	w := p.w.clone()
	for round := 0; round < 2; round++ {
		db, err := lib.DirDB(dir)
		if err != nil {
			return fmt.Errorf("the database does not open: %w", err)
		}
		tr, err := translate.New(db, dictPrefix)
		if err != nil {
			return errors.Join(fmt.Errorf("the dictionary does not open: %w", err), db.Close())
		}
		err = func() error {
			// a label that was asked for and not answered is known or not, it
			// is not known in one direction only
			if p.doing != "" && w.ids[p.doing] == 0 {
				if n, err := tr.Find([]byte(p.doing)); err == nil {
					if _, known := w.ids[p.doing]; !known {
						if err := w.learn(p.doing, n); err != nil {
							return err
						}
					}
				} else if !errors.Is(err, badger.ErrKeyNotFound) {
					return err
				}
			}
			if err := w.agree(tr, labels); err != nil {
				return err
			}
			for _, k := range append([]string{fmt.Sprint("1:7:new", round), p.doing}, labels...) {
				if k == "" {
					continue
				}
				n, err := tr.TranslateKey([]byte(k))
				if err != nil {
					return err
				}
				if err := w.learn(k, n); err != nil {
					return err
				}
			}
			return w.agree(tr, []string{"1:7:unknown"})
		}()
		if err := errors.Join(err, tr.Close(), db.Close()); err != nil {
			return fmt.Errorf("%d restarts later: %w", round, err)
		}
	}
	return nil
}

type crashResult struct {
	Points, States, Torn int
	Bad                  []struct{ Where, Err string }
	Err                  string
}

func crashWorker(history string, torn bool, base string) (r crashResult) {
	conc.Init()
	sched.MaxLease = 3
	sched.Skip([]string{"pools"})
	dir, err := os.MkdirTemp(base, "d")
	if err != nil {
		panic(err)
	}
	pics, points, torns, err := record(dir, history, torn)
	os.RemoveAll(dir)
	r.Points, r.Torn = points, torns
	if err != nil {
		r.Err = err.Error()
		return
	}
	for _, p := range pics {
		d, err := os.MkdirTemp(base, "d")
		if err != nil {
			panic(err)
		}
		err = lib.Guard(func() error { return afterCrash(p, d) })
		os.RemoveAll(d)
		r.States++
		if err != nil {
			r.Bad = append(r.Bad, struct{ Where, Err string }{p.where, err.Error()})
		}
		if len(r.Bad) > 3 {
			break
		}
	}
	return
}

func runCrash(history string, torn bool, dir string) (r crashResult, err error) {
	self, err := os.Executable()
	if err != nil {
		return r, err
	}
	c := exec.Command(self, "worker", history, fmt.Sprint(torn), dir)
	c.Env = append(os.Environ(), "GOMAXPROCS=3")
	var out, errs bytes.Buffer
	c.Stdout, c.Stderr = &out, &errs
	if err = c.Run(); err != nil {
		if strings.Contains(err.Error(), "signal: killed") {
			return r, nil
		}
		s := errs.String()
		return r, fmt.Errorf("the process ended: %v\n%s", err, s[max(0, len(s)-3000):])
	}
	return r, json.Unmarshal(out.Bytes(), &r)
}

// crashes explores the crash points of histories.
func crashes(r *lib.Run) {
	var hs []string
	depth := lib.Pick(r, 3, 4)
	var rec func(h string, next byte)
	rec = func(h string, next byte) {
		if len(h) > 0 && h[len(h)-1] != 'r' && (len(h) == depth || len(h) == 1) {
			hs = append(hs, h)
		}
		if len(h) == depth {
			return
		}
		// labels are used in order, their names don't matter
		for c := byte('a'); c <= next && c <= 'c'; c++ {
			n := next
			if c == next {
				n++
			}
			rec(h+string(c), n)
		}
		rec(h+"L", next)
		if strings.Contains(h, "L") {
			rec(h+"M", next)
		}
		if h != "" && !strings.HasSuffix(h, "r") {
			rec(h+"r", next)
		}
	}
	rec("", 'a')
	base := r.FastScratch("w")
	r.Parallel(len(hs), 8, func(i int) {
		h := hs[i]
		if r.Expired() || r.Failures() > 2 {
			r.Truncated()
			return
		}
		dir := filepath.Join(base, fmt.Sprint(i))
		os.MkdirAll(dir, 0o755)
		defer os.RemoveAll(dir)
		torn := !r.Quick() || len(h) == 1 || h == "aab" || h == "aLb" || h == "arb"
		res, err := runCrash(h, torn, dir)
		if err == nil && res.Err != "" {
			err = fmt.Errorf("%s", res.Err)
		}
		r.Trace()
		r.Transitions(res.Points)
		r.Count("points at which the files were looked at", res.Points)
		r.Count("restarts on different files", res.States)
		r.Count("of which with a write cut short", res.Torn)
		for k := 0; k < res.States; k++ {
			r.State(fmt.Sprint("crash ", h, k))
		}
		short := strings.NewReplacer(strings.Repeat("v", 40<<10), "v(40960)").Replace
		report := func(where, msg string) {
			if r.Failures() > 2 {
				return
			}
			key := fmt.Sprintf("crash history %q %s", h, where)
			r.Case(key, map[string]any{"history": h, "where": where, "error": short(msg)}, func() error {
				res, err := runCrash(h, torn, dir)
				if err != nil {
					return err
				}
				if where == "" && res.Err != "" {
					return fmt.Errorf("history %q: %s", h, short(res.Err))
				}
				for _, b := range res.Bad {
					if b.Where == where {
						return fmt.Errorf("crash at %s: %s", where, short(b.Err))
					}
				}
				return nil
			})
		}
		if err != nil {
			report("", err.Error())
		}
		for _, b := range res.Bad {
			report(b.Where, b.Err)
		}
	})
}

// refusals translates labels that the database can not hold among ones that it
// can: what failed is not known in one direction only.
func refusals(r *lib.Run) {
	// an in-memory database limits values to a megabyte
	sizes := []int{10, 40 << 10, 1<<20 + 1, 3 << 20}
	total := len(sizes) * len(sizes) * len(sizes)
	r.Parallel(total, 4, func(i int) {
		h := []int{sizes[i%len(sizes)], sizes[i/len(sizes)%len(sizes)], sizes[i/len(sizes)/len(sizes)]}
		key := fmt.Sprintf("labels of %v bytes in memory", h)
		r.State(key)
		r.Trace()
		r.Case(key, key, func() error {
			db := lib.MemDB()
			defer db.Close()
			tr, err := translate.New(db, dictPrefix)
			if err != nil {
				return err
			}
			defer tr.Close()
			w := &world{map[string]uint64{}, map[uint64]string{}}
			for k, n := range append(h, h...) {
				lbl := fmt.Sprintf("1:7:%d=%s", k%len(h), strings.Repeat("v", n))
				id, err := tr.TranslateKey([]byte(lbl))
				if err == nil {
					err = w.learn(lbl, id)
				} else if id, ferr := tr.Find([]byte(lbl)); ferr == nil {
					err = w.learn(lbl, id)
				} else {
					err = nil
				}
				if err != nil {
					return err
				}
				if err := w.agree(tr, nil); err != nil {
					return err
				}
				r.Transitions(1)
			}
			return nil
		})
	})
}
