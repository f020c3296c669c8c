// R16: what goes through the zstd codec comes out as it was.
package main

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"runtime"
	"time"

	"github.com/gernest/requiemdb/internal/compress"
	"github.com/gernest/requiemdb/internal/zzverif/lib"
	"google.golang.org/grpc/encoding"
)

func codec() encoding.Compressor { return encoding.GetCompressor("zstd") }

func pattern(kind string, n int) []byte {
	b := make([]byte, n)
	x := uint32(12345)
	for i := range b {
		switch kind {
		case "zero":
		case "ramp":
			b[i] = byte(i)
		case "text":
			b[i] = "the quick brown fox "[i%20]
		default:
			x = x*1664525 + 1013904223
			b[i] = byte(x >> 24)
		}
	}
	return b
}

type limited struct {
	bytes.Buffer
	n int
}

var boom = errors.New("boom")

func (l *limited) Write(p []byte) (int, error) {
	if l.Len()+len(p) > l.n {
		return 0, boom
	}
	return l.Buffer.Write(p)
}

// dribble gives its bytes in pieces, and then err.
type dribble struct {
	b    []byte
	size int
	err  error

	pause time.Duration // before each piece
}

func (d *dribble) Read(p []byte) (int, error) {
	time.Sleep(d.pause)
	if len(d.b) == 0 {
		return 0, d.err
	}
	n := len(p)
	if d.size > 0 {
		n = min(n, d.size)
	}
	n = copy(p[:n], d.b)
	d.b = d.b[n:]
	return n, nil
}

// cuts gives the ends of pieces for a bit mask of cut positions.
func cuts(n, mask int) (o []int) {
	for i := 1; i < n; i++ {
		if mask>>(i-1)&1 == 1 {
			o = append(o, i)
		}
	}
	return append(o, n)
}

func compressIn(data []byte, at []int, w io.Writer) error {
	c, err := codec().Compress(w)
	if err != nil {
		return err
	}
	last := 0
	var werr error
	for _, e := range at {
		n, err := c.Write(data[last:e])
		if err == nil && n != e-last {
			return fmt.Errorf("short write %d of %d", n, e-last)
		}
		werr = errors.Join(werr, err)
		last = e
	}
	return errors.Join(werr, c.Close())
}

// readIn reads with buffers of the given sizes, the last one again and again.
func readIn(r io.Reader, sizes []int) (out []byte, err error) {
	for i := 0; ; i++ {
		p := make([]byte, sizes[min(i, len(sizes)-1)])
		n, err := r.Read(p)
		out = append(out, p[:n]...)
		if err == io.EOF {
			// it stays at its end
			for k := 0; k < 2; k++ {
				if n, err := r.Read(p); n != 0 || (err != io.EOF && len(p) > 0) {
					return nil, fmt.Errorf("after the end: %d %v", n, err)
				}
			}
			return out, nil
		}
		if err != nil {
			if n, err2 := r.Read(make([]byte, 1)); n != 0 || err2 == nil || err2 == io.EOF {
				return nil, fmt.Errorf("an error (%v) that goes away: %d %v", err, n, err2)
			}
			return out, fmt.Errorf("corrupt: %w", err)
		}
		if i > 10_000_000 {
			return nil, errors.New("never ends")
		}
	}
}

func same(want, got []byte) error {
	if !bytes.Equal(want, got) {
		return fmt.Errorf("%d bytes became %d other bytes", len(want), len(got))
	}
	return nil
}

func readers(comp, want []byte, sizes [][]int) error {
	for _, s := range sizes {
		for _, d := range []int{0, 1, 7} {
			if d == 1 && len(comp) > 4096 {
				continue
			}
			r, err := codec().Decompress(&dribble{b: comp, size: d, err: io.EOF})
			if err != nil {
				return err
			}
			got, err := readIn(r, s)
			if err != nil {
				return fmt.Errorf("reads of %v: %w", s, err)
			}
			if err := same(want, got); err != nil {
				return fmt.Errorf("reads of %v: %w", s, err)
			}
		}
	}
	r, err := codec().Decompress(bytes.NewReader(comp))
	if err != nil {
		return err
	}
	got, err := io.ReadAll(r)
	if err = errors.Join(err, same(want, got)); err != nil {
		return fmt.Errorf("ReadAll: %w", err)
	}
	var b bytes.Buffer
	r, err = codec().Decompress(bytes.NewReader(comp))
	if err != nil {
		return err
	}
	if _, err = io.Copy(&b, r); err == nil {
		err = same(want, b.Bytes())
	}
	if err != nil {
		return fmt.Errorf("Copy: %w", err)
	}
	if n, err := io.Copy(&b, r); n != 0 || err != nil {
		return fmt.Errorf("second Copy: %d %v", n, err)
	}
	// the rest after a first piece
	r, err = codec().Decompress(bytes.NewReader(comp))
	if err != nil {
		return err
	}
	b.Reset()
	p := make([]byte, 3)
	n, err := r.Read(p)
	b.Write(p[:n])
	if err == nil {
		_, err = io.Copy(&b, r)
	}
	if err != nil && err != io.EOF {
		return fmt.Errorf("Read and Copy: %w", err)
	}
	if err := same(want, b.Bytes()); err != nil {
		return fmt.Errorf("Read and Copy: %w", err)
	}
	got, err = compress.Decompress(comp)
	if err = errors.Join(err, same(want, got)); err != nil {
		return fmt.Errorf("Decompress: %w", err)
	}
	return nil
}

// sticky checks that an input whose reading failed never looks complete
// afterwards, whichever way it is read on.
func sticky(src func() io.Reader) error {
	first := map[string]func(io.Reader) error{
		"Read":                func(r io.Reader) error { _, err := readIn(r, []int{3}); return err },
		"Copy":                func(r io.Reader) error { _, err := io.Copy(io.Discard, r); return err },
		"WriteTo":             writeTo(io.Discard),
		"WriteTo that breaks": writeTo(&limited{n: 0}),
	}
	for name, do := range first {
		for _, then := range []string{"Read", "WriteTo"} {
			r, err := codec().Decompress(src())
			if err != nil {
				return nil
			}
			e1 := do(r)
			if e1 == nil || e1 == io.EOF {
				continue
			}
			for k := 0; k < 2; k++ {
				if e2 := first[then](r); e2 == nil || e2 == io.EOF {
					return fmt.Errorf("%s fails with %q, but %s after it gives %v", name, e1, then, e2)
				}
			}
		}
	}
	return nil
}

func writeTo(w io.Writer) func(io.Reader) error {
	return func(r io.Reader) error {
		t, ok := r.(io.WriterTo)
		if !ok {
			_, err := io.Copy(w, r)
			return err
		}
		_, err := t.WriteTo(w)
		return err
	}
}

// An op is one step of a stream in an interleaving.
type stream struct {
	n    int
	do   func(i int) error
	done func() error // checked when every stream is at its end
}

func encoder(data []byte, parts int, twice bool, stop int) *stream {
	var buf bytes.Buffer
	var w io.WriteCloser
	s := &stream{n: parts + 2}
	if twice {
		s.n++
	}
	s.do = func(i int) (err error) {
		if stop > 0 && i >= stop {
			return nil // given up: never closed
		}
		switch {
		case i == 0:
			w, err = codec().Compress(&buf)
		case i <= parts:
			_, err = w.Write(data[(i-1)*len(data)/parts : i*len(data)/parts])
		default:
			err = w.Close()
		}
		return
	}
	s.done = func() error {
		if stop > 0 {
			return nil
		}
		got, err := compress.Decompress(buf.Bytes())
		return errors.Join(err, same(data, got))
	}
	return s
}

func decoder(data []byte, steps int, stop int, bad bool) *stream {
	comp, _ := compress.Compress(data)
	if bad {
		comp = comp[:len(comp)-3]
	}
	var r io.Reader
	var got []byte
	var failed, ended bool
	s := &stream{n: steps + 3}
	s.do = func(i int) (err error) {
		if stop > 0 && i >= stop {
			return nil
		}
		if i == 0 {
			r, err = codec().Decompress(bytes.NewReader(comp))
			return
		}
		size := len(data)/steps + 1
		if i > steps {
			size = 4
		}
		p := make([]byte, size)
		n, err := io.ReadFull(r, p)
		got = append(got, p[:n]...)
		if err == io.EOF || err == io.ErrUnexpectedEOF {
			if err == io.ErrUnexpectedEOF && bad {
				failed = true
			}
			ended = true
			return nil
		}
		if err != nil {
			failed = true
			if bad {
				return nil
			}
		}
		return err
	}
	s.done = func() error {
		switch {
		case stop > 0:
			return nil
		case bad:
			if !failed && !ended {
				return errors.New("a truncated stream has no end")
			}
			if len(got) > len(data) || !bytes.Equal(got, data[:len(got)]) {
				return errors.New("a truncated stream gave other data")
			}
			return nil
		case !ended:
			return errors.New("the stream does not end")
		}
		return same(data, got)
	}
	return s
}

func oneshot(data []byte) *stream {
	var comp []byte
	s := &stream{n: 2}
	s.do = func(i int) (err error) {
		if i == 0 {
			comp, err = compress.Compress(data)
			return
		}
		got, err := compress.Decompress(comp)
		return errors.Join(err, same(data, got))
	}
	s.done = func() error { return nil }
	return s
}

func schedules(counts []int, f func([]int)) {
	total := 0
	for _, c := range counts {
		total += c
	}
	cur := make([]int, 0, total)
	left := append([]int{}, counts...)
	var rec func()
	rec = func() {
		if len(cur) == total {
			f(append([]int{}, cur...))
			return
		}
		for i := range left {
			if left[i] > 0 {
				left[i]--
				cur = append(cur, i)
				rec()
				cur = cur[:len(cur)-1]
				left[i]++
			}
		}
	}
	rec()
}

func main() {
	lib.Main("R16", "model_checking", func(r *lib.Run) {
		r.Rule("round trips: every cut of short payloads into writes, and cuts at block boundaries of long ones, each read in several ways, also from slow connections; faults: every truncation, byte corruption, reader and writer failure, each followed by a regular round trip; all interleavings of the steps of two and three pooled streams. States are the distinct cases")
		if codec() == nil {
			r.Fail("codec", nil, errors.New("the zstd codec is not registered"))
			return
		}
		sizes := [][]int{{1}, {2}, {3, 1}, {1 << 16}, {0, 5}}
		kinds := []string{"zero", "ramp", "text", "noise"}
		// 1. short payloads
		maxN := lib.Pick(r, 8, 11)
		for n := 0; n <= maxN; n++ {
			for _, k := range kinds {
				data := pattern(k, n)
				r.Parallel(1<<max(0, n-1), 8, func(mask int) {
					key := fmt.Sprintf("short %s %d cuts %b", k, n, mask)
					r.State(key)
					r.Trace()
					r.Transitions(n + 1)
					r.Case(key, nil, func() error {
						var b bytes.Buffer
						at := cuts(n, mask)
						if mask&1 == 1 {
							at = append([]int{0}, at...) // an empty write
						}
						if err := compressIn(data, at, &b); err != nil {
							return err
						}
						return readers(b.Bytes(), data, sizes)
					})
				})
			}
		}
		// long ones around the sizes of blocks and windows
		var longs []int
		for _, b := range []int{1 << 8, 1 << 12, 1 << 16, 1 << 17, 1 << 18} {
			longs = append(longs, b-1, b, b+1)
		}
		longs = append(longs, 1<<20+3)
		if !r.Quick() {
			longs = append(longs, 4<<20+1, 9<<20)
		}
		type long struct {
			k string
			n int
		}
		var ls []long
		for _, n := range longs {
			for _, k := range kinds {
				ls = append(ls, long{k, n})
			}
		}
		r.Parallel(len(ls), 8, func(i int) {
			data := pattern(ls[i].k, ls[i].n)
			n := len(data)
			ps := []int{1, n / 2, min(n, 1<<17), n - 1}
			for mask := 0; mask < 1<<len(ps); mask++ {
				if r.Quick() && n > 1<<17+1 && mask != 0 && mask != 15 && mask != 4 {
					continue
				}
				var at []int
				last := 0
				for j, p := range ps {
					if mask>>j&1 == 1 && p >= last {
						at = append(at, p)
						last = p
					}
				}
				at = append(at, n)
				key := fmt.Sprintf("long %s %d cuts %v", ls[i].k, n, at)
				r.State(key)
				r.Trace()
				r.Transitions(len(at))
				r.Case(key, nil, func() error {
					var b bytes.Buffer
					if err := compressIn(data, at, &b); err != nil {
						return err
					}
					return readers(b.Bytes(), data, [][]int{{4096}, {1 << 17, 1}, {n + 1}}[:lib.Pick(r, 1, 2)])
				})
				r.Case(key+" helpers", nil, func() error {
					c, err := compress.Compress(data)
					if err != nil {
						return err
					}
					var b bytes.Buffer
					if err := compress.To(&b, data); err != nil {
						return err
					}
					for _, x := range [][]byte{c, b.Bytes()} {
						got, err := compress.Decompress(x)
						if err = errors.Join(err, same(data, got)); err != nil {
							return err
						}
					}
					return nil
				})
			}
		})
		r.Sample("long noise 131073 cuts [1 131073]")

		// slow connections: the decoder has less than a reader asks for
		var slow []long
		for _, k := range kinds {
			for _, n := range []int{1000, 1 << 17, 400_000, 1 << 20} {
				slow = append(slow, long{k, n})
			}
		}
		r.Parallel(len(slow), 8, func(i int) {
			data := pattern(slow[i].k, slow[i].n)
			var b bytes.Buffer
			if err := compressIn(data, []int{len(data)}, &b); err != nil {
				r.Fail("slow compress", nil, err)
				return
			}
			for _, pieces := range []int{2, 5, 24} {
				for _, size := range []int{1 << 10, 1 << 16, 1 << 19, 1 << 21} {
					key := fmt.Sprintf("slow %s %d in %d pieces, reads of %d", slow[i].k, slow[i].n, pieces, size)
					r.State(key)
					r.Trace()
					r.Case(key, nil, func() error {
						rd, err := codec().Decompress(&dribble{b: b.Bytes(), size: b.Len()/pieces + 1, err: io.EOF, pause: 2 * time.Millisecond})
						if err != nil {
							return err
						}
						got, err := readIn(rd, []int{size})
						if err != nil {
							return err
						}
						return same(data, got)
					})
				}
			}
		})

		// 2. faults
		regular := func() error {
			data := pattern("text", 77)
			var b bytes.Buffer
			if err := compressIn(data, []int{10, 77}, &b); err != nil {
				return fmt.Errorf("afterwards: %w", err)
			}
			if err := readers(b.Bytes(), data, [][]int{{5}}); err != nil {
				return fmt.Errorf("afterwards: %w", err)
			}
			return nil
		}
		broken := func(comp, data []byte, mayBeSame bool) error {
			ok := func(got []byte, err error) error {
				if err != nil && !errors.Is(err, io.EOF) {
					return nil
				}
				if mayBeSame && bytes.Equal(got, data) {
					return nil
				}
				return fmt.Errorf("broken input reads as %d bytes, error %v", len(got), err)
			}
			r, err := codec().Decompress(bytes.NewReader(comp))
			if err == nil {
				got, err := readIn(r, []int{3})
				if err := ok(got, err); err != nil {
					return err
				}
			}
			r, err = codec().Decompress(bytes.NewReader(comp))
			if err == nil {
				got, err := io.ReadAll(r)
				if err := ok(got, err); err != nil {
					return err
				}
			}
			if err := ok(compress.Decompress(comp)); err != nil {
				return err
			}
			if err := sticky(func() io.Reader { return bytes.NewReader(comp) }); err != nil {
				return err
			}
			return regular()
		}
		for _, k := range kinds {
			for _, n := range []int{1, 5, 40, lib.Pick(r, 300, 3000)} {
				data := pattern(k, n)
				comp, err := compress.Compress(data)
				if err != nil {
					r.Fail("compress", nil, err)
					return
				}
				r.Parallel(len(comp), 8, func(i int) {
					if i > 0 {
						key := fmt.Sprintf("truncate %s %d at %d", k, n, i)
						r.State(key)
						r.Trace()
						r.Case(key, nil, func() error { return broken(comp[:i], data, false) })
					}
					masks := []byte{1, 2, 4, 8, 16, 32, 64, 128, 255}
					if !r.Quick() && n < 100 {
						masks = nil
						for m := 1; m < 256; m++ {
							masks = append(masks, byte(m))
						}
					}
					for _, m := range masks {
						c := bytes.Clone(comp)
						c[i] ^= m
						key := fmt.Sprintf("corrupt %s %d byte %d ^%d", k, n, i, m)
						r.State(key)
						r.Trace()
						r.Case(key, nil, func() error { return broken(c, data, true) })
					}
					key := fmt.Sprintf("failing reader %s %d at %d", k, n, i)
					r.State(key)
					r.Trace()
					r.Case(key, nil, func() error {
						rd, err := codec().Decompress(&dribble{b: comp[:i], size: 2, err: boom})
						if err == nil {
							_, err = io.ReadAll(rd)
							if !errors.Is(err, boom) {
								return fmt.Errorf("the error of the connection becomes %v", err)
							}
						}
						if err := sticky(func() io.Reader { return &dribble{b: comp[:i], size: 2, err: boom} }); err != nil {
							return err
						}
						return regular()
					})
					key = fmt.Sprintf("failing writer %s %d at %d", k, n, i)
					r.State(key)
					r.Trace()
					r.Case(key, nil, func() error {
						w := &limited{n: i}
						if err := compressIn(data, []int{n / 2, n}, w); !errors.Is(err, boom) {
							return fmt.Errorf("the error of the connection becomes %v", err)
						}
						if err := compress.To(&limited{n: i}, data); !errors.Is(err, boom) {
							return fmt.Errorf("To: the error of the connection becomes %v", err)
						}
						return regular()
					})
				})
			}
		}

		// 3. interleavings, on one processor: the pools then depend on the
		// steps only
		runtime.GOMAXPROCS(1)
		mk := []struct {
			name string
			f    func(x int) *stream
		}{
			{"enc", func(x int) *stream { return encoder(pattern("text", 50+x), 2, false, 0) }},
			{"enc-closed-twice", func(x int) *stream { return encoder(pattern("ramp", 33+x), 1, true, 0) }},
			{"enc-dropped", func(x int) *stream { return encoder(pattern("ramp", 20+x), 1, false, 2) }},
			{"dec", func(x int) *stream { return decoder(pattern("noise", 60+x), 1, 0, false) }},
			{"dec-dropped", func(x int) *stream { return decoder(pattern("noise", 80+x), 2, 2, false) }},
			{"dec-truncated", func(x int) *stream { return decoder(pattern("text", 90+x), 1, 0, true) }},
			{"once", func(x int) *stream { return oneshot(pattern("zero", 30+x)) }},
		}
		var sets [][]int
		for a := range mk {
			for b := a; b < len(mk); b++ {
				sets = append(sets, []int{a, b})
				for c := b; c < len(mk); c++ {
					if r.Quick() && (a+b+c)%3 != 0 {
						continue
					}
					sets = append(sets, []int{a, b, c})
				}
			}
		}
		r.Parallel(len(sets), 1, func(i int) {
			var counts []int
			name := ""
			for j, x := range sets[i] {
				counts = append(counts, mk[x].f(j).n)
				name += " " + mk[x].name
			}
			cap := lib.Pick(r, 1500, 1<<30)
			total := 0
			schedules(counts, func([]int) { total++ })
			stride := 1 + total/cap
			k := 0
			schedules(counts, func(order []int) {
				k++
				if k%stride != 0 || r.Expired() {
					return
				}
				key := fmt.Sprintf("interleaving%s %v", name, order)
				r.State(key)
				r.Trace()
				r.Transitions(len(order))
				r.Case(key, nil, func() error {
					ss := make([]*stream, len(counts))
					pos := make([]int, len(counts))
					for j, x := range sets[i] {
						ss[j] = mk[x].f(j)
					}
					for _, j := range order {
						if err := ss[j].do(pos[j]); err != nil {
							return fmt.Errorf("stream %d step %d: %w", j, pos[j], err)
						}
						pos[j]++
					}
					for j := range ss {
						if err := ss[j].done(); err != nil {
							return fmt.Errorf("stream %d: %w", j, err)
						}
					}
					return nil
				})
			})
		})
	})
}
