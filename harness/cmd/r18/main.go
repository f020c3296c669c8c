// R18: row sets and bit-sliced rows compute exact set algebra.
package main

import (
	"fmt"
	"slices"
	"strings"

	"github.com/gernest/requiemdb/internal/rows"
	"github.com/gernest/requiemdb/internal/zzverif/lib"
	"github.com/gernest/roaring"
	"github.com/gernest/roaring/shardwidth"
)

const W = shardwidth.ShardWidth

// A set is a bit mask over the universe.
type set uint16

func (s set) cols(u []uint64) (o []uint64) {
	o = []uint64{}
	for i, c := range u {
		if s>>i&1 != 0 {
			o = append(o, c)
		}
	}
	return
}

// check compares everything that can be asked of a row with the set.
func check(what string, got *rows.Row, want set, u []uint64) error {
	w := want.cols(u)
	if c := got.Columns(); !slices.Equal(c, w) {
		return fmt.Errorf("%s has columns %v, want %v", what, c, w)
	}
	if n := got.Count(); n != uint64(len(w)) {
		return fmt.Errorf("%s counts %d, want %d", what, n, len(w))
	}
	if got.Any() != (want != 0) {
		return fmt.Errorf("%s: Any is %v with columns %v", what, got.Any(), w)
	}
	if got.IsEmpty() != (want == 0) {
		return fmt.Errorf("%s: IsEmpty is %v with columns %v", what, got.IsEmpty(), w)
	}
	for i, c := range u {
		if got.Includes(c) != (want>>i&1 != 0) {
			return fmt.Errorf("%s: Includes(%d) is %v with columns %v", what, c, got.Includes(c), w)
		}
	}
	if got.Includes(7*W + 9) {
		return fmt.Errorf("%s includes a column of another shard", what)
	}
	var local []int64
	for _, c := range w {
		local = append(local, int64(c%W))
	}
	if c := got.ShardColumns(); !slices.Equal(c, local) && len(c)+len(local) > 0 {
		return fmt.Errorf("%s has shard columns %v, want %v", what, c, local)
	}
	return nil
}

// The ways to make a row of a set.
var makers = []struct {
	name string
	f    func(cols []uint64) *rows.Row
}{
	{"NewRow", func(cols []uint64) *rows.Row { return rows.NewRow(cols...) }},
	{"NewRow descending", func(cols []uint64) *rows.Row {
		c := slices.Clone(cols)
		slices.Reverse(c)
		return rows.NewRow(c...)
	}},
	{"SetBit twice", func(cols []uint64) *rows.Row {
		r := rows.NewRow()
		for range 2 {
			for _, c := range cols {
				r.SetBit(c)
			}
		}
		return r
	}},
	{"NewRowFromBitmap", func(cols []uint64) *rows.Row { return rows.NewRowFromBitmap(roaring.NewBitmap(cols...)) }},
	{"NewRowFromBitmap of a tree", func(cols []uint64) *rows.Row { return rows.NewRowFromBitmap(roaring.NewBTreeBitmap(cols...)) }},
	{"NewRowFromRoaring", func(cols []uint64) *rows.Row {
		return rows.NewRowFromRoaring(rows.NewRow(cols...).Roaring())
	}},
	{"Clone", func(cols []uint64) *rows.Row { return rows.NewRow(cols...).Clone() }},
	{"RowBuilder", func(cols []uint64) *rows.Row {
		var b rows.RowBuilder
		for _, c := range cols {
			b.Add(c)
		}
		return b.Build()
	}},
	{"segments", func(cols []uint64) *rows.Row {
		r := rows.NewRow(cols...)
		for i := range r.Segments {
			// as the index does: a frozen copy
			r.Segments[i].Freeze()
		}
		return r
	}},
}

type binop struct {
	name string
	f    func(a, b *rows.Row) *rows.Row
	ref  func(a, b set) set
}

var binops = []binop{
	{"union", func(a, b *rows.Row) *rows.Row { return a.Union(b) }, func(a, b set) set { return a | b }},
	{"intersect", func(a, b *rows.Row) *rows.Row { return a.Intersect(b) }, func(a, b set) set { return a & b }},
	{"difference", func(a, b *rows.Row) *rows.Row { return a.Difference(b) }, func(a, b set) set { return a &^ b }},
	{"xor", func(a, b *rows.Row) *rows.Row { return a.Xor(b) }, func(a, b set) set { return a ^ b }},
}

// pairs: every operation on every pair of sets.
func pairs(r *lib.Run, u []uint64, stride int) {
	n := 1 << len(u)
	r.Parallel(n, 0, func(i int) {
		a := set(i)
		for j := (i * 3) % stride; j < n; j += stride {
			b := set(j)
			mk := makers[(i+j)%len(makers)]
			mk2 := makers[(i+j/len(makers))%len(makers)]
			r.Case(fmt.Sprintf("pair %v %v %s %s", a.cols(u), b.cols(u), mk.name, mk2.name), nil, func() error {
				x, y := mk.f(a.cols(u)), mk2.f(b.cols(u))
				what := fmt.Sprintf("%s of %v and %s of %v", mk.name, a.cols(u), mk2.name, b.cols(u))
				for _, op := range binops {
					if err := check(op.name+" of "+what, op.f(x, y), op.ref(a, b), u); err != nil {
						return err
					}
					if err := check("the first operand after "+op.name+" of "+what, x, a, u); err != nil {
						return err
					}
					if err := check("the second operand after "+op.name+" of "+what, y, b, u); err != nil {
						return err
					}
				}
				z := mk.f(a.cols(u))
				z.Merge(y)
				if err := check("merge of "+what, z, a|b, u); err != nil {
					return err
				}
				return check("the second operand after merge of "+what, y, b, u)
			})
			r.Count("transitions", 5)
		}
	})
}

// clones: a copy of a row, whatever the row was made from, and the row do not
// see each other's changes.
func clones(r *lib.Run, u []uint64) {
	n := 1 << len(u)
	type source struct {
		name string
		f    func(a, b []uint64) *rows.Row
		ref  func(a, b set) set
	}
	var sources []source
	for _, mk := range makers {
		sources = append(sources, source{mk.name, func(a, b []uint64) *rows.Row { return mk.f(a) }, func(a, b set) set { return a }})
		for _, op := range binops {
			sources = append(sources, source{op.name + " of a " + mk.name, func(a, b []uint64) *rows.Row { return op.f(mk.f(a), mk.f(b)) }, op.ref})
		}
	}
	sources = append(sources,
		source{"merge", func(a, b []uint64) *rows.Row { x := rows.NewRow(a...); x.Merge(rows.NewRow(b...)); return x }, func(a, b set) set { return a | b }},
		source{"merge into nothing", func(a, b []uint64) *rows.Row { x := rows.NewRow(); x.Merge(rows.NewRow(a...)); return x }, func(a, b set) set { return a }},
		source{"variadic union", func(a, b []uint64) *rows.Row { x := rows.NewRow(a...); return x.Union(rows.NewRow(b...), x) }, func(a, b set) set { return a | b }},
		source{"shift", func(a, b []uint64) *rows.Row { x, _ := rows.NewRow(a...).Shift(0); return x }, func(a, b set) set { return a }},
	)
	type change struct {
		name string
		f    func(x *rows.Row)
		ref  func(s set) set
	}
	var changes []change
	for i, c := range u {
		changes = append(changes, change{fmt.Sprint("adding ", c), func(x *rows.Row) { x.SetBit(c) }, func(s set) set { return s | 1<<i }})
	}
	for _, m := range []set{1, 6, set(n - 1)} {
		changes = append(changes, change{fmt.Sprint("merging ", m.cols(u)), func(x *rows.Row) { x.Merge(rows.NewRow(m.cols(u)...)) }, func(s set) set { return s | m }})
	}
	r.Parallel(n, 0, func(i int) {
		for j := 0; j < n; j++ {
			for k, src := range sources {
				if r.Quick() && (i+j+k)%3 != 0 {
					continue
				}
				a, b := set(i), set(j)
				want := src.ref(a, b)
				r.Case(fmt.Sprintf("clone %s %v %v", src.name, a.cols(u), b.cols(u)), nil, func() error {
					for _, ch := range changes {
						what := fmt.Sprintf("%s of %v and %v", src.name, a.cols(u), b.cols(u))
						// the copy changes
						x := src.f(a.cols(u), b.cols(u))
						y := x.Clone()
						if err := check("a copy of "+what, y, want, u); err != nil {
							return err
						}
						ch.f(y)
						if err := check(what+" after "+ch.name+" to its copy", x, want, u); err != nil {
							return err
						}
						if err := check("a copy of "+what+" after "+ch.name, y, ch.ref(want), u); err != nil {
							return err
						}
						// the original changes
						x = src.f(a.cols(u), b.cols(u))
						y = x.Clone()
						ch.f(x)
						if err := check("a copy of "+what+" after "+ch.name+" to the original", y, want, u); err != nil {
							return err
						}
						// the copy of the copy
						z := y.Clone()
						ch.f(y)
						if err := check("a copy of a copy of "+what+" after "+ch.name+" to the copy", z, want, u); err != nil {
							return err
						}
						r.Count("transitions", 3)
					}
					return nil
				})
			}
		}
	})
}

// triples: the variadic operations.
func triples(r *lib.Run, u []uint64) {
	n := 1 << len(u)
	r.Parallel(n, 0, func(i int) {
		for j := 0; j < n; j++ {
			for k := 0; k < n; k++ {
				a, b, c := set(i), set(j), set(k)
				r.Case(fmt.Sprintf("triple %d %d %d", i, j, k), nil, func() error {
					x, y, z := rows.NewRow(a.cols(u)...), rows.NewRow(b.cols(u)...), rows.NewRow(c.cols(u)...)
					what := fmt.Sprintf("%v, %v and %v", a.cols(u), b.cols(u), c.cols(u))
					if err := check("union of "+what, x.Union(y, z), a|b|c, u); err != nil {
						return err
					}
					if err := check("difference of "+what, x.Difference(y, z), a&^b&^c, u); err != nil {
						return err
					}
					for m, q := range []*rows.Row{x, y, z} {
						if err := check(fmt.Sprintf("operand %d after the operations on %s", m, what), q, []set{a, b, c}[m], u); err != nil {
							return err
						}
					}
					return nil
				})
				r.Count("transitions", 2)
			}
		}
	})
}

// A program works on three rows.
//
// The result of a union, difference, xor or merge may share storage with its
// operands: rows that may share are read but not modified, until they are
// replaced or cloned.
type instr struct {
	name   string
	run    func(rg []*rows.Row)
	ref    func(rg []set)
	to     int
	from   []int
	mutate bool // modifies row to
	copies bool // the result shares nothing
}

func allowed(ins []instr, idx []int) bool {
	var share [3][3]bool // symmetric
	for _, x := range idx {
		in := ins[x]
		if in.mutate {
			for k := range share {
				if k != in.to && share[in.to][k] {
					return false
				}
			}
		} else {
			old := share
			for k := range share {
				share[in.to][k], share[k][in.to] = false, false
				for _, f := range in.from {
					if k != in.to && !in.copies && (f == k || f != in.to && old[f][k] || f == in.to && old[in.to][k]) {
						share[in.to][k], share[k][in.to] = true, true
					}
				}
			}
			continue
		}
		for _, f := range in.from {
			for k := range share {
				if k != in.to && (f == k || share[f][k]) {
					share[in.to][k], share[k][in.to] = true, true
				}
			}
		}
	}
	return true
}

func instrs(u []uint64) (o []instr) {
	for i := 0; i < 3; i++ {
		for j := 0; j < 3; j++ {
			for k := 0; k < 3; k++ {
				for _, op := range binops {
					o = append(o, instr{fmt.Sprintf("r%d=%s(r%d,r%d)", i, op.name, j, k),
						func(rg []*rows.Row) { rg[i] = op.f(rg[j], rg[k]) },
						func(rg []set) { rg[i] = op.ref(rg[j], rg[k]) }, i, []int{j, k}, false, false})
				}
			}
			if i != j {
				o = append(o, instr{fmt.Sprintf("r%d.merge(r%d)", i, j),
					func(rg []*rows.Row) { rg[i].Merge(rg[j]) },
					func(rg []set) { rg[i] |= rg[j] }, i, []int{j}, true, false})
				o = append(o, instr{fmt.Sprintf("r%d=clone(r%d)", i, j),
					func(rg []*rows.Row) { rg[i] = rg[j].Clone() },
					func(rg []set) { rg[i] = rg[j] }, i, nil, false, true})
			}
		}
		for b := range u {
			o = append(o, instr{fmt.Sprintf("r%d.set(%d)", i, u[b]),
				func(rg []*rows.Row) { rg[i].SetBit(u[b]) },
				func(rg []set) { rg[i] |= 1 << b }, i, nil, true, false})
		}
	}
	return
}

func programs(r *lib.Run, u []uint64, depth int, starts [][3]set) {
	ins := instrs(u)
	var prog func(idx []int, st [3]set)
	prog = func(idx []int, st [3]set) {
		if r.Expired() {
			return
		}
		if !allowed(ins, idx) {
			return
		}
		if len(idx) > 0 {
			names := make([]string, len(idx))
			for i, x := range idx {
				names[i] = ins[x].name
			}
			key := fmt.Sprintf("program from %v: %s", st, strings.Join(names, "; "))
			ok := r.Case(key, nil, func() error {
				rg := []*rows.Row{rows.NewRow(st[0].cols(u)...), rows.NewRow(st[1].cols(u)...), rows.NewRow(st[2].cols(u)...)}
				want := st[:]
				want = slices.Clone(want)
				for _, x := range idx {
					ins[x].run(rg)
					ins[x].ref(want)
				}
				for i := range rg {
					if err := check(fmt.Sprintf("r%d of %v after %s", i, st, strings.Join(names, "; ")), rg[i], want[i], u); err != nil {
						return err
					}
				}
				r.Count("transitions", 1)
				return nil
			})
			if !ok {
				return
			}
		}
		if len(idx) == depth {
			return
		}
		for x := range ins {
			prog(append(slices.Clone(idx), x), st)
		}
	}
	r.Note("instructions", len(ins))
	r.Parallel(len(starts)*len(ins), 0, func(i int) {
		prog([]int{i % len(ins)}, starts[i/len(ins)])
	})
}

// shift moves columns that stay within their shard.
func shifts(r *lib.Run) {
	u := []uint64{0, 1, 65534, 65535, 65536, W - 9, W, W + 65535, 2*W + 5}
	for s := 0; s < 1<<len(u); s++ {
		cols := set(s).cols(u)
		r.Case(fmt.Sprint("shift ", cols), nil, func() error {
			for n := int64(0); n < 4; n++ {
				x := rows.NewRow(cols...)
				y, err := x.Shift(n)
				if err != nil {
					return err
				}
				want := []uint64{}
				for _, c := range cols {
					want = append(want, c+uint64(n))
				}
				if got := y.Columns(); !slices.Equal(got, want) {
					return fmt.Errorf("%v shifted by %d is %v", cols, n, got)
				}
				if y.Count() != uint64(len(want)) {
					return fmt.Errorf("%v shifted by %d counts %d", cols, n, y.Count())
				}
				if got := x.Columns(); !slices.Equal(got, append([]uint64{}, cols...)) {
					return fmt.Errorf("%v shifted by %d changed the operand to %v", cols, n, got)
				}
				r.Count("transitions", 1)
			}
			return nil
		})
	}
}

// Bit-sliced integers.

type assignment []uint64 // value of every column

func build(u []uint64, a assignment) rows.BSIData {
	var b rows.BsiBuilder
	for i, v := range a {
		b.Insert(u[i], v)
	}
	return b.Build()
}

// values reads a bit-sliced set back.
func values(d rows.BSIData, u []uint64) assignment {
	a := make(assignment, len(u))
	for bit, row := range d {
		for _, c := range row.Columns() {
			i := slices.Index(u, c)
			if i < 0 {
				return nil
			}
			a[i] |= 1 << bit
		}
	}
	return a
}

func assignments(n int, vals []uint64) (o []assignment) {
	total := 1
	for range n {
		total *= len(vals)
	}
	for i := 0; i < total; i++ {
		a := make(assignment, n)
		x := i
		for k := range a {
			a[k] = vals[x%len(vals)]
			x /= len(vals)
		}
		o = append(o, a)
	}
	return
}

type group struct {
	val  uint64
	cols []uint64
}

// pivot is the reference of PivotDescending.
func pivot(u []uint64, a assignment, filter set, limit, offset *uint64) (o []group) {
	type pair struct{ v, c uint64 }
	var ps []pair
	for i, c := range u {
		if filter>>i&1 != 0 {
			ps = append(ps, pair{a[i], c})
		}
	}
	slices.SortFunc(ps, func(x, y pair) int {
		if x.v != y.v {
			if x.v > y.v {
				return -1
			}
			return 1
		}
		if x.c < y.c {
			return -1
		}
		return 1
	})
	if offset != nil {
		ps = ps[min(int(*offset), len(ps)):]
	}
	if limit != nil {
		ps = ps[:min(int(*limit), len(ps))]
	}
	for _, p := range ps {
		if n := len(o); n > 0 && o[n-1].val == p.v {
			o[n-1].cols = append(o[n-1].cols, p.c)
			continue
		}
		o = append(o, group{p.v, []uint64{p.c}})
	}
	return
}

func bsi(r *lib.Run) {
	u := []uint64{0, 65535, W - 1, W, 3 * W}
	vals := []uint64{0, 1, 2, 5, 1 << 40}
	if !r.Quick() {
		vals = []uint64{0, 1, 2, 3, 6, 1 << 40, ^uint64(0) >> 1}
	}
	as := assignments(len(u), vals)
	r.Note("bsi_assignments", len(as))
	r.Parallel(len(as), 0, func(i int) {
		a := as[i]
		r.Case(fmt.Sprint("pivot ", a), nil, func() error {
			d := build(u, a)
			if got := values(d, u); !slices.Equal(got, a) {
				return fmt.Errorf("values %v are read back as %v", a, got)
			}
			for f := set(0); f < 1<<len(u); f++ {
				for l := -1; l <= len(u); l++ {
					for o := -1; o <= len(u); o++ {
						if r.Quick() && (int(f)+l+o+i)%3 != 0 {
							continue
						}
						arg := func(x int) *uint64 {
							if x < 0 {
								return nil
							}
							v := uint64(x)
							return &v
						}
						var got []group
						d.PivotDescending(rows.NewRow(f.cols(u)...), 0, arg(l), arg(o), func(v uint64, cols ...uint64) {
							got = append(got, group{v, slices.Clone(cols)})
						})
						want := pivot(u, a, f, arg(l), arg(o))
						if fmt.Sprint(got) != fmt.Sprint(want) {
							return fmt.Errorf("values %v of %v, filter %v, limit %d, offset %d: descending %v, want %v", a, u, f.cols(u), l, o, got, want)
						}
						r.Count("transitions", 1)
					}
				}
			}
			if got := values(d, u); !slices.Equal(got, a) {
				return fmt.Errorf("values %v became %v by reading them", a, got)
			}
			return nil
		})
	})
	// sums of all pairs
	u3 := []uint64{0, 65536, W}
	vals = []uint64{0, 1, 3, 7, 8, 1<<20 - 1}
	if !r.Quick() {
		u3 = []uint64{0, 65536, W, 4*W - 1}
	}
	as = assignments(len(u3), vals)
	r.Note("bsi_sums", len(as)*len(as))
	r.Parallel(len(as), 0, func(i int) {
		a := as[i]
		for j, b := range as {
			if r.Quick() && (i+j)%2 != 0 {
				continue
			}
			if !r.Quick() && (i+j)%3 != 0 {
				continue
			}
			r.Case(fmt.Sprint("sum ", a, b), nil, func() error {
				x, y := build(u3, a), build(u3, b)
				sum := rows.AddBSI(x, y)
				want := make(assignment, len(a))
				for k := range a {
					want[k] = a[k] + b[k]
				}
				if got := values(sum, u3); !slices.Equal(got, want) {
					return fmt.Errorf("%v + %v = %v", a, b, got)
				}
				if got := values(x, u3); !slices.Equal(got, a) {
					return fmt.Errorf("%v became %v by adding %v to it", a, got, b)
				}
				if got := values(y, u3); !slices.Equal(got, b) {
					return fmt.Errorf("%v became %v by adding it to %v", b, got, a)
				}
				r.Count("transitions", 1)
				return nil
			})
		}
	})
}

// builders: runs of columns that cross the sizes at which a builder changes
// its representation, and builders that are used again.
func builders(r *lib.Run) {
	sizes := []int{1, 4095, 4096, 4097, 5000, 65535, 65536, 65537, 70000}
	starts := []uint64{0, 1, 65535, 61440, W - 1, W - 4096, W}
	var b rows.RowBuilder
	var bb rows.BsiBuilder
	for _, n := range sizes {
		for _, s := range starts {
			for _, step := range []uint64{1, 2, 16} {
				if r.Expired() {
					return
				}
				r.Case(fmt.Sprintf("builder %d columns from %d by %d", n, s, step), nil, func() error {
					want := make([]uint64, n)
					for i := range want {
						want[i] = s + uint64(i)*step
						b.Add(want[i])
						bb.Insert(want[i], uint64(i%4))
					}
					got := b.Build()
					if !slices.Equal(got.Columns(), want) || got.Count() != uint64(n) {
						return fmt.Errorf("%d columns from %d by %d: the row has %d", n, s, step, got.Count())
					}
					d := bb.Build()
					for bit := 0; bit < 2; bit++ {
						var w []uint64
						for i, c := range want {
							if i%4>>bit&1 != 0 {
								w = append(w, c)
							}
						}
						var g []uint64
						if bit < len(d) {
							g = d[bit].Columns()
						}
						if len(w)+len(g) > 0 && !slices.Equal(w, g) {
							return fmt.Errorf("%d columns from %d by %d: slice %d has %d columns, want %d", n, s, step, bit, len(g), len(w))
						}
					}
					if e := b.Build(); e.Count() != 0 {
						return fmt.Errorf("a builder that was just used is not empty")
					}
					r.Count("transitions", 3)
					return nil
				})
			}
		}
	}
}

func main() {
	lib.Main("R18", "model_checking", func(r *lib.Run) {
		r.Rule("all pairs of subsets of 8 columns at the boundaries of containers and shards, made in 8 ways, under every operation (quick: a fifth of the pairs); all triples for the variadic operations; copies of every kind of row, with every change of the copy, of the row and of a copy of the copy; all programs of operations on three rows up to the depth, from sets that share and do not share shards; all value assignments, filters, limits and offsets for bit-sliced rows, and pairs of assignments for sums. Results, counts and membership are compared with finite sets, operands must not change. A state is a pair of sets or the registers of a program.")
		u := []uint64{0, 1, 65535, 65536, W - 1, W, W + 1, 3 * W}
		pairs(r, u, lib.Pick(r, 5, 1))
		triples(r, []uint64{0, W - 1, W, 2*W + 65536, 3 * W})
		clones(r, lib.Pick(r, []uint64{0, 65536, W}, []uint64{0, 65535, 65536, W, 3 * W}))
		shifts(r)
		bsi(r)
		builders(r)
		small := []uint64{0, W - 1, W}
		var starts [][3]set
		for a := set(0); a < 8; a++ {
			for b := set(0); b < 8; b++ {
				for c := set(0); c < 8; c++ {
					if lib.Pick(r, (a+2*b+4*c)%5 == 0, (a+2*b+4*c)%32 == 0) {
						starts = append(starts, [3]set{a, b, c})
					}
				}
			}
		}
		programs(r, small, lib.Pick(r, 2, 3), starts)
		for a := 0; a < 256; a++ {
			r.State(fmt.Sprint("set ", a))
		}
		for _, s := range starts {
			r.State(fmt.Sprint("program ", s))
		}
		r.Sample(set(0b10110101).cols(u))
		r.Trace()
	})
}
