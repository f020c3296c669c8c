// Package crash takes pictures of the files of a server at points of its
// execution, and restores them.
package crash

import (
	"bytes"
	"crypto/sha256"
	"fmt"
	"io/fs"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"syscall"
	"time"
)

// File is the content of a file up to its last byte that is not zero.
type File struct {
	Size int64
	Data []byte
	sum  [32]byte
}

// Picture is what the files of a directory hold.
type Picture map[string]*File

var folder = &File{}

const (
	seekData = 3
	seekHole = 4
)

func read(path string) (*File, error) {
	f, err := os.Open(path)
	if err != nil {
		return nil, err
	}
	defer f.Close()
	fi, err := f.Stat()
	if err != nil {
		return nil, err
	}
	r := &File{Size: fi.Size()}
	for off := int64(0); off < r.Size; {
		a, err := syscall.Seek(int(f.Fd()), off, seekData)
		if err != nil {
			break // only a hole is left
		}
		b, err := syscall.Seek(int(f.Fd()), a, seekHole)
		if err != nil {
			b = r.Size
		}
		if int64(len(r.Data)) < b {
			r.Data = append(r.Data, make([]byte, b-int64(len(r.Data)))...)
		}
		if _, err := f.ReadAt(r.Data[a:b], a); err != nil && int64(len(r.Data)) <= r.Size {
			return nil, err
		}
		off = b
	}
	r.Data = bytes.TrimRight(r.Data, "\x00")
	r.sum = sha256.Sum256(r.Data)
	return r, nil
}

// Take takes a picture of dir at a moment when no background thread of the
// database writes. Files that did not change are shared with last.
func Take(dir string, last Picture) (Picture, error) {
	p, err := take(dir, last)
	for i := 0; i < 50 && err == nil && (last == nil || p.Key() != last.Key()); i++ {
		time.Sleep(time.Millisecond)
		last = p
		p, err = take(dir, last)
	}
	return p, err
}

func take(dir string, last Picture) (Picture, error) {
	p := Picture{}
	err := filepath.WalkDir(dir, func(path string, d fs.DirEntry, err error) error {
		if err != nil {
			if os.IsNotExist(err) {
				return nil
			}
			return err
		}
		rel, _ := filepath.Rel(dir, path)
		if d.IsDir() {
			p[rel+"/"] = folder
			return nil
		}
		if base := filepath.Base(path); base == "LOCK" {
			return nil
		}
		f, err := read(path)
		if err != nil {
			if os.IsNotExist(err) {
				return nil
			}
			return err
		}
		if o := last[rel]; o != nil && o.Size == f.Size && o.sum == f.sum {
			f = o
		}
		p[rel] = f
		return nil
	})
	return p, err
}

func (p Picture) names() []string {
	var l []string
	for n := range p {
		l = append(l, n)
	}
	sort.Strings(l)
	return l
}

// Key identifies the content of a picture.
func (p Picture) Key() string {
	h := sha256.New()
	for _, n := range p.names() {
		fmt.Fprintf(h, "%s %d %x\n", n, p[n].Size, p[n].sum)
	}
	return string(h.Sum(nil))
}

// Restore writes the picture to dir.
func (p Picture) Restore(dir string) error {
	for _, n := range p.names() {
		path := filepath.Join(dir, n)
		if strings.HasSuffix(n, "/") {
			if err := os.MkdirAll(path, 0o755); err != nil {
				return err
			}
			continue
		}
		if err := os.MkdirAll(filepath.Dir(path), 0o755); err != nil {
			return err
		}
		if err := os.WriteFile(path, p[n].Data, 0o644); err != nil {
			return err
		}
		if err := os.Truncate(path, p[n].Size); err != nil {
			return err
		}
	}
	return nil
}

// Torn are the states between a and b in which a part of what was written to
// the one file that differs is there. Other changes have none.
func Torn(a, b Picture) (out []Picture, what []string) {
	var name string
	for _, n := range b.names() {
		if o := a[n]; o == nil {
			return nil, nil // a file is new
		} else if o != b[n] {
			if name != "" {
				return nil, nil
			}
			name = n
		}
	}
	if name == "" || len(a) != len(b) {
		return nil, nil
	}
	o, n := a[name], b[name]
	if n.Size < o.Size {
		return nil, nil
	}
	size := max(len(o.Data), len(n.Data))
	ob, nb := make([]byte, size), make([]byte, size)
	copy(ob, o.Data)
	copy(nb, n.Data)
	add := func(d []byte, end int64) {
		f := &File{Size: max(o.Size, min(n.Size, end)), Data: bytes.TrimRight(d, "\x00")}
		f.sum = sha256.Sum256(f.Data)
		c := Picture{}
		for k, v := range b {
			c[k] = v
		}
		c[name] = f
		out = append(out, c)
		what = append(what, fmt.Sprintf("%s written up to byte %d of %d", name, end, n.Size))
	}
	if strings.HasPrefix(name, "index/") {
		const page = 8192
		var changed []int
		for i := 0; i < size; i += page {
			e := min(i+page, size)
			if !bytes.Equal(ob[i:e], nb[i:e]) {
				changed = append(changed, i)
			}
		}
		cur := bytes.Clone(ob)
		for k := 0; k+1 < len(changed); k++ {
			e := min(changed[k]+page, size)
			copy(cur[changed[k]:e], nb[changed[k]:e])
			add(bytes.Clone(cur), int64(changed[k]+page))
		}
		return
	}
	if !strings.HasSuffix(name, ".mem") && !strings.HasSuffix(name, ".vlog") {
		return
	}
	x := 0
	for x < size && ob[x] == nb[x] {
		x++
	}
	y := size
	for y > x && ob[y-1] == nb[y-1] {
		y--
	}
	for _, k := range []int{1, 2, 3} {
		e := x + (y-x)*k/4
		if e <= x || e >= y {
			continue
		}
		add(append(bytes.Clone(nb[:e]), ob[e:]...), int64(e))
	}
	return
}
