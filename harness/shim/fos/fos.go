// Package fos stands for package os in code whose use of the file system is
// explored: every operation that changes or reads a file below Root is a step
// at which the process can stop, fail, or leave the processor to another one.
package fos

import (
	"errors"
	"io"
	"io/fs"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"sync"
	"syscall"
)

// Root is the directory whose operations are steps.
var Root string

// A Proc is one run of the program.
type Proc struct {
	Crash   int   // stops at this step; -1: never
	Part    int   // bytes that a write makes before it stops or fails
	Fail    int   // fails at this step; -1: never
	Err     error // what it fails with
	Yield   func()
	Also    string // another directory whose operations are steps
	Out     strings.Builder
	Log     []Step
	dead    bool
	Touched bool
}

type Step struct {
	Op    string
	Bytes int
}

// Crashed is what a process panics with when it stops.
type Crashed struct{}

var (
	mu       sync.Mutex
	cur      *Proc
	unsynced = map[string]bool{}
)

// Use makes p the process that runs.
func Use(p *Proc) { mu.Lock(); cur = p; mu.Unlock() }

func Current() *Proc { mu.Lock(); defer mu.Unlock(); return cur }

// Unsynced are the files whose contents a power failure can take.
func Unsynced() (o []string) {
	mu.Lock()
	defer mu.Unlock()
	for k := range unsynced {
		o = append(o, k)
	}
	sort.Strings(o)
	return
}

func Forget() { mu.Lock(); unsynced = map[string]bool{}; mu.Unlock() }

func dirty(name string, yes bool) {
	mu.Lock()
	if yes {
		unsynced[name] = true
	} else {
		delete(unsynced, name)
	}
	mu.Unlock()
}

var errDead = errors.New("the process is gone")

func watched(name, root string) bool {
	a, err := filepath.Abs(name)
	return err == nil && root != "" && (a == root || strings.HasPrefix(a, root+string(filepath.Separator)))
}

// step is one operation on the file name. do makes it, up to n bytes of it.
func step(op, name string, size int, do func(n int) error) error {
	p := Current()
	if p == nil {
		return do(size)
	}
	if p.dead {
		return errDead
	}
	also := watched(name, p.Also)
	if !also && !watched(name, Root) {
		return do(size)
	}
	if also && op == "close" && p.Yield != nil {
		// what comes next need not be a step
		defer func() {
			if !p.dead {
				p.Yield()
			}
		}()
	}
	p.Touched = true
	if p.Yield != nil {
		p.Yield()
	}
	i := len(p.Log)
	p.Log = append(p.Log, Step{op, size})
	if i == p.Crash {
		if size > 0 && p.Part > 0 {
			do(min(p.Part, size))
		}
		p.dead = true
		panic(Crashed{})
	}
	if i == p.Fail {
		if size > 0 && p.Part > 0 {
			do(min(p.Part, size))
		}
		return p.Err
	}
	return do(size)
}

type File struct {
	*os.File
	std  bool
	quit bool
}

var (
	Stdin  = &File{File: os.Stdin}
	Stdout = &File{File: os.Stdout, std: true}
	Stderr = &File{File: os.Stderr, quit: true}
)

func wrap(f *os.File, err error) (*File, error) {
	if err != nil {
		return nil, err
	}
	return &File{File: f}, nil
}

func (f *File) Write(b []byte) (n int, err error) {
	if f.quit {
		return len(b), nil
	}
	if f.std {
		if p := Current(); p != nil {
			return p.Out.Write(b)
		}
		return f.File.Write(b)
	}
	err = step("write", f.Name(), len(b), func(k int) error {
		var err error
		n, err = f.File.Write(b[:k])
		dirty(f.Name(), true)
		return err
	})
	return
}

func (f *File) WriteString(s string) (int, error) { return f.Write([]byte(s)) }

func (f *File) WriteAt(b []byte, at int64) (n int, err error) {
	err = step("write", f.Name(), len(b), func(k int) error {
		var err error
		n, err = f.File.WriteAt(b[:k], at)
		dirty(f.Name(), true)
		return err
	})
	return
}

func (f *File) ReadFrom(r io.Reader) (int64, error) {
	return io.Copy(struct{ io.Writer }{f}, r)
}

func (f *File) Read(b []byte) (n int, err error) {
	err = step("read", f.Name(), 0, func(int) error {
		var err error
		n, err = f.File.Read(b)
		return err
	})
	return
}

func (f *File) WriteTo(w io.Writer) (int64, error) {
	return io.Copy(w, struct{ io.Reader }{f})
}

func (f *File) Sync() error {
	return step("sync", f.Name(), 0, func(int) error {
		dirty(f.Name(), false)
		return nil
	})
}

func (f *File) Truncate(n int64) error {
	return step("truncate", f.Name(), 0, func(int) error {
		dirty(f.Name(), true)
		return f.File.Truncate(n)
	})
}

func (f *File) Close() error {
	if p := Current(); p != nil && p.dead {
		return f.File.Close()
	}
	err := step("close", f.Name(), 0, func(int) error { return nil })
	return errors.Join(err, f.File.Close())
}

func OpenFile(name string, flag int, perm fs.FileMode) (f *File, err error) {
	op := "open"
	if flag&(os.O_CREATE|os.O_TRUNC) != 0 {
		op = "create"
	}
	err = step(op, name, 0, func(int) error {
		var err error
		f, err = wrap(os.OpenFile(name, flag, perm))
		if err == nil && op == "create" {
			dirty(name, true)
		}
		return err
	})
	return
}

func Open(name string) (*File, error) { return OpenFile(name, os.O_RDONLY, 0) }
func Create(name string) (*File, error) {
	return OpenFile(name, os.O_RDWR|os.O_CREATE|os.O_TRUNC, 0666)
}

func CreateTemp(dir, pattern string) (f *File, err error) {
	d := dir
	if d == "" {
		d = os.TempDir()
	}
	err = step("create", filepath.Join(d, "x"), 0, func(int) error {
		var err error
		f, err = wrap(os.CreateTemp(dir, pattern))
		if err == nil {
			dirty(f.Name(), true)
		}
		return err
	})
	return
}

func NewFile(fd uintptr, name string) *File { return &File{File: os.NewFile(fd, name)} }

func WriteFile(name string, data []byte, perm fs.FileMode) error {
	f, err := OpenFile(name, os.O_WRONLY|os.O_CREATE|os.O_TRUNC, perm)
	if err != nil {
		return err
	}
	// others can see a part of it
	h := len(data) / 2
	for _, b := range [][]byte{data[:h], data[h:]} {
		if err == nil {
			_, err = f.Write(b)
		}
	}
	return errors.Join(err, f.Close())
}

func ReadFile(name string) (b []byte, err error) {
	err = step("read", name, 0, func(int) error {
		var err error
		b, err = os.ReadFile(name)
		return err
	})
	if err != nil {
		b = nil
	}
	return
}

func Rename(a, b string) error {
	return step("rename", b, 0, func(int) error {
		err := os.Rename(a, b)
		if err == nil {
			mu.Lock()
			if unsynced[a] {
				delete(unsynced, a)
				unsynced[b] = true
			} else {
				delete(unsynced, b)
			}
			mu.Unlock()
		}
		return err
	})
}

func Link(a, b string) error {
	return step("link", b, 0, func(int) error {
		err := os.Link(a, b)
		mu.Lock()
		if err == nil && unsynced[a] {
			unsynced[b] = true
		}
		mu.Unlock()
		return err
	})
}

func Symlink(a, b string) error {
	return step("link", b, 0, func(int) error { return os.Symlink(a, b) })
}

func Remove(name string) error {
	return step("remove", name, 0, func(int) error {
		dirty(name, false)
		return os.Remove(name)
	})
}

func RemoveAll(name string) error {
	return step("remove", name, 0, func(int) error { return os.RemoveAll(name) })
}

func Truncate(name string, n int64) error {
	return step("truncate", name, 0, func(int) error {
		dirty(name, true)
		return os.Truncate(name, n)
	})
}

// Making a directory that is there changes nothing.
func there(name string) bool {
	i, err := os.Stat(name)
	return err == nil && i.IsDir()
}

func Mkdir(name string, perm fs.FileMode) error {
	if there(name) {
		return os.Mkdir(name, perm)
	}
	return step("mkdir", name, 0, func(int) error { return os.Mkdir(name, perm) })
}

func MkdirAll(name string, perm fs.FileMode) error {
	if there(name) {
		return nil
	}
	return step("mkdir", name, 0, func(int) error { return os.MkdirAll(name, perm) })
}

func MkdirTemp(dir, pattern string) (s string, err error) {
	d := dir
	if d == "" {
		d = os.TempDir()
	}
	err = step("mkdir", filepath.Join(d, "x"), 0, func(int) error {
		var err error
		s, err = os.MkdirTemp(dir, pattern)
		return err
	})
	return
}

func Pipe() (r, w *File, err error) {
	a, b, err := os.Pipe()
	if err != nil {
		return nil, nil, err
	}
	return &File{File: a}, &File{File: b}, nil
}

func CopyFS(dir string, f fs.FS) error { return os.CopyFS(dir, f) }

func Exit(code int) { panic(Exited(code)) }

// Exited is what a process panics with when it exits.
type Exited int

var NoSpace error = &fs.PathError{Op: "write", Path: "cache", Err: syscall.ENOSPC}
var Broken error = &fs.PathError{Op: "read", Path: "cache", Err: syscall.EIO}
