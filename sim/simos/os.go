//go:build go1.23

// Package simos replaces the parts of package os, and of fmt's standard
// streams, that the code under test uses. Inside a simulated world they act on
// the run's Env: an in-memory file system, standard streams and arguments whose
// faults the run decides. Outside a world they are empty and discard output.
package simos

import (
	"errors"
	"fmt"
	"io"
	"io/fs"
	"os"
	"path/filepath"
	"strings"
	"syscall"
	"time"

	"github.com/hangulize/hangulize/internal/verifsim/simrt"
)

// Node is a file of the simulated file system.
type Node struct {
	Name       string
	Data       []byte
	Dir        bool
	OpenErr    string // opening fails
	ReadErr    int    // reading fails at this offset, -1 never
	ReadErrno  string
	WriteErr   int // writing fails at this offset, -1 never
	WriteErrno string
	WriteOnce  bool // the write fault happens once, later writes succeed
	CloseErr   bool
	SyncErr    bool
	Chunk      int // largest read, 0 unlimited
	OpenFail   int // the n-th open (1-based) fails, 0 never
	ReadFail   int // the n-th opened handle fails reading at ReadErr; 0: every handle
	opens      int
	mtime      time.Time
}

// Chunk is a piece of standard input.
type Chunk struct {
	Data  string
	Delay int64 // virtual ns before it arrives
}

// Fired counts a fault that happened. (A slice, because the race detector
// watches maps even in uninstrumented code.)
type Fired struct {
	K string
	N int
}

// Env is what surrounds one simulated process.
type Env struct {
	Args      []string
	Stdin     []Chunk
	StdinErr  string // error after the chunks instead of end of file
	OutErr    int    // standard output fails at this offset, -1 never
	OutErrno  string
	OutOnce   bool    // the fault happens once, later writes succeed
	StdinRest []Chunk // what can be read after StdinErr was reported once
	OutDelay  int64   // virtual ns that each write to standard output takes
	ErrErr    int     // same for standard error, -1 never
	Files     []*Node
	ReadOnly  bool // creating files fails

	Out, Err []byte
	Fired    []Fired // faults that actually happened
	sawEOF   bool
}

// E is the environment of the current run.
var E *Env

func init() { Reset() }

// Reset installs an empty environment.
func Reset() { E = &Env{OutErr: -1, ErrErr: -1} }

func (e *Env) fire(k string) {
	for i := range e.Fired {
		if e.Fired[i].K == k {
			e.Fired[i].N++
			return
		}
	}
	e.Fired = append(e.Fired, Fired{k, 1})
}

func errno(name string) error {
	switch name {
	case "EIO":
		return syscall.EIO
	case "ENOSPC":
		return syscall.ENOSPC
	case "EACCES":
		return syscall.EACCES
	case "ENOENT":
		return syscall.ENOENT
	case "EMFILE":
		return syscall.EMFILE
	case "EPIPE":
		return syscall.EPIPE
	case "EISDIR":
		return syscall.EISDIR
	case "EBADF":
		return syscall.EBADF
	case "EROFS":
		return syscall.EROFS
	case "EDQUOT":
		return syscall.EDQUOT
	case "EINTR":
		return syscall.EINTR
	case "EAGAIN":
		return syscall.EAGAIN
	case "ETIMEDOUT":
		return syscall.ETIMEDOUT
	case "ENXIO":
		return syscall.ENXIO
	case "EFBIG":
		return syscall.EFBIG
	case "ENOMEM":
		return syscall.ENOMEM
	case "EINVAL":
		return syscall.EINVAL
	case "ECONNRESET":
		return syscall.ECONNRESET
	case "ENFILE":
		return syscall.ENFILE
	case "ELOOP":
		return syscall.ELOOP
	case "ENOTDIR":
		return syscall.ENOTDIR
	case "ESTALE":
		return syscall.ESTALE
	case "deadline":
		return os.ErrDeadlineExceeded
	case "closed":
		return os.ErrClosed
	}
	return errors.New(name)
}

// File stands for *os.File.
type File struct {
	name   string
	std    int // 1 stdin, 2 stdout, 3 stderr, 0 a file
	n      *Node
	pos    int64
	r, w   bool
	app    bool
	closed bool
	bad    bool // this handle has the node's read fault
}

var (
	Stdin  = &File{name: "/dev/stdin", std: 1, r: true}
	Stdout = &File{name: "/dev/stdout", std: 2, w: true}
	Stderr = &File{name: "/dev/stderr", std: 3, w: true}
	Args   = []string{"sim"}
)

func Exit(code int) { simrt.Exit(code, "os.Exit") }

func (f *File) perr(op string, err error) error {
	return &fs.PathError{Op: op, Path: f.name, Err: err}
}

func (f *File) check(op string) error {
	if f == nil {
		return os.ErrInvalid
	}
	if f.closed {
		return f.perr(op, os.ErrClosed)
	}
	return nil
}

func (f *File) Name() string { return f.name }
func (f *File) Fd() uintptr {
	if f.std > 0 {
		return uintptr(f.std - 1)
	}
	return 99
}

func (f *File) Read(b []byte) (int, error) {
	if err := f.check("read"); err != nil {
		return 0, err
	}
	simrt.Point()
	if len(b) == 0 {
		return 0, nil
	}
	if f.std == 1 {
		return readStdin(f, b)
	}
	if f.std != 0 || !f.r {
		return 0, f.perr("read", syscall.EBADF)
	}
	if f.n.Dir {
		return 0, f.perr("read", syscall.EISDIR)
	}
	n, err := f.readAt(b, f.pos)
	f.pos += int64(n)
	return n, err
}

func (f *File) readAt(b []byte, off int64) (int, error) {
	end := int64(len(f.n.Data))
	if f.bad && int64(f.n.ReadErr) < end {
		end = int64(f.n.ReadErr)
	}
	if off >= end {
		if f.bad {
			E.fire("file read error")
			if f.n.ReadErrno != "" {
				return 0, f.perr("read", errno(f.n.ReadErrno))
			}
			return 0, f.perr("read", syscall.EIO)
		}
		return 0, io.EOF
	}
	if f.n.Chunk > 0 && len(b) > f.n.Chunk {
		b = b[:f.n.Chunk]
		E.fire("file short read")
	}
	return copy(b, f.n.Data[off:end]), nil
}

func (f *File) ReadAt(b []byte, off int64) (n int, err error) {
	if err := f.check("read"); err != nil {
		return 0, err
	}
	for len(b) > 0 {
		m, e := f.readAt(b, off)
		if e != nil {
			return n, e
		}
		n += m
		b = b[m:]
		off += int64(m)
	}
	return
}

func readStdin(f *File, b []byte) (int, error) {
	e := E
	for len(e.Stdin) > 0 && e.Stdin[0].Data == "" {
		d := e.Stdin[0].Delay
		e.Stdin = e.Stdin[1:]
		if d > 0 {
			e.fire("stdin stall")
			simrt.Sleep(time.Duration(d))
		}
	}
	if len(e.Stdin) == 0 {
		if e.StdinErr != "" {
			e.fire("stdin error " + e.StdinErr)
			if e.StdinRest != nil {
				defer func() { e.Stdin, e.StdinRest, e.StdinErr = e.StdinRest, nil, "" }()
			}
			return 0, f.perr("read", errno(e.StdinErr))
		}
		e.sawEOF = true
		return 0, io.EOF
	}
	if d := e.Stdin[0].Delay; d > 0 {
		e.Stdin[0].Delay = 0
		e.fire("stdin stall")
		simrt.Sleep(time.Duration(d))
	}
	c := &e.Stdin[0]
	n := copy(b, c.Data)
	c.Data = c.Data[n:]
	if c.Data == "" {
		e.Stdin = e.Stdin[1:]
		if len(e.Stdin) > 0 {
			e.fire("stdin short read")
		}
	}
	return n, nil
}

func (f *File) Write(b []byte) (int, error) {
	if err := f.check("write"); err != nil {
		return 0, err
	}
	simrt.Point()
	e := E
	switch f.std {
	case 1:
		return 0, f.perr("write", syscall.EBADF)
	case 2:
		if e.OutDelay > 0 && simrt.Active() {
			e.fire("stdout slow")
			simrt.Sleep(time.Duration(e.OutDelay))
		}
		n, err := stdWrite(f, &e.Out, b, e.OutErr, e.OutErrno, "stdout")
		if err != nil && e.OutOnce {
			e.OutErr = -1
			e.fire("stdout recovers")
		}
		return n, err
	case 3:
		return stdWrite(f, &e.Err, b, e.ErrErr, "EIO", "stderr")
	}
	if !f.w {
		return 0, f.perr("write", syscall.EBADF)
	}
	if f.app {
		f.pos = int64(len(f.n.Data))
	}
	n, err := f.writeAt(b, f.pos)
	f.pos += int64(n)
	return n, err
}

func stdWrite(f *File, dst *[]byte, b []byte, limit int, en, what string) (int, error) {
	if !simrt.Active() {
		return len(b), nil
	}
	if limit >= 0 && len(*dst)+len(b) > limit {
		n := limit - len(*dst)
		if n < 0 {
			n = 0
		}
		*dst = append(*dst, b[:n]...)
		E.fire(what + " error " + en)
		if en == "EPIPE" {
			// The Go runtime turns a broken standard stream into SIGPIPE.
			simrt.Exit(141, "SIGPIPE on "+what)
		}
		return n, f.perr("write", errno(en))
	}
	*dst = append(*dst, b...)
	return len(b), nil
}

func (f *File) writeAt(b []byte, off int64) (int, error) {
	n := len(b)
	var err error
	if f.n.WriteErr >= 0 && off+int64(n) > int64(f.n.WriteErr) {
		n = int(int64(f.n.WriteErr) - off)
		if n < 0 {
			n = 0
		}
		en := f.n.WriteErrno
		if en == "" {
			en = "ENOSPC"
		}
		E.fire("file write error " + en)
		err = f.perr("write", errno(en))
		if f.n.WriteOnce {
			f.n.WriteErr = -1
		}
	}
	if end := off + int64(n); end > int64(len(f.n.Data)) {
		f.n.Data = append(f.n.Data, make([]byte, end-int64(len(f.n.Data)))...)
	}
	copy(f.n.Data[off:], b[:n])
	return n, err
}

func (f *File) WriteAt(b []byte, off int64) (int, error) {
	if err := f.check("write"); err != nil {
		return 0, err
	}
	if f.std != 0 || !f.w {
		return 0, f.perr("write", syscall.EBADF)
	}
	return f.writeAt(b, off)
}

func (f *File) WriteString(s string) (int, error) { return f.Write([]byte(s)) }

func (f *File) Seek(off int64, whence int) (int64, error) {
	if err := f.check("seek"); err != nil {
		return 0, err
	}
	if f.std != 0 {
		return 0, f.perr("seek", syscall.ESPIPE)
	}
	switch whence {
	case 1:
		off += f.pos
	case 2:
		off += int64(len(f.n.Data))
	}
	if off < 0 {
		return 0, f.perr("seek", syscall.EINVAL)
	}
	f.pos = off
	return off, nil
}

func (f *File) Truncate(n int64) error {
	if err := f.check("truncate"); err != nil {
		return err
	}
	if f.std != 0 || !f.w {
		return f.perr("truncate", syscall.EINVAL)
	}
	return truncate(f.n, n)
}

func truncate(n *Node, size int64) error {
	if size <= int64(len(n.Data)) {
		n.Data = n.Data[:size]
	} else {
		n.Data = append(n.Data, make([]byte, size-int64(len(n.Data)))...)
	}
	return nil
}

func (f *File) Sync() error {
	if err := f.check("sync"); err != nil {
		return err
	}
	if f.n != nil && f.n.SyncErr {
		E.fire("file sync error")
		return f.perr("sync", syscall.EIO)
	}
	return nil
}

func (f *File) Close() error {
	if err := f.check("close"); err != nil {
		return err
	}
	f.closed = true
	if f.n != nil && f.w && f.n.CloseErr {
		E.fire("file close error")
		return f.perr("close", syscall.EIO)
	}
	return nil
}

func (f *File) Chmod(fs.FileMode) error { return nil }

func (f *File) Stat() (fs.FileInfo, error) {
	if err := f.check("stat"); err != nil {
		return nil, err
	}
	if f.std != 0 {
		return info{&Node{Name: f.name}, fs.ModeCharDevice | fs.ModeDevice}, nil
	}
	return info{f.n, 0}, nil
}

func (f *File) ReadFrom(r io.Reader) (int64, error) {
	return io.Copy(struct{ io.Writer }{f}, r)
}
func (f *File) WriteTo(w io.Writer) (int64, error) {
	return io.Copy(w, struct{ io.Reader }{f})
}

type info struct {
	n    *Node
	mode fs.FileMode
}

func (i info) Name() string       { return filepath.Base(i.n.Name) }
func (i info) Size() int64        { return int64(len(i.n.Data)) }
func (i info) ModTime() time.Time { return i.n.mtime }
func (i info) IsDir() bool        { return i.n.Dir }
func (i info) Sys() any           { return nil }
func (i info) Mode() fs.FileMode {
	if i.n.Dir {
		return fs.ModeDir | 0o755
	}
	return i.mode | 0o644
}

func abs(name string) string {
	if filepath.IsAbs(name) {
		return filepath.Clean(name)
	}
	return filepath.Clean("/work/" + name)
}

// Find returns the node of a name, or nil.
func (e *Env) Find(name string) *Node {
	for _, n := range e.Files {
		if abs(n.Name) == abs(name) {
			return n
		}
	}
	return nil
}

func Open(name string) (*File, error) { return OpenFile(name, os.O_RDONLY, 0) }
func Create(name string) (*File, error) {
	return OpenFile(name, os.O_RDWR|os.O_CREATE|os.O_TRUNC, 0o666)
}

func OpenFile(name string, flag int, perm fs.FileMode) (*File, error) {
	simrt.Point()
	fail := func(err error) (*File, error) {
		return nil, &fs.PathError{Op: "open", Path: name, Err: err}
	}
	e := E
	n := e.Find(name)
	write := flag&(os.O_WRONLY|os.O_RDWR) != 0
	if n == nil {
		if flag&os.O_CREATE == 0 {
			return fail(syscall.ENOENT)
		}
		if e.ReadOnly {
			e.fire("create error EROFS")
			return fail(syscall.EROFS)
		}
		n = &Node{Name: name, ReadErr: -1, WriteErr: -1}
		e.Files = append(e.Files, n)
	} else if flag&os.O_EXCL != 0 && flag&os.O_CREATE != 0 {
		return fail(syscall.EEXIST)
	}
	n.opens++
	if n.OpenErr != "" && (n.OpenFail == 0 || n.OpenFail == n.opens) {
		e.fire("open error " + n.OpenErr)
		return fail(errno(n.OpenErr))
	}
	if n.Dir && write {
		return fail(syscall.EISDIR)
	}
	if flag&os.O_TRUNC != 0 && write {
		n.Data = nil
	}
	f := &File{name: name, n: n, w: write, r: flag&os.O_WRONLY == 0, app: flag&os.O_APPEND != 0}
	f.bad = n.ReadErr >= 0 && (n.ReadFail == 0 || n.ReadFail == n.opens)
	return f, nil
}

func ReadFile(name string) ([]byte, error) {
	f, err := Open(name)
	if err != nil {
		return nil, err
	}
	defer f.Close()
	var out []byte
	buf := make([]byte, 512)
	for {
		n, err := f.Read(buf)
		out = append(out, buf[:n]...)
		if err == io.EOF {
			return out, nil
		}
		if err != nil {
			return out, err
		}
	}
}

func WriteFile(name string, data []byte, perm fs.FileMode) error {
	f, err := OpenFile(name, os.O_WRONLY|os.O_CREATE|os.O_TRUNC, perm)
	if err != nil {
		return err
	}
	_, err = f.Write(data)
	if err1 := f.Close(); err1 != nil && err == nil {
		err = err1
	}
	return err
}

func Stat(name string) (fs.FileInfo, error) {
	n := E.Find(name)
	if n == nil {
		return nil, &fs.PathError{Op: "stat", Path: name, Err: syscall.ENOENT}
	}
	return info{n, 0}, nil
}
func Lstat(name string) (fs.FileInfo, error) { return Stat(name) }

func Remove(name string) error {
	for i, n := range E.Files {
		if abs(n.Name) == abs(name) {
			E.Files = append(E.Files[:i], E.Files[i+1:]...)
			return nil
		}
	}
	return &fs.PathError{Op: "remove", Path: name, Err: syscall.ENOENT}
}

func RemoveAll(name string) error { Remove(name); return nil }

func Rename(a, b string) error {
	n := E.Find(a)
	if n == nil {
		return &os.LinkError{Op: "rename", Old: a, New: b, Err: syscall.ENOENT}
	}
	if E.ReadOnly {
		return &os.LinkError{Op: "rename", Old: a, New: b, Err: syscall.EROFS}
	}
	if t := E.Find(b); t != nil {
		if t.OpenErr != "" {
			E.fire("rename error " + t.OpenErr)
			return &os.LinkError{Op: "rename", Old: a, New: b, Err: errno(t.OpenErr)}
		}
		Remove(b)
	}
	n.Name = b
	return nil
}

func CreateTemp(dir, pattern string) (*File, error) {
	for i := 0; ; i++ {
		p := strings.Replace(pattern, "*", fmt.Sprint(1000+i), 1)
		if !strings.Contains(pattern, "*") {
			p = pattern + fmt.Sprint(1000+i)
		}
		if dir == "" {
			dir = TempDir()
		}
		name := filepath.Join(dir, p)
		if E.Find(name) == nil {
			f, err := OpenFile(name, os.O_RDWR|os.O_CREATE|os.O_EXCL, 0o600)
			if err == nil {
				// Faults of the target apply to the file that replaces it.
				for _, n := range E.Files {
					if n != f.n && n.WriteErr >= 0 && filepath.Dir(abs(n.Name)) == filepath.Dir(abs(name)) {
						f.n.WriteErr, f.n.WriteErrno, f.n.WriteOnce, f.n.CloseErr, f.n.SyncErr = n.WriteErr, n.WriteErrno, n.WriteOnce, n.CloseErr, n.SyncErr
					}
				}
			}
			return f, err
		}
	}
}

func Truncate(name string, size int64) error {
	n := E.Find(name)
	if n == nil {
		return &fs.PathError{Op: "truncate", Path: name, Err: syscall.ENOENT}
	}
	return truncate(n, size)
}
func MkdirAll(string, fs.FileMode) error { return nil }
func Mkdir(string, fs.FileMode) error    { return nil }
func MkdirTemp(dir, pattern string) (string, error) {
	return filepath.Join(TempDir(), strings.Replace(pattern, "*", "1", 1)), nil
}
func Chmod(string, fs.FileMode) error { return nil }
func TempDir() string                 { return "/tmp" }

// fmt on the standard streams

func Print(a ...any) (int, error)            { return fmt.Fprint(Stdout, a...) }
func Printf(f string, a ...any) (int, error) { return fmt.Fprintf(Stdout, f, a...) }
func Println(a ...any) (int, error)          { return fmt.Fprintln(Stdout, a...) }
func Scan(a ...any) (int, error)             { return fmt.Fscan(Stdin, a...) }
func Scanf(f string, a ...any) (int, error)  { return fmt.Fscanf(Stdin, f, a...) }
func Scanln(a ...any) (int, error)           { return fmt.Fscanln(Stdin, a...) }
