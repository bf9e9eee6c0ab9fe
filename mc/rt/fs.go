package rt

import (
	"fmt"
	"io"
	"io/fs"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"syscall"
)

// Fault is what happens to one step of an execution: the step's number and
// the kind of fault.
type Fault struct {
	At   int
	Kind string
}

var files struct {
	on    bool
	fault Fault
	hit   bool
	n     int
	log   []string
	chunk int // longest read, 0 for any
	trace *os.File
}

// SetFault starts counting the steps; the fault happens when its step comes.
func SetFault(f Fault, chunk int) {
	files.on, files.fault, files.hit, files.n, files.chunk = true, f, false, 0, chunk
	files.log = files.log[:0]
}

// FaultOff ends the counting and tells whether the fault happened and which
// steps there were.
func FaultOff() (hit bool, log []string) {
	files.on = false
	return files.hit, append([]string{}, files.log...)
}

func init() { // for the command: VRT_FAULT is step:kind, VRT_LOG a file
	if s := os.Getenv("VRT_FAULT"); s != "" {
		p := strings.SplitN(s, ":", 2)
		SetFault(Fault{atoi(p[0]), p[1]}, 0)
	}
	if s := os.Getenv("VRT_LOG"); s != "" {
		f, err := os.OpenFile(s, os.O_CREATE|os.O_WRONLY|os.O_APPEND, 0666)
		if err == nil {
			files.trace = f
		}
	}
}

// Kinds are the faults of a kind of step.
func Kinds(op string) []string {
	switch strings.Fields(op)[0] {
	case "stat":
		return []string{"EACCES", "ENOENT", "EIO"}
	case "open":
		return []string{"EACCES", "ENOENT", "EMFILE", "EIO"}
	case "create":
		return []string{"EACCES", "ENOSPC", "EMFILE"}
	case "mkdir":
		return []string{"EACCES", "ENOSPC", "EIO"}
	case "read":
		return []string{"EIO", "EIO/half"}
	case "write":
		return []string{"ENOSPC", "ENOSPC/half", "EIO"}
	case "closew":
		return []string{"EIO", "ENOSPC"}
	case "sync":
		return []string{"EIO"}
	case "readdir":
		return []string{"EACCES", "EIO"}
	case "remove", "rename", "link", "chmod", "truncate":
		return []string{"EACCES", "EIO"}
	}
	return nil
}

var errno = map[string]syscall.Errno{"EACCES": syscall.EACCES, "ENOENT": syscall.ENOENT, "EIO": syscall.EIO, "EMFILE": syscall.EMFILE, "ENOSPC": syscall.ENOSPC}

// op is a step; err is the fault, if it is the one.
func op(kind, path string) (err error, half bool) {
	Yield()
	if !files.on && files.trace == nil {
		return
	}
	n := files.n
	files.n++
	if files.trace != nil {
		fmt.Fprintln(files.trace, kind, path)
	}
	if !files.on {
		return
	}
	files.log = append(files.log, kind+" "+path)
	if n == files.fault.At && files.fault.Kind != "" {
		k := strings.SplitN(files.fault.Kind, "/", 2)
		files.hit = true
		return &os.PathError{Op: kind, Path: path, Err: errno[k[0]]}, len(k) > 1
	}
	return
}

// Os_File stands in for os.File.
type Os_File struct {
	*os.File
	writes bool
	closed bool
}

func wrap(f *os.File, err error, writes bool) (*Os_File, error) {
	if err != nil {
		return nil, err
	}
	return &Os_File{File: f, writes: writes}, nil
}

// The standard streams.
var (
	Os_Stdin  = &Os_File{File: os.Stdin}
	Os_Stdout = &Os_File{File: os.Stdout}
	Os_Stderr = &Os_File{File: os.Stderr}
)

func (f *Os_File) std() bool { return f == Os_Stdin || f == Os_Stdout || f == Os_Stderr }

func Os_NewFile(fd uintptr, name string) *Os_File {
	return &Os_File{File: os.NewFile(fd, name), writes: true}
}

func Os_Open(name string) (*Os_File, error) {
	if err, _ := op("open", name); err != nil {
		return nil, err
	}
	f, err := os.Open(name)
	return wrap(f, err, false)
}

func Os_Create(name string) (*Os_File, error) {
	if err, _ := op("create", name); err != nil {
		return nil, err
	}
	f, err := os.Create(name)
	return wrap(f, err, true)
}

func Os_OpenFile(name string, flag int, perm os.FileMode) (*Os_File, error) {
	kind, writes := "open", flag&(os.O_WRONLY|os.O_RDWR) != 0
	if writes {
		kind = "create"
	}
	if err, _ := op(kind, name); err != nil {
		return nil, err
	}
	f, err := os.OpenFile(name, flag, perm)
	return wrap(f, err, writes)
}

func Os_CreateTemp(dir, pattern string) (*Os_File, error) {
	if err, _ := op("create", filepath.Join(dir, pattern)); err != nil {
		return nil, err
	}
	f, err := os.CreateTemp(dir, pattern)
	return wrap(f, err, true)
}

func Ioutil_TempFile(dir, pattern string) (*Os_File, error) { return Os_CreateTemp(dir, pattern) }

func Os_MkdirTemp(dir, pattern string) (string, error) {
	if err, _ := op("mkdir", filepath.Join(dir, pattern)); err != nil {
		return "", err
	}
	return os.MkdirTemp(dir, pattern)
}

func Ioutil_TempDir(dir, pattern string) (string, error) { return Os_MkdirTemp(dir, pattern) }

func (f *Os_File) Read(b []byte) (n int, err error) {
	if f.std() {
		return f.File.Read(b)
	}
	err, half := op("read", f.Name())
	if err != nil && !half {
		return 0, err
	}
	if c := files.chunk; files.on && c > 0 && len(b) > c {
		b = b[:c]
	}
	n, e := f.File.Read(b)
	if half {
		return n / 2, err
	}
	return n, e
}

func (f *Os_File) ReadAt(b []byte, off int64) (n int, err error) {
	if err, _ = op("read", f.Name()); err != nil {
		return 0, err
	}
	return f.File.ReadAt(b, off)
}

func (f *Os_File) Write(b []byte) (n int, err error) {
	if f.std() {
		return f.File.Write(b)
	}
	err, half := op("write", f.Name())
	if half {
		n, _ = f.File.Write(b[:len(b)/2])
	}
	if err != nil {
		return n, err
	}
	return f.File.Write(b)
}

func (f *Os_File) WriteString(s string) (int, error) { return f.Write([]byte(s)) }

func (f *Os_File) WriteAt(b []byte, off int64) (n int, err error) {
	if err, _ = op("write", f.Name()); err != nil {
		return 0, err
	}
	return f.File.WriteAt(b, off)
}

type onlyWriter struct{ io.Writer }
type onlyReader struct{ io.Reader }

func (f *Os_File) ReadFrom(r io.Reader) (int64, error) { return io.Copy(onlyWriter{f}, r) }
func (f *Os_File) WriteTo(w io.Writer) (int64, error)  { return io.Copy(w, onlyReader{f}) }

func (f *Os_File) Close() error {
	if f.writes && !f.closed {
		f.closed = true
		if err, _ := op("closew", f.Name()); err != nil {
			f.File.Close()
			return err
		}
	}
	return f.File.Close()
}

func (f *Os_File) Sync() error {
	if err, _ := op("sync", f.Name()); err != nil {
		return err
	}
	return f.File.Sync()
}

func (f *Os_File) Truncate(n int64) error {
	if err, _ := op("truncate", f.Name()); err != nil {
		return err
	}
	return f.File.Truncate(n)
}

func (f *Os_File) Stat() (os.FileInfo, error) {
	if err, _ := op("stat", f.Name()); err != nil {
		return nil, err
	}
	return f.File.Stat()
}

func (f *Os_File) Readdir(n int) ([]os.FileInfo, error) {
	if err, _ := op("readdir", f.Name()); err != nil {
		return nil, err
	}
	l, err := f.File.Readdir(n)
	sort.Slice(l, func(i, j int) bool { return l[i].Name() < l[j].Name() })
	var r []os.FileInfo
	for _, i := range dirOrder(len(l)) {
		r = append(r, l[i])
	}
	return r, err
}

func (f *Os_File) ReadDir(n int) ([]os.DirEntry, error) {
	if err, _ := op("readdir", f.Name()); err != nil {
		return nil, err
	}
	l, err := f.File.ReadDir(n)
	sort.Slice(l, func(i, j int) bool { return l[i].Name() < l[j].Name() })
	var r []os.DirEntry
	for _, i := range dirOrder(len(l)) {
		r = append(r, l[i])
	}
	return r, err
}

func (f *Os_File) Readdirnames(n int) ([]string, error) {
	if err, _ := op("readdir", f.Name()); err != nil {
		return nil, err
	}
	l, err := f.File.Readdirnames(n)
	sort.Strings(l)
	var r []string
	for _, i := range dirOrder(len(l)) {
		r = append(r, l[i])
	}
	return r, err
}

// dirOrder is the order in which the system lists a directory.
func dirOrder(n int) []int {
	k := 0
	if env.orderOn {
		i := len(env.sizes)
		env.sizes = append(env.sizes, n)
		k = env.global
		if s, ok := env.single[i]; ok {
			k = s
		}
	}
	return permute(n, k)
}

func Os_Stat(name string) (os.FileInfo, error) {
	if err, _ := op("stat", name); err != nil {
		return nil, err
	}
	return os.Stat(name)
}

func Os_Lstat(name string) (os.FileInfo, error) {
	if err, _ := op("stat", name); err != nil {
		return nil, err
	}
	return os.Lstat(name)
}

func Os_Mkdir(name string, perm os.FileMode) error {
	if err, _ := op("mkdir", name); err != nil {
		return err
	}
	return os.Mkdir(name, perm)
}

func Os_MkdirAll(name string, perm os.FileMode) error {
	if err, _ := op("mkdir", name); err != nil {
		return err
	}
	return os.MkdirAll(name, perm)
}

func Os_Remove(name string) error {
	if err, _ := op("remove", name); err != nil {
		return err
	}
	return os.Remove(name)
}

func Os_RemoveAll(name string) error {
	if err, _ := op("remove", name); err != nil {
		return err
	}
	return os.RemoveAll(name)
}

func Os_Rename(a, b string) error {
	if err, _ := op("rename", b); err != nil {
		return err
	}
	return os.Rename(a, b)
}

func Os_Chmod(name string, m os.FileMode) error {
	if err, _ := op("chmod", name); err != nil {
		return err
	}
	return os.Chmod(name, m)
}

func Os_Truncate(name string, n int64) error {
	if err, _ := op("truncate", name); err != nil {
		return err
	}
	return os.Truncate(name, n)
}

func Os_Link(a, b string) error {
	if err, _ := op("link", b); err != nil {
		return err
	}
	return os.Link(a, b)
}

func Os_Symlink(a, b string) error {
	if err, _ := op("link", b); err != nil {
		return err
	}
	return os.Symlink(a, b)
}

func Os_ReadFile(name string) ([]byte, error) {
	f, err := Os_Open(name)
	if err != nil {
		return nil, err
	}
	defer f.Close()
	return io.ReadAll(onlyReader{f})
}

func Os_WriteFile(name string, data []byte, perm os.FileMode) error {
	f, err := Os_OpenFile(name, os.O_WRONLY|os.O_CREATE|os.O_TRUNC, perm)
	if err != nil {
		return err
	}
	_, err = f.Write(data)
	if e := f.Close(); e != nil && err == nil {
		err = e
	}
	return err
}

func Ioutil_ReadFile(name string) ([]byte, error) { return Os_ReadFile(name) }
func Ioutil_WriteFile(name string, data []byte, perm os.FileMode) error {
	return Os_WriteFile(name, data, perm)
}

func Os_ReadDir(name string) ([]os.DirEntry, error) {
	if err, _ := op("readdir", name); err != nil {
		return nil, err
	}
	return os.ReadDir(name)
}

func Ioutil_ReadDir(name string) ([]os.FileInfo, error) {
	es, err := Os_ReadDir(name)
	if err != nil {
		return nil, err
	}
	var l []os.FileInfo
	for _, e := range es {
		fi, err := e.Info()
		if err != nil {
			return nil, err
		}
		l = append(l, fi)
	}
	return l, nil
}

// Filepath_Walk stands in for filepath.Walk.
func Filepath_Walk(root string, fn filepath.WalkFunc) error {
	fi, err := Os_Lstat(root)
	if err != nil {
		err = fn(root, nil, err)
	} else {
		err = walk(root, fi, fn)
	}
	if err == filepath.SkipDir || err == filepath.SkipAll {
		return nil
	}
	return err
}

func walk(path string, fi os.FileInfo, fn filepath.WalkFunc) error {
	if !fi.IsDir() {
		return fn(path, fi, nil)
	}
	es, err := Os_ReadDir(path)
	if err1 := fn(path, fi, err); err != nil || err1 != nil {
		return err1
	}
	for _, e := range es {
		name := filepath.Join(path, e.Name())
		sub, err := Os_Lstat(name)
		if err != nil {
			if err := fn(name, sub, err); err != nil && err != filepath.SkipDir {
				return err
			}
			continue
		}
		if err = walk(name, sub, fn); err != nil && (!sub.IsDir() || err != filepath.SkipDir) {
			return err
		}
	}
	return nil
}

// Filepath_WalkDir stands in for filepath.WalkDir.
func Filepath_WalkDir(root string, fn fs.WalkDirFunc) error {
	fi, err := Os_Lstat(root)
	if err != nil {
		err = fn(root, nil, err)
	} else {
		err = walkDir(root, fs.FileInfoToDirEntry(fi), fn)
	}
	if err == filepath.SkipDir || err == filepath.SkipAll {
		return nil
	}
	return err
}

func walkDir(path string, d os.DirEntry, fn fs.WalkDirFunc) error {
	if err := fn(path, d, nil); err != nil || !d.IsDir() {
		if err == filepath.SkipDir && d.IsDir() {
			err = nil
		}
		return err
	}
	es, err := Os_ReadDir(path)
	if err != nil {
		if err = fn(path, d, err); err != nil {
			if err == filepath.SkipDir && d.IsDir() {
				err = nil
			}
			return err
		}
	}
	for _, e := range es {
		if err := walkDir(filepath.Join(path, e.Name()), e, fn); err != nil {
			if err == filepath.SkipDir {
				break
			}
			return err
		}
	}
	return nil
}

// Filepath_Glob stands in for filepath.Glob.
func Filepath_Glob(pattern string) ([]string, error) {
	if err, _ := op("readdir", pattern); err != nil {
		return nil, nil // as the standard library: errors are not told
	}
	return filepath.Glob(pattern)
}
