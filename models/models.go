// Package models holds interpreted stand-ins for library functions whose real bodies reach into the runtime or
// the operating system. They are used only by the symbolic executor; native replays use the real library.
package models

import (
	"errors"
	"io"
	"io/fs"
	"os"
	"regexp"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"
)

// ---- fmt ----

func str(verb byte, plusSharp bool, a any) string {
	switch v := a.(type) {
	case nil:
		return "<nil>"
	case string:
		if verb == 'q' {
			return strconv.Quote(v)
		}
		return v
	case []byte:
		if verb == 'q' {
			return strconv.Quote(string(v))
		}
		if verb == 's' {
			return string(v)
		}
		return "[bytes]"
	case bool:
		if v {
			return "true"
		}
		return "false"
	case int:
		return strconv.FormatInt(int64(v), 10)
	case int8:
		return strconv.FormatInt(int64(v), 10)
	case int16:
		return strconv.FormatInt(int64(v), 10)
	case int32:
		if verb == 'c' {
			return string(v)
		}
		return strconv.FormatInt(int64(v), 10)
	case int64:
		return strconv.FormatInt(v, 10)
	case uint:
		return strconv.FormatUint(uint64(v), 10)
	case uint8:
		return strconv.FormatUint(uint64(v), 10)
	case uint16:
		return strconv.FormatUint(uint64(v), 10)
	case uint32:
		return strconv.FormatUint(uint64(v), 10)
	case uint64:
		return strconv.FormatUint(v, 10)
	case uintptr:
		return strconv.FormatUint(uint64(v), 10)
	case float32:
		return strconv.FormatFloat(float64(v), 'g', -1, 32)
	case float64:
		return strconv.FormatFloat(v, 'g', -1, 64)
	case error:
		s := v.Error()
		if verb == 'q' {
			return strconv.Quote(s)
		}
		return s
	case interface{ String() string }:
		s := v.String()
		if verb == 'q' {
			return strconv.Quote(s)
		}
		return s
	}
	return "(value)"
}

// Sprintf understands the verbs without width or flags and renders %q of unknown text as the raw text in quotes.
func Sprintf(format string, args ...any) string {
	var out []byte
	k := 0
	for i := 0; i < len(format); i++ {
		c := format[i]
		if c != '%' {
			out = append(out, c)
			continue
		}
		i++
		sharp := false
		for i < len(format) && (format[i] == '+' || format[i] == '#' || format[i] == '-' || format[i] == ' ' || format[i] == '.' || '0' <= format[i] && format[i] <= '9') {
			sharp = true
			i++
		}
		if i >= len(format) {
			out = append(out, "%!(NOVERB)"...)
			break
		}
		if format[i] == '%' {
			out = append(out, '%')
			continue
		}
		if k >= len(args) {
			out = append(out, "%!"...)
			out = append(out, format[i])
			out = append(out, "(MISSING)"...)
			continue
		}
		if format[i] == 'w' {
			out = append(out, str('v', sharp, args[k])...)
		} else {
			out = append(out, str(format[i], sharp, args[k])...)
		}
		k++
	}
	return string(out)
}

func isStr(a any) bool {
	_, ok := a.(string)
	return ok
}

func Sprint(args ...any) string {
	s := ""
	for i, a := range args {
		if i > 0 && !isStr(a) && !isStr(args[i-1]) {
			s += " "
		}
		s += str('v', false, a)
	}
	return s
}

func Sprintln(args ...any) string {
	s := ""
	for i, a := range args {
		if i > 0 {
			s += " "
		}
		s += str('v', false, a)
	}
	return s + "\n"
}

type wrapError struct {
	msg string
	err error
}

func (e *wrapError) Error() string { return e.msg }
func (e *wrapError) Unwrap() error { return e.err }

func Errorf(format string, args ...any) error {
	s := Sprintf(format, args...)
	k := 0
	for i := 0; i < len(format); i++ {
		if format[i] != '%' || i+1 >= len(format) {
			continue
		}
		i++
		if format[i] == '%' {
			continue
		}
		if format[i] == 'w' && k < len(args) {
			if e, ok := args[k].(error); ok {
				return &wrapError{s, e}
			}
		}
		k++
	}
	return errors.New(s)
}

func Fprintf(w io.Writer, format string, args ...any) (int, error) {
	return w.Write([]byte(Sprintf(format, args...)))
}
func Fprint(w io.Writer, args ...any) (int, error)   { return w.Write([]byte(Sprint(args...))) }
func Fprintln(w io.Writer, args ...any) (int, error) { return w.Write([]byte(Sprintln(args...))) }
func Printf(format string, args ...any) (int, error) { return 0, nil }
func Print(args ...any) (int, error)                 { return 0, nil }
func Println(args ...any) (int, error)               { return 0, nil }

func Appendf(b []byte, format string, args ...any) []byte {
	return append(b, Sprintf(format, args...)...)
}

// ---- errors ----

func Is(err, target error) bool {
	for err != nil {
		if err == target {
			return true
		}
		if x, ok := err.(interface{ Is(error) bool }); ok && x.Is(target) {
			return true
		}
		switch x := err.(type) {
		case interface{ Unwrap() error }:
			err = x.Unwrap()
		case interface{ Unwrap() []error }:
			for _, e := range x.Unwrap() {
				if Is(e, target) {
					return true
				}
			}
			return false
		default:
			return false
		}
	}
	return target == nil
}

// ---- sync ----

// order makes what other goroutines did before they came by the same cell happen before what follows.
func order(p *int) {}

type pool struct {
	items []any
	cell  int
}

var pools = map[*sync.Pool]*pool{}

// PoolPut keeps the item; PoolGet gives the one that was put last.
func PoolPut(p *sync.Pool, x any) {
	if x == nil {
		return
	}
	l := pools[p]
	if l == nil {
		l = &pool{}
		pools[p] = l
	}
	order(&l.cell)
	l.items = append(l.items, x)
}

func PoolGet(p *sync.Pool) any {
	if l := pools[p]; l != nil && len(l.items) > 0 {
		order(&l.cell)
		x := l.items[len(l.items)-1]
		l.items = l.items[:len(l.items)-1]
		return x
	}
	if p.New != nil {
		return p.New()
	}
	return nil
}

type once struct {
	running bool
	cell    int
}

func OnceDo(o *sync.Once, f func()) {
	c := onces[o]
	if c == nil {
		c = &once{}
		onces[o] = c
		c.running = true
		f()
		c.running = false
	}
	if c.running {
		Unsupported("Once.Do during another call of it")
	}
	order(&c.cell)
}

var onces = map[*sync.Once]*once{}

type smap struct {
	keys []any
	vals []any
	cell int
}

var smaps = map[*sync.Map]*smap{}

func smapOf(p *sync.Map) *smap {
	l := smaps[p]
	if l == nil {
		l = &smap{}
		smaps[p] = l
	}
	order(&l.cell)
	return l
}

func (l *smap) at(k any) int {
	for i, x := range l.keys {
		if x == k {
			return i
		}
	}
	return -1
}

func (l *smap) drop(i int) {
	l.keys = append(l.keys[:i:i], l.keys[i+1:]...)
	l.vals = append(l.vals[:i:i], l.vals[i+1:]...)
}

func MapLoad(p *sync.Map, k any) (any, bool) {
	l := smapOf(p)
	if i := l.at(k); i >= 0 {
		return l.vals[i], true
	}
	return nil, false
}

func MapSwap(p *sync.Map, k, v any) (any, bool) {
	l := smapOf(p)
	if i := l.at(k); i >= 0 {
		old := l.vals[i]
		l.vals[i] = v
		return old, true
	}
	l.keys, l.vals = append(l.keys, k), append(l.vals, v)
	return nil, false
}

func MapStore(p *sync.Map, k, v any) { MapSwap(p, k, v) }

func MapLoadOrStore(p *sync.Map, k, v any) (any, bool) {
	l := smapOf(p)
	if i := l.at(k); i >= 0 {
		return l.vals[i], true
	}
	l.keys, l.vals = append(l.keys, k), append(l.vals, v)
	return v, false
}

func MapLoadAndDelete(p *sync.Map, k any) (any, bool) {
	l := smapOf(p)
	if i := l.at(k); i >= 0 {
		v := l.vals[i]
		l.drop(i)
		return v, true
	}
	return nil, false
}

func MapDelete(p *sync.Map, k any) { MapLoadAndDelete(p, k) }

func MapCompareAndSwap(p *sync.Map, k, o, n any) bool {
	l := smapOf(p)
	if i := l.at(k); i >= 0 && l.vals[i] == o {
		l.vals[i] = n
		return true
	}
	return false
}

func MapCompareAndDelete(p *sync.Map, k, o any) bool {
	l := smapOf(p)
	if i := l.at(k); i >= 0 && l.vals[i] == o {
		l.drop(i)
		return true
	}
	return false
}

func MapClear(p *sync.Map) {
	l := smapOf(p)
	l.keys, l.vals = nil, nil
}

func MapRange(p *sync.Map, f func(k, v any) bool) {
	l := smapOf(p)
	ks, vs := append([]any{}, l.keys...), append([]any{}, l.vals...)
	for i := range ks {
		if !f(ks[i], vs[i]) {
			break
		}
	}
}

type cell struct {
	v    any
	cell int
}

var cells = map[*atomic.Value]*cell{}

func cellOf(p *atomic.Value) *cell {
	l := cells[p]
	if l == nil {
		l = &cell{}
		cells[p] = l
	}
	order(&l.cell)
	return l
}

func ValueLoad(p *atomic.Value) any { return cellOf(p).v }

func ValueStore(p *atomic.Value, v any) { ValueSwap(p, v) }

func ValueSwap(p *atomic.Value, v any) any {
	if v == nil {
		panic("sync/atomic: store of nil value into Value")
	}
	l := cellOf(p)
	old := l.v
	l.v = v
	return old
}

func ValueCompareAndSwap(p *atomic.Value, o, n any) bool {
	l := cellOf(p)
	if l.v != o {
		return false
	}
	l.v = n
	return true
}

// ---- os: a flat in-memory file system ----

type node struct{ data []byte }

type handle struct {
	n      *node
	pos    int
	closed bool
	read   bool
	write  bool
	app    bool
	name   string
}

var files = map[string]*node{}
var handles = map[*os.File]*handle{}

// OpenCount counts open handles.
var OpenCount int

func OpenFiles() int { return OpenCount }

func notExist(op, name string) error {
	return &fs.PathError{Op: op, Path: name, Err: syscall.ENOENT}
}

var dirs = map[string]bool{"/vfs": true, ".": true, "/": true}

// clean drops what makes no difference in a path.
func clean(name string) string {
	for len(name) > 1 && name[len(name)-1] == '/' {
		name = name[:len(name)-1]
	}
	for strings.HasPrefix(name, "./") && len(name) > 2 {
		name = name[2:]
	}
	for {
		i := strings.Index(name, "//")
		j := strings.Index(name, "/./")
		if i >= 0 {
			name = name[:i] + name[i+1:]
		} else if j >= 0 {
			name = name[:j] + name[j+2:]
		} else {
			return name
		}
	}
}

func parent(name string) string {
	i := strings.LastIndexByte(name, '/')
	if i < 0 {
		return "."
	}
	if i == 0 {
		return "/"
	}
	return name[:i]
}

func isDir(name string) bool { return dirs[name] }

func OpenFile(name string, flag int, perm os.FileMode) (*os.File, error) {
	if name == "" {
		return nil, notExist("open", name)
	}
	name = clean(name)
	n := files[name]
	acc := flag & (os.O_RDONLY | os.O_WRONLY | os.O_RDWR)
	if n == nil {
		if isDir(name) {
			if acc != os.O_RDONLY || flag&os.O_CREATE != 0 {
				return nil, &fs.PathError{Op: "open", Path: name, Err: syscall.EISDIR}
			}
			n = &node{}
		} else if !isDir(parent(name)) {
			return nil, notExist("open", name)
		} else if flag&os.O_CREATE == 0 {
			return nil, notExist("open", name)
		} else {
			n = &node{}
			files[name] = n
		}
	} else if flag&os.O_CREATE != 0 && flag&os.O_EXCL != 0 {
		return nil, &fs.PathError{Op: "open", Path: name, Err: syscall.EEXIST}
	}
	if flag&os.O_TRUNC != 0 {
		n.data = nil
	}
	f := new(os.File)
	handles[f] = &handle{n: n, name: name, read: acc != os.O_WRONLY, write: acc != os.O_RDONLY, app: flag&os.O_APPEND != 0}
	OpenCount++
	return f, nil
}

func Open(name string) (*os.File, error) { return OpenFile(name, os.O_RDONLY, 0) }
func Create(name string) (*os.File, error) {
	return OpenFile(name, os.O_RDWR|os.O_CREATE|os.O_TRUNC, 0666)
}

func FileRead(f *os.File, b []byte) (int, error) {
	if f == nil {
		return 0, os.ErrInvalid
	}
	h := handles[f]
	if h == nil || h.closed {
		return 0, &fs.PathError{Op: "read", Path: "", Err: os.ErrClosed}
	}
	if isDir(h.name) {
		return 0, &fs.PathError{Op: "read", Path: h.name, Err: syscall.EISDIR}
	}
	if !h.read {
		return 0, &fs.PathError{Op: "read", Path: h.name, Err: syscall.EBADF}
	}
	if len(b) == 0 {
		return 0, nil
	}
	if h.pos >= len(h.n.data) {
		return 0, io.EOF
	}
	n := copy(b, h.n.data[h.pos:])
	h.pos += n
	return n, nil
}

func FileWrite(f *os.File, b []byte) (int, error) {
	if f == nil {
		return 0, os.ErrInvalid
	}
	h := handles[f]
	if h == nil || h.closed {
		return 0, &fs.PathError{Op: "write", Path: "", Err: os.ErrClosed}
	}
	if !h.write {
		return 0, &fs.PathError{Op: "write", Path: h.name, Err: syscall.EBADF}
	}
	if h.app {
		h.pos = len(h.n.data)
	}
	nd := make([]byte, 0, len(h.n.data)+len(b))
	nd = append(nd, h.n.data[:h.pos]...)
	nd = append(nd, b...)
	if h.pos+len(b) < len(h.n.data) {
		nd = append(nd, h.n.data[h.pos+len(b):]...)
	}
	h.n.data = nd
	h.pos += len(b)
	return len(b), nil
}

func FileWriteString(f *os.File, s string) (int, error) { return FileWrite(f, []byte(s)) }

func FileClose(f *os.File) error {
	if f == nil {
		return os.ErrInvalid
	}
	h := handles[f]
	if h == nil || h.closed {
		return &fs.PathError{Op: "close", Path: "", Err: os.ErrClosed}
	}
	h.closed = true
	OpenCount--
	return nil
}

func FileSync(f *os.File) error  { return nil }
func FileName(f *os.File) string { return handles[f].name }

func FileTruncate(f *os.File, size int64) error {
	h := handles[f]
	for int64(len(h.n.data)) < size {
		h.n.data = append(h.n.data, 0)
	}
	h.n.data = h.n.data[:size:size]
	return nil
}

func ReadFile(name string) ([]byte, error) {
	f, err := Open(name)
	if err != nil {
		return nil, err
	}
	defer FileClose(f)
	h := handles[f]
	if isDir(clean(name)) {
		return nil, &fs.PathError{Op: "read", Path: name, Err: syscall.EISDIR}
	}
	return append([]byte{}, h.n.data...), nil
}

func WriteFile(name string, data []byte, perm os.FileMode) error {
	f, err := OpenFile(name, os.O_WRONLY|os.O_CREATE|os.O_TRUNC, perm)
	if err != nil {
		return err
	}
	_, err = FileWrite(f, data)
	if err1 := FileClose(f); err1 != nil && err == nil {
		err = err1
	}
	return err
}

type info struct {
	name string
	size int64
	dir  bool
}

func (i info) Name() string { return i.name }
func (i info) Size() int64  { return i.size }
func (i info) Mode() fs.FileMode {
	if i.dir {
		return fs.ModeDir | 0755
	}
	return 0644
}
func (i info) ModTime() time.Time { return time.Time{} }
func (i info) IsDir() bool        { return i.dir }
func (i info) Sys() any           { return nil }

func Stat(name string) (os.FileInfo, error) {
	name = clean(name)
	if isDir(name) {
		return info{name, 0, true}, nil
	}
	n := files[name]
	if n == nil {
		return nil, notExist("stat", name)
	}
	return info{name, int64(len(n.data)), false}, nil
}

func FileStat(f *os.File) (os.FileInfo, error) { return Stat(handles[f].name) }

func Remove(name string) error {
	name = clean(name)
	if files[name] == nil {
		return notExist("remove", name)
	}
	delete(files, name)
	return nil
}

func Rename(a, b string) error {
	a, b = clean(a), clean(b)
	n := files[a]
	if n == nil || !isDir(parent(b)) {
		return &os.LinkError{Op: "rename", Old: a, New: b, Err: syscall.ENOENT}
	}
	if isDir(b) {
		return &os.LinkError{Op: "rename", Old: a, New: b, Err: syscall.EEXIST}
	}
	files[b] = n
	delete(files, a)
	return nil
}

func MkdirAll(name string, perm os.FileMode) error {
	for name = clean(name); !dirs[name]; name = parent(name) {
		if files[name] != nil {
			return &fs.PathError{Op: "mkdir", Path: name, Err: syscall.ENOTDIR}
		}
		dirs[name] = true
	}
	return nil
}

func Mkdir(name string, perm os.FileMode) error {
	name = clean(name)
	if files[name] != nil || dirs[name] {
		return &fs.PathError{Op: "mkdir", Path: name, Err: syscall.EEXIST}
	}
	if !dirs[parent(name)] {
		return notExist("mkdir", name)
	}
	dirs[name] = true
	return nil
}

var temps int

func CreateTemp(dir, pattern string) (*os.File, error) {
	if dir == "" {
		dir = "/tmp"
		dirs[dir] = true
	}
	pre, post := pattern, ""
	if i := strings.LastIndexByte(pattern, '*'); i >= 0 {
		pre, post = pattern[:i], pattern[i+1:]
	}
	temps++
	return OpenFile(clean(dir)+"/"+pre+string([]byte{byte('0' + temps/10), byte('0' + temps%10)})+post, os.O_RDWR|os.O_CREATE|os.O_EXCL, 0600)
}

func Chmod(name string, mode os.FileMode) error    { return nil }
func FileChmod(f *os.File, mode os.FileMode) error { return nil }

func ErrnoError(e syscall.Errno) string {
	if e == syscall.ENOENT {
		return "no such file or directory"
	}
	if e == syscall.EISDIR {
		return "is a directory"
	}
	return "errno"
}

func Getenv(string) string            { return "" }
func LookupEnv(string) (string, bool) { return "", false }

// ---- regexp ----

// Unsupported makes the path fall outside what is decided symbolically.
func Unsupported(msg string) { panic(msg) }

func ReplaceAllStringFunc(re *regexp.Regexp, src string, repl func(string) string) string {
	out := ""
	last := 0
	for _, l := range re.FindAllStringIndex(src, -1) {
		out += src[last:l[0]] + repl(src[l[0]:l[1]])
		last = l[1]
	}
	return out + src[last:]
}

func ReplaceAllLiteralString(re *regexp.Regexp, src, repl string) string {
	return ReplaceAllStringFunc(re, src, func(string) string { return repl })
}

func ReplaceAllString(re *regexp.Regexp, src, repl string) string {
	if strings.Contains(repl, "$") {
		Unsupported("regexp template")
	}
	return ReplaceAllLiteralString(re, src, repl)
}
