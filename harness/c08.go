package harness

import (
	"errors"
	"io"
	"os"
	"strings"

	"github.com/go-ini/ini"

	"verif/sym"
)

var errRead = errors.New("read fault")

// tooLate is a timeout.
type tooLate struct{}

func (tooLate) Error() string { return "too late" }
func (tooLate) Timeout() bool { return true }

// readErrors are what a failing reader may report.
var readErrors = []error{errRead, io.ErrUnexpectedEOF, io.ErrClosedPipe, os.ErrNotExist, os.ErrClosed, os.ErrExist, os.ErrPermission, tooLate{}, &os.PathError{Op: "read", Path: "x", Err: errRead}}

// pieces delivers data in the given sizes; when they are used up it delivers the rest at once.
type pieces struct {
	data   []byte
	sizes  []int
	fault  int // fail after this many bytes; negative: never
	err    error
	eof    bool
	given  int
	closed int
	read   bool
	once   bool // fail once, and then be at the end
}

func (p *pieces) Read(b []byte) (int, error) {
	p.read = true
	sym.Assert(p.closed == 0, "reading after closing")
	end := len(p.data)
	if p.fault >= 0 {
		end = p.fault
	}
	n := end - p.given
	if len(p.sizes) > 0 {
		if p.sizes[0] < n {
			n = p.sizes[0]
		}
		p.sizes = p.sizes[1:]
	}
	if n > len(b) {
		n = len(b)
	}
	copy(b, p.data[p.given:p.given+n])
	p.given += n
	if p.given == end && (n == 0 || p.eof) {
		if p.fault >= 0 {
			err := p.err
			if err == nil {
				err = errRead
			}
			if p.once {
				p.data, p.fault = p.data[:end], -1
			}
			return n, err
		}
		return n, io.EOF
	}
	return n, nil
}

type closer struct{ *pieces }

func (c closer) Close() error {
	c.closed++
	return nil
}

var docs = [][2]string{
	{"a=1\n[s]\nb = ", "\n"},
	{"\xef\xbb\xbfa=", ""},
	{"a=`x\n", "`\nb=2\n"},
	{"a=x\\\n", "\n[t]\n"},
	{"#c\na=1", "\n"},
}

// C08_kinds compares the kinds of source with each other.
//
//sym:both len=0 time=5
//sym:both len=1 time=5
//sym:both len=2 time=30
//sym:both len=3 time=30
//sym:thorough len=4 time=200
//sym:reach loaded refused
func C08_kinds() {
	t := docs[sym.Choose(len(docs))]
	text := t[0] + sym.Str(sym.Param("len", 2)) + t[1]
	o := modes(sym.Choose(10))
	f, err := ini.LoadSources(o, []byte(text))
	p := &pieces{data: []byte(text), fault: -1}
	var src any
	switch sym.Choose(3) {
	case 0:
		name := sym.Dir() + "/x.ini"
		sym.Assert(os.WriteFile(name, []byte(text), 0600) == nil, "scratch file")
		src = name
	case 1:
		src = p
	case 2:
		src = closer{p}
	}
	g, err2 := ini.LoadSources(o, src)
	sym.Assert((err == nil) == (err2 == nil), "the kinds of source differ in the error")
	if _, ok := src.(closer); ok {
		sym.Assert(p.closed == 1, "the source is not closed exactly once")
	}
	sym.Assert(sym.OpenFiles() == 0, "a source file is left open")
	if err != nil {
		sym.Reach("refused")
		sym.Assert(f == nil && g == nil, "a file together with an error")
		return
	}
	a, b := dump(f), dump(g)
	sameData(a, b, "kind of source")
	sameComments(a, b, "kind of source")
	sym.Reach("loaded")
}

// C08_cuts reads a document in pieces of every size.
//
//sym:both len=0 cuts=3 time=15
//sym:both len=1 cuts=3 time=60
//sym:thorough len=2 cuts=3 time=200
//sym:thorough len=1 cuts=5 time=200
//sym:reach loaded
func C08_cuts() {
	t := docs[sym.Choose(len(docs))]
	text := t[0] + sym.Str(sym.Param("len", 1)) + t[1]
	o := modes([]int{0, 1, 2}[sym.Choose(3)])
	f, err := ini.LoadSources(o, []byte(text))
	p := &pieces{data: []byte(text), fault: -1, eof: sym.Choose(2) == 1}
	for i := 0; i < sym.Param("cuts", 3); i++ {
		p.sizes = append(p.sizes, sym.Choose(8))
	}
	g, err2 := ini.LoadSources(o, closer{p})
	sym.Assert(p.closed == 1, "the source is not closed exactly once")
	sym.Assert((err == nil) == (err2 == nil), "pieces differ in the error")
	if err != nil {
		sym.Assert(g == nil, "a file together with an error")
		return
	}
	a, b := dump(f), dump(g)
	sameData(a, b, "read in pieces")
	sameComments(a, b, "read in pieces")
	sym.Reach("loaded")
}

// C08_fault lets reading fail after any number of bytes.
//
//sym:both len=0 cuts=1 time=15
//sym:both len=1 cuts=1 time=60
//sym:thorough len=2 cuts=2 time=200
//sym:reach failed
func C08_fault() {
	t := docs[sym.Choose(len(docs))]
	text := t[0] + sym.Str(sym.Param("len", 1)) + t[1]
	m := sym.Choose(10)
	o := modes(m)
	errs := readErrors[:2]
	if m == 0 {
		o.Loose = sym.Choose(2) == 1
		errs = readErrors
	}
	p := &pieces{data: []byte(text), fault: sym.Choose(len(text) + 1), eof: sym.Choose(2) == 1}
	p.err = errs[sym.Choose(len(errs))]
	p.once = !o.AllowPythonMultilineValues && sym.Choose(2) == 1
	sym.Assume(!(o.Loose && os.IsNotExist(p.err))) // the source says that it does not exist
	for i := 0; i < sym.Param("cuts", 1); i++ {
		p.sizes = append(p.sizes, 1+sym.Choose(8))
	}
	f, err := ini.LoadSources(o, closer{p})
	sym.Assert(err != nil, "a read error is lost")
	sym.Assert(f == nil, "a file together with a read error")
	sym.Assert(p.closed == 1, "the source is not closed exactly once")
	sym.Reach("failed")
}

// C08_several makes one of several sources fail; the ones before it are closed and the ones after it are not read.
//
//sym:both time=60
//sym:reach failed loaded
func C08_several() {
	bad := sym.Choose(4)
	how := sym.Choose(2)
	var ps []*pieces
	var srcs []any
	for i := 0; i < 3; i++ {
		p := &pieces{data: []byte("k" + sym.StrIn(1, "=:") + sym.Str(1) + "\n"), fault: -1}
		if i == bad {
			if how == 0 {
				p.fault = sym.Choose(4)
			} else {
				p.data = append([]byte("[\n"), p.data...)
			}
		}
		ps = append(ps, p)
		srcs = append(srcs, closer{p})
	}
	f, err := ini.Load(srcs[0], srcs[1:]...)
	for i, p := range ps {
		if p.read {
			sym.Assert(p.closed == 1, "a source is not closed exactly once")
		} else {
			sym.Assert(i > bad || err != nil, "a source is not read")
		}
	}
	if bad < 3 {
		sym.Assert(err != nil && f == nil, "a read error is lost")
		sym.Reach("failed")
	} else if err == nil {
		sym.Reach("loaded")
	}
}

// C08_types refuses sources of other types.
//
//sym:both time=10
//sym:reach refused
func C08_types() {
	n := 5
	var src any
	switch sym.Choose(4) {
	case 0:
		src = n
	case 1:
		src = nil
	case 2:
		src = []int{n}
	case 3:
		src = &n
	}
	f, err := ini.Load(src)
	sym.Assert(err != nil && f == nil, "an unknown kind of source is accepted")
	f, err = ini.Load([]byte("a=1"), src)
	sym.Assert(err != nil && f == nil, "an unknown kind of source is accepted")
	sym.Assert(ini.Empty().Append(src) != nil, "an unknown kind of source is accepted")
	sym.Reach("refused")
}

// C08_big has documents larger than the buffer of the reader, with any bytes where one buffer ends, read in pieces
// of any size and with buffers of other sizes.
//
//sym:both len=0 time=5
//sym:both len=1 time=5
//sym:both len=2 time=60
//sym:thorough len=3 time=200
//sym:reach loaded
func C08_big() {
	fill := strings.Repeat("0123456789abcdef", 255) + "0123456789"[sym.Choose(6):]
	t := [][2]string{{"k=", "\nj=1\n"}, {"#", "\nj=1\n"}, {"k=`\n", "`\nj=1\n[s]\n"}, {"", "=1\nj=2"}, {"[", "]\nk=v\n"}, {"k=\\\n", "\n[s]\nj=2"}}[sym.Choose(6)]
	text := t[0] + fill + sym.Str(sym.Param("len", 2)) + t[1]
	o := ini.LoadOptions{}
	want := refLoad(o, text)
	o.ReaderBufferSize = []int{0, -1, 1, 4099, 70000}[sym.Choose(5)]
	p := &pieces{data: []byte(text), fault: -1, eof: sym.Choose(2) == 1}
	p.sizes = append(p.sizes, []int{1, 4095, 4096, 5000}[sym.Choose(4)])
	f, err := ini.LoadSources(o, closer{p})
	sym.Assert((err == nil) == (want != nil), "error")
	sym.Assert(p.closed == 1, "the source is not closed exactly once")
	if want == nil {
		sym.Stop()
	}
	refSame(f, want, true)
	sym.Reach("loaded")
}

// C08_buffer sets the size of the reader's buffer; only what does not fit in 4096 bytes depends on it.
//
//sym:both len=0 time=15
//sym:both len=1 time=15
//sym:both len=2 time=60
//sym:thorough len=3 time=200
//sym:reach loaded
func C08_buffer() {
	fill := "0123456789abcdef0123456789abcdef"
	o := ini.LoadOptions{AllowPythonMultilineValues: true, AllowNestedValues: sym.Choose(2) == 1, UnparseableSections: []string{"raw"}}
	text := []string{"k = a\n  " + fill + "\n  c", "k = `" + fill + "\n", "k = " + fill + "\\\n" + fill, "[raw]\n" + fill + "\n" + fill, "k =\n  " + fill + "\n\t"}[sym.Choose(5)] + sym.Str(sym.Param("len", 2)) + "\n  d\nj=1`\n[s]\nk=v\n"
	f, err := ini.LoadSources(o, []byte(text))
	o.ReaderBufferSize = []int{-1, 1, 16, 20, 100, 4095, 4096, 4097, 65536}[sym.Choose(9)]
	p := &pieces{data: []byte(text), fault: -1}
	p.sizes = append(p.sizes, []int{7, 4096}[sym.Choose(2)])
	g, errg := ini.LoadSources(o, closer{p})
	sym.Assert((err == nil) == (errg == nil), "error")
	if err != nil {
		sym.Stop()
	}
	sameFile(f, g)
	sym.Reach("loaded")
}
