package harness

import (
	"bytes"
	"errors"
	"io"
	"os"

	"github.com/go-ini/ini"

	"verif/sym"
)

var errWrite = errors.New("write fault")

// sink takes at most room bytes in all; then it fails, or only takes fewer bytes than it was given.
type sink struct {
	got   []byte
	room  int
	quiet bool
}

func (s *sink) Write(b []byte) (int, error) {
	n := len(b)
	if n > s.room {
		n = s.room
	}
	s.got = append(s.got, b[:n]...)
	s.room -= n
	if n < len(b) && !s.quiet {
		return n, errWrite
	}
	return n, nil
}

// whole is everything that can be read from a file without changing it.
type whole struct {
	names  []string
	bodies []string
	data   []sec
	values [][]string
	nested [][]string
	hashes []int
}

func everything(f *ini.File) whole {
	w := whole{names: f.SectionStrings(), data: dump(f)}
	for _, s := range f.Sections() {
		w.bodies = append(w.bodies, s.Body())
		h := s.KeysHash()
		w.hashes = append(w.hashes, len(h))
		for _, k := range s.Keys() {
			v, ok := h[k.Name()]
			sym.Assert(ok && v == k.Value(), "KeysHash differs from the value")
			w.values = append(w.values, k.ValueWithShadows())
			w.nested = append(w.nested, k.NestedValues())
		}
	}
	return w
}

func unchanged(a, b whole, what string) {
	sym.Assert(eqStrs(a.names, b.names), what+": section names")
	sameData(a.data, b.data, what)
	sameComments(a.data, b.data, what)
	sym.Assert(eqStrs(a.bodies, b.bodies), what+": bodies")
	for i := range a.values {
		sym.Assert(eqStrs(a.values[i], b.values[i]), what+": values with shadows")
		sym.Assert(eqStrs(a.nested[i], b.nested[i]), what+": nested values")
	}
	for i := range a.hashes {
		sym.Assert(a.hashes[i] == b.hashes[i], what+": KeysHash")
	}
}

// faithful writes the file in every way.
func faithful(f *ini.File, indent string) {
	before := everything(f)
	var one, two bytes.Buffer
	n, err := f.WriteToIndent(&one, indent)
	sym.Assert(err == nil && n == int64(one.Len()), "the number of bytes")
	unchanged(before, everything(f), "after writing")
	n, err = f.WriteToIndent(&two, indent)
	sym.Assert(err == nil && n == int64(two.Len()), "the number of bytes, second time")
	sym.Assert(one.String() == two.String(), "the second time differs")
	name := sym.Dir() + "/out.ini"
	if sym.Choose(2) == 1 {
		sym.Assert(os.WriteFile(name, []byte("old text that is longer than what is written to the file afterwards, to see that nothing of it is left over in the file: it does not matter what it says as long as it says a lot, and this ought to be enough"), 0600) == nil, "scratch file")
	}
	if indent == "" {
		err = f.SaveTo(name)
	} else {
		err = f.SaveToIndent(name, indent)
	}
	sym.Assert(err == nil, "saving fails")
	saved, err := os.ReadFile(name)
	sym.Assert(err == nil, "the saved file")
	sym.Assert(string(saved) == one.String(), "the saved file differs")
	sym.Assert(sym.OpenFiles() == 0, "a file is left open")
	unchanged(before, everything(f), "after saving")
	if indent == "" {
		var three bytes.Buffer
		_, err = f.WriteTo(&three)
		sym.Assert(err == nil && three.String() == one.String(), "WriteTo and WriteToIndent differ")
	}
	sym.Reach("done")
}

// C26_value writes a file with any value and comment.
//
//sym:both len=0 time=5
//sym:both len=1 time=5
//sym:both len=2 time=20
//sym:both len=3 time=30
//sym:thorough len=4 time=200
//sym:reach done
func C26_value() {
	f := ini.Empty()
	v := sym.Str(sym.Param("len", 2))
	var k *ini.Key
	switch sym.Choose(4) {
	case 0:
		k = place(f, sym.Choose(4), "key", v)
		k.Comment = "# c"
	case 1:
		k = place(f, sym.Choose(4), "key", "w")
		k.Comment = v
	case 2:
		k = place(f, 0, "key", "w")
		s, err := f.NewSection("s2")
		sym.Assert(err == nil, "section")
		s.Comment = v
	case 3:
		sym.Assume(v != "")
		s, err := f.NewSection(v)
		sym.Assert(err == nil, "section")
		s.Comment = "a\nb"
		_, err = s.NewKey(v, "w")
		sym.Assert(err == nil, "key")
	}
	faithful(f, "")
}

// C26_loaded writes a document that was read in any mode.
//
//sym:both len=0 time=7
//sym:both len=1 time=7
//sym:both len=2 time=30
//sym:thorough len=3 time=200
//sym:reach done
func C26_loaded() {
	d := []string{"k=", "[s]\nk=x\nk=", "#c\n[r]\n", "-=\n", "a=\n b", "x"}[sym.Choose(6)]
	f, err := ini.LoadSources(modes(sym.Choose(10)), []byte(d+sym.Str(sym.Param("len", 2))+"\n[t]\nz=1\n"))
	if err != nil {
		sym.Stop()
	}
	faithful(f, []string{"", "  "}[sym.Choose(2)])
}

// C26_format does so with every formatting switch.
//
//sym:both len=0 time=7
//sym:both len=1 time=30
//sym:thorough len=2 time=200
//sym:reach done
func C26_format() {
	indent, undo := anyFormat()
	defer undo()
	v := sym.Str(sym.Param("len", 1))
	o := ini.LoadOptions{AllowShadows: true, AllowBooleanKeys: true, AllowNestedValues: true, UnparseableSections: []string{"r"}}
	f, err := ini.LoadSources(o, []byte("; d\nk=1\nk=2\nb\n# c\n[s]\nlonger=x\n-=1\nn=\n  u\n  w\n[r]\nraw\n"))
	sym.Assert(err == nil, "load")
	f.Section("s").Key("longer").SetValue(v)
	faithful(f, indent)
}

// C26_fault lets the writer fail after any number of bytes.
//
//sym:both time=30
//sym:reach full cut
func C26_fault() {
	o := modes(sym.Choose(10))
	d := []string{"k=1\n; c\n[s]\nl=`a`\n", "k = 1", "", "[r]\nk=x\n"}[sym.Choose(4)]
	f, err := ini.LoadSources(o, []byte(d))
	if err != nil {
		sym.Stop()
	}
	want := string(written(f))
	before := everything(f)
	room := sym.Choose(50)
	s := &sink{room: room, quiet: sym.Choose(2) == 1}
	n, err := f.WriteTo(s)
	sym.Assert(n == int64(len(s.got)), "the number of bytes delivered")
	if room < len(want) {
		if s.quiet {
			sym.Assert(errors.Is(err, io.ErrShortWrite), "a short write is not reported")
		} else {
			sym.Assert(err == errWrite, "the error of the writer is not reported")
		}
		sym.Assert(string(s.got) == want[:len(s.got)], "the bytes delivered before the error")
		sym.Reach("cut")
	} else {
		sym.Assert(err == nil && string(s.got) == want, "the bytes delivered")
		sym.Reach("full")
	}
	unchanged(before, everything(f), "after a failed write")
	sym.Assert(string(written(f)) == want, "writing again after a failed write")
}

// C26_nowhere saves to a place that does not exist.
//
//sym:both time=10
//sym:reach done
func C26_nowhere() {
	f, err := ini.LoadSources(modes(sym.Choose(10)), []byte("k=1\n[s]\nl=2\n"))
	if err != nil {
		sym.Stop()
	}
	before := everything(f)
	sym.Assert(f.SaveTo(sym.Dir()+"/none/x.ini") != nil, "saving to a missing directory succeeds")
	sym.Assert(f.SaveToIndent(sym.Dir()+"/none/x.ini", "\t") != nil, "saving to a missing directory succeeds")
	unchanged(before, everything(f), "after a failed save")
	sym.Reach("done")
}

// C26_edited writes after each of several changes.
//
//sym:both ops=2 time=30
//sym:thorough ops=4 time=200
//sym:reach done
func C26_edited() {
	f, err := ini.LoadSources(modes([]int{0, 3, 4, 9}[sym.Choose(4)]), []byte("k=1\nj=2\n[s]\nl=3\n"))
	sym.Assert(err == nil, "load")
	for n := sym.Param("ops", 2); n > 0; n-- {
		s := f.Section([]string{"", "s"}[sym.Choose(2)])
		switch sym.Choose(6) {
		case 0:
			s.Key("k").SetValue(sym.Str(1))
		case 1:
			s.DeleteKey("k")
		case 2:
			_, err := s.NewKey("new", "n")
			sym.Assert(err == nil, "NewKey")
		case 3:
			s.Comment = "c" + sym.Str(1)
		case 4:
			f.DeleteSection("s")
		case 5:
			if !s.HasKey("b") {
				_, err := s.NewBooleanKey("b")
				sym.Assert(err == nil, "NewBooleanKey")
			}
		}
		before := everything(f)
		a := string(written(f))
		unchanged(before, everything(f), "after writing")
		sym.Assert(string(written(f)) == a, "the second time differs")
	}
	sym.Reach("done")
}

// C26_lines writes documents with lines of every kind.
//
//sym:quick n=2 time=60
//sym:thorough n=3 time=300
//sym:reach done
func C26_lines() {
	o := ini.LoadOptions{
		AllowBooleanKeys:       sym.Bool(),
		AllowShadows:           sym.Bool(),
		AllowNestedValues:      sym.Bool(),
		AllowNonUniqueSections: sym.Bool(),
		UnparseableSections:    []string{"r"},
	}
	f, err := ini.LoadSources(o, []byte(lines(sym.Param("n", 2), "k=?", "k=a;c", "# d", "flag", "-=x", "[s]", "[r]", "k=", "\tin", "`?`=\"\"\"x")))
	if err != nil {
		sym.Stop()
	}
	faithful(f, "")
}

// C26_names writes names of any form, from the first byte of the file to the last.
//
//sym:both len=0 time=10
//sym:both len=1 time=5
//sym:both len=2 time=40
//sym:thorough len=3 time=200
//sym:reach done
func C26_names() {
	f := ini.Empty()
	n := sym.Str(sym.Param("len", 2))
	sym.Assume(n != "")
	s := f.Section("")
	if sym.Choose(2) == 1 {
		s = f.Section(n)
	}
	if sym.Choose(2) == 1 {
		s.Comment = n
	}
	k, err := s.NewKey(n, []string{"", "v", " v ", "v\n"}[sym.Choose(4)])
	sym.Assert(err == nil, "NewKey")
	if sym.Choose(2) == 1 {
		k.Comment = n
	}
	faithful(f, []string{"", "\t"}[sym.Choose(2)])
}

// C26_twins looks at what is written of one of two files that are changed alike.
//
//sym:both ops=2 time=20
//sym:thorough ops=3 time=200
//sym:reach done
func C26_twins() {
	indent := []string{"", "  "}[sym.Choose(2)]
	twins(twinRaw, "1;", func(f *ini.File, s *seen) {
		var b bytes.Buffer
		_, err := f.WriteToIndent(&b, indent)
		s.is(err == nil)
		s.str(b.String())
	})
}
