package harness

import (
	"bytes"

	"github.com/go-ini/ini"

	"verif/sym"
)

// anyBools leaves every switch of the options open.
func anyBools() ini.LoadOptions {
	return ini.LoadOptions{
		Loose:                       sym.Bool(),
		Insensitive:                 sym.Bool(),
		InsensitiveSections:         sym.Bool(),
		InsensitiveKeys:             sym.Bool(),
		IgnoreContinuation:          sym.Bool(),
		IgnoreInlineComment:         sym.Bool(),
		SkipUnrecognizableLines:     sym.Bool(),
		ShortCircuit:                sym.Bool(),
		AllowBooleanKeys:            sym.Bool(),
		AllowShadows:                sym.Bool(),
		AllowNestedValues:           sym.Bool(),
		AllowPythonMultilineValues:  sym.Bool(),
		SpaceBeforeInlineComment:    sym.Bool(),
		UnescapeValueDoubleQuotes:   sym.Bool(),
		UnescapeValueCommentSymbols: sym.Bool(),
		PreserveSurroundedQuote:     sym.Bool(),
		AllowNonUniqueSections:      sym.Bool(),
		AllowDuplicateShadowValues:  sym.Bool(),
	}
}

// tour calls the reading side of a file.
func tour(f *ini.File) {
	for _, s := range f.Sections() {
		sym.Observe(s.Name())
		sym.Observe(s.Comment)
		sym.Observe(s.Body())
		s.KeyStrings()
		s.KeysHash()
		s.ParentKeys()
		s.ChildSections()
		sym.Assert(f.HasSection(s.Name()), "a listed section does not exist")
		for _, k := range s.Keys() {
			sym.Assert(k != nil, "a nil key is listed")
			sym.Observe(k.Name())
			sym.Observe(k.Value())
			sym.Observe(k.Comment)
			sym.Observe(k.String())
			k.ValueWithShadows()
			k.NestedValues()
			sym.Assert(s.HasKey(k.Name()), "a listed key does not exist")
		}
	}
	f.SectionStrings()
	var buf bytes.Buffer
	n, err := f.WriteTo(&buf)
	sym.Assert(err == nil && n == int64(buf.Len()), "WriteTo reports another length")
}

func loadTotal(o ini.LoadOptions, b []byte) {
	f, err := ini.LoadSources(o, b)
	if err != nil {
		sym.Reach("error")
		sym.Assert(f == nil, "a file together with an error")
		sym.Observe("err")
		return
	}
	sym.Reach("loaded")
	sym.Assert(f != nil, "neither a file nor an error")
	tour(f)
}

// C01_any loads arbitrary bytes with default options.
//
//sym:both len=2 time=5
//sym:both len=3 time=5
//sym:both len=0 time=5
//sym:both len=1 time=5
//sym:both len=4 time=4
//sym:both len=5 time=20
//sym:thorough len=6 time=100
//sym:reach loaded error
func C01_any() {
	loadTotal(ini.LoadOptions{}, sym.Bytes(sym.Param("len", 3)))
}

// asciiIf assumes that the bytes are ASCII when the bound "ascii" is set: folding the case of other
// characters searches large tables and is left to C12.
func asciiIf(b []byte) []byte {
	if sym.Param("ascii", 0) == 1 {
		ok := true
		for _, c := range b {
			ok = sym.And(ok, c < 0x80)
		}
		sym.Assume(ok)
	}
	return b
}

// C01_opts loads arbitrary bytes with arbitrary switches other than the case folding ones.
//
//sym:both len=2 time=5
//sym:both len=0 time=5
//sym:both len=1 time=5
//sym:both len=3 time=20
//sym:thorough len=4 time=200
//sym:reach loaded error
func C01_opts() {
	o := anyBools()
	o.Insensitive, o.InsensitiveSections, o.InsensitiveKeys = false, false, false
	loadTotal(o, sym.Bytes(sym.Param("len", 3)))
}

// C01_fold loads ASCII text with arbitrary switches.
//
//sym:both len=2 ascii=1 time=5
//sym:both len=0 ascii=1 time=5
//sym:both len=1 ascii=1 time=5
//sym:both len=3 ascii=1 time=20
//sym:thorough len=4 ascii=1 time=200
//sym:reach loaded error
func C01_fold() {
	loadTotal(anyBools(), asciiIf(sym.Bytes(sym.Param("len", 3))))
}

// modes are option sets that each turn on one way of reading.
func modes(i int) ini.LoadOptions {
	switch i {
	case 1:
		return ini.LoadOptions{AllowPythonMultilineValues: true}
	case 2:
		return ini.LoadOptions{AllowNestedValues: true}
	case 3:
		return ini.LoadOptions{AllowShadows: true, AllowNonUniqueSections: true}
	case 4:
		return ini.LoadOptions{AllowBooleanKeys: true}
	case 5:
		return ini.LoadOptions{SkipUnrecognizableLines: true, IgnoreContinuation: true, SpaceBeforeInlineComment: true}
	case 6:
		return ini.LoadOptions{UnescapeValueDoubleQuotes: true, UnescapeValueCommentSymbols: true, IgnoreInlineComment: true}
	case 7:
		return ini.LoadOptions{UnparseableSections: []string{"r"}}
	case 8:
		return ini.LoadOptions{KeyValueDelimiters: " ", KeyValueDelimiterOnWrite: " ", ChildSectionDelimiter: "/"}
	case 9:
		return ini.LoadOptions{AllowPythonMultilineValues: true, AllowNestedValues: true, AllowBooleanKeys: true, AllowShadows: true}
	}
	return ini.LoadOptions{}
}

var templates = [][2]string{
	{"[r]\nk=", "\nx=1\n"},
	{"k=\"\"\"", "\nx=1"},
	{"k=`a", "`\n"},
	{"k=a\\\n", "\nx=1"},
	{"k=\n a", "\n\tb\n"},
	{"\"a", "=v\n"},
	{"`a", "\n"},
	{"-=\n", "-=b"},
	{"[r.", "]\nk=v\n[r]\n"},
	{"#", "\nk=v;c\n"},
	{"k=\"a", "\"\nk"},
}

// C01_tmpl loads documents with an arbitrary part in the middle, in every reading mode.
//
//sym:both len=0 time=5
//sym:both len=1 time=5
//sym:both len=2 time=20
//sym:both len=3 time=40
//sym:thorough len=4 time=200
//sym:reach loaded error
func C01_tmpl() {
	t := templates[sym.Choose(len(templates))]
	o := modes(sym.Choose(10))
	loadTotal(o, []byte(t[0]+sym.Str(sym.Param("len", 2))+t[1]))
}

// C01_far has the arbitrary part where the reader's buffer of 4096 bytes ends.
//
//sym:both len=0 time=5
//sym:both len=1 time=5
//sym:both len=2 time=20
//sym:reach loaded error
func C01_far() {
	fill := make([]byte, 4096-sym.Choose(5))
	for i := range fill {
		fill[i] = 'a'
	}
	fill[0], fill[1] = 'k', '='
	if sym.Bool() {
		fill[2] = '`'
	}
	if sym.Bool() {
		fill[100], fill[101] = '\n', ' '
	}
	o := modes([]int{0, 1, 2, 9}[sym.Choose(4)])
	loadTotal(o, []byte(string(fill)+sym.Str(sym.Param("len", 2))+"b=c\n d\ne=f"))
}
