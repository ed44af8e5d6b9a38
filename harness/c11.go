package harness

import (
	"strings"

	"github.com/go-ini/ini"

	"verif/sym"
)

// parents cuts the name at the delimiter from the right.
func parents(name, delim string) []string {
	var r []string
	for {
		i := strings.LastIndex(name, delim)
		if i < 0 {
			return r
		}
		name = name[:i]
		r = append(r, name)
	}
}

type tree struct {
	f     *ini.File
	delim string
	names []string // in file order, the default section first
	keys  map[string][]string
}

func (t *tree) exists(n string) bool {
	for _, x := range t.names {
		if x == n {
			return true
		}
	}
	return false
}

func (t *tree) holds(n, key string) bool {
	for _, k := range t.keys[n] {
		if k == key {
			return true
		}
	}
	return false
}

func (t *tree) add(n string) {
	if !t.exists(n) {
		t.names = append(t.names, n)
		t.f.NewSection(n)
	}
}

func (t *tree) put(n, key string) {
	if !t.holds(n, key) {
		t.keys[n] = append(t.keys[n], key)
	}
	t.f.Section(n).NewKey(key, n+"/"+key)
}

// check compares the file with the tree.
func (t *tree) check() {
	for _, n := range t.names {
		s := t.f.Section(n)
		for _, key := range []string{"k", "l"} {
			from := ""
			found := t.holds(n, key)
			if found {
				from = n
			} else {
				for _, p := range parents(n, t.delim) {
					if t.exists(p) && t.holds(p, key) {
						found, from = true, p
						break
					}
				}
			}
			k, err := s.GetKey(key)
			sym.Assert(s.HasKey(key) == found, "HasKey")
			sym.Assert((err == nil) == found, "GetKey: error")
			if found {
				sym.Assert(k.Value() == from+"/"+key, "the key of another section is found")
				sym.Assert(s.Key(key) == k, "Key and GetKey differ")
				sym.Reach("found")
			}
		}
		sym.Assert(eqStrs(s.KeyStrings(), t.keys[n]), "KeyStrings lists other keys than its own")
		sym.Assert(len(s.Keys()) == len(t.keys[n]), "Keys lists other keys than its own")
		sym.Assert(len(s.KeysHash()) == len(t.keys[n]), "KeysHash lists other keys than its own")
		var up []string
		for _, p := range parents(n, t.delim) {
			if t.exists(p) {
				for _, k := range t.keys[p] {
					up = append(up, p+"/"+k)
				}
			}
		}
		var got []string
		for _, k := range s.ParentKeys() {
			got = append(got, k.Value())
		}
		sym.Assert(eqStrs(got, up), "ParentKeys")
		var down []string
		for _, c := range t.names {
			if strings.HasPrefix(c, n+t.delim) {
				down = append(down, c)
			}
		}
		got = nil
		for _, c := range s.ChildSections() {
			got = append(got, c.Name())
			sym.Assert(c == t.f.Section(c.Name()), "ChildSections gives another section")
		}
		sym.Assert(eqStrs(got, down), "ChildSections")
		got = nil
		for _, c := range t.f.ChildSections(n) {
			got = append(got, c.Name())
		}
		sym.Assert(eqStrs(got, down), "File.ChildSections")
	}
}

func growTree(delim, alphabet string) *tree {
	t := &tree{f: ini.Empty(ini.LoadOptions{ChildSectionDelimiter: delim}), delim: delim, keys: map[string][]string{}, names: []string{ini.DefaultSection}}
	if delim == "" {
		t.delim = "."
	}
	if sym.Choose(2) == 1 {
		t.put(ini.DefaultSection, "k")
	}
	for i := 0; i < sym.Param("secs", 3); i++ {
		n := sym.StrIn(1+sym.Choose(sym.Param("len", 3)), alphabet)
		sym.Assume(!strings.HasPrefix(n, t.delim))
		t.add(n)
		if x := sym.Choose(3); x > 0 {
			t.put(n, []string{"k", "l"}[x-1])
		}
	}
	return t
}

// C11_tree builds small trees of sections and compares every look-up with a model.
//
//sym:both len=0 secs=2 time=7
//sym:both len=1 secs=2 time=7
//sym:both len=2 secs=2 time=7
//sym:both secs=2 len=3 time=30
//sym:thorough secs=3 len=3 time=300
//sym:thorough secs=2 len=5 time=200
//sym:reach found
func C11_tree() { growTree("", "ab.").check() }

// C11_delim uses other child delimiters.
//
//sym:both len=0 secs=2 time=7
//sym:both len=1 secs=2 time=7
//sym:both len=2 secs=2 time=7
//sym:both secs=2 len=3 time=30
//sym:thorough secs=2 len=4 time=200
//sym:reach found
func C11_delim() { growTree([]string{"/", "::", "b"}[sym.Choose(3)], "ab:/").check() }

// C11_deep has a chain of sections of which some are missing, with keys anywhere.
//
//sym:both depth=4 time=60
//sym:thorough depth=5 time=300
//sym:reach found
func C11_deep() {
	t := &tree{f: ini.Empty(), delim: ".", keys: map[string][]string{}, names: []string{ini.DefaultSection}}
	t.f.BlockMode = sym.Choose(2) == 0
	n := ""
	for i := 0; i < sym.Param("depth", 4); i++ {
		if i > 0 {
			n += "."
		}
		n += sym.StrIn(1, "ab")
		x := sym.Choose(5)
		if x == 0 {
			continue
		}
		t.add(n)
		if x&1 == 1 {
			t.put(n, "k")
		}
		if x > 2 {
			t.put(n, "l")
		}
	}
	t.check()
	own := t.names[sym.Choose(len(t.names))]
	t.put(own, "k") // a key of its own wins from now on
	t.check()
	key := []string{"k", "l"}[sym.Choose(2)]
	t.f.Section(own).DeleteKey(key)
	var left []string
	for _, k := range t.keys[own] {
		if k != key {
			left = append(left, k)
		}
	}
	t.keys[own] = left
	t.check()
}

// C11_loaded reads the tree from a document.
//
//sym:both time=30
//sym:reach found
func C11_loaded() {
	t := &tree{delim: ".", keys: map[string][]string{}, names: []string{ini.DefaultSection}}
	text := ""
	for i := 0; i < 3; i++ {
		n := sym.StrIn(1+2*sym.Choose(2), "ab.")
		sym.Assume(!strings.HasPrefix(n, "."))
		text += "[" + n + "]\n"
		if !t.exists(n) {
			t.names = append(t.names, n)
		}
		if x := sym.Choose(3); x > 0 {
			key := []string{"k", "l"}[x-1]
			text += key + "=" + n + "/" + key + "\n"
			if !t.holds(n, key) {
				t.keys[n] = append(t.keys[n], key)
			}
		}
	}
	f, err := ini.Load([]byte(text))
	sym.Assert(err == nil, "load")
	t.f = f
	t.check()
}

// C11_repeated lists the children among sections that may repeat.
//
//sym:both time=30
//sym:reach found
func C11_repeated() {
	f := ini.Empty(ini.LoadOptions{AllowNonUniqueSections: true})
	var all []*ini.Section
	for i := 0; i < 4; i++ {
		s, err := f.NewSection([]string{"a", "a.b", "a.bc", "ab"}[sym.Choose(4)])
		sym.Assert(err == nil, "NewSection")
		all = append(all, s)
	}
	p := f.Section("a")
	var want []*ini.Section
	for _, s := range all {
		if strings.HasPrefix(s.Name(), "a.") {
			want = append(want, s)
		}
	}
	got := p.ChildSections()
	sym.Assert(len(got) == len(want), "ChildSections: length")
	for i := range got {
		sym.Assert(got[i] == want[i], "ChildSections gives another section")
	}
	sym.Reach("found")
}

// C11_dots has names with empty parts, where every section above may be there or not.
//
//sym:both len=2 time=15
//sym:both len=0 time=5
//sym:both len=1 time=5
//sym:both len=3 time=60
//sym:thorough len=4 time=200
//sym:thorough len=5 time=200
//sym:reach found
func C11_dots() {
	delim := []string{".", ".."}[sym.Choose(2)]
	t := &tree{f: ini.Empty(ini.LoadOptions{ChildSectionDelimiter: delim}), delim: delim, keys: map[string][]string{}, names: []string{ini.DefaultSection}}
	leaf := "a" + sym.StrIn(sym.Param("len", 3), "a.")
	t.add(leaf)
	for _, p := range parents(leaf, delim) {
		x := sym.Choose(3)
		if x == 0 {
			continue
		}
		t.add(p)
		if x == 2 {
			t.put(p, "k")
		}
	}
	t.check()
}

// C11_twins looks at inherited keys and child sections of one of two files that are changed alike.
//
//sym:both ops=2 time=20
//sym:thorough ops=3 time=200
//sym:reach done
func C11_twins() { twins(twinRaw, "01", seeFamily) }
