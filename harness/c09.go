package harness

import (
	"github.com/go-ini/ini"

	"verif/sym"
)

// msec is a section of the model: its name and the object that stands for it.
type msec struct {
	name string
	s    *ini.Section
}

type secModel struct {
	f      *ini.File
	unique bool
	list   []msec
}

func (m *secModel) named(n string) []*ini.Section {
	if n == "" {
		n = ini.DefaultSection
	}
	var r []*ini.Section
	for _, x := range m.list {
		if x.name == n {
			r = append(r, x.s)
		}
	}
	return r
}

// create is what creating a section by name does; s is the section that was returned.
func (m *secModel) create(n string, s *ini.Section) {
	sym.Assert(s != nil && s.Name() == n, "the created section has another name")
	old := m.named(n)
	if m.unique && len(old) > 0 {
		sym.Assert(s == old[0], "creating an existing section gives another one")
		return
	}
	for _, x := range m.list {
		sym.Assert(x.s != s, "the created section is an old one")
	}
	m.list = append(m.list, msec{n, s})
}

// remove takes out the index-th section of a name.
func (m *secModel) remove(n string, index int) {
	if n == "" {
		n = ini.DefaultSection
	}
	for i, x := range m.list {
		if x.name == n {
			if index == 0 {
				m.list = append(append([]msec{}, m.list[:i]...), m.list[i+1:]...)
				return
			}
			index--
		}
	}
}

// check compares every view of the file with the model.
func (m *secModel) check(probe string) {
	names := m.f.SectionStrings()
	secs := m.f.Sections()
	sym.Assert(len(names) == len(m.list), "SectionStrings: length")
	sym.Assert(len(secs) == len(m.list), "Sections: length")
	for i, x := range m.list {
		sym.Assert(names[i] == x.name, "SectionStrings: name")
		sym.Assert(secs[i] == x.s, "Sections: section")
		m.look(x.name)
	}
	m.look(probe)
	m.look("")
	for i := range names { // the lists handed out are copies
		names[i], secs[i] = "changed", nil
	}
}

func (m *secModel) look(n string) {
	want := m.named(n)
	s, err := m.f.GetSection(n)
	sym.Assert(m.f.HasSection(n) == (len(want) > 0), "HasSection")
	all, err2 := m.f.SectionsByName(n)
	if len(want) == 0 {
		sym.Assert(s == nil && err != nil, "GetSection finds a section that does not exist")
		sym.Assert(len(all) == 0 && err2 != nil, "SectionsByName finds a section that does not exist")
		return
	}
	sym.Assert(err == nil && s == want[0], "GetSection gives another section")
	sym.Assert(err2 == nil && len(all) == len(want), "SectionsByName: length")
	for i := range want {
		sym.Assert(all[i] == want[i], "SectionsByName gives another section")
		sym.Assert(m.f.SectionWithIndex(n, i) == want[i], "SectionWithIndex gives another section")
	}
	sym.Assert(m.f.Section(n) == want[0], "Section gives another section")
}

// secOp performs one operation on the file and on the model.
func (m *secModel) op(kind int, n string) {
	f := m.f
	switch kind {
	case 0:
		s, err := f.NewSection(n)
		if n == "" {
			sym.Assert(err != nil, "a section without a name is created")
			return
		}
		sym.Assert(err == nil, "NewSection fails")
		m.create(n, s)
	case 1:
		for range m.named(n) {
			m.remove(n, 0)
		}
		f.DeleteSection(n)
	case 2:
		i := sym.Choose(3)
		err := f.DeleteSectionWithIndex(n, i)
		if m.unique && i > 0 {
			sym.Assert(err != nil, "deleting by a non-zero index is accepted")
			return
		}
		sym.Assert(err == nil, "DeleteSectionWithIndex fails")
		m.remove(n, i)
	case 3:
		s := f.Section(n)
		if old := m.named(n); len(old) > 0 {
			sym.Assert(s == old[0], "Section gives another section")
			return
		}
		if n == "" {
			n = ini.DefaultSection
		}
		m.create(n, s)
	case 4:
		s, err := f.NewRawSection(n, "body")
		if n == "" {
			sym.Assert(err != nil, "a section without a name is created")
			return
		}
		sym.Assert(err == nil && s.Body() == "body", "NewRawSection")
		m.create(n, s)
	case 5:
		if n == "" {
			return // creating by index needs a name
		}
		i := sym.Choose(2)
		s := f.SectionWithIndex(n, i)
		if old := m.named(n); i < len(old) {
			sym.Assert(s == old[i], "SectionWithIndex gives another section")
			return
		}
		m.create(n, s)
	case 6:
		err := f.NewSections("x", n)
		sym.Assert((err != nil) == (n == ""), "NewSections")
		for _, c := range []string{"x", n} {
			if c == "" {
				break
			}
			all, _ := f.SectionsByName(c)
			sym.Assert(len(all) > 0, "NewSections does not create")
			if old := m.named(c); !(m.unique && len(old) > 0) {
				i := len(m.named(c))
				sym.Assert(len(all) > i, "NewSections does not create")
				m.create(c, all[i])
			}
		}
	}
}

func sectionHistory(unique bool, ops int) {
	f := ini.Empty(ini.LoadOptions{AllowNonUniqueSections: !unique})
	f.BlockMode = sym.Param("unlocked", 0) == 0 || sym.Choose(2) == 1
	m := &secModel{f: f, unique: unique}
	for i, s := range f.Sections() {
		sym.Assert(i == 0 && s.Name() == ini.DefaultSection, "an empty file has more than the default section")
		m.list = append(m.list, msec{s.Name(), s})
	}
	sym.Assert(len(m.list) == 1, "an empty file has no default section")
	for i := 0; i < ops; i++ {
		n := ""
		if sym.Choose(4) > 0 {
			n = sym.Str(1)
		}
		m.op(sym.Choose(7), n)
		m.check(n)
	}
	sym.Reach("done")
}

// C09_unique runs operations on sections with arbitrary names.
//
//sym:both ops=2 unlocked=1 time=20
//sym:both ops=3 time=60
//sym:thorough ops=4 time=400
//sym:reach done
func C09_unique() { sectionHistory(true, sym.Param("ops", 2)) }

// C09_repeated allows several sections of one name.
//
//sym:both ops=2 unlocked=1 time=20
//sym:both ops=3 time=60
//sym:thorough ops=4 time=400
//sym:reach done
func C09_repeated() { sectionHistory(false, sym.Param("ops", 2)) }

// C09_many deletes from files that already hold sections that repeat, in every arrangement.
//
//sym:both n=4 time=60
//sym:thorough n=5 time=200
//sym:reach done
func C09_many() {
	f := ini.Empty(ini.LoadOptions{AllowNonUniqueSections: true})
	m := &secModel{f: f}
	m.list = append(m.list, msec{ini.DefaultSection, f.Sections()[0]})
	for i := 0; i < sym.Param("n", 4); i++ {
		n := sym.StrIn(1, "ab")
		s, err := f.NewSection(n)
		sym.Assert(err == nil, "NewSection fails")
		m.create(n, s)
	}
	for i := 0; i < 2; i++ {
		n := sym.StrIn(1, "ab")
		at := sym.Choose(6)
		if at == 3 {
			for range m.named(n) {
				m.remove(n, 0)
			}
			f.DeleteSection(n)
		} else if at == 4 {
			// no section has that index
			_ = f.DeleteSectionWithIndex(n, -1)
		} else if at == 5 {
			m.create(n, f.SectionWithIndex(n, -1))
		} else {
			m.remove(n, at)
			sym.Assert(f.DeleteSectionWithIndex(n, at) == nil, "DeleteSectionWithIndex fails")
		}
		m.check(n)
	}
	n := sym.StrIn(1, "ab")
	s, err := f.NewSection(n)
	sym.Assert(err == nil, "NewSection fails")
	m.create(n, s)
	m.check(n)
	sym.Reach("done")
}

// C09_loaded lets the parser create the sections.
//
//sym:both n=4 time=60
//sym:thorough n=5 time=200
//sym:reach done
func C09_loaded() {
	unique := sym.Choose(2) == 0
	text := ""
	for i := 0; i < sym.Param("n", 4); i++ {
		text += "[" + sym.StrIn(1, "abc") + "]\n"
		if sym.Choose(2) == 1 {
			text += "k=" + string(rune('0'+i)) + "\n"
		}
	}
	o := ini.LoadOptions{AllowNonUniqueSections: !unique}
	f := against(o, text, true)
	m := &secModel{f: f, unique: unique}
	for _, s := range f.Sections() {
		m.list = append(m.list, msec{s.Name(), s})
	}
	m.check("d")
	n := sym.StrIn(1, "abc")
	m.op(sym.Choose(3), n)
	m.check(n)
	sym.Reach("done")
}

// C09_twins looks at lists and look-ups of sections of one of two files that are changed alike.
//
//sym:both ops=2 time=20
//sym:thorough ops=3 time=200
//sym:reach done
func C09_twins() { twins(twinRaw, "01", seeSections) }
