#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a generator so that the statements are easy to review)."""
import json, os
P=[]
def p(id,title,statement,over,text,why,files,mech,state=None,observe=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    if observe: a["observe_at"]=observe
    a["hook_needed"]=None
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})

p("C01","Loading is total",
  "For every byte sequence and every LoadOptions value, loading it from memory terminates and returns either a usable file or a non-nil error; it never panics and never loops, and every reading accessor of a returned file can be called without panicking.",
  ["inputs","configurations"],"all byte sequences (bounded length and bounded templates), all option combinations exercised by the parser",
  "The tests feed a handful of malformed files; index arithmetic on quotes, delimiters and continuation lines depends on every byte combination.",
  ["parser.go","ini.go","data_source.go"],[("parse loop","parser.go:parse"),("key splitting","parser.go:readKeyName"),("value reading","parser.go:readValue")])
p("C02","Plain documents are read as documented",
  "With default options a document means exactly what its lines say: blank lines and lines starting with '#' or ';' carry no data, '[name]' (up to the last ']') opens a section, and any other line is a key (trimmed text before the first '=' or ':', or the trimmed text inside its quotes) and a value (trimmed text after it, up to an inline '#' or ';', with one surrounding pair of single or double quotes removed when that quote occurs nowhere else in the value), the last assignment to a key winning. A line without a delimiter, with an empty key, an unclosed section or an empty section name makes loading fail.",
  ["inputs"],"all single- and multi-line documents up to the stated length over all byte values",
  "Tests sample some dozens of lines; where key, value, comment and quotes end depends on each byte and its neighbours.",
  ["parser.go","file.go","section.go"],[("line classification","parser.go:parse"),("key name","parser.go:readKeyName"),("value","parser.go:readValue"),("surrounding quotes","parser.go:hasSurroundedQuote")])
json_path=os.path.join(os.path.dirname(os.path.abspath(__file__)),"..","properties.jsonl")
def main():
    with open(json_path,"w") as f:
        for x in P: f.write(json.dumps(x,ensure_ascii=False)+"\n")
p("C03","Values survive save and reload",
  "Every raw value that does not contain both a back quote and three double quotes in a row is returned unchanged after the file holding it is written out and loaded again with default options, whatever spaces, quotes, comment signs, backslashes, delimiters, references or line breaks it contains and wherever in the file it stands.",
  ["inputs"],"all values up to the stated length over all byte values, in any position of the file",
  "The golden-file tests write a few values; the choice of quoting depends on every character and the reader must undo exactly it.",
  ["file.go","parser.go"],[("quoting on write","file.go:writeToBuffer"),("unquoting on read","parser.go:readValue"),("multi-line values","parser.go:readMultilines")])
p("C04","Names and order survive save and reload",
  "After writing a file whose first section is the default one and loading it again, the sections and the keys of every section come back with the same names in the same order, for every non-empty section name without a line break and every trimmed, non-empty key name that has no line break, does not contain both a back quote and a double quote, does not start with a byte order mark and is not '-'.",
  ["inputs","histories"],"all section and key names up to the stated length, all small section/key layouts",
  "Tests use ordinary names in one layout; quoting, alignment and header rules depend on the characters of each name.",
  ["file.go","parser.go"],[("key quoting and alignment","file.go:writeToBuffer"),("key name parsing","parser.go:readKeyName")])
p("C05","Comments survive save and reload",
  "The comment of every key and of every section other than the default one, one or several lines, is attached to the same key or section with the same text (up to the comment sign and the blanks after it and at the end of its lines) after the file is written and loaded again, with every reading mode that keeps the data, and writing never panics whatever text a comment holds.",
  ["inputs"],"all comment texts up to the stated length on sections and keys",
  "Tests check one multi-line comment; comments are split, prefixed and re-joined depending on their content.",
  ["file.go","parser.go"],[("comment writing","file.go:writeToBuffer"),("comment collection","parser.go:parse")])
p("C06","Formatting switches never change the data",
  "PrettyFormat, PrettyEqual, PrettySection, DefaultHeader, the custom spaces around the equal sign, the line break, the indentation argument and the output delimiter change only the layout of what is written: loading the output back gives the same sections, keys, values and key comments as with any other setting (indentation where the reading options give indented lines no meaning of their own), and with PrettyFormat all equal signs of a section are aligned.",
  ["configurations","inputs"],"all combinations of the switches, all small file contents",
  "Tests check one or two switch combinations with fixed content.",
  ["file.go","ini.go"],[("writer","file.go:writeToBuffer")])
p("C07","Several sources merge, later ones win",
  "Loading several sources gives every key of every source, with the value of the last source that assigns it and the position of its first appearance (with AllowShadows every value, with AllowNonUniqueSections every section in order); appending a source later gives the same as loading it together with the others, reloading reads every source (in memory or in a file) again, ShortCircuit stops after the first source that loads, and Loose skips exactly the files that do not exist while without it a missing file is an error.",
  ["inputs","configurations","histories"],"all small pairs and triples of documents and missing files, with each option",
  "Tests use one pair of sources.",
  ["ini.go","file.go","section.go"],[("reload loop","file.go:Reload"),("overwrite on duplicate","section.go:NewKey")])
p("C08","The kind of source and how it is read do not matter",
  "The same bytes give the same file whether they come as []byte, a file name, an io.Reader or an io.ReadCloser, and however the reader cuts them into pieces; a reader that fails at any point with any error (that wraps no io.EOF) and keeps failing (or fails once, without AllowPythonMultilineValues) makes loading fail with no file (unless with Loose it says that the source does not exist), and every opened source is closed exactly once.",
  ["inputs","schedules","fault_sequences"],"all ways of cutting small documents into reads, an error after any number of bytes",
  "Tests read complete in-memory sources only and never inject a read fault.",
  ["data_source.go","file.go","parser.go"],[("source opening","data_source.go:parseDataSource"),("closing","file.go:reload"),("buffered reading","parser.go:readUntil")])
p("C09","Section registry stays coherent",
  "After any sequence of section creations, look-ups and deletions, the list of names, the list of sections, look-up by name and by index (no section has a negative one), and existence tests all describe the same ordered collection: unique names in order of first creation by default, every occurrence in order when non-unique sections are allowed, deleting removes exactly the section or sections asked for, and lists handed out are copies.",
  ["histories","configurations"],"all operation sequences up to the stated length over a small symbolic name universe",
  "Tests run single fixed histories; the list, the index list and the map must agree after every history.",
  ["file.go"],[("creation","file.go:NewSection"),("deletion","file.go:DeleteSectionWithIndex"),("listing","file.go:Sections")])
p("C10","Key registry stays coherent",
  "After any sequence of key creations, value changes, look-ups and deletions in a section, the lists of key names and keys, the name-value hash, existence tests and value tests all describe the same ordered collection of keys with their current values; re-creating a key changes its value in place, deleting removes exactly that key, and the lists and maps handed out are copies.",
  ["histories","configurations"],"all operation sequences up to the stated length over a small symbolic name universe",
  "Tests run single fixed histories; three parallel structures must agree after every one.",
  ["section.go","key.go"],[("creation","section.go:NewKey"),("deletion","section.go:DeleteKey"),("value change","key.go:SetValue")])
p("C11","Child sections inherit keys from their parents",
  "Looking up a key that a section lacks returns the key of its nearest existing ancestor that has it, where ancestors are obtained by cutting the name at the child delimiter from the right, and a section's own key always wins; key listings of a section never include inherited keys, ParentKeys lists exactly the ancestors' keys nearest first, and ChildSections lists exactly the sections whose names extend the name by the delimiter, in file order. (For names that do not start with the delimiter.)",
  ["inputs","configurations"],"all small trees of section names and key placements, custom delimiters",
  "Tests have one three-level chain.",
  ["section.go","file.go"],[("ancestor walk","section.go:GetKey"),("children","section.go:ChildSections"),("parents","section.go:ParentKeys")])
p("C12","Case-insensitive modes",
  "With Insensitive, InsensitiveSections or InsensitiveKeys every creation, look-up, existence test and deletion by section name or key name respectively treats names that differ only in letter case as the same name, stored in lower case, including the default section, while the names not covered by the option stay case-sensitive.",
  ["inputs","configurations","histories"],"all names up to the stated length over ASCII letters in either case, all three options",
  "Tests check a few names.",
  ["file.go","section.go","parser.go"],[("section folding","file.go:NewSection"),("key folding","section.go:GetKey")])
p("C13","Recursive values expand correctly and terminate",
  "Reading a key as a string replaces every %(name)s by the raw value of that key of the same section (or its ancestors), else of the default section, repeatedly until none is left or a reference cannot be resolved; a reference of a key to itself is looked up in the default section, cyclic references end after a bounded number of rounds (99), values without references are returned unchanged, and stored raw values never change by reading.",
  ["inputs"],"all small values with up to three keys referring to each other, cyclic or not",
  "Tests cover three fixed reference chains.",
  ["key.go"],[("expansion","key.go:transformValue")])
p("C14","Typed reads and defaults",
  "Bool, Int, Int64, Uint, Uint64 (base prefixes allowed) convert exactly the documented spellings and report an error for everything else; the Must variants return the converted value when there is one, otherwise the given default, which then becomes the key's value everywhere it can be read, and without a default the zero value.",
  ["inputs"],"all value strings up to the stated length, all defaults within the stated range",
  "Tests convert a dozen strings.",
  ["key.go"],[("conversion","key.go:parseBool"),("defaults","key.go:MustInt")])
p("C15","List reads split and convert consistently",
  "Strings splits a value of valid UTF-8 at every unescaped occurrence of the delimiter (an empty one occurs nowhere and the value stays whole), trims the parts, removes the backslash before an escaped delimiter or backslash and keeps any other backslash; the plain typed list readers return one element per part with zero for invalid parts, the Valid readers return exactly the valid parts in order, and the Strict readers fail if and only if some part is invalid.",
  ["inputs"],"all values up to the stated length and one- to two-character delimiters including non-ASCII ones",
  "Tests split a few lists.",
  ["key.go"],[("splitting","key.go:Strings"),("conversion","key.go:doParse")])
p("C16","In and Range reads stay within their bounds",
  "The In readers return the key's value if it equals one of the candidates and otherwise the default; the Range readers return the key's value if it lies in the inclusive range and otherwise the default, for every value including unparsable ones, and neither changes the stored value.",
  ["inputs"],"all values, defaults, bounds and candidate lists within the stated widths",
  "Tests check a few in/out examples.",
  ["key.go"],[("candidates","key.go:InInt"),("range","key.go:RangeInt")])
p("C17","Shadow keys keep every value",
  "With AllowShadows a key assigned several times keeps all its non-empty values in order of assignment (each distinct value once, unless AllowDuplicateShadowValues), they are all written out and come back on reload, and the plain value is the first one; without AllowShadows no shadow can be added.",
  ["inputs","histories","configurations"],"all sequences of assignments up to the stated length",
  "Tests use one list of remotes.",
  ["key.go","section.go","file.go"],[("shadow adding","key.go:addShadow"),("reading","key.go:ValueWithShadows"),("writing","file.go:writeToBuffer")])
p("C18","Nested values keep structure",
  "With AllowNestedValues the indented lines after a key with an empty value become its nested values, trimmed and in order, up to the next unindented line or section; they are written back and reload equal, and without the option nested values cannot be added.",
  ["inputs","configurations"],"all small documents with indented lines",
  "Tests use one AWS-like document.",
  ["parser.go","key.go","file.go"],[("collection","parser.go:parse"),("writing","file.go:writeToBuffer")])
p("C19","Raw sections keep their body",
  "The body of a section listed in UnparseableSections is kept line by line (comment lines, leading blanks of lines and blank lines aside) without being interpreted, until the next section header, its text is available through Body and changeable through SetBody, and it survives writing and reloading; other sections of the same file parse as usual and have no body.",
  ["inputs","configurations"],"all small bodies over all byte values",
  "Tests use one body.",
  ["parser.go","section.go","file.go"],[("raw collection","parser.go:parse"),("body","section.go:SetBody"),("writing","file.go:writeToBuffer")])
p("C20","Boolean keys, auto-increment keys and skipped lines",
  "With AllowBooleanKeys a line without delimiter is a key with value true and is written back without a value; a key named '-' gets the name '#n' with n counting from 1 after each section header and is written back as '-'; with SkipUnrecognizableLines the lines that have no delimiter or no key name are ignored and everything else is read as if they were absent; without these options such lines are errors of the documented kind.",
  ["inputs","configurations"],"all small documents with each option",
  "Tests use a few fixed lines.",
  ["parser.go","section.go","file.go","error.go"],[("line handling","parser.go:parse")])
p("C21","Multi-line values",
  "A value opened by three double quotes or a back quote extends over lines up to the closing quote and keeps its text exactly, a missing closing quote is an error; a line ending in a backslash continues on the next line unless IgnoreContinuation is set; with AllowPythonMultilineValues lines indented by blanks (that fit in the reader's buffer) continue the value, joined by line breaks; and PreserveSurroundedQuote, SpaceBeforeInlineComment, IgnoreInlineComment and the two Unescape options change the reading of a value exactly as documented.",
  ["inputs","configurations"],"all small multi-line documents",
  "Tests use a few fixed documents.",
  ["parser.go"],[("quoted","parser.go:readMultilines"),("continuation","parser.go:readContinuationLines"),("python","parser.go:readPythonMultilines")])
p("C22","Mapping to structs fills exactly the matching fields",
  "Mapping a section onto a struct sets each settable field that has a key (by tag, name mapper or field name) to the converted value and leaves the others, string fields (no pointers) whose key is empty, and fields whose value cannot be converted, at what they held (an embedded nil pointer to a struct may be allocated); the strict variant instead fails when a value, scalar or list element, cannot be converted; sub-structs map from the section of their name, extended ones from their parent's, non-unique sections fill slices of structs, and mapping never panics whatever the values are and fails for unsupported types and for nil; a list that was mapped before stays as it is when another is mapped to the same field.",
  ["inputs","configurations"],"all values up to the stated length for every supported field type",
  "Tests map one large struct from one file.",
  ["struct.go"],[("field walk","struct.go:mapToField"),("conversion","struct.go:setWithProperType"),("slices","struct.go:setSliceWithProperType")])
p("C23","Reflecting a struct and mapping it back is the identity",
  "Reflecting a struct of supported field types into a file, optionally writing and reloading the file, and mapping it onto a fresh struct gives an equal struct (omitted fields having no inherited key, list elements being trimmed texts without delimiter and backslash, times and durations as written by their format, a nil pointer to a string counting as one to the empty string); omitted fields (tag '-' or omitempty with an empty value) create no key, fields that implement StructReflector reflect themselves instead, existing keys are overwritten, and comment tags become the comments of keys and sections that have none.",
  ["inputs"],"all field values within the stated bounds for every supported field type",
  "Tests compare one struct with a golden text.",
  ["struct.go"],[("reflecting","struct.go:reflectFrom"),("mapping","struct.go:mapToField")])
p("C24","Concurrent use in block mode is safe",
  "With BlockMode on, creating, looking up, listing and deleting sections, and creating, looking up, listing, hashing, reading, setting and deleting keys from several goroutines at the same time has no data race and no deadlock, and every such call on one file, section or key takes effect atomically: the outcome is that of some sequential order. (Calls made of several steps, such as inherited keys, references, NewSections or Must readers that store a default, are free of races and deadlocks only; writing, loading, raw bodies and comments are not protected.)",
  ["schedules"],"all interleavings of two or three goroutines with small operation sequences",
  "Tests are single-threaded.",
  ["file.go","section.go","key.go"],[("locking","file.go:NewSection"),("locking","section.go:NewKey"),("locking","key.go:SetValue")])
p("C25","BOM and line endings are transparent",
  "A document gives the same file with and without a leading UTF-8 byte order mark, in every source and however it is read, with LF or CRLF line ends (outside quoted multi-line values, raw bodies and the line breaks within comments), and with or without a line end after its last line.",
  ["inputs"],"all documents up to the stated length",
  "Tests use one BOM file.",
  ["parser.go"],[("BOM","parser.go:BOM"),("trimming","parser.go:readValue")])
p("C26","Writing is faithful, repeatable and pure",
  "WriteTo returns exactly the number of bytes it delivered and the writer's error if any, delivers the same bytes every time, SaveTo stores exactly the bytes that WriteTo delivers in place of what the file held and reports when it cannot, and neither changes any section, key, value or comment of the file.",
  ["inputs","fault_sequences"],"all small file contents; a writer failing at any byte",
  "Tests write a few files once.",
  ["file.go"],[("writer","file.go:WriteToIndent"),("saver","file.go:SaveToIndent")])
p("C27","Name mappers",
  "For every field name SnackCase gives the upper-case name and TitleUnderscore the name with ASCII capitals in lower case, each with one underscore before every ASCII capital except at the start and nothing else changed; mapping and reflecting with a mapper use the mapped name for every key and sub-section that has no name in its tag; and a ValueMapper is applied when a value is read as a string but never to what is stored or written.",
  ["inputs"],"all names up to the stated length",
  "Tests map one struct.",
  ["struct.go"],[("mappers","struct.go:SnackCase")])
p("C28","Looking does not change the file",
  "Existence tests, Get look-ups, listings, value reads without default, conversions, expansions and mapping change nothing, nor does changing the lists and maps they return: afterwards the file has the same sections, keys, values and comments, and a missing section or key is reported as an error or false rather than created.",
  ["inputs","histories"],"all small files and every reading operation",
  "Tests do not compare the state before and after reads.",
  ["file.go","section.go","key.go"],[("look-ups","file.go:GetSection"),("look-ups","section.go:GetKey")])
p("C29","The written layout follows the settings",
  "For names, values and single-line comments that need no quotes, writing gives exactly: for every section in order its comment lines, its header (the default section, standing first, has one only with DefaultHeader and otherwise is left out when it has no keys), its raw body if it has one, and for every key its comment line, one line per value and one per nested value, then an empty line before the next section with PrettySection. A value's line is the indentation (outside the default section), the name ('-' for an auto-increment key), with PrettyFormat blanks up to the longest name of the section, the output delimiter between single blanks (PrettyFormat or PrettyEqual) or between DefaultFormatLeft and DefaultFormatRight, and the value; a boolean key is its name alone; a nested value is indented by two more blanks; a comment line starts with its sign and one blank, any other text of a comment gets '; ' before each line; every line ends with LineBreak.",
  ["inputs"],"all files of a few sections and keys of every kind, every setting, any comment text",
  "Tests compare a few golden files under a few settings.",
  ["file.go"],[("writer","file.go:writeToBuffer")])
p("C30","Custom key-value delimiters",
  "With KeyValueDelimiters set to any characters (no quotes, brackets, comment signs, backslashes, ASCII letters, digits or '-') a key ends exactly at the first of them, of whatever length in bytes, and the other characters, '=' and ':' included, are ordinary text; a file written with KeyValueDelimiterOnWrite set to one of them and loaded with the same options has the same names and values.",
  ["inputs"],"several sets of delimiters of one to three bytes; all names, values and lines up to the stated length",
  "Tests use one custom delimiter.",
  ["parser.go","file.go"],[("keys","parser.go:readKeyName"),("writer","file.go:quoteKeyName")])
p("C31","Files are independent of each other",
  "Working with different files (loading, also from data with errors, editing, reading, expanding, converting, mapping, reflecting, appending, reloading, saving, with any options and mappers) in different goroutines has no data race, and in whatever order or at the same time gives for each file exactly what it gives alone; the data given as a source and the struct reflected stay as they were, and editing a file leaves others made from the same data or struct alone.",
  ["inputs","histories","schedules"],"every pair of a fixed set of jobs that together use every part, with any short text in each; one file edited in every way while another of the same origin is watched",
  "Tests load files one after another in one goroutine and do not compare.",
  ["ini.go","file.go","parser.go","section.go","key.go","struct.go"],[("package state","ini.go:varPattern"),("per-file state","file.go:newFile"),("comment buffer","parser.go:newParser")])
p("C32","The default section can have another name",
  "With DefaultSection set to another name (with a capital letter and without the child delimiter) before a file is made, everything that can be done with the file gives the same as with the usual name, except for that name: keys before the first header belong to it, the empty name and its name both lead to it, expansion and mapping of the file use it, and it is written without a header, or with its own.",
  ["inputs","configurations"],"every operation on all documents of a few lines, with several names and reading modes",
  "Tests never change the name.",
  ["ini.go","file.go","parser.go","key.go","struct.go"],[("the name","ini.go:DefaultSection"),("look-ups","file.go:SectionsByName"),("reading","parser.go:parse"),("writing","file.go:writeToBuffer")])
p("C33","Values survive reload under the options they are read with",
  "Whatever combination of the options on how values are read (IgnoreContinuation, IgnoreInlineComment, SpaceBeforeInlineComment, AllowPythonMultilineValues, PreserveSurroundedQuote, UnescapeValueDoubleQuotes, UnescapeValueCommentSymbols, AllowBooleanKeys, AllowShadows, AllowNestedValues) a file has, every value (one without both a back quote and three double quotes), every shadow value, boolean key name and trimmed nested value of one line that was set or read is the same after writing the file without indent and loading it with the same options. (The first value of a key with shadows is not empty, and values of several lines are not mixed with nested ones.)",
  ["inputs","configurations"],"all values and all combinations of the options, up to the stated length; all documents of a few lines",
  "Tests write files with a few fixed options.",
  ["file.go","parser.go"],[("writing","file.go:quoteValue"),("reading","parser.go:readValue"),("quotes","parser.go:hasSurroundedQuote")])
main()
