From dc8b823daac351980fbeafc43e3fb2d39618cde9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:08 +0000
Subject: [PATCH 01/63] fix: treat the default section name like any other in
 case-insensitive modes

NewSection("DEFAULT") and a "[DEFAULT]" header created a second, unreachable
section because every look-up lowercases the name.
---
 file.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/file.go b/file.go
index f8b2240..19dd765 100644
--- a/file.go
+++ b/file.go
@@ -85,7 +85,7 @@ func (f *File) NewSection(name string) (*Section, error) {
 		return nil, errors.New("empty section name")
 	}
 
-	if (f.options.Insensitive || f.options.InsensitiveSections) && name != DefaultSection {
+	if f.options.Insensitive || f.options.InsensitiveSections {
 		name = strings.ToLower(name)
 	}
 
-- 
2.43.0


From c4542ae988a788adf8480fee21cca1d501d65c52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:09 +0000
Subject: [PATCH 02/63] fix: DeleteKey honours case-insensitive key names

---
 section.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/section.go b/section.go
index a3615d8..2b1e2b9 100644
--- a/section.go
+++ b/section.go
@@ -226,6 +226,10 @@ func (s *Section) KeysHash() map[string]string {
 
 // DeleteKey deletes a key from section.
 func (s *Section) DeleteKey(name string) {
+	if s.f.options.Insensitive || s.f.options.InsensitiveKeys {
+		name = strings.ToLower(name)
+	}
+
 	if s.f.BlockMode {
 		s.f.lock.Lock()
 		defer s.f.lock.Unlock()
-- 
2.43.0


From cb4c0341cbb6c84f38540f4226796cb3539711ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:26 +0000
Subject: [PATCH 03/63] fix: Strings skips a multi-byte delimiter by its number
 of runes

Counting bytes skipped part of the value or ran past its end and panicked.
---
 key.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/key.go b/key.go
index a19d9f3..50ed899 100644
--- a/key.go
+++ b/key.go
@@ -21,6 +21,7 @@ import (
 	"strconv"
 	"strings"
 	"time"
+	"unicode/utf8"
 )
 
 // Key represents a key under a section.
@@ -511,7 +512,7 @@ func (k *Key) Strings(delim string) []string {
 			if runes[idx] == '\\' {
 				escape = true
 			} else if strings.HasPrefix(string(runes[idx:]), delim) {
-				idx += len(delim) - 1
+				idx += utf8.RuneCountInString(delim) - 1
 				vals = append(vals, strings.TrimSpace(buf.String()))
 				buf.Reset()
 			} else {
-- 
2.43.0


From b411672ce43f8a1ce812e1814d0997c7917be87b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:28 +0000
Subject: [PATCH 04/63] fix: writing a comment with an empty line no longer
 panics

---
 file.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/file.go b/file.go
index 19dd765..a6e8dfe 100644
--- a/file.go
+++ b/file.go
@@ -349,7 +349,7 @@ func (f *File) writeToBuffer(indent string) (*bytes.Buffer, error) {
 			// Support multiline comments
 			lines := strings.Split(sec.Comment, LineBreak)
 			for i := range lines {
-				if lines[i][0] != '#' && lines[i][0] != ';' {
+				if len(lines[i]) == 0 || (lines[i][0] != '#' && lines[i][0] != ';') {
 					lines[i] = "; " + lines[i]
 				} else {
 					lines[i] = lines[i][:1] + " " + strings.TrimSpace(lines[i][1:])
@@ -419,7 +419,7 @@ func (f *File) writeToBuffer(indent string) (*bytes.Buffer, error) {
 				// Support multiline comments
 				lines := strings.Split(key.Comment, LineBreak)
 				for i := range lines {
-					if lines[i][0] != '#' && lines[i][0] != ';' {
+					if len(lines[i]) == 0 || (lines[i][0] != '#' && lines[i][0] != ';') {
 						lines[i] = "; " + strings.TrimSpace(lines[i])
 					} else {
 						lines[i] = lines[i][:1] + " " + strings.TrimSpace(lines[i][1:])
-- 
2.43.0


From 5b67cb0dc4fa4cfa6742768bc8e2afcdf1ee2a41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:29 +0000
Subject: [PATCH 05/63] fix: quote key names that would be read back as
 something else

Names starting with a comment sign or a bracket were read back as comments or
sections, and names with a back quote and a delimiter were cut short.
---
 file.go | 27 ++++++++++++++++-----------
 1 file changed, 16 insertions(+), 11 deletions(-)

diff --git a/file.go b/file.go
index a6e8dfe..91166f4 100644
--- a/file.go
+++ b/file.go
@@ -333,6 +333,17 @@ func (f *File) Append(source interface{}, others ...interface{}) error {
 	return f.Reload()
 }
 
+// quoteKeyName returns the key name as it has to be written to be read back.
+func (f *File) quoteKeyName(name string) string {
+	switch {
+	case strings.Contains(name, "`"):
+		return `"""` + name + `"""`
+	case strings.ContainsAny(name, "\""+f.options.KeyValueDelimiters) || strings.IndexAny(name, "#;[") == 0:
+		return "`" + name + "`"
+	}
+	return name
+}
+
 func (f *File) writeToBuffer(indent string) (*bytes.Buffer, error) {
 	equalSign := DefaultFormatLeft + f.options.KeyValueDelimiterOnWrite + DefaultFormatRight
 
@@ -394,11 +405,8 @@ func (f *File) writeToBuffer(indent string) (*bytes.Buffer, error) {
 		if PrettyFormat {
 			for _, kname := range sec.keyList {
 				keyLength := len(kname)
-				// First case will surround key by ` and second by """
-				if strings.Contains(kname, "\"") || strings.ContainsAny(kname, f.options.KeyValueDelimiters) {
-					keyLength += 2
-				} else if strings.Contains(kname, "`") {
-					keyLength += 6
+				if !sec.Key(kname).isAutoIncrement {
+					keyLength = len(f.quoteKeyName(kname))
 				}
 
 				if keyLength > alignLength {
@@ -435,13 +443,10 @@ func (f *File) writeToBuffer(indent string) (*bytes.Buffer, error) {
 				buf.WriteString(indent)
 			}
 
-			switch {
-			case key.isAutoIncrement:
+			if key.isAutoIncrement {
 				kname = "-"
-			case strings.Contains(kname, "\"") || strings.ContainsAny(kname, f.options.KeyValueDelimiters):
-				kname = "`" + kname + "`"
-			case strings.Contains(kname, "`"):
-				kname = `"""` + kname + `"""`
+			} else {
+				kname = f.quoteKeyName(kname)
 			}
 
 			writeKeyValue := func(val string) (bool, error) {
-- 
2.43.0


From 0e21e067c720405f6fdbc5ce9605327bd4d76ea6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:00 +0000
Subject: [PATCH 06/63] fix: quote values that would be read back differently

Values in quotes lost them, values ending in a backslash swallowed the next
line, and values with three double quotes or with outer blanks and a double
quote came back changed.
---
 file.go | 31 ++++++++++++++++++++++---------
 1 file changed, 22 insertions(+), 9 deletions(-)

diff --git a/file.go b/file.go
index 91166f4..b9de07d 100644
--- a/file.go
+++ b/file.go
@@ -344,6 +344,27 @@ func (f *File) quoteKeyName(name string) string {
 	return name
 }
 
+// quoteValue returns the value as it has to be written to be read back.
+func (f *File) quoteValue(val string) string {
+	hasBackquote := strings.Contains(val, "`")
+	isPadded := len(strings.TrimSpace(val)) != len(val)
+	switch {
+	case hasBackquote || (strings.Contains(val, "\n") && !strings.Contains(val, `"""`)):
+		return `"""` + val + `"""`
+	case strings.Contains(val, "\n"),
+		!f.options.IgnoreInlineComment && strings.ContainsAny(val, "#;"),
+		// The following would be taken for quotes or for a continuation line
+		strings.HasPrefix(val, `"""`) || (f.options.UnescapeValueDoubleQuotes && strings.HasPrefix(val, `"`)),
+		!f.options.PreserveSurroundedQuote && (hasSurroundedQuote(val, '"') || hasSurroundedQuote(val, '\'')),
+		!f.options.IgnoreContinuation && strings.HasSuffix(val, `\`),
+		isPadded && strings.Contains(val, `"`):
+		return "`" + val + "`"
+	case isPadded:
+		return `"` + val + `"`
+	}
+	return val
+}
+
 func (f *File) writeToBuffer(indent string) (*bytes.Buffer, error) {
 	equalSign := DefaultFormatLeft + f.options.KeyValueDelimiterOnWrite + DefaultFormatRight
 
@@ -464,15 +485,7 @@ func (f *File) writeToBuffer(indent string) (*bytes.Buffer, error) {
 					buf.Write(alignSpaces[:alignLength-len(kname)])
 				}
 
-				// In case key value contains "\n", "`", "\"", "#" or ";"
-				if strings.ContainsAny(val, "\n`") {
-					val = `"""` + val + `"""`
-				} else if !f.options.IgnoreInlineComment && strings.ContainsAny(val, "#;") {
-					val = "`" + val + "`"
-				} else if len(strings.TrimSpace(val)) != len(val) {
-					val = `"` + val + `"`
-				}
-				if _, err := buf.WriteString(equalSign + val + LineBreak); err != nil {
+				if _, err := buf.WriteString(equalSign + f.quoteValue(val) + LineBreak); err != nil {
 					return false, err
 				}
 				return false, nil
-- 
2.43.0


From 13666bc63d57c8a046e1b9e65e0d84132439a8ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:20 +0000
Subject: [PATCH 07/63] fix: keep the value of a boolean key that was changed
 after loading

It was written without its value and came back as true.
---
 file.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/file.go b/file.go
index b9de07d..f125db4 100644
--- a/file.go
+++ b/file.go
@@ -475,7 +475,8 @@ func (f *File) writeToBuffer(indent string) (*bytes.Buffer, error) {
 					return false, err
 				}
 
-				if key.isBooleanType {
+				// A boolean key that was given another value is no longer one
+				if key.isBooleanType && val == "true" {
 					buf.WriteString(LineBreak)
 					return true, nil
 				}
-- 
2.43.0


From 4842f410abf2453e41780f74a3de636c79f3d3c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:21 +0000
Subject: [PATCH 08/63] fix: ChildSections lists every non-unique section once
 and takes the lock

---
 section.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/section.go b/section.go
index 2b1e2b9..dca2e9c 100644
--- a/section.go
+++ b/section.go
@@ -251,9 +251,15 @@ func (s *Section) DeleteKey(name string) {
 func (s *Section) ChildSections() []*Section {
 	prefix := s.name + s.f.options.ChildSectionDelimiter
 	children := make([]*Section, 0, 3)
-	for _, name := range s.f.sectionList {
+
+	if s.f.BlockMode {
+		s.f.lock.RLock()
+		defer s.f.lock.RUnlock()
+	}
+
+	for i, name := range s.f.sectionList {
 		if strings.HasPrefix(name, prefix) {
-			children = append(children, s.f.sections[name]...)
+			children = append(children, s.f.sections[name][s.f.sectionIndexes[i]])
 		}
 	}
 	return children
-- 
2.43.0


From 4cb7cf1ab7f93b8b2228455549fc0f06543bef99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:23 +0000
Subject: [PATCH 09/63] fix: listing sections and keys takes the lock in block
 mode

---
 file.go    |  5 +++++
 section.go | 14 ++++++++++++--
 2 files changed, 17 insertions(+), 2 deletions(-)

diff --git a/file.go b/file.go
index f125db4..4eca81e 100644
--- a/file.go
+++ b/file.go
@@ -217,6 +217,11 @@ func (f *File) ChildSections(name string) []*Section {
 
 // SectionStrings returns list of section names.
 func (f *File) SectionStrings() []string {
+	if f.BlockMode {
+		f.lock.RLock()
+		defer f.lock.RUnlock()
+	}
+
 	list := make([]string, len(f.sectionList))
 	copy(list, f.sectionList)
 	return list
diff --git a/section.go b/section.go
index dca2e9c..e373dc4 100644
--- a/section.go
+++ b/section.go
@@ -176,9 +176,14 @@ func (s *Section) Key(name string) *Key {
 
 // Keys returns list of keys of section.
 func (s *Section) Keys() []*Key {
+	if s.f.BlockMode {
+		s.f.lock.RLock()
+		defer s.f.lock.RUnlock()
+	}
+
 	keys := make([]*Key, len(s.keyList))
-	for i := range s.keyList {
-		keys[i] = s.Key(s.keyList[i])
+	for i, name := range s.keyList {
+		keys[i] = s.keys[name]
 	}
 	return keys
 }
@@ -205,6 +210,11 @@ func (s *Section) ParentKeys() []*Key {
 
 // KeyStrings returns list of key names of section.
 func (s *Section) KeyStrings() []string {
+	if s.f.BlockMode {
+		s.f.lock.RLock()
+		defer s.f.lock.RUnlock()
+	}
+
 	list := make([]string, len(s.keyList))
 	copy(list, s.keyList)
 	return list
-- 
2.43.0


From e9aa8be885f0a41a37b42c37219c359ed41365e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:24 +0000
Subject: [PATCH 10/63] fix: Key does not reset a key that another goroutine
 has just created

---
 section.go | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/section.go b/section.go
index e373dc4..c40b2aa 100644
--- a/section.go
+++ b/section.go
@@ -64,6 +64,11 @@ func (s *Section) SetBody(body string) {
 
 // NewKey creates a new key to given section.
 func (s *Section) NewKey(name, val string) (*Key, error) {
+	return s.newKey(name, val, false)
+}
+
+// newKey creates a new key, or changes the existing one unless told to keep it.
+func (s *Section) newKey(name, val string, keepExisting bool) (*Key, error) {
 	if len(name) == 0 {
 		return nil, errors.New("error creating new key: empty key name")
 	} else if s.f.options.Insensitive || s.f.options.InsensitiveKeys {
@@ -76,6 +81,9 @@ func (s *Section) NewKey(name, val string) (*Key, error) {
 	}
 
 	if inSlice(name, s.keyList) {
+		if keepExisting {
+			return s.keys[name], nil
+		}
 		if s.f.options.AllowShadows {
 			if err := s.keys[name].addShadow(val); err != nil {
 				return nil, err
@@ -168,7 +176,8 @@ func (s *Section) Key(name string) *Key {
 	if err != nil {
 		// It's OK here because the only possible error is empty key name,
 		// but if it's empty, this piece of code won't be executed.
-		key, _ = s.NewKey(name, "")
+		// Another goroutine may have created the key in the meantime.
+		key, _ = s.newKey(name, "", true)
 		return key
 	}
 	return key
-- 
2.43.0


From 4b6308385489ed4ae1fc5e951dba6bfc0c349d21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:25 +0000
Subject: [PATCH 11/63] fix: SetValue on a deleted key does not bring its name
 back into KeysHash

---
 key.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/key.go b/key.go
index 50ed899..9a74020 100644
--- a/key.go
+++ b/key.go
@@ -834,5 +834,8 @@ func (k *Key) SetValue(v string) {
 	}
 
 	k.value = v
-	k.s.keysHash[k.name] = v
+	// The key may have been deleted or replaced, then the hash is not its own.
+	if k.s.keys[k.name] == k {
+		k.s.keysHash[k.name] = v
+	}
 }
-- 
2.43.0


From e4300f529aa196233f77bf5a515f314b22e52063 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:50 +0000
Subject: [PATCH 12/63] fix: a default taken over by a Must reader shows up in
 KeysHash

It was set without the lock and left the hash with the old value.
---
 key.go | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/key.go b/key.go
index 9a74020..2993550 100644
--- a/key.go
+++ b/key.go
@@ -253,7 +253,7 @@ func (k *Key) Time() (time.Time, error) {
 func (k *Key) MustString(defaultVal string) string {
 	val := k.String()
 	if len(val) == 0 {
-		k.value = defaultVal
+		k.SetValue(defaultVal)
 		return defaultVal
 	}
 	return val
@@ -264,7 +264,7 @@ func (k *Key) MustString(defaultVal string) string {
 func (k *Key) MustBool(defaultVal ...bool) bool {
 	val, err := k.Bool()
 	if len(defaultVal) > 0 && err != nil {
-		k.value = strconv.FormatBool(defaultVal[0])
+		k.SetValue(strconv.FormatBool(defaultVal[0]))
 		return defaultVal[0]
 	}
 	return val
@@ -275,7 +275,7 @@ func (k *Key) MustBool(defaultVal ...bool) bool {
 func (k *Key) MustFloat64(defaultVal ...float64) float64 {
 	val, err := k.Float64()
 	if len(defaultVal) > 0 && err != nil {
-		k.value = strconv.FormatFloat(defaultVal[0], 'f', -1, 64)
+		k.SetValue(strconv.FormatFloat(defaultVal[0], 'f', -1, 64))
 		return defaultVal[0]
 	}
 	return val
@@ -286,7 +286,7 @@ func (k *Key) MustFloat64(defaultVal ...float64) float64 {
 func (k *Key) MustInt(defaultVal ...int) int {
 	val, err := k.Int()
 	if len(defaultVal) > 0 && err != nil {
-		k.value = strconv.FormatInt(int64(defaultVal[0]), 10)
+		k.SetValue(strconv.FormatInt(int64(defaultVal[0]), 10))
 		return defaultVal[0]
 	}
 	return val
@@ -297,7 +297,7 @@ func (k *Key) MustInt(defaultVal ...int) int {
 func (k *Key) MustInt64(defaultVal ...int64) int64 {
 	val, err := k.Int64()
 	if len(defaultVal) > 0 && err != nil {
-		k.value = strconv.FormatInt(defaultVal[0], 10)
+		k.SetValue(strconv.FormatInt(defaultVal[0], 10))
 		return defaultVal[0]
 	}
 	return val
@@ -308,7 +308,7 @@ func (k *Key) MustInt64(defaultVal ...int64) int64 {
 func (k *Key) MustUint(defaultVal ...uint) uint {
 	val, err := k.Uint()
 	if len(defaultVal) > 0 && err != nil {
-		k.value = strconv.FormatUint(uint64(defaultVal[0]), 10)
+		k.SetValue(strconv.FormatUint(uint64(defaultVal[0]), 10))
 		return defaultVal[0]
 	}
 	return val
@@ -319,7 +319,7 @@ func (k *Key) MustUint(defaultVal ...uint) uint {
 func (k *Key) MustUint64(defaultVal ...uint64) uint64 {
 	val, err := k.Uint64()
 	if len(defaultVal) > 0 && err != nil {
-		k.value = strconv.FormatUint(defaultVal[0], 10)
+		k.SetValue(strconv.FormatUint(defaultVal[0], 10))
 		return defaultVal[0]
 	}
 	return val
@@ -330,7 +330,7 @@ func (k *Key) MustUint64(defaultVal ...uint64) uint64 {
 func (k *Key) MustDuration(defaultVal ...time.Duration) time.Duration {
 	val, err := k.Duration()
 	if len(defaultVal) > 0 && err != nil {
-		k.value = defaultVal[0].String()
+		k.SetValue(defaultVal[0].String())
 		return defaultVal[0]
 	}
 	return val
@@ -341,7 +341,7 @@ func (k *Key) MustDuration(defaultVal ...time.Duration) time.Duration {
 func (k *Key) MustTimeFormat(format string, defaultVal ...time.Time) time.Time {
 	val, err := k.TimeFormat(format)
 	if len(defaultVal) > 0 && err != nil {
-		k.value = defaultVal[0].Format(format)
+		k.SetValue(defaultVal[0].Format(format))
 		return defaultVal[0]
 	}
 	return val
-- 
2.43.0


From a5b050eaf0d784cbe471ee2d963da159e986022a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:51 +0000
Subject: [PATCH 13/63] fix: numbers out of range read as zero like other
 invalid numbers

The documentation promises zero when an error occurs, but the nearest
representable number was returned.
---
 key.go | 30 +++++++++++++++++++++++++-----
 1 file changed, 25 insertions(+), 5 deletions(-)

diff --git a/key.go b/key.go
index 2993550..ffc2669 100644
--- a/key.go
+++ b/key.go
@@ -18,6 +18,7 @@ import (
 	"bytes"
 	"errors"
 	"fmt"
+	"reflect"
 	"strconv"
 	"strings"
 	"time"
@@ -274,7 +275,10 @@ func (k *Key) MustBool(defaultVal ...bool) bool {
 // it returns 0.0 if error occurs.
 func (k *Key) MustFloat64(defaultVal ...float64) float64 {
 	val, err := k.Float64()
-	if len(defaultVal) > 0 && err != nil {
+	if err != nil {
+		if len(defaultVal) == 0 {
+			return 0
+		}
 		k.SetValue(strconv.FormatFloat(defaultVal[0], 'f', -1, 64))
 		return defaultVal[0]
 	}
@@ -285,7 +289,10 @@ func (k *Key) MustFloat64(defaultVal ...float64) float64 {
 // it returns 0 if error occurs.
 func (k *Key) MustInt(defaultVal ...int) int {
 	val, err := k.Int()
-	if len(defaultVal) > 0 && err != nil {
+	if err != nil {
+		if len(defaultVal) == 0 {
+			return 0
+		}
 		k.SetValue(strconv.FormatInt(int64(defaultVal[0]), 10))
 		return defaultVal[0]
 	}
@@ -296,7 +303,10 @@ func (k *Key) MustInt(defaultVal ...int) int {
 // it returns 0 if error occurs.
 func (k *Key) MustInt64(defaultVal ...int64) int64 {
 	val, err := k.Int64()
-	if len(defaultVal) > 0 && err != nil {
+	if err != nil {
+		if len(defaultVal) == 0 {
+			return 0
+		}
 		k.SetValue(strconv.FormatInt(defaultVal[0], 10))
 		return defaultVal[0]
 	}
@@ -307,7 +317,10 @@ func (k *Key) MustInt64(defaultVal ...int64) int64 {
 // it returns 0 if error occurs.
 func (k *Key) MustUint(defaultVal ...uint) uint {
 	val, err := k.Uint()
-	if len(defaultVal) > 0 && err != nil {
+	if err != nil {
+		if len(defaultVal) == 0 {
+			return 0
+		}
 		k.SetValue(strconv.FormatUint(uint64(defaultVal[0]), 10))
 		return defaultVal[0]
 	}
@@ -318,7 +331,10 @@ func (k *Key) MustUint(defaultVal ...uint) uint {
 // it returns 0 if error occurs.
 func (k *Key) MustUint64(defaultVal ...uint64) uint64 {
 	val, err := k.Uint64()
-	if len(defaultVal) > 0 && err != nil {
+	if err != nil {
+		if len(defaultVal) == 0 {
+			return 0
+		}
 		k.SetValue(strconv.FormatUint(defaultVal[0], 10))
 		return defaultVal[0]
 	}
@@ -819,6 +835,10 @@ func (k *Key) doParse(strs []string, addInvalid, returnOnInvalid bool, parser Pa
 		if err != nil && returnOnInvalid {
 			return nil, err
 		}
+		if err != nil && addInvalid {
+			// Parsers return the nearest value they can represent with range errors.
+			val = reflect.Zero(reflect.TypeOf(val)).Interface()
+		}
 		if err == nil || addInvalid {
 			vals = append(vals, val)
 		}
-- 
2.43.0


From f451bfc43cdb5a3700c3955d57cba98894fedb3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:52 +0000
Subject: [PATCH 14/63] fix: In readers return the default value when the value
 is invalid

An invalid value counted as zero and matched a zero candidate.
---
 key.go | 30 ++++++++++++++++++++++++------
 1 file changed, 24 insertions(+), 6 deletions(-)

diff --git a/key.go b/key.go
index ffc2669..b8d7544 100644
--- a/key.go
+++ b/key.go
@@ -384,7 +384,10 @@ func (k *Key) In(defaultVal string, candidates []string) string {
 // InFloat64 always returns value without error,
 // it returns default value if error occurs or doesn't fit into candidates.
 func (k *Key) InFloat64(defaultVal float64, candidates []float64) float64 {
-	val := k.MustFloat64()
+	val, err := k.Float64()
+	if err != nil {
+		return defaultVal
+	}
 	for _, cand := range candidates {
 		if val == cand {
 			return val
@@ -396,7 +399,10 @@ func (k *Key) InFloat64(defaultVal float64, candidates []float64) float64 {
 // InInt always returns value without error,
 // it returns default value if error occurs or doesn't fit into candidates.
 func (k *Key) InInt(defaultVal int, candidates []int) int {
-	val := k.MustInt()
+	val, err := k.Int()
+	if err != nil {
+		return defaultVal
+	}
 	for _, cand := range candidates {
 		if val == cand {
 			return val
@@ -408,7 +414,10 @@ func (k *Key) InInt(defaultVal int, candidates []int) int {
 // InInt64 always returns value without error,
 // it returns default value if error occurs or doesn't fit into candidates.
 func (k *Key) InInt64(defaultVal int64, candidates []int64) int64 {
-	val := k.MustInt64()
+	val, err := k.Int64()
+	if err != nil {
+		return defaultVal
+	}
 	for _, cand := range candidates {
 		if val == cand {
 			return val
@@ -420,7 +429,10 @@ func (k *Key) InInt64(defaultVal int64, candidates []int64) int64 {
 // InUint always returns value without error,
 // it returns default value if error occurs or doesn't fit into candidates.
 func (k *Key) InUint(defaultVal uint, candidates []uint) uint {
-	val := k.MustUint()
+	val, err := k.Uint()
+	if err != nil {
+		return defaultVal
+	}
 	for _, cand := range candidates {
 		if val == cand {
 			return val
@@ -432,7 +444,10 @@ func (k *Key) InUint(defaultVal uint, candidates []uint) uint {
 // InUint64 always returns value without error,
 // it returns default value if error occurs or doesn't fit into candidates.
 func (k *Key) InUint64(defaultVal uint64, candidates []uint64) uint64 {
-	val := k.MustUint64()
+	val, err := k.Uint64()
+	if err != nil {
+		return defaultVal
+	}
 	for _, cand := range candidates {
 		if val == cand {
 			return val
@@ -444,7 +459,10 @@ func (k *Key) InUint64(defaultVal uint64, candidates []uint64) uint64 {
 // InTimeFormat always parses with given format and returns value without error,
 // it returns default value if error occurs or doesn't fit into candidates.
 func (k *Key) InTimeFormat(format string, defaultVal time.Time, candidates []time.Time) time.Time {
-	val := k.MustTimeFormat(format)
+	val, err := k.TimeFormat(format)
+	if err != nil {
+		return defaultVal
+	}
 	for _, cand := range candidates {
 		if val == cand {
 			return val
-- 
2.43.0


From 81e7f385b813b52d21aae88a2d0563b32514411d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:54 +0000
Subject: [PATCH 15/63] fix: Range readers return the default value when the
 value is invalid

An invalid value counted as zero and NaN as part of every range.
---
 key.go | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/key.go b/key.go
index b8d7544..32cbf96 100644
--- a/key.go
+++ b/key.go
@@ -480,8 +480,8 @@ func (k *Key) InTime(defaultVal time.Time, candidates []time.Time) time.Time {
 // RangeFloat64 checks if value is in given range inclusively,
 // and returns default value if it's not.
 func (k *Key) RangeFloat64(defaultVal, min, max float64) float64 {
-	val := k.MustFloat64()
-	if val < min || val > max {
+	val, err := k.Float64()
+	if err != nil || !(val >= min && val <= max) {
 		return defaultVal
 	}
 	return val
@@ -490,8 +490,8 @@ func (k *Key) RangeFloat64(defaultVal, min, max float64) float64 {
 // RangeInt checks if value is in given range inclusively,
 // and returns default value if it's not.
 func (k *Key) RangeInt(defaultVal, min, max int) int {
-	val := k.MustInt()
-	if val < min || val > max {
+	val, err := k.Int()
+	if err != nil || val < min || val > max {
 		return defaultVal
 	}
 	return val
@@ -500,8 +500,8 @@ func (k *Key) RangeInt(defaultVal, min, max int) int {
 // RangeInt64 checks if value is in given range inclusively,
 // and returns default value if it's not.
 func (k *Key) RangeInt64(defaultVal, min, max int64) int64 {
-	val := k.MustInt64()
-	if val < min || val > max {
+	val, err := k.Int64()
+	if err != nil || val < min || val > max {
 		return defaultVal
 	}
 	return val
@@ -510,8 +510,8 @@ func (k *Key) RangeInt64(defaultVal, min, max int64) int64 {
 // RangeTimeFormat checks if value with given format is in given range inclusively,
 // and returns default value if it's not.
 func (k *Key) RangeTimeFormat(format string, defaultVal, min, max time.Time) time.Time {
-	val := k.MustTimeFormat(format)
-	if val.Unix() < min.Unix() || val.Unix() > max.Unix() {
+	val, err := k.TimeFormat(format)
+	if err != nil || val.Unix() < min.Unix() || val.Unix() > max.Unix() {
 		return defaultVal
 	}
 	return val
-- 
2.43.0


From bbe9928c9739ade14d786f25c75aab8c3975b045 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:32 +0000
Subject: [PATCH 16/63] fix: mapping to a slice of a named element type no
 longer panics

---
 struct.go | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/struct.go b/struct.go
index a486b2f..046c50c 100644
--- a/struct.go
+++ b/struct.go
@@ -123,19 +123,19 @@ func setSliceWithProperType(key *Key, field reflect.Value, delim string, allowSh
 	for i := 0; i < numVals; i++ {
 		switch sliceOf {
 		case reflect.String:
-			slice.Index(i).Set(reflect.ValueOf(vals.([]string)[i]))
+			slice.Index(i).SetString(vals.([]string)[i])
 		case reflect.Int:
-			slice.Index(i).Set(reflect.ValueOf(vals.([]int)[i]))
+			slice.Index(i).SetInt(int64(vals.([]int)[i]))
 		case reflect.Int64:
-			slice.Index(i).Set(reflect.ValueOf(vals.([]int64)[i]))
+			slice.Index(i).SetInt(vals.([]int64)[i])
 		case reflect.Uint:
-			slice.Index(i).Set(reflect.ValueOf(vals.([]uint)[i]))
+			slice.Index(i).SetUint(uint64(vals.([]uint)[i]))
 		case reflect.Uint64:
-			slice.Index(i).Set(reflect.ValueOf(vals.([]uint64)[i]))
+			slice.Index(i).SetUint(vals.([]uint64)[i])
 		case reflect.Float64:
-			slice.Index(i).Set(reflect.ValueOf(vals.([]float64)[i]))
+			slice.Index(i).SetFloat(vals.([]float64)[i])
 		case reflect.Bool:
-			slice.Index(i).Set(reflect.ValueOf(vals.([]bool)[i]))
+			slice.Index(i).SetBool(vals.([]bool)[i])
 		case reflectTime:
 			slice.Index(i).Set(reflect.ValueOf(vals.([]time.Time)[i]))
 		}
-- 
2.43.0


From 40addde18b0451fc8d60e263489bc0bf3a1ce543 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:34 +0000
Subject: [PATCH 17/63] fix: mapping a duration text to an unsigned field no
 longer panics

A time.Duration can never be assigned to an unsigned integer.
---
 struct.go | 11 -----------
 1 file changed, 11 deletions(-)

diff --git a/struct.go b/struct.go
index 046c50c..99fccfc 100644
--- a/struct.go
+++ b/struct.go
@@ -210,17 +210,6 @@ func setWithProperType(t reflect.Type, key *Key, field reflect.Value, delim stri
 		}
 	//	byte is an alias for uint8, so supporting uint8 breaks support for byte
 	case reflect.Uint, reflect.Uint16, reflect.Uint32, reflect.Uint64:
-		durationVal, err := key.Duration()
-		// Skip zero value
-		if err == nil && uint64(durationVal) > 0 {
-			if isPtr {
-				field.Set(reflect.ValueOf(&durationVal))
-			} else {
-				field.Set(reflect.ValueOf(durationVal))
-			}
-			return nil
-		}
-
 		uintVal, err := key.Uint64()
 		if err != nil {
 			return wrapStrictError(err, isStrict)
-- 
2.43.0


From b2aa7926ef6ff3bc628e512a48b5f399ad8fd348 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:35 +0000
Subject: [PATCH 18/63] fix: mapping to pointers to durations and to named
 types no longer panics

A plain number for a *time.Duration field and any value for a pointer to a
named string, bool or duration type panicked.
---
 struct.go | 24 +++++++++++++++---------
 1 file changed, 15 insertions(+), 9 deletions(-)

diff --git a/struct.go b/struct.go
index 99fccfc..431515e 100644
--- a/struct.go
+++ b/struct.go
@@ -164,7 +164,9 @@ func setWithProperType(t reflect.Type, key *Key, field reflect.Value, delim stri
 	case reflect.String:
 		stringVal := key.String()
 		if isPtr {
-			field.Set(reflect.ValueOf(&stringVal))
+			pv := reflect.New(t.Elem())
+			pv.Elem().SetString(stringVal)
+			field.Set(pv)
 		} else if len(stringVal) > 0 {
 			field.SetString(key.String())
 		}
@@ -174,7 +176,9 @@ func setWithProperType(t reflect.Type, key *Key, field reflect.Value, delim stri
 			return wrapStrictError(err, isStrict)
 		}
 		if isPtr {
-			field.Set(reflect.ValueOf(&boolVal))
+			pv := reflect.New(t.Elem())
+			pv.Elem().SetBool(boolVal)
+			field.Set(pv)
 		} else {
 			field.SetBool(boolVal)
 		}
@@ -183,16 +187,18 @@ func setWithProperType(t reflect.Type, key *Key, field reflect.Value, delim stri
 		if vt.Name() == "Duration" {
 			durationVal, err := key.Duration()
 			if err != nil {
-				if intVal, err := key.Int64(); err == nil {
-					field.SetInt(intVal)
-					return nil
+				intVal, intErr := key.Int64()
+				if intErr != nil {
+					return wrapStrictError(err, isStrict)
 				}
-				return wrapStrictError(err, isStrict)
+				durationVal = time.Duration(intVal)
 			}
 			if isPtr {
-				field.Set(reflect.ValueOf(&durationVal))
-			} else if int64(durationVal) > 0 {
-				field.Set(reflect.ValueOf(durationVal))
+				pv := reflect.New(t.Elem())
+				pv.Elem().SetInt(int64(durationVal))
+				field.Set(pv)
+			} else if err != nil || int64(durationVal) > 0 {
+				field.SetInt(int64(durationVal))
 			}
 			return nil
 		}
-- 
2.43.0


From 65b4b8ea0b6893ec68922a0d06f74ab0e338a63d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:36 +0000
Subject: [PATCH 19/63] fix: mapping a key to a struct other than time.Time is
 an error, not a panic

---
 struct.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/struct.go b/struct.go
index 431515e..b03e2de 100644
--- a/struct.go
+++ b/struct.go
@@ -111,6 +111,9 @@ func setSliceWithProperType(key *Key, field reflect.Value, delim string, allowSh
 	case reflect.Bool:
 		vals, err = key.parseBools(strs, true, false)
 	case reflectTime:
+		if field.Type().Elem() != reflect.TypeOf(time.Time{}) {
+			return fmt.Errorf("unsupported type '[]%s'", field.Type().Elem())
+		}
 		vals, err = key.parseTimesFormat(time.RFC3339, strs, true, false)
 	default:
 		return fmt.Errorf("unsupported type '[]%s'", sliceOf)
@@ -245,6 +248,9 @@ func setWithProperType(t reflect.Type, key *Key, field reflect.Value, delim stri
 		if err != nil {
 			return wrapStrictError(err, isStrict)
 		}
+		if vt != reflect.TypeOf(timeVal) {
+			return fmt.Errorf("unsupported type %q", t)
+		}
 		if isPtr {
 			field.Set(reflect.ValueOf(&timeVal))
 		} else {
-- 
2.43.0


From ce3b4c204e574389c7fb3f12d4b90983cec59072 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:38 +0000
Subject: [PATCH 20/63] fix: a number too big for its field is an invalid value
 when mapping

It was silently cut to the size of the field.
---
 struct.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/struct.go b/struct.go
index b03e2de..bb25b1a 100644
--- a/struct.go
+++ b/struct.go
@@ -210,6 +210,9 @@ func setWithProperType(t reflect.Type, key *Key, field reflect.Value, delim stri
 		if err != nil {
 			return wrapStrictError(err, isStrict)
 		}
+		if reflect.Zero(vt).OverflowInt(intVal) {
+			return wrapStrictError(fmt.Errorf("value %v overflows type %q", intVal, vt), isStrict)
+		}
 		if isPtr {
 			pv := reflect.New(t.Elem())
 			pv.Elem().SetInt(intVal)
@@ -223,6 +226,9 @@ func setWithProperType(t reflect.Type, key *Key, field reflect.Value, delim stri
 		if err != nil {
 			return wrapStrictError(err, isStrict)
 		}
+		if reflect.Zero(vt).OverflowUint(uintVal) {
+			return wrapStrictError(fmt.Errorf("value %v overflows type %q", uintVal, vt), isStrict)
+		}
 		if isPtr {
 			pv := reflect.New(t.Elem())
 			pv.Elem().SetUint(uintVal)
@@ -236,6 +242,9 @@ func setWithProperType(t reflect.Type, key *Key, field reflect.Value, delim stri
 		if err != nil {
 			return wrapStrictError(err, isStrict)
 		}
+		if reflect.Zero(vt).OverflowFloat(floatVal) {
+			return wrapStrictError(fmt.Errorf("value %v overflows type %q", floatVal, vt), isStrict)
+		}
 		if isPtr {
 			pv := reflect.New(t.Elem())
 			pv.Elem().SetFloat(floatVal)
-- 
2.43.0


From 7ffce610578bc3baa50a52981e44815c4a13f2c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:39 +0000
Subject: [PATCH 21/63] fix: reflecting a struct no longer stops at a
 self-reflecting or empty field

The fields after a StructReflector or an empty non-unique slice were left out.
---
 struct.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/struct.go b/struct.go
index bb25b1a..8c25992 100644
--- a/struct.go
+++ b/struct.go
@@ -608,7 +608,10 @@ func (s *Section) reflectFrom(val reflect.Value) error {
 		}
 
 		if r, ok := field.Interface().(StructReflector); ok {
-			return r.ReflectINIStruct(s.f)
+			if err := r.ReflectINIStruct(s.f); err != nil {
+				return err
+			}
+			continue
 		}
 
 		fieldName := s.parseFieldName(tpField.Name, rawName)
@@ -645,9 +648,6 @@ func (s *Section) reflectFrom(val reflect.Value) error {
 
 		if allowNonUnique && tpField.Type.Kind() == reflect.Slice {
 			slice := field.Slice(0, field.Len())
-			if field.Len() == 0 {
-				return nil
-			}
 			sliceOf := field.Type().Elem().Kind()
 
 			for i := 0; i < field.Len(); i++ {
-- 
2.43.0


From 0acde90d920259134c088d8c40853b4d7bfed3bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:40 +0000
Subject: [PATCH 22/63] fix: reflecting a slice with shadows updates KeysHash

---
 struct.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/struct.go b/struct.go
index 8c25992..a054525 100644
--- a/struct.go
+++ b/struct.go
@@ -501,6 +501,7 @@ func reflectSliceWithProperType(key *Key, field reflect.Value, delim string, all
 			}
 		}
 		*key = *keyWithShadows
+		key.SetValue(key.value)
 		return nil
 	}
 
-- 
2.43.0


From b74ee12fb257d763e3c834ff919bdfae590ca206 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:53 +0000
Subject: [PATCH 23/63] fix: mapping a negative duration text sets the field

---
 struct.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/struct.go b/struct.go
index a054525..79101eb 100644
--- a/struct.go
+++ b/struct.go
@@ -200,7 +200,7 @@ func setWithProperType(t reflect.Type, key *Key, field reflect.Value, delim stri
 				pv := reflect.New(t.Elem())
 				pv.Elem().SetInt(int64(durationVal))
 				field.Set(pv)
-			} else if err != nil || int64(durationVal) > 0 {
+			} else if err != nil || durationVal != 0 {
 				field.SetInt(int64(durationVal))
 			}
 			return nil
-- 
2.43.0


From fbabc78e30f8fca0f182e48084dedb5d8dcfe3af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:54 +0000
Subject: [PATCH 24/63] fix: strict mapping reports invalid list elements

The documentation promises all value parsing errors.
---
 struct.go | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/struct.go b/struct.go
index 79101eb..d53f81d 100644
--- a/struct.go
+++ b/struct.go
@@ -99,22 +99,22 @@ func setSliceWithProperType(key *Key, field reflect.Value, delim string, allowSh
 	case reflect.String:
 		vals = strs
 	case reflect.Int:
-		vals, err = key.parseInts(strs, true, false)
+		vals, err = key.parseInts(strs, true, isStrict)
 	case reflect.Int64:
-		vals, err = key.parseInt64s(strs, true, false)
+		vals, err = key.parseInt64s(strs, true, isStrict)
 	case reflect.Uint:
-		vals, err = key.parseUints(strs, true, false)
+		vals, err = key.parseUints(strs, true, isStrict)
 	case reflect.Uint64:
-		vals, err = key.parseUint64s(strs, true, false)
+		vals, err = key.parseUint64s(strs, true, isStrict)
 	case reflect.Float64:
-		vals, err = key.parseFloat64s(strs, true, false)
+		vals, err = key.parseFloat64s(strs, true, isStrict)
 	case reflect.Bool:
-		vals, err = key.parseBools(strs, true, false)
+		vals, err = key.parseBools(strs, true, isStrict)
 	case reflectTime:
 		if field.Type().Elem() != reflect.TypeOf(time.Time{}) {
 			return fmt.Errorf("unsupported type '[]%s'", field.Type().Elem())
 		}
-		vals, err = key.parseTimesFormat(time.RFC3339, strs, true, false)
+		vals, err = key.parseTimesFormat(time.RFC3339, strs, true, isStrict)
 	default:
 		return fmt.Errorf("unsupported type '[]%s'", sliceOf)
 	}
-- 
2.43.0


From 804625259621e6c341b0fdd124df9405f815781f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:35 +0000
Subject: [PATCH 25/63] fix: a key with shadows keeps its comment when it is
 written and loaded

---
 parser.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/parser.go b/parser.go
index 44fc526..249d353 100644
--- a/parser.go
+++ b/parser.go
@@ -512,8 +512,11 @@ func (f *File) parse(reader io.Reader) (err error) {
 			return err
 		}
 		key.isAutoIncrement = isAutoIncr
-		key.Comment = strings.TrimSpace(p.comment.String())
-		p.comment.Reset()
+		// A shadow without a comment leaves the comment of its key alone
+		if !f.options.AllowShadows || p.comment.Len() > 0 {
+			key.Comment = strings.TrimSpace(p.comment.String())
+			p.comment.Reset()
+		}
 		lastRegularKey = key
 	}
 	return nil
-- 
2.43.0


From 73f99993c5802582a237658ac81eee0c17224b5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:21 +0000
Subject: [PATCH 26/63] fix: expanding a value does not create the default
 section

---
 key.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/key.go b/key.go
index 32cbf96..8d7333c 100644
--- a/key.go
+++ b/key.go
@@ -163,7 +163,11 @@ func (k *Key) transformValue(val string) string {
 		// If not found or found the key itself, then search again in default section.
 		nk, err := k.s.GetKey(noption)
 		if err != nil || k == nk {
-			nk, _ = k.s.f.Section("").GetKey(noption)
+			// The default section is not to be created by looking at it.
+			nk = nil
+			if sec, err := k.s.f.GetSection(""); err == nil {
+				nk, _ = sec.GetKey(noption)
+			}
 			if nk == nil {
 				// Stop when no results found in the default section,
 				// and returns the value as-is.
-- 
2.43.0


From 76372f4af9dfdf210487125f9e48f6841c99cf70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:23 +0000
Subject: [PATCH 27/63] fix: listing the children of a missing section does not
 create it

---
 file.go | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/file.go b/file.go
index 4eca81e..230d5dd 100644
--- a/file.go
+++ b/file.go
@@ -212,7 +212,18 @@ func (f *File) Sections() []*Section {
 
 // ChildSections returns a list of child sections of given section name.
 func (f *File) ChildSections(name string) []*Section {
-	return f.Section(name).ChildSections()
+	sec, err := f.GetSection(name)
+	if err != nil {
+		// The section is not to be created by listing its children.
+		if len(name) == 0 {
+			name = DefaultSection
+		}
+		if f.options.Insensitive || f.options.InsensitiveSections {
+			name = strings.ToLower(name)
+		}
+		sec = newSection(f, name)
+	}
+	return sec.ChildSections()
 }
 
 // SectionStrings returns list of section names.
-- 
2.43.0


From 665326aaf11bd9d49d4d95678127dfd2fdb57748 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:36 +0000
Subject: [PATCH 28/63] fix: Strings keeps a backslash at the end of the value

---
 key.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/key.go b/key.go
index 8d7333c..0893e57 100644
--- a/key.go
+++ b/key.go
@@ -563,6 +563,10 @@ func (k *Key) Strings(delim string) []string {
 		}
 	}
 
+	// There is nothing left that the last backslash could escape.
+	if escape {
+		buf.WriteRune('\\')
+	}
 	if buf.Len() > 0 {
 		vals = append(vals, strings.TrimSpace(buf.String()))
 	}
-- 
2.43.0


From 60405bbb8a885030adc08f0c755910bae76d62b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:33:46 +0000
Subject: [PATCH 29/63] fix: the header after a raw section without a final
 line end starts a new line

With PrettySection off it was written on the last line of the body and lost.
---
 file.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/file.go b/file.go
index 230d5dd..56fa47d 100644
--- a/file.go
+++ b/file.go
@@ -426,8 +426,8 @@ func (f *File) writeToBuffer(indent string) (*bytes.Buffer, error) {
 				return nil, err
 			}
 
-			if PrettySection && !isLastSection {
-				// Put a line between sections
+			// Put a line between sections, or just end the last line of the body
+			if !isLastSection && (PrettySection || !strings.HasSuffix(sec.rawBody, "\n")) {
 				if _, err := buf.WriteString(LineBreak); err != nil {
 					return nil, err
 				}
-- 
2.43.0


From 61e242efd1ee19928f9f36ba955734850b928b22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:33:47 +0000
Subject: [PATCH 30/63] fix: a raw section read from several sources keeps its
 lines apart

---
 parser.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/parser.go b/parser.go
index 249d353..4e6c725 100644
--- a/parser.go
+++ b/parser.go
@@ -461,6 +461,10 @@ func (f *File) parse(reader io.Reader) (err error) {
 
 		if inUnparseableSection {
 			section.isRawSection = true
+			if len(section.rawBody) > 0 && !strings.HasSuffix(section.rawBody, "\n") {
+				// The last line of an earlier source
+				section.rawBody += "\n"
+			}
 			section.rawBody += string(line)
 			continue
 		}
-- 
2.43.0


From 63a2f92d8de9230c010f7682297b53ec55db3de4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:59 +0000
Subject: [PATCH 31/63] fix: quote names of boolean keys that would be read
 back as something else

---
 file.go | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/file.go b/file.go
index 56fa47d..ed3938b 100644
--- a/file.go
+++ b/file.go
@@ -487,16 +487,22 @@ func (f *File) writeToBuffer(indent string) (*bytes.Buffer, error) {
 			}
 
 			writeKeyValue := func(val string) (bool, error) {
-				if _, err := buf.WriteString(kname); err != nil {
-					return false, err
-				}
-
 				// A boolean key that was given another value is no longer one
 				if key.isBooleanType && val == "true" {
-					buf.WriteString(LineBreak)
+					// The line of a boolean key is read like a value
+					if kname == key.name {
+						kname = f.quoteValue(kname)
+					}
+					if _, err := buf.WriteString(kname + LineBreak); err != nil {
+						return false, err
+					}
 					return true, nil
 				}
 
+				if _, err := buf.WriteString(kname); err != nil {
+					return false, err
+				}
+
 				// Write out alignment spaces before "=" sign
 				if PrettyFormat {
 					buf.Write(alignSpaces[:alignLength-len(kname)])
-- 
2.43.0


From b620b61b988a8ffd25f54745c308e591a620ee60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:48:03 +0000
Subject: [PATCH 32/63] fix: reflect a pointer to a time into a key like a time

It became an empty section, which maps back to the zero time.
---
 struct.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/struct.go b/struct.go
index d53f81d..6fc122b 100644
--- a/struct.go
+++ b/struct.go
@@ -627,7 +627,7 @@ func (s *Section) reflectFrom(val reflect.Value) error {
 			continue
 		}
 
-		if (tpField.Type.Kind() == reflect.Ptr && tpField.Type.Elem().Kind() == reflect.Struct) ||
+		if (tpField.Type.Kind() == reflect.Ptr && tpField.Type.Elem().Kind() == reflect.Struct && tpField.Type.Elem().Name() != "Time") ||
 			(tpField.Type.Kind() == reflect.Struct && tpField.Type.Name() != "Time") {
 			// Note: The only error here is section doesn't exist.
 			sec, err := s.f.GetSection(fieldName)
-- 
2.43.0


From 63fe4087c7782315e88232bcd1b17730a01f0bef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:48:05 +0000
Subject: [PATCH 33/63] fix: reflecting a slice with shadows keeps the comment
 of its key

---
 struct.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/struct.go b/struct.go
index 6fc122b..f9c3daa 100644
--- a/struct.go
+++ b/struct.go
@@ -496,6 +496,7 @@ func reflectSliceWithProperType(key *Key, field reflect.Value, delim string, all
 
 			if i == 0 {
 				keyWithShadows = newKey(key.s, key.name, val)
+				keyWithShadows.Comment = key.Comment
 			} else {
 				_ = keyWithShadows.AddShadow(val)
 			}
-- 
2.43.0


From ae3e4c5d47de047dfe4a1c74a451f01aa7f9d59c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:48:06 +0000
Subject: [PATCH 34/63] fix: reflecting an empty slice or pointer overwrites
 the existing key

---
 struct.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/struct.go b/struct.go
index f9c3daa..ec0673a 100644
--- a/struct.go
+++ b/struct.go
@@ -469,6 +469,11 @@ func StrictMapTo(v, source interface{}, others ...interface{}) error {
 func reflectSliceWithProperType(key *Key, field reflect.Value, delim string, allowShadow bool) error {
 	slice := field.Slice(0, field.Len())
 	if field.Len() == 0 {
+		// There may be the values of an existing key to overwrite
+		if allowShadow {
+			key.shadows = nil
+		}
+		key.SetValue("")
 		return nil
 	}
 	sliceOf := field.Type().Elem().Kind()
@@ -551,6 +556,7 @@ func reflectWithProperType(t reflect.Type, key *Key, field reflect.Value, delim
 		if !field.IsNil() {
 			return reflectWithProperType(t.Elem(), key, field.Elem(), delim, allowShadow)
 		}
+		key.SetValue("")
 	default:
 		return fmt.Errorf("unsupported type %q", t)
 	}
-- 
2.43.0


From 465dda2872125c465b0bcb16739e7d2799791ed8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:48:07 +0000
Subject: [PATCH 35/63] fix: reflecting a nil pointer to a struct no longer
 panics

---
 struct.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/struct.go b/struct.go
index ec0673a..690f45f 100644
--- a/struct.go
+++ b/struct.go
@@ -627,6 +627,11 @@ func (s *Section) reflectFrom(val reflect.Value) error {
 			continue
 		}
 
+		// There is nothing to reflect behind a nil pointer to a struct
+		if field.Kind() == reflect.Ptr && field.IsNil() && tpField.Type.Elem().Kind() == reflect.Struct && tpField.Type.Elem().Name() != "Time" {
+			continue
+		}
+
 		if extends && tpField.Anonymous && (tpField.Type.Kind() == reflect.Ptr || tpField.Type.Kind() == reflect.Struct) {
 			if err := s.reflectFrom(field); err != nil {
 				return fmt.Errorf("reflect from field %q: %v", fieldName, err)
-- 
2.43.0


From ad5fbbadf94a6ca922bec578a1572262263b599f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:06:50 +0000
Subject: [PATCH 36/63] fix: lines of a Python-style multi-line value do not
 end in the carriage return of CRLF

---
 parser.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/parser.go b/parser.go
index 4e6c725..ca540f1 100644
--- a/parser.go
+++ b/parser.go
@@ -334,7 +334,8 @@ func (p *parser) readPythonMultilines(line string, bufferSize int) (string, erro
 			return "", err
 		}
 
-		line += "\n" + peekMatches[0]
+		// The carriage return of a CRLF line end is not part of the value.
+		line += "\n" + strings.TrimSuffix(peekMatches[0], "\r")
 	}
 }
 
-- 
2.43.0


From 994491bf57166af2fa3ba9f3f87d0e5ce9e211c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:08:35 +0000
Subject: [PATCH 37/63] fix: three double quotes at the end of the input open a
 value that is not closed

---
 parser.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parser.go b/parser.go
index ca540f1..3bd1ad4 100644
--- a/parser.go
+++ b/parser.go
@@ -236,7 +236,7 @@ func (p *parser) readValue(in []byte, bufferSize int) (string, error) {
 	}
 
 	var valQuote string
-	if len(line) > 3 && line[0:3] == `"""` {
+	if len(line) >= 3 && line[0:3] == `"""` {
 		valQuote = `"""`
 	} else if line[0] == '`' {
 		valQuote = "`"
-- 
2.43.0


From 52763ab7c60988f02167fb8ef5ed77206a99a753 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:12:37 +0000
Subject: [PATCH 38/63] fix: the list returned by SectionsByName is a copy

---
 file.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/file.go b/file.go
index ed3938b..baf4b9c 100644
--- a/file.go
+++ b/file.go
@@ -167,7 +167,8 @@ func (f *File) SectionsByName(name string) ([]*Section, error) {
 		return nil, fmt.Errorf("section %q does not exist", name)
 	}
 
-	return secs, nil
+	// NOTE: The list changes in place when one of the sections is deleted.
+	return append([]*Section(nil), secs...), nil
 }
 
 // Section assumes named section exists and returns a zero-value when not.
-- 
2.43.0


From c12337e74ca4c8ea9de569ca4bec44d460785be3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:12:38 +0000
Subject: [PATCH 39/63] fix: deleting all sections of a name is atomic in block
 mode

---
 file.go | 27 +++++++++++++++++++--------
 1 file changed, 19 insertions(+), 8 deletions(-)

diff --git a/file.go b/file.go
index baf4b9c..52a698b 100644
--- a/file.go
+++ b/file.go
@@ -241,16 +241,23 @@ func (f *File) SectionStrings() []string {
 
 // DeleteSection deletes a section or all sections with given name.
 func (f *File) DeleteSection(name string) {
-	secs, err := f.SectionsByName(name)
-	if err != nil {
-		return
+	if len(name) == 0 {
+		name = DefaultSection
+	}
+	if f.options.Insensitive || f.options.InsensitiveSections {
+		name = strings.ToLower(name)
 	}
 
-	for i := 0; i < len(secs); i++ {
+	// The lock is held all the time so that nobody sees some of the sections deleted and others not.
+	if f.BlockMode {
+		f.lock.Lock()
+		defer f.lock.Unlock()
+	}
+
+	for n := len(f.sections[name]); n > 0; n-- {
 		// For non-unique sections, it is always needed to remove the first one so
 		// in the next iteration, the subsequent section continue having index 0.
-		// Ignoring the error as index 0 never returns an error.
-		_ = f.DeleteSectionWithIndex(name, 0)
+		f.deleteSectionWithIndex(name, 0)
 	}
 }
 
@@ -272,6 +279,12 @@ func (f *File) DeleteSectionWithIndex(name string, index int) error {
 		defer f.lock.Unlock()
 	}
 
+	f.deleteSectionWithIndex(name, index)
+	return nil
+}
+
+// deleteSectionWithIndex deletes a section with given name and index; the caller holds the lock.
+func (f *File) deleteSectionWithIndex(name string, index int) {
 	// Count occurrences of the sections
 	occurrences := 0
 
@@ -301,8 +314,6 @@ func (f *File) DeleteSectionWithIndex(name string, index int) error {
 
 		occurrences++
 	}
-
-	return nil
 }
 
 func (f *File) reload(s dataSource) error {
-- 
2.43.0


From 058675d6c0a9826ca8ac00e4114c971344b1c323 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:15:44 +0000
Subject: [PATCH 40/63] fix: reading and extending a key takes the lock in
 block mode

---
 key.go | 31 +++++++++++++++++++++++++++++--
 1 file changed, 29 insertions(+), 2 deletions(-)

diff --git a/key.go b/key.go
index 0893e57..105da12 100644
--- a/key.go
+++ b/key.go
@@ -79,6 +79,12 @@ func (k *Key) AddShadow(val string) error {
 	if !k.s.f.options.AllowShadows {
 		return errors.New("shadow key is not allowed")
 	}
+
+	if k.s.f.BlockMode {
+		k.s.f.lock.Lock()
+		defer k.s.f.lock.Unlock()
+	}
+
 	return k.addShadow(val)
 }
 
@@ -96,6 +102,12 @@ func (k *Key) AddNestedValue(val string) error {
 	if !k.s.f.options.AllowNestedValues {
 		return errors.New("nested value is not allowed")
 	}
+
+	if k.s.f.BlockMode {
+		k.s.f.lock.Lock()
+		defer k.s.f.lock.Unlock()
+	}
+
 	return k.addNestedValue(val)
 }
 
@@ -109,12 +121,22 @@ func (k *Key) Name() string {
 
 // Value returns raw value of key for performance purpose.
 func (k *Key) Value() string {
+	if k.s.f.BlockMode {
+		k.s.f.lock.RLock()
+		defer k.s.f.lock.RUnlock()
+	}
+
 	return k.value
 }
 
 // ValueWithShadows returns raw values of key and its shadows if any. Shadow
 // keys with empty values are ignored from the returned list.
 func (k *Key) ValueWithShadows() []string {
+	if k.s.f.BlockMode {
+		k.s.f.lock.RLock()
+		defer k.s.f.lock.RUnlock()
+	}
+
 	if len(k.shadows) == 0 {
 		if k.value == "" {
 			return []string{}
@@ -137,6 +159,11 @@ func (k *Key) ValueWithShadows() []string {
 // NestedValues returns nested values stored in the key.
 // It is possible returned value is nil if no nested values stored in the key.
 func (k *Key) NestedValues() []string {
+	if k.s.f.BlockMode {
+		k.s.f.lock.RLock()
+		defer k.s.f.lock.RUnlock()
+	}
+
 	return k.nestedValues
 }
 
@@ -176,14 +203,14 @@ func (k *Key) transformValue(val string) string {
 		}
 
 		// Substitute by new value and take off leading '%(' and trailing ')s'.
-		val = strings.Replace(val, vr, nk.value, -1)
+		val = strings.Replace(val, vr, nk.Value(), -1)
 	}
 	return val
 }
 
 // String returns string representation of value.
 func (k *Key) String() string {
-	return k.transformValue(k.value)
+	return k.transformValue(k.Value())
 }
 
 // Validate accepts a validate function which can
-- 
2.43.0


From 1aa0f6125afbe6d5f70ccbe644118951263d9a1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:25:21 +0000
Subject: [PATCH 41/63] fix: creating a boolean key takes the lock in block
 mode

---
 section.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/section.go b/section.go
index c40b2aa..384a5d9 100644
--- a/section.go
+++ b/section.go
@@ -108,6 +108,11 @@ func (s *Section) NewBooleanKey(name string) (*Key, error) {
 		return nil, err
 	}
 
+	if s.f.BlockMode {
+		s.f.lock.Lock()
+		defer s.f.lock.Unlock()
+	}
+
 	key.isBooleanType = true
 	return key, nil
 }
-- 
2.43.0


From 0c542abf42f891532b82a4e33691776344ddfed4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:25:49 +0000
Subject: [PATCH 42/63] fix: Section does not create a second section that
 another goroutine has just created

---
 file.go | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/file.go b/file.go
index 52a698b..f03e606 100644
--- a/file.go
+++ b/file.go
@@ -81,6 +81,12 @@ func Empty(opts ...LoadOptions) *File {
 
 // NewSection creates a new section.
 func (f *File) NewSection(name string) (*Section, error) {
+	return f.createSection(name, -1)
+}
+
+// createSection creates a new section. When the index is not negative and a section with
+// the name and index already exists, it returns the existing one instead.
+func (f *File) createSection(name string, index int) (*Section, error) {
 	if len(name) == 0 {
 		return nil, errors.New("empty section name")
 	}
@@ -94,6 +100,10 @@ func (f *File) NewSection(name string) (*Section, error) {
 		defer f.lock.Unlock()
 	}
 
+	if secs := f.sections[name]; index >= 0 && index < len(secs) {
+		return secs[index], nil
+	}
+
 	if !f.options.AllowNonUniqueSections && inSlice(name, f.sectionList) {
 		return f.sections[name][0], nil
 	}
@@ -178,7 +188,8 @@ func (f *File) Section(name string) *Section {
 		if name == "" {
 			name = DefaultSection
 		}
-		sec, _ = f.NewSection(name)
+		// Another goroutine may have created the section in the meantime.
+		sec, _ = f.createSection(name, 0)
 		return sec
 	}
 	return sec
@@ -190,7 +201,8 @@ func (f *File) SectionWithIndex(name string, index int) *Section {
 	if err != nil || len(secs) <= index {
 		// NOTE: It's OK here because the only possible error is empty section name,
 		// but if it's empty, this piece of code won't be executed.
-		newSec, _ := f.NewSection(name)
+		// Another goroutine may have created the section in the meantime.
+		newSec, _ := f.createSection(name, index)
 		return newSec
 	}
 
-- 
2.43.0


From df050d1f2f9077e716a9d5fb1b33773641013b32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:25:51 +0000
Subject: [PATCH 43/63] fix: SectionWithIndex creates the default section when
 it is missing

---
 file.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/file.go b/file.go
index f03e606..9576099 100644
--- a/file.go
+++ b/file.go
@@ -199,8 +199,9 @@ func (f *File) Section(name string) *Section {
 func (f *File) SectionWithIndex(name string, index int) *Section {
 	secs, err := f.SectionsByName(name)
 	if err != nil || len(secs) <= index {
-		// NOTE: It's OK here because the only possible error is empty section name,
-		// but if it's empty, this piece of code won't be executed.
+		if name == "" {
+			name = DefaultSection
+		}
 		// Another goroutine may have created the section in the meantime.
 		newSec, _ := f.createSection(name, index)
 		return newSec
-- 
2.43.0


From 9575721add644eada5e98ac6862669ef0ae3425b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:26:21 +0000
Subject: [PATCH 44/63] fix: creating a boolean key is atomic in block mode

---
 section.go | 23 ++++++++---------------
 1 file changed, 8 insertions(+), 15 deletions(-)

diff --git a/section.go b/section.go
index 384a5d9..b403dc0 100644
--- a/section.go
+++ b/section.go
@@ -64,11 +64,11 @@ func (s *Section) SetBody(body string) {
 
 // NewKey creates a new key to given section.
 func (s *Section) NewKey(name, val string) (*Key, error) {
-	return s.newKey(name, val, false)
+	return s.newKey(name, val, false, false)
 }
 
 // newKey creates a new key, or changes the existing one unless told to keep it.
-func (s *Section) newKey(name, val string, keepExisting bool) (*Key, error) {
+func (s *Section) newKey(name, val string, keepExisting, isBooleanType bool) (*Key, error) {
 	if len(name) == 0 {
 		return nil, errors.New("error creating new key: empty key name")
 	} else if s.f.options.Insensitive || s.f.options.InsensitiveKeys {
@@ -92,29 +92,22 @@ func (s *Section) newKey(name, val string, keepExisting bool) (*Key, error) {
 			s.keys[name].value = val
 			s.keysHash[name] = val
 		}
+		if isBooleanType {
+			s.keys[name].isBooleanType = true
+		}
 		return s.keys[name], nil
 	}
 
 	s.keyList = append(s.keyList, name)
 	s.keys[name] = newKey(s, name, val)
+	s.keys[name].isBooleanType = isBooleanType
 	s.keysHash[name] = val
 	return s.keys[name], nil
 }
 
 // NewBooleanKey creates a new boolean type key to given section.
 func (s *Section) NewBooleanKey(name string) (*Key, error) {
-	key, err := s.NewKey(name, "true")
-	if err != nil {
-		return nil, err
-	}
-
-	if s.f.BlockMode {
-		s.f.lock.Lock()
-		defer s.f.lock.Unlock()
-	}
-
-	key.isBooleanType = true
-	return key, nil
+	return s.newKey(name, "true", false, true)
 }
 
 // GetKey returns key in section by given name.
@@ -182,7 +175,7 @@ func (s *Section) Key(name string) *Key {
 		// It's OK here because the only possible error is empty key name,
 		// but if it's empty, this piece of code won't be executed.
 		// Another goroutine may have created the key in the meantime.
-		key, _ = s.newKey(name, "", true)
+		key, _ = s.newKey(name, "", true, false)
 		return key
 	}
 	return key
-- 
2.43.0


From 56a801ef4823fe6727b4cb24e582b9764ff553d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:46:07 +0000
Subject: [PATCH 45/63] fix: with SpaceBeforeInlineComment a comment starts at
 the first sign after a space

In `k = a ; b # c` only the part from ` #` was taken for the comment.
---
 parser.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/parser.go b/parser.go
index 3bd1ad4..ecc6ec3 100644
--- a/parser.go
+++ b/parser.go
@@ -273,8 +273,8 @@ func (p *parser) readValue(in []byte, bufferSize int) (string, error) {
 		var i int
 		if p.options.SpaceBeforeInlineComment {
 			i = strings.Index(line, " #")
-			if i == -1 {
-				i = strings.Index(line, " ;")
+			if j := strings.Index(line, " ;"); i == -1 || (j > -1 && j < i) {
+				i = j
 			}
 
 		} else {
-- 
2.43.0


From f4596bec1a2b0cf20da170655b903d0aa8edb859 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:47:24 +0000
Subject: [PATCH 46/63] fix: reflecting into a child section leaves the keys of
 its parents alone

A field with the name of a key of the parent section changed that key
instead of creating one in the child section.
---
 struct.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/struct.go b/struct.go
index 690f45f..01c5822 100644
--- a/struct.go
+++ b/struct.go
@@ -685,10 +685,11 @@ func (s *Section) reflectFrom(val reflect.Value) error {
 			continue
 		}
 
-		// Note: Same reason as section.
-		key, err := s.GetKey(fieldName)
+		// Note: Same reason as section. A key inherited from a parent section is not
+		// the key of the field.
+		key, err := s.newKey(fieldName, "", true, false)
 		if err != nil {
-			key, _ = s.NewKey(fieldName, "")
+			return err
 		}
 
 		// Add comment from comment tag
-- 
2.43.0


From a59e902b13b500bf64e90b4af52e70a6c56fa152 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:14 +0000
Subject: [PATCH 47/63] fix: InTime finds a candidate that is the same instant
 in another zone

---
 key.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/key.go b/key.go
index 105da12..ebba7d4 100644
--- a/key.go
+++ b/key.go
@@ -495,7 +495,7 @@ func (k *Key) InTimeFormat(format string, defaultVal time.Time, candidates []tim
 		return defaultVal
 	}
 	for _, cand := range candidates {
-		if val == cand {
+		if val.Equal(cand) {
 			return val
 		}
 	}
-- 
2.43.0


From 49d110c414431127c6f438aa53c29a5d5833cb7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:15 +0000
Subject: [PATCH 48/63] fix: RangeTime heeds fractions of a second

---
 key.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/key.go b/key.go
index ebba7d4..e61d0eb 100644
--- a/key.go
+++ b/key.go
@@ -542,7 +542,7 @@ func (k *Key) RangeInt64(defaultVal, min, max int64) int64 {
 // and returns default value if it's not.
 func (k *Key) RangeTimeFormat(format string, defaultVal, min, max time.Time) time.Time {
 	val, err := k.TimeFormat(format)
-	if err != nil || val.Unix() < min.Unix() || val.Unix() > max.Unix() {
+	if err != nil || val.Before(min) || val.After(max) {
 		return defaultVal
 	}
 	return val
-- 
2.43.0


From c94f691904315c1cf4775df585ac9ae465828b36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:13 +0000
Subject: [PATCH 49/63] fix: mapping keeps what an embedded pointer already
 holds

---
 struct.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/struct.go b/struct.go
index 01c5822..cb5fe43 100644
--- a/struct.go
+++ b/struct.go
@@ -310,8 +310,8 @@ func (s *Section) mapToField(val reflect.Value, isStrict bool, sectionIndex int,
 
 		isStruct := tpField.Type.Kind() == reflect.Struct
 		isStructPtr := tpField.Type.Kind() == reflect.Ptr && tpField.Type.Elem().Kind() == reflect.Struct
-		isAnonymousPtr := tpField.Type.Kind() == reflect.Ptr && tpField.Anonymous
-		if isAnonymousPtr {
+		isAnonymousPtr := isStructPtr && tpField.Anonymous
+		if isAnonymousPtr && field.IsNil() {
 			field.Set(reflect.New(tpField.Type.Elem()))
 		}
 
-- 
2.43.0


From 0d6c10a1bdf592dd1e3d5e26b8200b8ab4e11e10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:02 +0000
Subject: [PATCH 50/63] fix: only time.Time is taken for a time, and never for
 a section, in structs

---
 struct.go | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/struct.go b/struct.go
index cb5fe43..b79a3b4 100644
--- a/struct.go
+++ b/struct.go
@@ -308,8 +308,8 @@ func (s *Section) mapToField(val reflect.Value, isStrict bool, sectionIndex int,
 			continue
 		}
 
-		isStruct := tpField.Type.Kind() == reflect.Struct
-		isStructPtr := tpField.Type.Kind() == reflect.Ptr && tpField.Type.Elem().Kind() == reflect.Struct
+		isStruct := isStructType(tpField.Type)
+		isStructPtr := tpField.Type.Kind() == reflect.Ptr && isStructType(tpField.Type.Elem())
 		isAnonymousPtr := isStructPtr && tpField.Anonymous
 		if isAnonymousPtr && field.IsNil() {
 			field.Set(reflect.New(tpField.Type.Elem()))
@@ -563,6 +563,11 @@ func reflectWithProperType(t reflect.Type, key *Key, field reflect.Value, delim
 	return nil
 }
 
+// isStructType returns true for structs that are mapped to sections, which times are not.
+func isStructType(t reflect.Type) bool {
+	return t.Kind() == reflect.Struct && t != reflect.TypeOf(time.Time{})
+}
+
 // CR: copied from encoding/json/encode.go with modifications of time.Time support.
 // TODO: add more test coverage.
 func isEmptyValue(v reflect.Value) bool {
@@ -628,7 +633,7 @@ func (s *Section) reflectFrom(val reflect.Value) error {
 		}
 
 		// There is nothing to reflect behind a nil pointer to a struct
-		if field.Kind() == reflect.Ptr && field.IsNil() && tpField.Type.Elem().Kind() == reflect.Struct && tpField.Type.Elem().Name() != "Time" {
+		if field.Kind() == reflect.Ptr && field.IsNil() && isStructType(tpField.Type.Elem()) {
 			continue
 		}
 
@@ -639,8 +644,7 @@ func (s *Section) reflectFrom(val reflect.Value) error {
 			continue
 		}
 
-		if (tpField.Type.Kind() == reflect.Ptr && tpField.Type.Elem().Kind() == reflect.Struct && tpField.Type.Elem().Name() != "Time") ||
-			(tpField.Type.Kind() == reflect.Struct && tpField.Type.Name() != "Time") {
+		if isStructType(tpField.Type) || (tpField.Type.Kind() == reflect.Ptr && isStructType(tpField.Type.Elem())) {
 			// Note: The only error here is section doesn't exist.
 			sec, err := s.f.GetSection(fieldName)
 			if err != nil {
-- 
2.43.0


From 5f5a7c55a5d05b071dc077b6582cbce8d4630926 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:05 +0000
Subject: [PATCH 51/63] fix: reflecting lists of structs or extending no struct
 no longer panics

---
 struct.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/struct.go b/struct.go
index b79a3b4..3f40b99 100644
--- a/struct.go
+++ b/struct.go
@@ -477,6 +477,9 @@ func reflectSliceWithProperType(key *Key, field reflect.Value, delim string, all
 		return nil
 	}
 	sliceOf := field.Type().Elem().Kind()
+	if isStructType(field.Type().Elem()) {
+		return fmt.Errorf("unsupported type '[]%s'", field.Type().Elem())
+	}
 
 	if allowShadow {
 		var keyWithShadows *Key
@@ -637,7 +640,7 @@ func (s *Section) reflectFrom(val reflect.Value) error {
 			continue
 		}
 
-		if extends && tpField.Anonymous && (tpField.Type.Kind() == reflect.Ptr || tpField.Type.Kind() == reflect.Struct) {
+		if extends && tpField.Anonymous && (isStructType(tpField.Type) || (tpField.Type.Kind() == reflect.Ptr && isStructType(tpField.Type.Elem()))) {
 			if err := s.reflectFrom(field); err != nil {
 				return fmt.Errorf("reflect from field %q: %v", fieldName, err)
 			}
-- 
2.43.0


From 6d095797a5e764ca90208653a1ea482a0d126696 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:08 +0000
Subject: [PATCH 52/63] fix: map sections of the same name to lists of pointers
 to structs

---
 struct.go | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/struct.go b/struct.go
index 3f40b99..8511ba0 100644
--- a/struct.go
+++ b/struct.go
@@ -376,13 +376,24 @@ func (s *Section) mapToSlice(secName string, val reflect.Value, isStrict bool) (
 	}
 
 	typ := val.Type().Elem()
+	isPtr := typ.Kind() == reflect.Ptr
+	if isPtr {
+		typ = typ.Elem()
+	}
+	if !isStructType(typ) {
+		return reflect.Value{}, fmt.Errorf("unsupported type %q", val.Type())
+	}
+
 	for i, sec := range secs {
 		elem := reflect.New(typ)
 		if err = sec.mapToField(elem, isStrict, i, sec.name); err != nil {
 			return reflect.Value{}, fmt.Errorf("map to field from section %q: %v", secName, err)
 		}
 
-		val = reflect.Append(val, elem.Elem())
+		if !isPtr {
+			elem = elem.Elem()
+		}
+		val = reflect.Append(val, elem)
 	}
 	return val, nil
 }
-- 
2.43.0


From c64c6e5158ae19d2ba624dee373e8c6fd04c7cc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:23 +0000
Subject: [PATCH 53/63] fix: mapping and reflecting something else than a
 struct fails instead of panicking

---
 struct.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/struct.go b/struct.go
index 8511ba0..2986b59 100644
--- a/struct.go
+++ b/struct.go
@@ -291,6 +291,9 @@ func (s *Section) mapToField(val reflect.Value, isStrict bool, sectionIndex int,
 	if val.Kind() == reflect.Ptr {
 		val = val.Elem()
 	}
+	if val.Kind() != reflect.Struct {
+		return errors.New("not a pointer to a struct")
+	}
 	typ := val.Type()
 
 	for i := 0; i < typ.NumField(); i++ {
@@ -614,6 +617,9 @@ func (s *Section) reflectFrom(val reflect.Value) error {
 	if val.Kind() == reflect.Ptr {
 		val = val.Elem()
 	}
+	if val.Kind() != reflect.Struct {
+		return errors.New("not a pointer to a struct")
+	}
 	typ := val.Type()
 
 	for i := 0; i < typ.NumField(); i++ {
-- 
2.43.0


From d9bf18c863f1bdfb15c4291c57af0983b6a36c33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:45 +0000
Subject: [PATCH 54/63] fix: mapping leaves a list of structs alone when its
 sections do not exist

---
 struct.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/struct.go b/struct.go
index 2986b59..d554180 100644
--- a/struct.go
+++ b/struct.go
@@ -351,6 +351,10 @@ func (s *Section) mapToField(val reflect.Value, isStrict bool, sectionIndex int,
 
 		// Map non-unique sections
 		if allowNonUnique && tpField.Type.Kind() == reflect.Slice {
+			// There may be no such section, like for a struct
+			if !s.f.HasSection(fieldName) {
+				continue
+			}
 			newField, err := s.mapToSlice(fieldName, field, isStrict)
 			if err != nil {
 				return fmt.Errorf("map to slice %q: %v", fieldName, err)
-- 
2.43.0


From 43d20c64a0be800386faf9b65fae35600fe0bf6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:33 +0000
Subject: [PATCH 55/63] fix: skip the whole of a key-value delimiter of several
 bytes

---
 parser.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/parser.go b/parser.go
index ecc6ec3..5472ba4 100644
--- a/parser.go
+++ b/parser.go
@@ -23,6 +23,7 @@ import (
 	"strconv"
 	"strings"
 	"unicode"
+	"unicode/utf8"
 )
 
 const minReaderBufferSize = 4096
@@ -506,6 +507,11 @@ func (f *File) parse(reader io.Reader) (err error) {
 			p.count++
 		}
 
+		// The delimiter may consist of several bytes
+		if _, size := utf8.DecodeRune(line[offset-1:]); size > 1 {
+			offset += size - 1
+		}
+
 		value, err := p.readValue(line[offset:], parserBufferSize)
 		if err != nil {
 			return err
-- 
2.43.0


From 2adb081825e62c9e62e7b912caee7d11b8010b44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:02 +0000
Subject: [PATCH 56/63] fix: write the header of a first section that is only
 called like the default one

---
 file.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/file.go b/file.go
index 9576099..255bfab 100644
--- a/file.go
+++ b/file.go
@@ -434,7 +434,10 @@ func (f *File) writeToBuffer(indent string) (*bytes.Buffer, error) {
 			}
 		}
 
-		if i > 0 || DefaultHeader || (i == 0 && strings.ToUpper(sec.name) != DefaultSection) {
+		// Names that differ in letter case are those of other sections, unless they are stored in lower case
+		isDefault := sec.name == DefaultSection ||
+			(f.options.Insensitive || f.options.InsensitiveSections) && sec.name == strings.ToLower(DefaultSection)
+		if i > 0 || DefaultHeader || (i == 0 && !isDefault) {
 			if _, err := buf.WriteString("[" + sname + "]" + LineBreak); err != nil {
 				return nil, err
 			}
-- 
2.43.0


From 47bef4864e542e70650e2b1af389e345a1751913 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:37 +0000
Subject: [PATCH 57/63] fix: keep the spaces around a value on reload when
 surrounding quotes are preserved

---
 file.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/file.go b/file.go
index 255bfab..dc29c94 100644
--- a/file.go
+++ b/file.go
@@ -398,7 +398,7 @@ func (f *File) quoteValue(val string) string {
 		strings.HasPrefix(val, `"""`) || (f.options.UnescapeValueDoubleQuotes && strings.HasPrefix(val, `"`)),
 		!f.options.PreserveSurroundedQuote && (hasSurroundedQuote(val, '"') || hasSurroundedQuote(val, '\'')),
 		!f.options.IgnoreContinuation && strings.HasSuffix(val, `\`),
-		isPadded && strings.Contains(val, `"`):
+		isPadded && (f.options.PreserveSurroundedQuote || strings.Contains(val, `"`)):
 		return "`" + val + "`"
 	case isPadded:
 		return `"` + val + `"`
-- 
2.43.0


From 987c40477141e1f39ad007fce9be555264cdc73d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:37 +0000
Subject: [PATCH 58/63] fix: quote values with escaped comment symbols that
 would be unescaped on reload

---
 file.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/file.go b/file.go
index dc29c94..7737b25 100644
--- a/file.go
+++ b/file.go
@@ -398,6 +398,8 @@ func (f *File) quoteValue(val string) string {
 		strings.HasPrefix(val, `"""`) || (f.options.UnescapeValueDoubleQuotes && strings.HasPrefix(val, `"`)),
 		!f.options.PreserveSurroundedQuote && (hasSurroundedQuote(val, '"') || hasSurroundedQuote(val, '\'')),
 		!f.options.IgnoreContinuation && strings.HasSuffix(val, `\`),
+		// Escapes are not replaced in back quotes
+		f.options.UnescapeValueCommentSymbols && (strings.Contains(val, `\;`) || strings.Contains(val, `\#`)),
 		isPadded && (f.options.PreserveSurroundedQuote || strings.Contains(val, `"`)):
 		return "`" + val + "`"
 	case isPadded:
-- 
2.43.0


From 8ffbe8e07812f8bb5670fe238da9b437ffca00ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:08 +0000
Subject: [PATCH 59/63] fix: refuse to map or reflect nil instead of panicking

---
 struct.go | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/struct.go b/struct.go
index d554180..a0ff17b 100644
--- a/struct.go
+++ b/struct.go
@@ -409,7 +409,7 @@ func (s *Section) mapToSlice(secName string, val reflect.Value, isStrict bool) (
 func (s *Section) mapTo(v interface{}, isStrict bool) error {
 	typ := reflect.TypeOf(v)
 	val := reflect.ValueOf(v)
-	if typ.Kind() == reflect.Ptr {
+	if val.Kind() == reflect.Ptr {
 		typ = typ.Elem()
 		val = val.Elem()
 	} else {
@@ -736,15 +736,14 @@ func (s *Section) reflectFrom(val reflect.Value) error {
 
 // ReflectFrom reflects section from given struct. It overwrites existing ones.
 func (s *Section) ReflectFrom(v interface{}) error {
-	typ := reflect.TypeOf(v)
 	val := reflect.ValueOf(v)
 
 	if s.name != DefaultSection && s.f.options.AllowNonUniqueSections &&
-		(typ.Kind() == reflect.Slice || typ.Kind() == reflect.Ptr) {
+		(val.Kind() == reflect.Slice || val.Kind() == reflect.Ptr) {
 		// Clear sections to make sure none exists before adding the new ones
 		s.f.DeleteSection(s.name)
 
-		if typ.Kind() == reflect.Ptr {
+		if val.Kind() == reflect.Ptr {
 			sec, err := s.f.NewSection(s.name)
 			if err != nil {
 				return err
@@ -773,7 +772,7 @@ func (s *Section) ReflectFrom(v interface{}) error {
 		return nil
 	}
 
-	if typ.Kind() == reflect.Ptr {
+	if val.Kind() == reflect.Ptr {
 		val = val.Elem()
 	} else {
 		return errors.New("not a pointer to a struct")
-- 
2.43.0


From ff345a6171378a075c37c7fe3372ff687f43de49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:08 +0000
Subject: [PATCH 60/63] fix: take no section for the one with a negative index

---
 file.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/file.go b/file.go
index 7737b25..cecf7ad 100644
--- a/file.go
+++ b/file.go
@@ -198,7 +198,7 @@ func (f *File) Section(name string) *Section {
 // SectionWithIndex assumes named section exists and returns a new section when not.
 func (f *File) SectionWithIndex(name string, index int) *Section {
 	secs, err := f.SectionsByName(name)
-	if err != nil || len(secs) <= index {
+	if err != nil || index < 0 || len(secs) <= index {
 		if name == "" {
 			name = DefaultSection
 		}
@@ -298,6 +298,10 @@ func (f *File) DeleteSectionWithIndex(name string, index int) error {
 
 // deleteSectionWithIndex deletes a section with given name and index; the caller holds the lock.
 func (f *File) deleteSectionWithIndex(name string, index int) {
+	if index < 0 {
+		return
+	}
+
 	// Count occurrences of the sections
 	occurrences := 0
 
-- 
2.43.0


From 2238f27fd4d0f4ef44288d4f14e87ccc2cff66ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:23 +0000
Subject: [PATCH 61/63] fix: do not hang when splitting a value by an empty
 delimiter

---
 key.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/key.go b/key.go
index e61d0eb..4475868 100644
--- a/key.go
+++ b/key.go
@@ -561,6 +561,11 @@ func (k *Key) Strings(delim string) []string {
 		return []string{}
 	}
 
+	// There is nothing to split at, nor to escape
+	if len(delim) == 0 {
+		return []string{strings.TrimSpace(str)}
+	}
+
 	runes := []rune(str)
 	vals := make([]string, 0, 2)
 	var buf bytes.Buffer
-- 
2.43.0


From 2af791e82c90aec2341224e1c282a7e37832f57c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:27 +0000
Subject: [PATCH 62/63] fix: mapping a zero duration text sets the field

---
 struct.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/struct.go b/struct.go
index a0ff17b..a326a7d 100644
--- a/struct.go
+++ b/struct.go
@@ -200,7 +200,7 @@ func setWithProperType(t reflect.Type, key *Key, field reflect.Value, delim stri
 				pv := reflect.New(t.Elem())
 				pv.Elem().SetInt(int64(durationVal))
 				field.Set(pv)
-			} else if err != nil || durationVal != 0 {
+			} else {
 				field.SetInt(int64(durationVal))
 			}
 			return nil
-- 
2.43.0


From 5a81f750d10ae8c2ecb54f31bdbe04cca560b229 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:36 +0000
Subject: [PATCH 63/63] fix: keep the default section when reflecting into a
 file of names in lower case

---
 struct.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/struct.go b/struct.go
index a326a7d..4a9a324 100644
--- a/struct.go
+++ b/struct.go
@@ -738,7 +738,10 @@ func (s *Section) reflectFrom(val reflect.Value) error {
 func (s *Section) ReflectFrom(v interface{}) error {
 	val := reflect.ValueOf(v)
 
-	if s.name != DefaultSection && s.f.options.AllowNonUniqueSections &&
+	// The default section, which may be stored in lower case, is kept
+	isDefault := s.name == DefaultSection ||
+		(s.f.options.Insensitive || s.f.options.InsensitiveSections) && s.name == strings.ToLower(DefaultSection)
+	if !isDefault && s.f.options.AllowNonUniqueSections &&
 		(val.Kind() == reflect.Slice || val.Kind() == reflect.Ptr) {
 		// Clear sections to make sure none exists before adding the new ones
 		s.f.DeleteSection(s.name)
-- 
2.43.0

