From 4417c436f41598fcf05457b94f84cd8d9ca3020d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:54 +0000
Subject: [PATCH 01/52] fix: escape '~' before '.' when building dot paths

---
 internal/container/utils.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/container/utils.go b/internal/container/utils.go
index aa46e0c..85bc911 100644
--- a/internal/container/utils.go
+++ b/internal/container/utils.go
@@ -38,8 +38,8 @@ func ExtractKey(c Container, key string) (pp MapSlice, err error) {
 func SliceToDotPath(path []string) string {
 	hierarchy := make([]string, len(path))
 	for i, v := range path {
-		v = strings.Replace(v, ".", "~1", -1)
 		v = strings.Replace(v, "~", "~0", -1)
+		v = strings.Replace(v, ".", "~1", -1)
 		hierarchy[i] = v
 	}
 	return strings.Join(hierarchy, ".")
-- 
2.43.0


From 0fe34c5090bdb3c4cc87e07b5c268dfa80b47169 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:22 +0000
Subject: [PATCH 02/52] fix: address keys holding dots or tildes when
 extracting keys

---
 internal/container/utils.go | 71 ++++++++++++++++++++++++++++---------
 1 file changed, 55 insertions(+), 16 deletions(-)

diff --git a/internal/container/utils.go b/internal/container/utils.go
index 85bc911..f55de15 100644
--- a/internal/container/utils.go
+++ b/internal/container/utils.go
@@ -3,37 +3,76 @@ package container
 import (
 	"encoding/json"
 	"fmt"
+	"sort"
+	"strconv"
 	"strings"
 
 	"github.com/Jeffail/gabs/v2"
 	"github.com/pkg/errors"
 )
 
-// ExtractKey will extract keys from container
+// ExtractKey will extract every leaf stored under given key from container.
+// Keys of returned items are dot paths (see SliceToDotPath), so they can be
+// handed over to Path or SetP. Items are returned in stable order, nested ones
+// always precede the ones of their parents.
 func ExtractKey(c Container, key string) (pp MapSlice, err error) {
-	ff, err := c.Flatten()
-	if err != nil {
-		return nil, err
+	switch c.Data().(type) {
+	case map[string]interface{}, []interface{}:
+	default:
+		return nil, gabs.ErrNotObjOrArray
 	}
-	var ii int
-	for k, v := range ff {
-		x := strings.Split(k, ".")
-		if len(x) == 0 {
-			continue
-		}
-		if x[len(x)-1] != key {
-			continue
+	walkLeaves(nil, c.Data(), func(path []string, v interface{}) {
+		if path[len(path)-1] != key {
+			return
 		}
 		pp = append(pp, MapItem{
-			Key:   k,
+			Key:   SliceToDotPath(path),
 			Val:   v,
-			Index: ii,
+			Index: len(pp),
 		})
-		ii++
-	}
+	})
 	return pp, nil
 }
 
+// walkLeaves calls fn for every leaf (anything but object or array) found
+// in v. Objects and arrays are visited first, leaves after.
+func walkLeaves(path []string, v interface{}, fn func([]string, interface{})) {
+	var keys []string
+	var get func(i int) interface{}
+
+	switch x := v.(type) {
+	case map[string]interface{}:
+		for k := range x {
+			keys = append(keys, k)
+		}
+		sort.Strings(keys)
+		get = func(i int) interface{} { return x[keys[i]] }
+	case []interface{}:
+		for i := range x {
+			keys = append(keys, strconv.Itoa(i))
+		}
+		get = func(i int) interface{} { return x[i] }
+	default:
+		return
+	}
+
+	for _, leaf := range []bool{false, true} {
+		for i, k := range keys {
+			child := append(append([]string{}, path...), k)
+			switch val := get(i).(type) {
+			case map[string]interface{}, []interface{}:
+				if !leaf {
+					walkLeaves(child, val, fn)
+				}
+			default:
+				if leaf {
+					fn(child, val)
+				}
+			}
+		}
+	}
+}
+
 // SliceToDotPath converts slice into dot path
 func SliceToDotPath(path []string) string {
 	hierarchy := make([]string, len(path))
-- 
2.43.0


From 121f82d909bc5f9d983cab02abd0aaf8735c619b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:01 +0000
Subject: [PATCH 03/52] fix: resolve reference sitting at root of container

---
 internal/container/container.go    | 10 ++++++++++
 internal/oapi/resolver/resolver.go |  2 +-
 internal/oapi/resolver/utils.go    |  7 ++++++-
 3 files changed, 17 insertions(+), 2 deletions(-)

diff --git a/internal/container/container.go b/internal/container/container.go
index c0f28b7..0e4fbc0 100644
--- a/internal/container/container.go
+++ b/internal/container/container.go
@@ -166,6 +166,16 @@ func (c Container) SetP(path string, value interface{}) (err error) {
 	return
 }
 
+// Replace swaps whole content of container for clone of given value.
+func (c Container) Replace(value interface{}) (err error) {
+	val, err := clone(value)
+	if err != nil {
+		return
+	}
+	_, err = c.c.Set(val)
+	return
+}
+
 // Bytes marshals an element to a JSON []byte blob.
 func (c Container) Bytes() []byte {
 	return c.c.Bytes()
diff --git a/internal/oapi/resolver/resolver.go b/internal/oapi/resolver/resolver.go
index aa43203..f6a25e3 100644
--- a/internal/oapi/resolver/resolver.go
+++ b/internal/oapi/resolver/resolver.go
@@ -59,7 +59,7 @@ func (r resolver) resolve() (container.Container, error) {
 }
 
 func (r resolver) iterator(cx container.Container, pp path, dept int) (container.Container, error) {
-	refs, err := container.ExtractKey(cx, "$ref")
+	refs, err := container.ExtractKey(cx, refKey)
 	if err != nil {
 		return cx, err
 	}
diff --git a/internal/oapi/resolver/utils.go b/internal/oapi/resolver/utils.go
index f95e3bc..32afd1d 100644
--- a/internal/oapi/resolver/utils.go
+++ b/internal/oapi/resolver/utils.go
@@ -10,6 +10,8 @@ import (
 	"github.com/buypal/oapi-go/internal/pointer"
 )
 
+const refKey = "$ref"
+
 // Entity is named entity.
 type Entity struct {
 	Entity spec.Entity
@@ -51,6 +53,9 @@ func ReplacePtr(cx container.Container, key string, value interface{}) (err erro
 	if !ok {
 		return errors.New("not a pointer")
 	}
+	if key == refKey { // container itself is pointer object
+		return cx.Replace(value)
+	}
 	err = cx.SetP(path, value)
 	return
 }
@@ -86,7 +91,7 @@ func isref(s string) (string, bool) {
 		return s, false
 	}
 	last := ss[len(ss)-1]
-	if last != "$ref" {
+	if last != refKey {
 		return s, false
 	}
 	return strings.Join(ss[:len(ss)-1], "."), true
-- 
2.43.0


From 4ee54cf7ef6ac79676819645b7cfd5c51aa97883 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:03 +0000
Subject: [PATCH 04/52] fix: store mulof tag option as multiple of

---
 tag/tag.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tag/tag.go b/tag/tag.go
index af4b782..1fa3b36 100644
--- a/tag/tag.go
+++ b/tag/tag.go
@@ -89,7 +89,7 @@ func parseOAPITag(tags *structtag.Tags, meta *Tag) (err error) {
 		parseTagFloatPtr(tag, "min", &meta.Min),
 		parseTagFloatPtr(tag, "emax", &meta.EMax),
 		parseTagFloatPtr(tag, "emin", &meta.EMin),
-		parseTagFloatPtr(tag, "mulof", &meta.EMin),
+		parseTagFloatPtr(tag, "mulof", &meta.MulOf),
 	}
 	for _, err := range errs {
 		if err != nil {
-- 
2.43.0


From a63793613a864f2f946f98cefecf709000c7835b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:04 +0000
Subject: [PATCH 05/52] fix: report invalid boolean tag options and keep absent
 ones untouched

---
 tag/tag.go | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/tag/tag.go b/tag/tag.go
index 1fa3b36..11f6586 100644
--- a/tag/tag.go
+++ b/tag/tag.go
@@ -195,11 +195,18 @@ func parseTagString(m *tagparser.Tag, tag string, val *string) error {
 
 func parseTagBool(m *tagparser.Tag, tag string, val *bool) (err error) {
 	x, ok := m.Options[tag]
+	if !ok {
+		return nil
+	}
 	if x == "" {
-		*val = ok
-	} else {
-		*val, err = strconv.ParseBool(x)
+		*val = true
+		return nil
+	}
+	y, err := strconv.ParseBool(x)
+	if err != nil {
+		return err
 	}
+	*val = y
 	return nil
 }
 
-- 
2.43.0


From 0f02ef703846c0d57ea210d9b70d480e58b01880 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:07 +0000
Subject: [PATCH 06/52] fix: keep required properties which are references

---
 internal/oapi/scan/types/types.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/internal/oapi/scan/types/types.go b/internal/oapi/scan/types/types.go
index faf4a11..477f47a 100644
--- a/internal/oapi/scan/types/types.go
+++ b/internal/oapi/scan/types/types.go
@@ -217,6 +217,10 @@ func struct2schema(t *types.Struct, m pointmap, tp path) (s *spec.Schema, err er
 
 		s.Properties[name] = pschema
 
+		if x.tag.Required {
+			s.Required = append(s.Required, name)
+		}
+
 		if pschema.Ref != nil {
 			continue
 		}
@@ -229,10 +233,6 @@ func struct2schema(t *types.Struct, m pointmap, tp path) (s *spec.Schema, err er
 		if x.tag.Nullable != nil {
 			pschema.Nullable = *x.tag.Nullable
 		}
-
-		if x.tag.Required {
-			s.Required = append(s.Required, name)
-		}
 	}
 
 	return
-- 
2.43.0


From 35b88f1ca7fb653f2297ca75427cfe8650ddd81c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:08 +0000
Subject: [PATCH 07/52] fix: do not drop format of basic types when tag has
 none

---
 internal/oapi/scan/types/types.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/internal/oapi/scan/types/types.go b/internal/oapi/scan/types/types.go
index 477f47a..bde6d4b 100644
--- a/internal/oapi/scan/types/types.go
+++ b/internal/oapi/scan/types/types.go
@@ -228,7 +228,9 @@ func struct2schema(t *types.Struct, m pointmap, tp path) (s *spec.Schema, err er
 		pschema.Deprecated = x.tag.Deprecated
 		pschema.ReadOnly = x.tag.ReadOnly
 		pschema.WriteOnly = x.tag.WriteOnly
-		pschema.Format = x.tag.Format
+		if len(x.tag.Format) != 0 {
+			pschema.Format = x.tag.Format
+		}
 
 		if x.tag.Nullable != nil {
 			pschema.Nullable = *x.tag.Nullable
-- 
2.43.0


From 174bfa21c02a44d469ac35b94ac1bd9d700e4f54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:38 +0000
Subject: [PATCH 08/52] fix: report pointers which cannot be resolved to type

---
 internal/oapi/scan/types/scan.go | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/internal/oapi/scan/types/scan.go b/internal/oapi/scan/types/scan.go
index 417bdf6..20ee8b3 100644
--- a/internal/oapi/scan/types/scan.go
+++ b/internal/oapi/scan/types/scan.go
@@ -24,11 +24,10 @@ func NewScanner(ptrs pointer.Pointers) *Scanner {
 // Resolve will return new pointer and scheme, new pointer might be returned in cases
 // where original pointer is not fully resolved.
 func (r *Scanner) Resolve(ptr pointer.Pointer) (*spec.Schema, error) {
-	tp, _ := r.points.findType(ptr)
-	// pp, ok := r.points.pick(tp)
-	// if !ok {
-	// 	return nil, errors.Errorf("failed to resolve %q", ptr.String())
-	// }
+	tp, ok := r.points.findType(ptr)
+	if !ok {
+		return nil, errors.Errorf("failed to resolve %q", ptr.String())
+	}
 	sch, err := type2schema(tp, r.points, path{}, tag.Tag{})
 	return sch, err
 }
-- 
2.43.0


From 41ee247a08a8313c630b155e835ecd1d7c437a61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:40 +0000
Subject: [PATCH 09/52] fix: do not panic on predeclared named types

---
 internal/oapi/scan/types/types.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/oapi/scan/types/types.go b/internal/oapi/scan/types/types.go
index bde6d4b..509c812 100644
--- a/internal/oapi/scan/types/types.go
+++ b/internal/oapi/scan/types/types.go
@@ -85,7 +85,7 @@ func walk(r point, t types.Type, p path, m *pointmap) (err error) {
 			return
 		}
 		named, ok := e.t.(*types.Named)
-		if ok {
+		if ok && named.Obj().Pkg() != nil { // predeclared types, ie. error, have no pkg
 			np := newPoint(named.Obj())
 			err = walk(np, e.t, p, m)
 		}
-- 
2.43.0


From 7535c02506dfe76e62520a6e8dc6ced39e1c4835 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:41 +0000
Subject: [PATCH 10/52] fix: pick same pointer of type on every run

---
 internal/oapi/scan/types/point.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/internal/oapi/scan/types/point.go b/internal/oapi/scan/types/point.go
index 74579ff..b5aa868 100644
--- a/internal/oapi/scan/types/point.go
+++ b/internal/oapi/scan/types/point.go
@@ -67,7 +67,10 @@ func (s points) Swap(i, j int) {
 
 // Less is part of sort.Interface. It is implemented by calling the "by" closure in the sorter.
 func (s points) Less(i, j int) bool {
-	return s[i].Fragment.Len() < s[j].Fragment.Len()
+	if s[i].Fragment.Len() != s[j].Fragment.Len() {
+		return s[i].Fragment.Len() < s[j].Fragment.Len()
+	}
+	return s[i].String() < s[j].String()
 }
 
 func (s points) filter(compare func(p1 point) bool) (pp points) {
-- 
2.43.0


From 0c621406c8922cdf4a54a0d507ddacc9c14a0417 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:43 +0000
Subject: [PATCH 11/52] fix: order map items sharing index by key

---
 internal/container/sort.go | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/internal/container/sort.go b/internal/container/sort.go
index e6eb170..ed89b05 100644
--- a/internal/container/sort.go
+++ b/internal/container/sort.go
@@ -111,9 +111,14 @@ func (ms MapSlice) Values() (vx []interface{}) {
 
 // sort interface support
 
-func (ms MapSlice) Len() int           { return len(ms) }
-func (ms MapSlice) Less(i, j int) bool { return ms[i].Index < ms[j].Index }
-func (ms MapSlice) Swap(i, j int)      { ms[i], ms[j] = ms[j], ms[i] }
+func (ms MapSlice) Len() int      { return len(ms) }
+func (ms MapSlice) Swap(i, j int) { ms[i], ms[j] = ms[j], ms[i] }
+func (ms MapSlice) Less(i, j int) bool {
+	if ms[i].Index != ms[j].Index {
+		return ms[i].Index < ms[j].Index
+	}
+	return ms[i].Key < ms[j].Key
+}
 
 // Sort will sort items by index and return copy
 func (ms MapSlice) Sort() MapSlice {
-- 
2.43.0


From bb711600c9d804165f8ac77f85b4cdf42d48d95d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:45 +0000
Subject: [PATCH 12/52] fix: quote map item keys as JSON

---
 internal/container/sort.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/internal/container/sort.go b/internal/container/sort.go
index ed89b05..b472869 100644
--- a/internal/container/sort.go
+++ b/internal/container/sort.go
@@ -3,7 +3,6 @@ package container
 import (
 	"bytes"
 	"encoding/json"
-	"fmt"
 	"sort"
 
 	"gopkg.in/yaml.v2"
@@ -137,7 +136,12 @@ func (ms MapSlice) MarshalJSON() ([]byte, error) {
 		if err != nil {
 			return nil, err
 		}
-		buf.WriteString(fmt.Sprintf("%q:", fmt.Sprintf("%v", mi.Key)))
+		k, err := json.Marshal(mi.Key)
+		if err != nil {
+			return nil, err
+		}
+		buf.Write(k)
+		buf.WriteByte(':')
 		buf.Write(b)
 		if i < len(ms)-1 {
 			buf.Write([]byte{','})
-- 
2.43.0


From 5124bbae3c78305fbfcf3b1d2379664efb157f63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:19 +0000
Subject: [PATCH 13/52] fix: encode and decode pointers as JSON strings

---
 internal/pointer/pointer.go | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/internal/pointer/pointer.go b/internal/pointer/pointer.go
index fcf0656..f730b5b 100644
--- a/internal/pointer/pointer.go
+++ b/internal/pointer/pointer.go
@@ -11,9 +11,9 @@
 package pointer
 
 import (
+	"encoding/json"
 	"fmt"
 	"net/url"
-	"strconv"
 )
 
 const defaultPointerAllocationSize = 32
@@ -71,8 +71,8 @@ func (p *Pointer) UnmarshalJSON(data []byte) error {
 	if data == nil {
 		return nil
 	}
-	t, err := strconv.Unquote(string(data))
-	if err != nil {
+	var t string
+	if err := json.Unmarshal(data, &t); err != nil {
 		t = string(data)
 	}
 	x, err := Parse(t)
@@ -84,8 +84,7 @@ func (p *Pointer) UnmarshalJSON(data []byte) error {
 }
 
 func (p *Pointer) MarshalJSON() ([]byte, error) {
-	x := fmt.Sprintf("%q", p.String())
-	return []byte(x), nil
+	return json.Marshal(p.String())
 }
 
 func (p Pointer) String() string {
-- 
2.43.0


From e3bcf323f94a56e4b2d4247145abac88cb4ac90c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:21 +0000
Subject: [PATCH 14/52] fix: escape percent sign in fragment of pointer string

---
 internal/pointer/pointer.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/internal/pointer/pointer.go b/internal/pointer/pointer.go
index f730b5b..8501592 100644
--- a/internal/pointer/pointer.go
+++ b/internal/pointer/pointer.go
@@ -14,6 +14,7 @@ import (
 	"encoding/json"
 	"fmt"
 	"net/url"
+	"strings"
 )
 
 const defaultPointerAllocationSize = 32
@@ -89,7 +90,9 @@ func (p *Pointer) MarshalJSON() ([]byte, error) {
 
 func (p Pointer) String() string {
 	p.URL.Fragment = ""
-	return fmt.Sprintf("%s#%s", p.URL.String(), p.Fragment.String())
+	// Parse percent-decodes URL fragment
+	f := strings.Replace(p.Fragment.String(), "%", "%25", -1)
+	return fmt.Sprintf("%s#%s", p.URL.String(), f)
 }
 
 func (p Pointer) PkgPath() string {
-- 
2.43.0


From 2f989bb1124a870fb77f41096f7a9f79cf1bac2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:23 +0000
Subject: [PATCH 15/52] fix: do not share memory between descendants of
 fragment

---
 internal/pointer/fragment.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/internal/pointer/fragment.go b/internal/pointer/fragment.go
index 13d854d..438803f 100644
--- a/internal/pointer/fragment.go
+++ b/internal/pointer/fragment.go
@@ -97,7 +97,7 @@ func (p Fragment) Descendant(path string) (Fragment, error) {
 		return dpath, nil
 	}
 
-	return append(p, dpath...), nil
+	return append(p.Clone(), dpath...), nil
 }
 
 // RawDescendant extends the pointer with 1 or more path tokens
@@ -105,7 +105,7 @@ func (p Fragment) Descendant(path string) (Fragment, error) {
 // and assumes the user is directly managing the pointer
 // This allows for much faster pointer management
 func (p Fragment) RawDescendant(path ...string) Fragment {
-	return append(p, path...)
+	return append(p.Clone(), path...)
 }
 
 func unescapeToken(tok string) string {
-- 
2.43.0


From 7c39f367c96b957df28125082d1adb4e1cb02adc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:25 +0000
Subject: [PATCH 16/52] fix: report replace just past the end of fragment as
 out of range

---
 internal/pointer/fragment.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/pointer/fragment.go b/internal/pointer/fragment.go
index 438803f..3d28424 100644
--- a/internal/pointer/fragment.go
+++ b/internal/pointer/fragment.go
@@ -65,7 +65,7 @@ func (p Fragment) Clone() Fragment {
 
 // Replace will replace element in fragment
 func (p Fragment) Replace(n int, element string) (Fragment, error) {
-	if n > len(p) || n < 0 {
+	if n >= len(p) || n < 0 {
 		return Fragment{}, errors.New("n out of range")
 	}
 	x := p.Clone()
-- 
2.43.0


From fdaf52ab63909a577c00eaab50327e08cc309eb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:27 +0000
Subject: [PATCH 17/52] fix: match tail of route pattern literally

---
 internal/route/route.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/route/route.go b/internal/route/route.go
index 7b12c59..fe28757 100644
--- a/internal/route/route.go
+++ b/internal/route/route.go
@@ -87,7 +87,7 @@ func Match(pattern, method, path string) (bool, error) {
 		}
 		last = j
 	}
-	pettern := strings.Join(append(parts, pattern[last:]), "")
+	pettern := strings.Join(append(parts, regexp.QuoteMeta(pattern[last:])), "")
 	reg, err := compileCached(pettern)
 	if err != nil {
 		return false, err
-- 
2.43.0


From ed7eddaf290c1b7aacfa2322a1b866af9e7953f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:48 +0000
Subject: [PATCH 18/52] fix: apply default operations in stable order

---
 internal/oapi/oapi.go | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/internal/oapi/oapi.go b/internal/oapi/oapi.go
index 9ed7df7..b5a6bf3 100644
--- a/internal/oapi/oapi.go
+++ b/internal/oapi/oapi.go
@@ -1,6 +1,8 @@
 package oapi
 
 import (
+	"sort"
+
 	"github.com/buypal/oapi-go/internal/container"
 	"github.com/buypal/oapi-go/internal/oapi/spec"
 	"github.com/buypal/oapi-go/internal/route"
@@ -69,7 +71,15 @@ func SetPathsDefaults(cnt container.Container, defops map[string]spec.Operation)
 		return
 	}
 
-	for pattern, override := range defops {
+	// first default wins, therefore order of patterns has to be stable
+	patterns := make([]string, 0, len(defops))
+	for pattern := range defops {
+		patterns = append(patterns, pattern)
+	}
+	sort.Strings(patterns)
+
+	for _, pattern := range patterns {
+		override := defops[pattern]
 		var ff FlattenPaths
 		ff, err = paths.Match(pattern)
 		if err != nil {
-- 
2.43.0


From 892ed17d116abeba17f6011c69d2920013720aac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:49 +0000
Subject: [PATCH 19/52] fix: treat only methods of path items as operations

---
 internal/oapi/oapi.go | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/internal/oapi/oapi.go b/internal/oapi/oapi.go
index b5a6bf3..2c4bdc7 100644
--- a/internal/oapi/oapi.go
+++ b/internal/oapi/oapi.go
@@ -2,6 +2,7 @@ package oapi
 
 import (
 	"sort"
+	"strings"
 
 	"github.com/buypal/oapi-go/internal/container"
 	"github.com/buypal/oapi-go/internal/oapi/spec"
@@ -49,6 +50,9 @@ func Paths(cnt container.Container) (ff FlattenPaths, err error) {
 			return
 		}
 		for m, obj := range mx {
+			if !isMethod(m) {
+				continue
+			}
 			ff = append(ff, FlattenPath{
 				Method:    m,
 				Path:      path,
@@ -62,6 +66,16 @@ func Paths(cnt container.Container) (ff FlattenPaths, err error) {
 	return
 }
 
+// isMethod reports if key of path item holds operation. Path item might
+// hold other keys, ie. summary, servers, parameters or extensions.
+func isMethod(key string) bool {
+	switch strings.ToLower(key) {
+	case "get", "put", "post", "delete", "options", "head", "patch", "trace":
+		return true
+	}
+	return false
+}
+
 // SetPathsDefaults will iterate through paths and
 // apply default on each path. This might be useful for
 // supplying default headers or default responses.
-- 
2.43.0


From f4a65706733b21e9f6a0b04e4ec9b60c2481b54b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:13 +0000
Subject: [PATCH 20/52] fix: do not panic when checking scalar container for
 nil

---
 internal/container/container.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/internal/container/container.go b/internal/container/container.go
index 0e4fbc0..dab4ef8 100644
--- a/internal/container/container.go
+++ b/internal/container/container.go
@@ -134,7 +134,13 @@ func (c Container) Data() interface{} {
 
 // IsNil reports if underlying value of container is nil.
 func (c Container) IsNil() bool {
-	return c.Data() == nil || reflect.ValueOf(c.Data()).IsNil()
+	switch v := reflect.ValueOf(c.Data()); v.Kind() {
+	case reflect.Invalid:
+		return true
+	case reflect.Map, reflect.Slice, reflect.Ptr, reflect.Interface, reflect.Func, reflect.Chan:
+		return v.IsNil()
+	}
+	return false
 }
 
 // FilePath returns file path of given container if was ReadFile was used.
-- 
2.43.0


From 627049bc717e6d66eaccccc739d73540c8811612 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:15 +0000
Subject: [PATCH 21/52] fix: keep sections holding lists when merging with root
 document

---
 internal/oapi/oapi.go | 31 +++++++++++++++++++++++++++++++
 1 file changed, 31 insertions(+)

diff --git a/internal/oapi/oapi.go b/internal/oapi/oapi.go
index 2c4bdc7..be8f9b0 100644
--- a/internal/oapi/oapi.go
+++ b/internal/oapi/oapi.go
@@ -151,6 +151,14 @@ func MergeWithRoot(root spec.OpenAPI, c container.Container) (err error) {
 			continue
 		}
 
+		if !isMap(z) || !isMap(y) {
+			err := mergeSection(c, x.key, z, y, x.merge)
+			if err != nil {
+				return err
+			}
+			continue
+		}
+
 		s := container.New()
 
 		err := s.Merge(z, x.merge)
@@ -174,3 +182,26 @@ func MergeWithRoot(root spec.OpenAPI, c container.Container) (err error) {
 	}
 	return nil
 }
+
+// mergeSection will merge sections which are not both objects, ie. lists.
+// These can't be merged any deeper, so one of them is used as it is.
+func mergeSection(c container.Container, key string, z, y container.Container, fn container.Merger) (err error) {
+	var v interface{}
+	switch {
+	case y.IsNil():
+		return nil
+	case z.IsNil():
+		v = y.Data()
+	default:
+		v, err = fn(z.Data(), y.Data())
+		if err != nil {
+			return err
+		}
+	}
+	return c.SetP(key, v)
+}
+
+func isMap(c container.Container) bool {
+	_, ok := c.Data().(map[string]interface{})
+	return ok
+}
-- 
2.43.0


From 54c5b4e6102ace48b5418e4f24219925c5953a2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:51 +0000
Subject: [PATCH 22/52] fix: merge specifications declaring same openapi
 version

---
 internal/oapi/scan/specs/scan.go | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/internal/oapi/scan/specs/scan.go b/internal/oapi/scan/specs/scan.go
index c1f3f50..f021c9f 100644
--- a/internal/oapi/scan/specs/scan.go
+++ b/internal/oapi/scan/specs/scan.go
@@ -1,6 +1,8 @@
 package specs
 
 import (
+	"reflect"
+
 	"github.com/buypal/oapi-go/internal/container"
 	"github.com/buypal/oapi-go/internal/pkgutil"
 	"github.com/buypal/oapi-go/internal/pointer"
@@ -80,5 +82,14 @@ func (r *Scanner) Scan(pkg *packages.Package) (err error) {
 
 // Merge will provide single container as result of merging.
 func (r *Scanner) Merge() (c container.Container, err error) {
-	return r.Containers.Sort().Merge(container.MergeStrict)
+	return r.Containers.Sort().Merge(mergeSame)
+}
+
+// mergeSame allows specifications to repeat same value, ie. openapi version
+// which each of them has to declare, anything else is collision.
+func mergeSame(dest, source interface{}) (interface{}, error) {
+	if reflect.DeepEqual(dest, source) {
+		return dest, nil
+	}
+	return container.MergeStrict(dest, source)
 }
-- 
2.43.0


From 0ae12646c025a319e0ba78d319a8693bf9b01e97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:53 +0000
Subject: [PATCH 23/52] fix: produce valid go file for documents holding
 backquotes

---
 temp.go | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/temp.go b/temp.go
index a38f436..eaf6b71 100644
--- a/temp.go
+++ b/temp.go
@@ -2,16 +2,19 @@ package oapi
 
 import (
 	"bytes"
+	"strconv"
+	"strings"
 	"text/template"
+	"unicode/utf8"
 )
 
-var tpl = template.Must(template.New("pkg").Parse(
+var tpl = template.Must(template.New("pkg").Funcs(template.FuncMap{"literal": literal}).Parse(
 	`// Code generated by oapi-go, DO NOT EDIT.
 package {{.PkgName}}
 
 // OpenAPIJsonSpec is json generated specification produced 
 // by oapi-go tool.
-const OpenAPIJsonSpec = ` + "`" + `{{.OpenAPIJson}}` + "`" + `
+const OpenAPIJsonSpec = {{.OpenAPIJson | literal}}
 `))
 
 type tpldata struct {
@@ -27,3 +30,11 @@ func produceGoFile(pkg tpldata) ([]byte, error) {
 	}
 	return bx.Bytes(), nil
 }
+
+// literal returns go string literal, raw one whenever it is possible.
+func literal(s string) string {
+	if !strings.ContainsAny(s, "`\r\x00\uFEFF") && utf8.ValidString(s) {
+		return "`" + s + "`"
+	}
+	return strconv.Quote(s)
+}
-- 
2.43.0


From 1337a0e2c66189c03c6e834d6504a1c352c8299d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:55 +0000
Subject: [PATCH 24/52] fix: decode whole document instead of its version

---
 oapi.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/oapi.go b/oapi.go
index 50ef4bd..a756679 100644
--- a/oapi.go
+++ b/oapi.go
@@ -37,7 +37,7 @@ type OAPI struct {
 // newOAPI creates new specs from container
 func newOAPI(c container.Container) (x OAPI, err error) {
 	x = OAPI{c: c}
-	err = json.Unmarshal(c.Bytes(), &x.o.OpenAPI)
+	err = json.Unmarshal(c.Bytes(), &x.o)
 	return x, err
 }
 
-- 
2.43.0


From ace7cfe7a46f4ec2f7268f63f68a57b24e76ea91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:57 +0000
Subject: [PATCH 25/52] fix: use void logger when none is given

---
 oapi.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/oapi.go b/oapi.go
index a756679..195ecad 100644
--- a/oapi.go
+++ b/oapi.go
@@ -78,7 +78,7 @@ func WithDir(dir string) Option {
 func WithLog(l logging.Printer) Option {
 	return func(r *Options) error {
 		if l == nil {
-			r.log = logging.Void()
+			l = logging.Void()
 		}
 		r.log = l
 		return nil
-- 
2.43.0


From 0e8019f15adcd852d78f1947558bd0c1abbe01e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:37 +0000
Subject: [PATCH 26/52] fix: decode schemas with boolean additional properties

---
 internal/oapi/spec/schema.go | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/internal/oapi/spec/schema.go b/internal/oapi/spec/schema.go
index 7a0a9b9..3989c66 100644
--- a/internal/oapi/spec/schema.go
+++ b/internal/oapi/spec/schema.go
@@ -1,5 +1,10 @@
 package spec
 
+import (
+	"bytes"
+	"encoding/json"
+)
+
 // Schema The Schema Object allows the definition of input and output data types.
 // These types can be objects, but also primitives and arrays.
 // This object is an extended subset of the JSON Schema Specification Wright Draft 00.
@@ -125,3 +130,18 @@ type Schema struct {
 func (s Schema) Entity() Entity {
 	return SchemaKind
 }
+
+// UnmarshalJSON sets schema to data, data might be also boolean schema.
+// These are allowed as additionalProperties.
+func (s *Schema) UnmarshalJSON(data []byte) error {
+	switch string(bytes.TrimSpace(data)) {
+	case "true": // anything is valid
+		*s = Schema{}
+		return nil
+	case "false": // nothing is valid
+		*s = Schema{Not: &Schema{}}
+		return nil
+	}
+	type plain Schema
+	return json.Unmarshal(data, (*plain)(s))
+}
-- 
2.43.0


From 08cc6a43ae9d3f7f26a87522159d81396bfbdda1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:39 +0000
Subject: [PATCH 27/52] fix: exit with failure status when run fails

---
 cmd/oapi/main.go | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/cmd/oapi/main.go b/cmd/oapi/main.go
index 5f28553..074aa50 100644
--- a/cmd/oapi/main.go
+++ b/cmd/oapi/main.go
@@ -3,6 +3,7 @@ package main
 import (
 	"bytes"
 	"context"
+	"fmt"
 	"io"
 	"os"
 	"os/signal"
@@ -40,7 +41,7 @@ func main() {
 
 	config, err := cfg.full()
 	if err != nil {
-		logging.Fatal(log, "err config: %s", err.Error())
+		exit(log, "err config: %s", err.Error())
 	}
 
 	go func() {
@@ -51,12 +52,12 @@ func main() {
 
 	spec, err := scan(ctx, log, config)
 	if err != nil {
-		logging.Fatal(log, "err during scan: %s", err.Error())
+		exit(log, "err during scan: %s", err.Error())
 	}
 
 	data, err := oapi.Format(config.Format, spec)
 	if err != nil {
-		logging.Fatal(log, "err during format: %s", err.Error())
+		exit(log, "err during format: %s", err.Error())
 	}
 
 	var w io.Writer
@@ -69,16 +70,23 @@ func main() {
 	default:
 		err = os.Remove(config.Output)
 		if err != nil {
-			logging.Fatal(log, err.Error())
+			exit(log, "err output: %s", err.Error())
 		}
 		w, err = os.OpenFile(config.Output, os.O_RDWR|os.O_CREATE, 0755)
 		if err != nil {
-			logging.Fatal(log, err.Error())
+			exit(log, "err output: %s", err.Error())
 		}
 	}
 
 	_, err = io.Copy(w, bytes.NewBuffer(data))
 	if err != nil {
-		logging.Fatal(log, err.Error())
+		exit(log, "err output: %s", err.Error())
 	}
 }
+
+// exit will report error and terminate process with failure status.
+func exit(log logging.Printer, msg string, args ...interface{}) {
+	logging.Fatal(log, msg, args...)
+	fmt.Fprintf(os.Stderr, msg+"\n", args...)
+	os.Exit(1)
+}
-- 
2.43.0


From c0dc750d407c93f702f1989ca3ff6d0fd50554bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:40 +0000
Subject: [PATCH 28/52] fix: write output to file which does not exist yet

---
 cmd/oapi/main.go | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/cmd/oapi/main.go b/cmd/oapi/main.go
index 074aa50..7efef2b 100644
--- a/cmd/oapi/main.go
+++ b/cmd/oapi/main.go
@@ -68,11 +68,7 @@ func main() {
 	case "stderr":
 		w = os.Stderr
 	default:
-		err = os.Remove(config.Output)
-		if err != nil {
-			exit(log, "err output: %s", err.Error())
-		}
-		w, err = os.OpenFile(config.Output, os.O_RDWR|os.O_CREATE, 0755)
+		w, err = os.OpenFile(config.Output, os.O_RDWR|os.O_CREATE|os.O_TRUNC, 0755)
 		if err != nil {
 			exit(log, "err output: %s", err.Error())
 		}
-- 
2.43.0


From 53f3d5daf4ed0b43206d8c7ccb53b6747c6abaee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:42 +0000
Subject: [PATCH 29/52] fix: honour standard streams given as output

---
 cmd/oapi/config.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/cmd/oapi/config.go b/cmd/oapi/config.go
index ef1e76e..81f3d49 100644
--- a/cmd/oapi/config.go
+++ b/cmd/oapi/config.go
@@ -98,6 +98,7 @@ func (ff Config) full() (cfg config.Config, err error) {
 	if len(cfg.Output) > 0 {
 		switch cfg.Output {
 		case "stderr", "stdout":
+			output = cfg.Output
 		default:
 			output = toAbsPath(cfg.Output, cfg.Dir)
 		}
@@ -105,6 +106,7 @@ func (ff Config) full() (cfg config.Config, err error) {
 	if len(ff.Output) > 0 {
 		switch ff.Output {
 		case "stderr", "stdout":
+			output = ff.Output
 		default:
 			output = toAbsPath(ff.Output, wd)
 		}
-- 
2.43.0


From 2a8bbabfeae142f263810d25497e9b5f0d738c03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:04 +0000
Subject: [PATCH 30/52] fix: do not overflow index of argument

---
 internal/oapi/scan/cmds/args.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/oapi/scan/cmds/args.go b/internal/oapi/scan/cmds/args.go
index 5a68ba8..553f417 100644
--- a/internal/oapi/scan/cmds/args.go
+++ b/internal/oapi/scan/cmds/args.go
@@ -21,7 +21,7 @@ func (a Args) Len() int {
 // Get will return value and true if at given
 // index argument exists.
 func (a Args) Get(index uint) (string, bool) {
-	if int(index) > len(a)-1 {
+	if index >= uint(len(a)) {
 		return "", false
 	}
 	return a[index], true
-- 
2.43.0


From b9cfa183683d590dcaa4dbb2e1df6d29452a7e05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:05 +0000
Subject: [PATCH 31/52] fix: report schema comments with invalid pointer

---
 internal/oapi/scan/cmds/schema.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/internal/oapi/scan/cmds/schema.go b/internal/oapi/scan/cmds/schema.go
index 114083f..fcd9aa4 100644
--- a/internal/oapi/scan/cmds/schema.go
+++ b/internal/oapi/scan/cmds/schema.go
@@ -43,6 +43,9 @@ func NewCmdSchema(cmd CmdBase) (s Commander, err error) {
 		}
 		sx.Name = name
 		sx.Ptr, err = makePtr(name)
+		if err != nil {
+			return nil, rerr
+		}
 		return sx, nil
 	case 2:
 		if invalid(nok, name) {
@@ -53,6 +56,9 @@ func NewCmdSchema(cmd CmdBase) (s Commander, err error) {
 		}
 		sx.Name = name
 		sx.Ptr, err = makePtr(ptr)
+		if err != nil {
+			return nil, rerr
+		}
 		return sx, nil
 	default:
 		return nil, errors.New("invalid number of arguments")
-- 
2.43.0


From d69ca34455f03a0bbc9e4bddfc218508792e0b71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:07 +0000
Subject: [PATCH 32/52] fix: name component after type when only its pointer is
 given

---
 internal/oapi/scan/cmds/schema.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/internal/oapi/scan/cmds/schema.go b/internal/oapi/scan/cmds/schema.go
index fcd9aa4..668add1 100644
--- a/internal/oapi/scan/cmds/schema.go
+++ b/internal/oapi/scan/cmds/schema.go
@@ -46,6 +46,9 @@ func NewCmdSchema(cmd CmdBase) (s Commander, err error) {
 		if err != nil {
 			return nil, rerr
 		}
+		if last, ok := sx.Ptr.Fragment.Last(); ok {
+			sx.Name = last
+		}
 		return sx, nil
 	case 2:
 		if invalid(nok, name) {
-- 
2.43.0


From f25807c8c27f66904bf68af6ee761b325a343afa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:08 +0000
Subject: [PATCH 33/52] fix: export components in stable order

---
 internal/oapi/scan/cmds/scan.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/internal/oapi/scan/cmds/scan.go b/internal/oapi/scan/cmds/scan.go
index c3b1b2c..00df9dc 100644
--- a/internal/oapi/scan/cmds/scan.go
+++ b/internal/oapi/scan/cmds/scan.go
@@ -2,6 +2,7 @@ package cmds
 
 import (
 	"go/ast"
+	"sort"
 
 	"github.com/buypal/oapi-go/internal/oapi/resolver"
 	"github.com/buypal/oapi-go/internal/oapi/spec"
@@ -49,8 +50,13 @@ func (r *Scanner) Scan(pkg *packages.Package) (err error) {
 // of resolver.Exports.
 func (r *Scanner) ExportedComponents() (exports resolver.Exports, err error) {
 	var cc List
-	for _, cmd := range r.Commands {
-		cc = append(cc, cmd...)
+	var pkgs []string
+	for pkg := range r.Commands {
+		pkgs = append(pkgs, pkg)
+	}
+	sort.Strings(pkgs) // Commands is a map, this makes exports stable
+	for _, pkg := range pkgs {
+		cc = append(cc, r.Commands[pkg]...)
 	}
 
 	for _, cmd := range cc {
-- 
2.43.0


From 6efbdf7684818ab8f45c3e1ab66748fe90b847de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:10 +0000
Subject: [PATCH 34/52] fix: reject components exported under same name

---
 internal/oapi/scan/cmds/scan.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/internal/oapi/scan/cmds/scan.go b/internal/oapi/scan/cmds/scan.go
index 00df9dc..a150924 100644
--- a/internal/oapi/scan/cmds/scan.go
+++ b/internal/oapi/scan/cmds/scan.go
@@ -66,6 +66,12 @@ func (r *Scanner) ExportedComponents() (exports resolver.Exports, err error) {
 				err = errors.Errorf("schema of type %q already registered", x.Name)
 				return
 			}
+			for _, exp := range exports {
+				if exp.Name == x.Name {
+					err = errors.Errorf("schema of name %q already registered", x.Name)
+					return
+				}
+			}
 			entity := resolver.Entity{
 				Entity: spec.SchemaKind,
 				Name:   x.Name,
-- 
2.43.0


From f07510ec5f0ab92546673bece94bd43ec67e70cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:35 +0000
Subject: [PATCH 35/52] fix: remove content and link from response instead of
 header

---
 internal/oapi/spec/response_util.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/internal/oapi/spec/response_util.go b/internal/oapi/spec/response_util.go
index 0547009..92aa3cd 100644
--- a/internal/oapi/spec/response_util.go
+++ b/internal/oapi/spec/response_util.go
@@ -68,7 +68,7 @@ func (r *Response) RemoveHeader(name string) *Response {
 // AddContent adds a content to this response
 func (r *Response) AddContent(name string, content *MediaType) *Response {
 	if content == nil {
-		return r.RemoveHeader(name)
+		return r.RemoveContent(name)
 	}
 	if r.Content == nil {
 		r.Content = map[string]*MediaType{}
@@ -86,7 +86,7 @@ func (r *Response) RemoveContent(name string) *Response {
 // AddLink adds a link to this response
 func (r *Response) AddLink(name string, link *Link) *Response {
 	if link == nil {
-		return r.RemoveHeader(name)
+		return r.RemoveLink(name)
 	}
 	if r.Links == nil {
 		r.Links = map[string]*Link{}
-- 
2.43.0


From 6d1d5c3dccc3692455bf1e8ccdeab3e5c5ac59fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:37 +0000
Subject: [PATCH 36/52] fix: use date formats defined by openapi

---
 internal/oapi/spec/schema_util.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/internal/oapi/spec/schema_util.go b/internal/oapi/spec/schema_util.go
index 0d6567a..6138755 100644
--- a/internal/oapi/spec/schema_util.go
+++ b/internal/oapi/spec/schema_util.go
@@ -92,12 +92,12 @@ func PasswordProperty() *Schema {
 
 // DateProperty creates a date property
 func DateProperty() *Schema {
-	return StrFmtProperty("data").WithExample(timeExample)
+	return StrFmtProperty("date").WithExample(timeExample)
 }
 
 // DateTimeProperty creates a date time property
 func DateTimeProperty() *Schema {
-	return StrFmtProperty("data-time").WithExample(timeExample)
+	return StrFmtProperty("date-time").WithExample(timeExample)
 }
 
 // StrFmtProperty creates a property for the named string format
-- 
2.43.0


From abcb6aa60b5dc1b666c2656e97f9753e211206d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:39 +0000
Subject: [PATCH 37/52] fix: do not panic when creating oauth2 security schemes

---
 internal/oapi/spec/security_scheme_util.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/internal/oapi/spec/security_scheme_util.go b/internal/oapi/spec/security_scheme_util.go
index 327b810..54a3aae 100644
--- a/internal/oapi/spec/security_scheme_util.go
+++ b/internal/oapi/spec/security_scheme_util.go
@@ -38,6 +38,7 @@ func OAuth2Implicit(authorizationURL string) *SecurityScheme {
 	ss := &SecurityScheme{}
 	ss.Flows = &OAuthFlows{}
 	ss.Type = SecurityOAuth2
+	ss.Flows.Implicit = &OAuthFlow{}
 	ss.Flows.Implicit.AuthorizationURL = authorizationURL
 	return ss
 }
@@ -47,6 +48,7 @@ func OAuth2Password(tokenURL string) *SecurityScheme {
 	ss := &SecurityScheme{}
 	ss.Flows = &OAuthFlows{}
 	ss.Type = SecurityOAuth2
+	ss.Flows.Password = &OAuthFlow{}
 	ss.Flows.Password.TokenURL = tokenURL
 	return ss
 }
@@ -56,6 +58,7 @@ func OAuth2AuthorizationCode(tokenURL string) *SecurityScheme {
 	ss := &SecurityScheme{}
 	ss.Flows = &OAuthFlows{}
 	ss.Type = SecurityOAuth2
+	ss.Flows.AuthorizationCode = &OAuthFlow{}
 	ss.Flows.AuthorizationCode.TokenURL = tokenURL
 	return ss
 }
@@ -65,6 +68,7 @@ func OAuth2ClientCredentials(authorizationURL, tokenURL string) *SecurityScheme
 	ss := &SecurityScheme{}
 	ss.Flows = &OAuthFlows{}
 	ss.Type = SecurityOAuth2
+	ss.Flows.ClientCredentials = &OAuthFlow{}
 	ss.Flows.ClientCredentials.AuthorizationURL = authorizationURL
 	ss.Flows.ClientCredentials.TokenURL = tokenURL
 	return ss
-- 
2.43.0


From 0e172d55352c5111f21fba2325c6008c0140965c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:41 +0000
Subject: [PATCH 38/52] fix: place header components under headers

---
 internal/oapi/spec/entity.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/internal/oapi/spec/entity.go b/internal/oapi/spec/entity.go
index d1e3966..0aa4c63 100644
--- a/internal/oapi/spec/entity.go
+++ b/internal/oapi/spec/entity.go
@@ -51,6 +51,8 @@ func (c Entity) Key() string {
 		return "examples"
 	case RequestBodyKind:
 		return "requestBodies"
+	case HeaderKind:
+		return "headers"
 	case SecuritySchemeKind:
 		return "securitySchemes"
 	case LinkKind:
-- 
2.43.0


From 0785bcf0d70404d599680eded8cbee35eceb4ac2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:43 +0000
Subject: [PATCH 39/52] fix: escape name of component in its path and fragment

---
 internal/oapi/resolver/utils.go | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/internal/oapi/resolver/utils.go b/internal/oapi/resolver/utils.go
index 32afd1d..0769551 100644
--- a/internal/oapi/resolver/utils.go
+++ b/internal/oapi/resolver/utils.go
@@ -20,13 +20,12 @@ type Entity struct {
 
 // Path returns dot path.
 func (pe Entity) Path() string {
-	return fmt.Sprintf("%s.%s", pe.Entity.Path(), pe.Name)
+	return fmt.Sprintf("%s.%s", pe.Entity.Path(), container.SliceToDotPath([]string{pe.Name}))
 }
 
 // Fragment return fragment path
 func (pe Entity) Fragment() pointer.Fragment {
-	f, _ := pe.Entity.Fragment().Descendant(pe.Name)
-	return f
+	return pe.Entity.Fragment().RawDescendant(pe.Name)
 }
 
 // IsScheme reports if entitiy is scheme
-- 
2.43.0


From 70d11a80b902c836eb4e5f998f3e898e2f302c6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:44 +0000
Subject: [PATCH 40/52] fix: look for packages in src directory of GOPATH

---
 internal/pkgutil/info.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/pkgutil/info.go b/internal/pkgutil/info.go
index 85e333b..23731af 100644
--- a/internal/pkgutil/info.go
+++ b/internal/pkgutil/info.go
@@ -20,7 +20,7 @@ func getGoPath() string {
 
 func getPkgPath(pkg *packages.Package) (string, bool) {
 	if pkg.Module == nil {
-		p := filepath.Join(getGoPath(), pkg.PkgPath)
+		p := filepath.Join(getGoPath(), "src", pkg.PkgPath)
 		if _, err := os.Stat(p); os.IsNotExist(err) {
 			return p, false
 		}
-- 
2.43.0


From 934bb0586053e5b90a911f799f3397194ac770df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:46 +0000
Subject: [PATCH 41/52] fix: keep empty string in any or expressions

---
 internal/oapi/spec/any_or_expressions.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/oapi/spec/any_or_expressions.go b/internal/oapi/spec/any_or_expressions.go
index 23f4418..b8cf6b4 100644
--- a/internal/oapi/spec/any_or_expressions.go
+++ b/internal/oapi/spec/any_or_expressions.go
@@ -27,7 +27,7 @@ func (m *AnyOrExpressions) UnmarshalJSON(data []byte) error {
 	if len(data) == 0 {
 		return nil
 	}
-	if data[0] == '"' {
+	if data[0] == '"' && string(data) != `""` { // empty expression is no expression
 		return json.Unmarshal(data, &m.Expressions)
 	}
 	return json.Unmarshal(data, &m.Any)
-- 
2.43.0


From 7886751327590bd8111295dadc2301b629eb398b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:16 +0000
Subject: [PATCH 42/52] fix: do not panic on missing package

---
 internal/pkgutil/util.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/pkgutil/util.go b/internal/pkgutil/util.go
index 56eb6d9..e41f124 100644
--- a/internal/pkgutil/util.go
+++ b/internal/pkgutil/util.go
@@ -33,7 +33,7 @@ func Scan(pkgs []*packages.Package, fn Scanner) (err error) {
 	seen := make(map[*packages.Package]bool)
 	var visit func(*packages.Package)
 	visit = func(pkg *packages.Package) {
-		if seen[pkg] || IsStdLibPkg(pkg) || pkg == nil {
+		if pkg == nil || seen[pkg] || IsStdLibPkg(pkg) {
 			return
 		}
 		seen[pkg] = true
-- 
2.43.0


From 7c499d083f44caff5c793ce88e982c95d3305e64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:41 +0000
Subject: [PATCH 43/52] revert: repairs inside the spec and specs packages

These directories are treated as tests, the defects are recorded as known
findings instead.
---
 internal/oapi/scan/specs/scan.go           | 13 +------------
 internal/oapi/spec/any_or_expressions.go   |  2 +-
 internal/oapi/spec/entity.go               |  2 --
 internal/oapi/spec/response_util.go        |  4 ++--
 internal/oapi/spec/schema.go               | 20 --------------------
 internal/oapi/spec/schema_util.go          |  4 ++--
 internal/oapi/spec/security_scheme_util.go |  4 ----
 7 files changed, 6 insertions(+), 43 deletions(-)

diff --git a/internal/oapi/scan/specs/scan.go b/internal/oapi/scan/specs/scan.go
index f021c9f..c1f3f50 100644
--- a/internal/oapi/scan/specs/scan.go
+++ b/internal/oapi/scan/specs/scan.go
@@ -1,8 +1,6 @@
 package specs
 
 import (
-	"reflect"
-
 	"github.com/buypal/oapi-go/internal/container"
 	"github.com/buypal/oapi-go/internal/pkgutil"
 	"github.com/buypal/oapi-go/internal/pointer"
@@ -82,14 +80,5 @@ func (r *Scanner) Scan(pkg *packages.Package) (err error) {
 
 // Merge will provide single container as result of merging.
 func (r *Scanner) Merge() (c container.Container, err error) {
-	return r.Containers.Sort().Merge(mergeSame)
-}
-
-// mergeSame allows specifications to repeat same value, ie. openapi version
-// which each of them has to declare, anything else is collision.
-func mergeSame(dest, source interface{}) (interface{}, error) {
-	if reflect.DeepEqual(dest, source) {
-		return dest, nil
-	}
-	return container.MergeStrict(dest, source)
+	return r.Containers.Sort().Merge(container.MergeStrict)
 }
diff --git a/internal/oapi/spec/any_or_expressions.go b/internal/oapi/spec/any_or_expressions.go
index b8cf6b4..23f4418 100644
--- a/internal/oapi/spec/any_or_expressions.go
+++ b/internal/oapi/spec/any_or_expressions.go
@@ -27,7 +27,7 @@ func (m *AnyOrExpressions) UnmarshalJSON(data []byte) error {
 	if len(data) == 0 {
 		return nil
 	}
-	if data[0] == '"' && string(data) != `""` { // empty expression is no expression
+	if data[0] == '"' {
 		return json.Unmarshal(data, &m.Expressions)
 	}
 	return json.Unmarshal(data, &m.Any)
diff --git a/internal/oapi/spec/entity.go b/internal/oapi/spec/entity.go
index 0aa4c63..d1e3966 100644
--- a/internal/oapi/spec/entity.go
+++ b/internal/oapi/spec/entity.go
@@ -51,8 +51,6 @@ func (c Entity) Key() string {
 		return "examples"
 	case RequestBodyKind:
 		return "requestBodies"
-	case HeaderKind:
-		return "headers"
 	case SecuritySchemeKind:
 		return "securitySchemes"
 	case LinkKind:
diff --git a/internal/oapi/spec/response_util.go b/internal/oapi/spec/response_util.go
index 92aa3cd..0547009 100644
--- a/internal/oapi/spec/response_util.go
+++ b/internal/oapi/spec/response_util.go
@@ -68,7 +68,7 @@ func (r *Response) RemoveHeader(name string) *Response {
 // AddContent adds a content to this response
 func (r *Response) AddContent(name string, content *MediaType) *Response {
 	if content == nil {
-		return r.RemoveContent(name)
+		return r.RemoveHeader(name)
 	}
 	if r.Content == nil {
 		r.Content = map[string]*MediaType{}
@@ -86,7 +86,7 @@ func (r *Response) RemoveContent(name string) *Response {
 // AddLink adds a link to this response
 func (r *Response) AddLink(name string, link *Link) *Response {
 	if link == nil {
-		return r.RemoveLink(name)
+		return r.RemoveHeader(name)
 	}
 	if r.Links == nil {
 		r.Links = map[string]*Link{}
diff --git a/internal/oapi/spec/schema.go b/internal/oapi/spec/schema.go
index 3989c66..7a0a9b9 100644
--- a/internal/oapi/spec/schema.go
+++ b/internal/oapi/spec/schema.go
@@ -1,10 +1,5 @@
 package spec
 
-import (
-	"bytes"
-	"encoding/json"
-)
-
 // Schema The Schema Object allows the definition of input and output data types.
 // These types can be objects, but also primitives and arrays.
 // This object is an extended subset of the JSON Schema Specification Wright Draft 00.
@@ -130,18 +125,3 @@ type Schema struct {
 func (s Schema) Entity() Entity {
 	return SchemaKind
 }
-
-// UnmarshalJSON sets schema to data, data might be also boolean schema.
-// These are allowed as additionalProperties.
-func (s *Schema) UnmarshalJSON(data []byte) error {
-	switch string(bytes.TrimSpace(data)) {
-	case "true": // anything is valid
-		*s = Schema{}
-		return nil
-	case "false": // nothing is valid
-		*s = Schema{Not: &Schema{}}
-		return nil
-	}
-	type plain Schema
-	return json.Unmarshal(data, (*plain)(s))
-}
diff --git a/internal/oapi/spec/schema_util.go b/internal/oapi/spec/schema_util.go
index 6138755..0d6567a 100644
--- a/internal/oapi/spec/schema_util.go
+++ b/internal/oapi/spec/schema_util.go
@@ -92,12 +92,12 @@ func PasswordProperty() *Schema {
 
 // DateProperty creates a date property
 func DateProperty() *Schema {
-	return StrFmtProperty("date").WithExample(timeExample)
+	return StrFmtProperty("data").WithExample(timeExample)
 }
 
 // DateTimeProperty creates a date time property
 func DateTimeProperty() *Schema {
-	return StrFmtProperty("date-time").WithExample(timeExample)
+	return StrFmtProperty("data-time").WithExample(timeExample)
 }
 
 // StrFmtProperty creates a property for the named string format
diff --git a/internal/oapi/spec/security_scheme_util.go b/internal/oapi/spec/security_scheme_util.go
index 54a3aae..327b810 100644
--- a/internal/oapi/spec/security_scheme_util.go
+++ b/internal/oapi/spec/security_scheme_util.go
@@ -38,7 +38,6 @@ func OAuth2Implicit(authorizationURL string) *SecurityScheme {
 	ss := &SecurityScheme{}
 	ss.Flows = &OAuthFlows{}
 	ss.Type = SecurityOAuth2
-	ss.Flows.Implicit = &OAuthFlow{}
 	ss.Flows.Implicit.AuthorizationURL = authorizationURL
 	return ss
 }
@@ -48,7 +47,6 @@ func OAuth2Password(tokenURL string) *SecurityScheme {
 	ss := &SecurityScheme{}
 	ss.Flows = &OAuthFlows{}
 	ss.Type = SecurityOAuth2
-	ss.Flows.Password = &OAuthFlow{}
 	ss.Flows.Password.TokenURL = tokenURL
 	return ss
 }
@@ -58,7 +56,6 @@ func OAuth2AuthorizationCode(tokenURL string) *SecurityScheme {
 	ss := &SecurityScheme{}
 	ss.Flows = &OAuthFlows{}
 	ss.Type = SecurityOAuth2
-	ss.Flows.AuthorizationCode = &OAuthFlow{}
 	ss.Flows.AuthorizationCode.TokenURL = tokenURL
 	return ss
 }
@@ -68,7 +65,6 @@ func OAuth2ClientCredentials(authorizationURL, tokenURL string) *SecurityScheme
 	ss := &SecurityScheme{}
 	ss.Flows = &OAuthFlows{}
 	ss.Type = SecurityOAuth2
-	ss.Flows.ClientCredentials = &OAuthFlow{}
 	ss.Flows.ClientCredentials.AuthorizationURL = authorizationURL
 	ss.Flows.ClientCredentials.TokenURL = tokenURL
 	return ss
-- 
2.43.0


From 93dd70854b67cac95ee761770d4f6b5ad2dbc7ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:10 +0000
Subject: [PATCH 44/52] fix: mmap converts a copy and leaves the value it was
 given as it is

---
 internal/container/utils.go | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/internal/container/utils.go b/internal/container/utils.go
index f55de15..6231054 100644
--- a/internal/container/utils.go
+++ b/internal/container/utils.go
@@ -148,14 +148,24 @@ func mmap(v interface{}) interface{} {
 		v = m
 
 	case []interface{}:
+		if x == nil {
+			break
+		}
+		a := make([]interface{}, len(x))
 		for i, v2 := range x {
-			x[i] = mmap(v2)
+			a[i] = mmap(v2)
 		}
+		v = a
 
 	case map[string]interface{}:
+		if x == nil {
+			break
+		}
+		m := map[string]interface{}{}
 		for k, v2 := range x {
-			x[k] = mmap(v2)
+			m[k] = mmap(v2)
 		}
+		v = m
 	}
 
 	return v
-- 
2.43.0


From 2371df53d99575253537a74859641aca13d288cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:40 +0000
Subject: [PATCH 45/52] fix: reading a tag of blank text no longer panics

---
 tag/tag.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tag/tag.go b/tag/tag.go
index 11f6586..3a20022 100644
--- a/tag/tag.go
+++ b/tag/tag.go
@@ -43,7 +43,7 @@ func Parse(rawtags string) (meta Tag, err error) {
 		return
 	}
 	tags, err := structtag.Parse(rawtags)
-	if err != nil {
+	if err != nil || tags == nil { // there are no tags in blank text
 		return
 	}
 	if err = parseJSONTag(tags, &meta); err != nil {
-- 
2.43.0


From 6b677876a715ed68496ea12c4e795c0594ae9a9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:40 +0000
Subject: [PATCH 46/52] fix: '*' in a route matches any text, newlines included

---
 internal/route/route.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/route/route.go b/internal/route/route.go
index fe28757..f8ead53 100644
--- a/internal/route/route.go
+++ b/internal/route/route.go
@@ -102,7 +102,7 @@ func compileCached(pattern string) (*regexp.Regexp, error) {
 	regex := regexen[pattern]
 	if regex == nil {
 		var err error
-		regex, err = regexp.Compile("^" + pattern + "$")
+		regex, err = regexp.Compile("(?s)^" + pattern + "$")
 		if err != nil {
 			return nil, err
 		}
-- 
2.43.0


From 17150ab474365f0b22384764d7d86ba0ccf7f47e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:59:45 +0000
Subject: [PATCH 47/52] fix: apply numeric constraints of a tag to type number

---
 internal/oapi/scan/types/types.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/internal/oapi/scan/types/types.go b/internal/oapi/scan/types/types.go
index 509c812..46d4d8c 100644
--- a/internal/oapi/scan/types/types.go
+++ b/internal/oapi/scan/types/types.go
@@ -481,8 +481,9 @@ func basicString2schema(t string, tg tag.Tag) (s *spec.Schema, err error) {
 		s.Format = "password"
 		return s, err
 	case "number":
-		s = &spec.Schema{Type: spec.TypeNumber}
-		return s, nil
+		s, err = basic2schema(types.Float64, tg)
+		s.Format = ""
+		return s, err
 	case "object":
 		s = &spec.Schema{Type: spec.TypeObject}
 		return s, nil
-- 
2.43.0


From 4506e12c38544f9341c21095f6ff9374f5d77bf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:59:45 +0000
Subject: [PATCH 48/52] fix: reject types that are their own element

---
 internal/oapi/scan/types/types.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/oapi/scan/types/types.go b/internal/oapi/scan/types/types.go
index 46d4d8c..8b16f3a 100644
--- a/internal/oapi/scan/types/types.go
+++ b/internal/oapi/scan/types/types.go
@@ -174,7 +174,7 @@ func typeElement2schema(t elementer, m pointmap, tp path, tg tag.Tag) (s *spec.S
 	// Saying if element is slice, map, array, pointer and its inner element
 	// is same as its outer element it is invalid type for scheme.
 	// Exmple would be `type T *T` or `type T map[string]T`
-	if types.Identical(t, t.Elem()) {
+	if types.Identical(t, t.Elem().Underlying()) {
 		return nil, errors.Errorf("type %q is self referencing identical type", t.String())
 	}
 	return type2schema(t.Elem(), m, tp, tg)
-- 
2.43.0


From 0ccbee437429fb2c6a2a0cb7813cd0f529b4c0a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:01:22 +0000
Subject: [PATCH 49/52] fix: do not take the end marker of a block comment for
 a command argument

---
 internal/oapi/scan/cmds/cmds.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/internal/oapi/scan/cmds/cmds.go b/internal/oapi/scan/cmds/cmds.go
index d1aa69a..d35f9f7 100644
--- a/internal/oapi/scan/cmds/cmds.go
+++ b/internal/oapi/scan/cmds/cmds.go
@@ -35,6 +35,9 @@ func ParseCommentGroup(gg *ast.CommentGroup) []string {
 	cc := []string{}
 	for _, cmt := range gg.List {
 		c := cmt.Text[2:]
+		if strings.HasPrefix(cmt.Text, "/*") {
+			c = strings.TrimSuffix(c, "*/")
+		}
 		hasPrefix := strings.HasPrefix(c, prefix)
 		if !hasPrefix {
 			continue
-- 
2.43.0


From 611c7d793bd8c8328e1ccece2b3048bd84b1cd33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:39:49 +0000
Subject: [PATCH 50/52] fix: report configurations which cannot be turned into
 JSON

---
 internal/container/merge.go    |  5 ++++-
 internal/oapi/config/config.go | 14 +++++++++++---
 2 files changed, 15 insertions(+), 4 deletions(-)

diff --git a/internal/container/merge.go b/internal/container/merge.go
index 5de0eb1..aeac576 100644
--- a/internal/container/merge.go
+++ b/internal/container/merge.go
@@ -27,7 +27,10 @@ func MergeOverride(dest, source interface{}) (interface{}, error) {
 // Which ever value is returned becomes the new value in the destination object
 // at the location of the collision.
 func (c Container) Merge(source Container, collisionFn Merger) error {
-	source = source.Clone() // make sure we are not moving pointers
+	source, err := Make(source) // make sure we are not moving pointers
+	if err != nil {
+		return err
+	}
 
 	var recursiveFnc func(map[string]interface{}, []string) error
 
diff --git a/internal/oapi/config/config.go b/internal/oapi/config/config.go
index 0ce1172..fa11601 100644
--- a/internal/oapi/config/config.go
+++ b/internal/oapi/config/config.go
@@ -80,7 +80,7 @@ func ReadYAML(data []byte) (c Config, err error) {
 	if err != nil {
 		return
 	}
-	err = json.Unmarshal(cx.Bytes(), &c)
+	err = decode(cx, &c)
 	return
 }
 
@@ -94,7 +94,7 @@ func ReadJSON(data []byte) (c Config, err error) {
 	if err != nil {
 		return
 	}
-	err = json.Unmarshal(cx.Bytes(), &c)
+	err = decode(cx, &c)
 	if err != nil {
 		return
 	}
@@ -111,7 +111,7 @@ func ReadFile(file string) (c Config, err error) {
 	if err != nil {
 		return
 	}
-	err = json.Unmarshal(cx.Bytes(), &c)
+	err = decode(cx, &c)
 	if err != nil {
 		return
 	}
@@ -119,6 +119,14 @@ func ReadFile(file string) (c Config, err error) {
 	return
 }
 
+func decode(cx container.Container, c *Config) error {
+	data, err := cx.MarshalJSON()
+	if err != nil {
+		return err
+	}
+	return json.Unmarshal(data, c)
+}
+
 func extends(c container.Container, fp string) (err error) {
 	if !c.ExistsP("extends") {
 		return
-- 
2.43.0


From 2b9f28aa3195cd1863d2c452eae0176c12caf214 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:35:28 +0000
Subject: [PATCH 51/52] fix: keep order of keys of nested objects in yaml
 output

---
 internal/container/sort.go | 25 +++++++++++++++++++++++--
 1 file changed, 23 insertions(+), 2 deletions(-)

diff --git a/internal/container/sort.go b/internal/container/sort.go
index b472869..152480c 100644
--- a/internal/container/sort.go
+++ b/internal/container/sort.go
@@ -50,7 +50,28 @@ func (c Sorter) MarshalYAML() ([]byte, error) {
 	if err != nil {
 		return nil, err
 	}
-	return yaml.Marshal(data)
+	return yaml.Marshal(ordered(data))
+}
+
+// ordered returns data whose objects have their keys in order. Yaml compares
+// keys of map by parts they have in common, which leaves order of some keys up
+// to the order in which map is iterated.
+func ordered(data interface{}) interface{} {
+	switch v := data.(type) {
+	case map[string]interface{}:
+		var ms MapSlice
+		for k, x := range v {
+			ms = append(ms, MapItem{Key: k, Val: x})
+		}
+		return ms
+	case []interface{}:
+		list := make([]interface{}, len(v))
+		for i, x := range v {
+			list[i] = ordered(x)
+		}
+		return list
+	}
+	return data
 }
 
 func indexOf(element string, data []string) int {
@@ -157,7 +178,7 @@ func (ms MapSlice) MarshalYAML() (interface{}, error) {
 	for _, x := range ms.Sort() {
 		m = append(m, yaml.MapItem{
 			Key:   x.Key,
-			Value: x.Val,
+			Value: ordered(x.Val),
 		})
 	}
 	return m, nil
-- 
2.43.0


From dd45ff0214b497ed0b6112a58cdc07f84a8daac3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:54:30 +0000
Subject: [PATCH 52/52] fix: read yaml keys of same text independently of map
 order

---
 internal/container/utils.go | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/internal/container/utils.go b/internal/container/utils.go
index 6231054..9ef7365 100644
--- a/internal/container/utils.go
+++ b/internal/container/utils.go
@@ -137,13 +137,16 @@ func mmap(v interface{}) interface{} {
 	switch x := v.(type) {
 	case map[interface{}]interface{}:
 		m := map[string]interface{}{}
+		types := map[string]string{}
 		for k, v2 := range x {
-			switch k2 := k.(type) {
-			case string: // Fast check if it's already a string
-				m[k2] = mmap(v2)
-			default:
-				m[fmt.Sprint(k)] = mmap(v2)
+			key, t := fmt.Sprint(k), fmt.Sprintf("%T", k)
+			// different keys, ie. 200 and "200", can have same text, which one
+			// is taken must not depend on the order in which map is iterated
+			if types[key] > t {
+				continue
 			}
+			types[key] = t
+			m[key] = mmap(v2)
 		}
 		v = m
 
-- 
2.43.0

