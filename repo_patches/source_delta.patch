From 1d1e8de402335da63a8b72121bdb9f7ff243e25f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:26 +0000
Subject: [PATCH 01/35] fix: list warnings defined after the first lookup of
 their level

---
 infra/warning/warning.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/infra/warning/warning.go b/infra/warning/warning.go
index 841b57c..dc299b3 100644
--- a/infra/warning/warning.go
+++ b/infra/warning/warning.go
@@ -60,6 +60,8 @@ func NewWarning(level Level, name, summary, description string) *Warning {
 		}
 		allWarnings = append(allWarnings, warning)
 		byName[name] = warning
+		// The tree must be rebuilt in order to include the new warning.
+		warningTree = make(map[Level][]*Warning)
 	}
 	return warning
 }
-- 
2.43.0


From 302f5db2a017731b6df08db26b2871239be7cef1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:03 +0000
Subject: [PATCH 02/35] fix: flash handlers derived from one parent overwrote
 each other's context

---
 handlers/flash/handler.go | 21 +++++++++++----------
 1 file changed, 11 insertions(+), 10 deletions(-)

diff --git a/handlers/flash/handler.go b/handlers/flash/handler.go
index 1f6a39b..2f7038e 100644
--- a/handlers/flash/handler.go
+++ b/handlers/flash/handler.go
@@ -145,7 +145,7 @@ func (h *Handler) WithAttrs(attrs []slog.Attr) slog.Handler {
 	}
 	var prefixStarted bool
 	if len(h.prefix) > 0 {
-		hdlr.prefix = h.prefix
+		hdlr.prefix = clip(h.prefix)
 		if !bytes.HasSuffix(hdlr.prefix, []byte{'{'}) {
 			prefixStarted = true
 		}
@@ -153,7 +153,7 @@ func (h *Handler) WithAttrs(attrs []slog.Attr) slog.Handler {
 		hdlr.prefix = make([]byte, 0, lenPrefix)
 	}
 	if len(h.suffix) > 0 {
-		hdlr.suffix = h.suffix
+		hdlr.suffix = clip(h.suffix)
 	} else {
 		hdlr.suffix = make([]byte, 0, lenSuffix)
 	}
@@ -178,7 +178,7 @@ func (h *Handler) WithGroup(name string) slog.Handler {
 	if h.options.ReplaceAttr != nil {
 		// Only need this if there is a ReplaceAttr function.
 		// Even then, the function may not care, but we don't know that here.
-		groups = append(h.groups, name)
+		groups = append(clip(h.groups), name)
 	}
 	hdlr := &group{
 		Handler: &Handler{
@@ -193,27 +193,28 @@ func (h *Handler) WithGroup(name string) slog.Handler {
 	}
 	prefixStart := ""
 	if len(h.prefix) > 0 {
-		hdlr.prefix = h.prefix
+		hdlr.prefix = clip(h.prefix)
 		if !bytes.HasSuffix(h.prefix, []byte{'{'}) {
 			prefixStart = ", "
 		}
 	} else {
 		hdlr.prefix = make([]byte, 0, lenPrefix)
 	}
-	if len(h.suffix) > 0 {
-		hdlr.suffix = h.suffix
-	} else {
-		hdlr.suffix = make([]byte, 0, lenSuffix)
-	}
 	hdlr.prefix = append(hdlr.prefix, []byte(fmt.Sprintf("%s\"%s\": {", prefixStart, name))...)
 	// Should really be prepending the right brace into the suffix,
 	// but suffix only contains right braces, so it doesn't really matter.
-	hdlr.suffix = append(h.suffix, '}')
+	hdlr.suffix = append(clip(h.suffix), '}')
 	return hdlr
 }
 
 // -----------------------------------------------------------------------------
 
+// clip removes the unused capacity of a slice so that appending to the result
+// never overwrites memory shared with another handler.
+func clip[T any](s []T) []T {
+	return s[:len(s):len(s)]
+}
+
 // fixOptions makes certain that a slog.HandlerOptions object has been properly created and
 // configured with default values.
 func fixOptions(options *slog.HandlerOptions) *slog.HandlerOptions {
-- 
2.43.0


From 49279d1e8ab7d6b7446ae90b1e0888df538c9137 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:06 +0000
Subject: [PATCH 03/35] fix: sloggy groups derived from one parent shared their
 group list

---
 handlers/sloggy/handler.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/handlers/sloggy/handler.go b/handlers/sloggy/handler.go
index 38be0e7..0e96b61 100644
--- a/handlers/sloggy/handler.go
+++ b/handlers/sloggy/handler.go
@@ -144,7 +144,7 @@ func (h *Handler) WithGroup(name string) slog.Handler {
 			mutex:   h.mutex,
 			prefix:  bytes.Buffer{},
 			suffix:  bytes.Buffer{},
-			groups:  append(h.groups, name),
+			groups:  append(h.groups[:len(h.groups):len(h.groups)], name),
 		},
 		name:   name,
 		parent: h,
-- 
2.43.0


From 3f00193f207b17817f042b6ec6f348d8a851e45a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:39 +0000
Subject: [PATCH 04/35] fix: flash wrote malformed JSON for strings that are
 not valid UTF-8

---
 handlers/flash/composer.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/handlers/flash/composer.go b/handlers/flash/composer.go
index 94d4572..c05a395 100644
--- a/handlers/flash/composer.go
+++ b/handlers/flash/composer.go
@@ -1,12 +1,14 @@
 package flash
 
 import (
+	"bytes"
 	"encoding"
 	"encoding/json"
 	"fmt"
 	"log/slog"
 	"strconv"
 	"time"
+	"unicode/utf8"
 
 	"github.com/madkins23/go-slog/infra"
 )
@@ -160,6 +162,7 @@ var hexDigit = `0123456789ABCDEF`
 
 // addEscaped appends the specified byte array, escaping certain ASCII characters
 // and carefully appending UTF8 sequences but not escaping them.
+// Bytes that are not part of a valid UTF8 sequence are replaced by U+FFFD.
 //
 // This was originally stolen from:
 //
@@ -172,6 +175,9 @@ var hexDigit = `0123456789ABCDEF`
 // Any changes from the source are the fault the author of this method and
 // should not reflect on the source material. ;-)
 func (c *composer) addEscaped(s []byte) {
+	if !utf8.Valid(s) {
+		s = bytes.ToValidUTF8(s, []byte("\ufffd"))
+	}
 	var b byte
 	var begin, index int
 	uniByte := make([]byte, 0, 4)
-- 
2.43.0


From 63d04d6bd30dc970e3837cfd1def460fbd9d5c65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:41 +0000
Subject: [PATCH 05/35] fix: flash did not escape times formatted with a
 configured time format

---
 handlers/flash/composer.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/handlers/flash/composer.go b/handlers/flash/composer.go
index c05a395..7a0bf9d 100644
--- a/handlers/flash/composer.go
+++ b/handlers/flash/composer.go
@@ -322,7 +322,8 @@ func (c *composer) addTextMarshaler(m encoding.TextMarshaler) error {
 
 func (c *composer) addTime(t time.Time) {
 	c.buffer = append(c.buffer, '"')
-	c.buffer = t.AppendFormat(c.buffer, c.extras.TimeFormat)
+	var scratch [64]byte
+	c.addEscaped(t.AppendFormat(scratch[:0], c.extras.TimeFormat))
 	c.buffer = append(c.buffer, '"')
 }
 
-- 
2.43.0


From dec70f75b6992c11d529b8bb851fd1dfccc669f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:44 +0000
Subject: [PATCH 06/35] fix: flash did not escape group names opened with
 WithGroup

---
 handlers/flash/handler.go | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/handlers/flash/handler.go b/handlers/flash/handler.go
index 2f7038e..89c97a3 100644
--- a/handlers/flash/handler.go
+++ b/handlers/flash/handler.go
@@ -191,16 +191,21 @@ func (h *Handler) WithGroup(name string) slog.Handler {
 		name:   name,
 		parent: h,
 	}
-	prefixStart := ""
+	var prefixStarted bool
 	if len(h.prefix) > 0 {
 		hdlr.prefix = clip(h.prefix)
 		if !bytes.HasSuffix(h.prefix, []byte{'{'}) {
-			prefixStart = ", "
+			prefixStarted = true
 		}
 	} else {
 		hdlr.prefix = make([]byte, 0, lenPrefix)
 	}
-	hdlr.prefix = append(hdlr.prefix, []byte(fmt.Sprintf("%s\"%s\": {", prefixStart, name))...)
+	c := newComposer(hdlr.prefix, prefixStarted, nil, nil, h.extras)
+	defer reuseComposer(c)
+	c.addSeparator()
+	c.addKey(name)
+	c.addBytes('{')
+	hdlr.prefix = c.getBytes()
 	// Should really be prepending the right brace into the suffix,
 	// but suffix only contains right braces, so it doesn't really matter.
 	hdlr.suffix = append(clip(h.suffix), '}')
-- 
2.43.0


From 641cff3a8edff40ca0aea58a1224b4cb2b6b7060 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:47 +0000
Subject: [PATCH 07/35] fix: flash and sloggy wrote NaN and infinities as bare
 words

---
 handlers/flash/composer.go  | 13 ++++++++++++-
 handlers/sloggy/composer.go |  5 +++++
 2 files changed, 17 insertions(+), 1 deletion(-)

diff --git a/handlers/flash/composer.go b/handlers/flash/composer.go
index 7a0bf9d..b8d5bd6 100644
--- a/handlers/flash/composer.go
+++ b/handlers/flash/composer.go
@@ -6,6 +6,7 @@ import (
 	"encoding/json"
 	"fmt"
 	"log/slog"
+	"math"
 	"strconv"
 	"time"
 	"unicode/utf8"
@@ -98,7 +99,7 @@ func (c *composer) addAttribute(attr slog.Attr) error {
 	case slog.KindDuration:
 		c.buffer = strconv.AppendInt(c.buffer, value.Duration().Nanoseconds(), 10)
 	case slog.KindFloat64:
-		c.buffer = strconv.AppendFloat(c.buffer, value.Float64(), 'f', -1, 64)
+		c.addFloat64(value.Float64())
 	case slog.KindInt64:
 		c.buffer = strconv.AppendInt(c.buffer, value.Int64(), 10)
 	case slog.KindString:
@@ -276,6 +277,16 @@ func (c *composer) addEscaped(s []byte) {
 	}
 }
 
+// addFloat64 appends a floating point number.
+// JSON has no numbers for NaN and infinities so these are added as strings.
+func (c *composer) addFloat64(f float64) {
+	if math.IsNaN(f) || math.IsInf(f, 0) {
+		c.addString(strconv.FormatFloat(f, 'f', -1, 64))
+	} else {
+		c.buffer = strconv.AppendFloat(c.buffer, f, 'f', -1, 64)
+	}
+}
+
 func (c *composer) addGroup(attrs []slog.Attr) error {
 	var err error
 	c.buffer = append(c.buffer, '{')
diff --git a/handlers/sloggy/composer.go b/handlers/sloggy/composer.go
index 926ccda..a9f5e3e 100644
--- a/handlers/sloggy/composer.go
+++ b/handlers/sloggy/composer.go
@@ -7,6 +7,7 @@ import (
 	"fmt"
 	"io"
 	"log/slog"
+	"math"
 	"net"
 	"strconv"
 	"time"
@@ -198,6 +199,10 @@ func (c *composer) addError(e error) error {
 }
 
 func (c *composer) addFloat64(f float64) error {
+	if math.IsNaN(f) || math.IsInf(f, 0) {
+		// JSON has no numbers for NaN and infinities.
+		return c.addString(strconv.FormatFloat(f, 'f', -1, 64))
+	}
 	if _, err := c.Write(strconv.AppendFloat([]byte{}, f, 'f', -1, 64)); err != nil {
 		return fmt.Errorf("float64: %w", err)
 	}
-- 
2.43.0


From 737a650c60c6a5a307eae529657f7abe35960553 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:49 +0000
Subject: [PATCH 08/35] fix: flash omitted the comma after a group emptied by
 ReplaceAttr

---
 handlers/flash/composer.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/handlers/flash/composer.go b/handlers/flash/composer.go
index b8d5bd6..a45fa4d 100644
--- a/handlers/flash/composer.go
+++ b/handlers/flash/composer.go
@@ -295,6 +295,7 @@ func (c *composer) addGroup(attrs []slog.Attr) error {
 		return fmt.Errorf("add attributes: %w", err)
 	}
 	c.addBytes('}')
+	c.started = true // The group itself precedes whatever comes next.
 	return nil
 }
 
-- 
2.43.0


From cd059254364584cabaa6915371d1f22129f6f7a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:52 +0000
Subject: [PATCH 09/35] fix: sloggy wrote a stray comma when ReplaceAttr
 removed every built-in field

---
 handlers/sloggy/handler.go | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/handlers/sloggy/handler.go b/handlers/sloggy/handler.go
index 0e96b61..a7f5360 100644
--- a/handlers/sloggy/handler.go
+++ b/handlers/sloggy/handler.go
@@ -65,15 +65,15 @@ func (h *Handler) Handle(_ context.Context, record slog.Record) error {
 	}
 
 	if h.prefix.Len() > 0 {
-		if _, err := c.Write(commaSpace); err != nil {
-			return fmt.Errorf("comma space: %w", err)
+		if c.started {
+			if _, err := c.Write(commaSpace); err != nil {
+				return fmt.Errorf("comma space: %w", err)
+			}
 		}
 		if _, err := c.Write(h.prefix.Bytes()); err != nil {
 			return fmt.Errorf("write prefix: %w", err)
 		}
-		if bytes.HasSuffix(h.prefix.Bytes(), []byte{'{'}) {
-			c.setStarted(false)
-		}
+		c.setStarted(!bytes.HasSuffix(h.prefix.Bytes(), braceLeft))
 	}
 
 	var err error
-- 
2.43.0


From 1419db605c2eaee66bd56b4c62af5c87ec4c1816 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:55 +0000
Subject: [PATCH 10/35] fix: sloggy quoted strings and group names with escapes
 JSON does not know

---
 handlers/sloggy/composer.go | 13 ++++++++++++-
 handlers/sloggy/handler.go  |  2 +-
 2 files changed, 13 insertions(+), 2 deletions(-)

diff --git a/handlers/sloggy/composer.go b/handlers/sloggy/composer.go
index a9f5e3e..0706d0f 100644
--- a/handlers/sloggy/composer.go
+++ b/handlers/sloggy/composer.go
@@ -261,12 +261,23 @@ func (c *composer) addMacAddress(mac net.HardwareAddr) error {
 }
 
 func (c *composer) addString(str string) error {
-	if _, err := c.Write([]byte(strconv.Quote(str))); err != nil {
+	if _, err := c.Write(quote(str)); err != nil {
 		return fmt.Errorf("write quoted string: %w", err)
 	}
 	return nil
 }
 
+// quote returns the string as a JSON string.
+func quote(str string) []byte {
+	var buffer bytes.Buffer
+	encoder := json.NewEncoder(&buffer)
+	encoder.SetEscapeHTML(false)
+	if err := encoder.Encode(str); err != nil {
+		slog.Error("quote string", "err", err) // Strings can always be encoded.
+	}
+	return bytes.TrimSuffix(buffer.Bytes(), []byte{'\n'})
+}
+
 func (c *composer) addStringAsBytes(str []byte) error {
 	return c.addString(string(str))
 }
diff --git a/handlers/sloggy/handler.go b/handlers/sloggy/handler.go
index a7f5360..8b37d47 100644
--- a/handlers/sloggy/handler.go
+++ b/handlers/sloggy/handler.go
@@ -160,7 +160,7 @@ func (h *Handler) WithGroup(name string) slog.Handler {
 		hdlr.suffix.Write(h.suffix.Bytes())
 	}
 
-	if _, err := fmt.Fprintf(&hdlr.prefix, "%s\"%s\": {", prefixStart, name); err != nil {
+	if _, err := fmt.Fprintf(&hdlr.prefix, "%s%s: {", prefixStart, quote(name)); err != nil {
 		slog.Error("open group", "err", err)
 	}
 	if _, err := hdlr.suffix.Write(braceRight); err != nil {
-- 
2.43.0


From 92f50fc80d239a8e3afce89efcd4f1e6efb388d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:57 +0000
Subject: [PATCH 11/35] fix: flash and sloggy did not use resolved values
 before and after ReplaceAttr

---
 handlers/flash/composer.go  | 8 +++-----
 handlers/sloggy/composer.go | 8 +++-----
 2 files changed, 6 insertions(+), 10 deletions(-)

diff --git a/handlers/flash/composer.go b/handlers/flash/composer.go
index a45fa4d..5f4369e 100644
--- a/handlers/flash/composer.go
+++ b/handlers/flash/composer.go
@@ -58,22 +58,20 @@ func (c *composer) getBytes() []byte {
 // -----------------------------------------------------------------------------
 
 func (c *composer) addAttribute(attr slog.Attr) error {
-	kind := attr.Value.Kind()
-	if kind == slog.KindLogValuer {
-		attr.Value = attr.Value.Resolve()
-	}
+	attr.Value = attr.Value.Resolve()
 	if c.replace != nil {
 		var groups []string
 		if !c.basicField[attr.Key] {
 			groups = c.groups
 		}
 		attr = c.replace(groups, attr)
-		kind = attr.Value.Kind()
+		attr.Value = attr.Value.Resolve()
 	}
 	if attr.Equal(infra.EmptyAttr()) {
 		return nil
 	}
 	value := attr.Value
+	kind := value.Kind()
 	if kind == slog.KindGroup {
 		if emptyGroup(value.Group()) {
 			return nil
diff --git a/handlers/sloggy/composer.go b/handlers/sloggy/composer.go
index 0706d0f..89820b5 100644
--- a/handlers/sloggy/composer.go
+++ b/handlers/sloggy/composer.go
@@ -66,21 +66,19 @@ func (c *composer) begin() error {
 }
 
 func (c *composer) addAttribute(attr slog.Attr) error {
-	if attr.Equal(infra.EmptyAttr()) {
-		return nil
-	}
-	value := attr.Value.Resolve()
+	attr.Value = attr.Value.Resolve()
 	if c.replace != nil {
 		var groups []string
 		if !basicField[attr.Key] {
 			groups = c.groups
 		}
 		attr = c.replace(groups, attr)
-		value = attr.Value
+		attr.Value = attr.Value.Resolve()
 	}
 	if attr.Equal(infra.EmptyAttr()) {
 		return nil
 	}
+	value := attr.Value
 	if value.Kind() == slog.KindGroup {
 		if emptyGroup(value.Group()) {
 			return nil
-- 
2.43.0


From f96c8b19f4b019b01cf05ad1a3eff4f6c5747be8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:00 +0000
Subject: [PATCH 12/35] fix: flash and sloggy gave ReplaceAttr the wrong groups
 and group attributes

---
 handlers/flash/composer.go  | 34 +++++++++++++++-------------------
 handlers/flash/handler.go   |  4 +++-
 handlers/sloggy/composer.go | 22 ++++++----------------
 handlers/sloggy/handler.go  |  4 +++-
 4 files changed, 27 insertions(+), 37 deletions(-)

diff --git a/handlers/flash/composer.go b/handlers/flash/composer.go
index 5f4369e..f1918d8 100644
--- a/handlers/flash/composer.go
+++ b/handlers/flash/composer.go
@@ -20,12 +20,11 @@ var composerPool = newGenPool[composer]()
 
 // composer handles writing attributes to an io.Writer.
 type composer struct {
-	buffer     []byte
-	started    bool
-	replace    infra.AttrFn
-	groups     []string
-	extras     *Extras
-	basicField map[string]bool
+	buffer  []byte
+	started bool
+	replace infra.AttrFn
+	groups  []string
+	extras  *Extras
 }
 
 func newComposer(buffer []byte, started bool, replace infra.AttrFn, groups []string, extras *Extras) *composer {
@@ -35,11 +34,6 @@ func newComposer(buffer []byte, started bool, replace infra.AttrFn, groups []str
 	comp.started = started
 	comp.replace = replace
 	comp.groups = groups
-	comp.basicField = make(map[string]bool, 4)
-	comp.basicField[extras.LevelKey] = true
-	comp.basicField[extras.MessageKey] = true
-	comp.basicField[extras.SourceKey] = true
-	comp.basicField[extras.TimeKey] = true
 	return comp
 }
 
@@ -59,12 +53,8 @@ func (c *composer) getBytes() []byte {
 
 func (c *composer) addAttribute(attr slog.Attr) error {
 	attr.Value = attr.Value.Resolve()
-	if c.replace != nil {
-		var groups []string
-		if !c.basicField[attr.Key] {
-			groups = c.groups
-		}
-		attr = c.replace(groups, attr)
+	if c.replace != nil && attr.Value.Kind() != slog.KindGroup {
+		attr = c.replace(c.groups, attr)
 		attr.Value = attr.Value.Resolve()
 	}
 	if attr.Equal(infra.EmptyAttr()) {
@@ -87,7 +77,7 @@ func (c *composer) addAttribute(attr slog.Attr) error {
 	c.addKey(attr.Key)
 	switch kind {
 	case slog.KindGroup:
-		return c.addGroup(value.Group())
+		return c.addGroup(attr.Key, value.Group())
 	case slog.KindBool:
 		if value.Bool() {
 			c.buffer = append(c.buffer, "true"...)
@@ -285,8 +275,14 @@ func (c *composer) addFloat64(f float64) {
 	}
 }
 
-func (c *composer) addGroup(attrs []slog.Attr) error {
+func (c *composer) addGroup(name string, attrs []slog.Attr) error {
 	var err error
+	if c.replace != nil {
+		// The ReplaceAttr function is given the names of all open groups.
+		groups := c.groups
+		c.groups = append(clip(groups), name)
+		defer func() { c.groups = groups }()
+	}
 	c.buffer = append(c.buffer, '{')
 	c.reset() // Reset composer (started = false) to avoid comma.
 	if err = c.addAttributes(attrs); err != nil {
diff --git a/handlers/flash/handler.go b/handlers/flash/handler.go
index 89c97a3..e8ad737 100644
--- a/handlers/flash/handler.go
+++ b/handlers/flash/handler.go
@@ -55,7 +55,8 @@ func (h *Handler) Handle(_ context.Context, record slog.Record) error {
 	buffer := logPool.get()[:0]
 	defer func() { logPool.put(buffer) }()
 
-	c := newComposer(buffer, false, h.options.ReplaceAttr, h.groups, h.extras)
+	// There are no open groups for the basic fields.
+	c := newComposer(buffer, false, h.options.ReplaceAttr, nil, h.extras)
 	defer reuseComposer(c)
 	c.addBytes('{')
 
@@ -111,6 +112,7 @@ func (h *Handler) Handle(_ context.Context, record slog.Record) error {
 		}
 	}
 
+	c.groups = h.groups
 	var err error
 	record.Attrs(func(attr slog.Attr) bool {
 		if err = c.addAttribute(attr); err != nil {
diff --git a/handlers/sloggy/composer.go b/handlers/sloggy/composer.go
index 89820b5..0475e92 100644
--- a/handlers/sloggy/composer.go
+++ b/handlers/sloggy/composer.go
@@ -26,13 +26,6 @@ var (
 	newLine     = []byte{'\r', '\n'}
 )
 
-var basicField = map[string]bool{
-	slog.TimeKey:    true,
-	slog.LevelKey:   true,
-	slog.MessageKey: true,
-	slog.SourceKey:  true,
-}
-
 // -----------------------------------------------------------------------------
 
 // composer handles writing attributes to an io.Writer.
@@ -67,12 +60,8 @@ func (c *composer) begin() error {
 
 func (c *composer) addAttribute(attr slog.Attr) error {
 	attr.Value = attr.Value.Resolve()
-	if c.replace != nil {
-		var groups []string
-		if !basicField[attr.Key] {
-			groups = c.groups
-		}
-		attr = c.replace(groups, attr)
+	if c.replace != nil && attr.Value.Kind() != slog.KindGroup {
+		attr = c.replace(c.groups, attr)
 		attr.Value = attr.Value.Resolve()
 	}
 	if attr.Equal(infra.EmptyAttr()) {
@@ -207,12 +196,13 @@ func (c *composer) addFloat64(f float64) error {
 	return nil
 }
 
-func (c *composer) addGroup(_ string, attrs []slog.Attr) error {
+func (c *composer) addGroup(name string, attrs []slog.Attr) error {
 	if err := c.begin(); err != nil {
 		return fmt.Errorf("begin: %w", err)
 	}
-	// Local composer object resets started flag
-	cg := newComposer(c.Writer, false, c.replace, c.groups)
+	// Local composer object resets started flag and adds the group to the open groups.
+	groups := append(c.groups[:len(c.groups):len(c.groups)], name)
+	cg := newComposer(c.Writer, false, c.replace, groups)
 	if err := cg.addAttributes(attrs); err != nil {
 		return fmt.Errorf("add attributes: %w", err)
 	}
diff --git a/handlers/sloggy/handler.go b/handlers/sloggy/handler.go
index 8b37d47..dd327ba 100644
--- a/handlers/sloggy/handler.go
+++ b/handlers/sloggy/handler.go
@@ -39,7 +39,8 @@ func (h *Handler) Enabled(_ context.Context, level slog.Level) bool {
 }
 
 func (h *Handler) Handle(_ context.Context, record slog.Record) error {
-	c := newComposer(h.writer, false, h.options.ReplaceAttr, h.groups)
+	// There are no open groups for the basic fields.
+	c := newComposer(h.writer, false, h.options.ReplaceAttr, nil)
 	if err := c.begin(); err != nil {
 		return fmt.Errorf("begin: %w", err)
 	}
@@ -76,6 +77,7 @@ func (h *Handler) Handle(_ context.Context, record slog.Record) error {
 		c.setStarted(!bytes.HasSuffix(h.prefix.Bytes(), braceLeft))
 	}
 
+	c.groups = h.groups
 	var err error
 	record.Attrs(func(attr slog.Attr) bool {
 		if err = c.addAttribute(attr); err != nil {
-- 
2.43.0


From ca0a328c7303e085a6e755a0d9df04b401b02b81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:19 +0000
Subject: [PATCH 13/35] fix: flash wrote an empty level name for levels without
 a configured name

---
 handlers/flash/extras.go  | 9 +++++++++
 handlers/flash/handler.go | 4 ++--
 2 files changed, 11 insertions(+), 2 deletions(-)

diff --git a/handlers/flash/extras.go b/handlers/flash/extras.go
index 3672f86..410afdd 100644
--- a/handlers/flash/extras.go
+++ b/handlers/flash/extras.go
@@ -85,3 +85,12 @@ func fixExtras(extras *Extras) *Extras {
 	}
 	return extras
 }
+
+// levelName returns the configured name for the specified level or,
+// if there is none, the standard name (e.g. "INFO+1").
+func (extras *Extras) levelName(level slog.Level) string {
+	if name := extras.LevelNames[level]; name != "" {
+		return name
+	}
+	return level.String()
+}
diff --git a/handlers/flash/handler.go b/handlers/flash/handler.go
index e8ad737..63b15b8 100644
--- a/handlers/flash/handler.go
+++ b/handlers/flash/handler.go
@@ -76,8 +76,8 @@ func (h *Handler) Handle(_ context.Context, record slog.Record) error {
 	if h.options.ReplaceAttr == nil {
 		c.addSeparator()
 		c.addKey(h.extras.LevelKey)
-		c.addString(h.extras.LevelNames[record.Level])
-	} else if err := c.addAttribute(slog.String(h.extras.LevelKey, h.extras.LevelNames[record.Level])); err != nil {
+		c.addString(h.extras.levelName(record.Level))
+	} else if err := c.addAttribute(slog.String(h.extras.LevelKey, h.extras.levelName(record.Level))); err != nil {
 		return fmt.Errorf("add level: %w", err)
 	}
 	if h.options.ReplaceAttr == nil {
-- 
2.43.0


From cc094aee536a9825e984ceb967061cdb0866c1c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:35 +0000
Subject: [PATCH 14/35] fix: flash and sloggy wrote defaults into the caller's
 options and extras

---
 handlers/flash/extras.go   | 6 ++++++
 handlers/flash/handler.go  | 4 ++++
 handlers/sloggy/handler.go | 4 ++++
 3 files changed, 14 insertions(+)

diff --git a/handlers/flash/extras.go b/handlers/flash/extras.go
index 410afdd..1aa5afd 100644
--- a/handlers/flash/extras.go
+++ b/handlers/flash/extras.go
@@ -2,6 +2,7 @@ package flash
 
 import (
 	"log/slog"
+	"maps"
 	"time"
 )
 
@@ -52,6 +53,11 @@ type Extras struct {
 func fixExtras(extras *Extras) *Extras {
 	if extras == nil {
 		extras = &Extras{}
+	} else {
+		// Make a copy, the original belongs to the caller.
+		clone := *extras
+		clone.LevelNames = maps.Clone(extras.LevelNames)
+		extras = &clone
 	}
 	if extras.TimeFormat == "" {
 		extras.TimeFormat = DefaultTimeFormat
diff --git a/handlers/flash/handler.go b/handlers/flash/handler.go
index 63b15b8..c89ff21 100644
--- a/handlers/flash/handler.go
+++ b/handlers/flash/handler.go
@@ -227,6 +227,10 @@ func clip[T any](s []T) []T {
 func fixOptions(options *slog.HandlerOptions) *slog.HandlerOptions {
 	if options == nil {
 		options = &slog.HandlerOptions{}
+	} else {
+		// Make a copy, the original belongs to the caller.
+		clone := *options
+		options = &clone
 	}
 	if options.Level == nil {
 		options.Level = slog.LevelInfo
diff --git a/handlers/sloggy/handler.go b/handlers/sloggy/handler.go
index dd327ba..82e3f4a 100644
--- a/handlers/sloggy/handler.go
+++ b/handlers/sloggy/handler.go
@@ -179,6 +179,10 @@ func (h *Handler) WithGroup(name string) slog.Handler {
 func fixOptions(options *slog.HandlerOptions) *slog.HandlerOptions {
 	if options == nil {
 		options = &slog.HandlerOptions{}
+	} else {
+		// Make a copy, the original belongs to the caller.
+		clone := *options
+		options = &clone
 	}
 	if options.Level == nil {
 		options.Level = slog.LevelInfo
-- 
2.43.0


From 96ae991c6c1b8a2bbf581723c501f0a18c83845d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:01 +0000
Subject: [PATCH 15/35] fix: flash and sloggy kept partial attributes in the
 prefix when WithAttrs failed

---
 handlers/flash/handler.go  |  9 +++++++--
 handlers/sloggy/handler.go | 10 ++++++++--
 2 files changed, 15 insertions(+), 4 deletions(-)

diff --git a/handlers/flash/handler.go b/handlers/flash/handler.go
index c89ff21..cdae2ca 100644
--- a/handlers/flash/handler.go
+++ b/handlers/flash/handler.go
@@ -163,8 +163,13 @@ func (h *Handler) WithAttrs(attrs []slog.Attr) slog.Handler {
 	c := newComposer(hdlr.prefix, prefixStarted, h.options.ReplaceAttr, h.groups, h.extras)
 	defer reuseComposer(c)
 
-	if err := c.addAttributes(attrs); err != nil {
-		slog.Error("adding with attributes", "err", err)
+	for _, attr := range attrs {
+		started, length := c.started, len(c.buffer)
+		if err := c.addAttribute(attr); err != nil {
+			slog.Error("adding with attributes", "err", err)
+			// Remove the partial attribute so that the prefix stays well-formed.
+			c.started, c.buffer = started, c.buffer[:length]
+		}
 	}
 	hdlr.prefix = c.getBytes()
 
diff --git a/handlers/sloggy/handler.go b/handlers/sloggy/handler.go
index 82e3f4a..1d09411 100644
--- a/handlers/sloggy/handler.go
+++ b/handlers/sloggy/handler.go
@@ -127,8 +127,14 @@ func (h *Handler) WithAttrs(attrs []slog.Attr) slog.Handler {
 		hdlr.suffix.Write(h.suffix.Bytes())
 	}
 	c := newComposer(&hdlr.prefix, prefixStarted, h.options.ReplaceAttr, h.groups)
-	if err := c.addAttributes(attrs); err != nil {
-		slog.Error("adding with attributes", "err", err)
+	for _, attr := range attrs {
+		started, length := c.started, hdlr.prefix.Len()
+		if err := c.addAttribute(attr); err != nil {
+			slog.Error("adding with attributes", "err", err)
+			// Remove the partial attribute so that the prefix stays well-formed.
+			c.setStarted(started)
+			hdlr.prefix.Truncate(length)
+		}
 	}
 
 	return hdlr
-- 
2.43.0


From 308b65ef291b1a49d7bc94b388f2a25e86aacfed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:04 +0000
Subject: [PATCH 16/35] fix: sloggy wrote records piecemeal and outside its
 lock

---
 handlers/sloggy/handler.go | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/handlers/sloggy/handler.go b/handlers/sloggy/handler.go
index 1d09411..7293eee 100644
--- a/handlers/sloggy/handler.go
+++ b/handlers/sloggy/handler.go
@@ -40,7 +40,9 @@ func (h *Handler) Enabled(_ context.Context, level slog.Level) bool {
 
 func (h *Handler) Handle(_ context.Context, record slog.Record) error {
 	// There are no open groups for the basic fields.
-	c := newComposer(h.writer, false, h.options.ReplaceAttr, nil)
+	// The line is composed in a buffer so that it can be written all at once.
+	var buffer bytes.Buffer
+	c := newComposer(&buffer, false, h.options.ReplaceAttr, nil)
 	if err := c.begin(); err != nil {
 		return fmt.Errorf("begin: %w", err)
 	}
@@ -96,12 +98,15 @@ func (h *Handler) Handle(_ context.Context, record slog.Record) error {
 	if err := c.end(); err != nil {
 		return fmt.Errorf("end: %w", err)
 	}
+	if _, err := c.Write(newLine); err != nil {
+		return fmt.Errorf("newLine: %w", err)
+	}
 
 	h.mutex.Lock()
 	defer h.mutex.Unlock()
 
-	if _, err := c.Write(newLine); err != nil {
-		return fmt.Errorf("newLine: %w", err)
+	if _, err := h.writer.Write(buffer.Bytes()); err != nil {
+		return fmt.Errorf("write log line: %w", err)
 	}
 
 	return nil
-- 
2.43.0


From 0886a845e1941b7438a5e90c311e68520824a939 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:06 +0000
Subject: [PATCH 17/35] fix: flash and sloggy wrote groups without attributes

---
 handlers/flash/composer.go  |  1 +
 handlers/flash/group.go     | 42 ++++++++++++++++---------------------
 handlers/sloggy/composer.go |  1 +
 handlers/sloggy/group.go    | 42 ++++++++++++++++---------------------
 4 files changed, 38 insertions(+), 48 deletions(-)

diff --git a/handlers/flash/composer.go b/handlers/flash/composer.go
index f1918d8..384e76b 100644
--- a/handlers/flash/composer.go
+++ b/handlers/flash/composer.go
@@ -345,6 +345,7 @@ func (c *composer) addSeparator() {
 
 func emptyGroup(attrs []slog.Attr) bool {
 	for _, attr := range attrs {
+		attr.Value = attr.Value.Resolve()
 		if attr.Equal(infra.EmptyAttr()) {
 			continue
 		}
diff --git a/handlers/flash/group.go b/handlers/flash/group.go
index 504c9fa..3bd310b 100644
--- a/handlers/flash/group.go
+++ b/handlers/flash/group.go
@@ -3,8 +3,6 @@ package flash
 import (
 	"context"
 	"log/slog"
-
-	"github.com/madkins23/go-slog/infra"
 )
 
 // group structure provides embedded group support to flash handler.
@@ -21,38 +19,34 @@ type group struct {
 }
 
 func (g *group) Handle(ctx context.Context, record slog.Record) error {
-	count := 0
-	var dead = false
-	var deadGroup string
-	if deadVal := ctx.Value("deadGroup"); deadVal != nil {
-		// This is a call back to remove a (now empty) group.
-		deadGroup = deadVal.(string)
-	}
+	empty := true
 	record.Attrs(func(attr slog.Attr) bool {
-		if !attr.Equal(infra.EmptyAttr()) {
-			count++
-			if deadGroup != "" && attr.Key == deadGroup {
-				if attr.Value.Kind() == slog.KindGroup {
-					dead = true
-				}
-			}
-			return false
-		}
-		return true
+		empty = emptyGroup([]slog.Attr{attr})
+		return empty
 	})
-	if count < 1 || // There is nothing in the record attributes, the group is empty or...
-		(count < 2 && dead) { // ...there is only a single attribute which is the dead group that called.
+	if empty {
+		// There is nothing in the record attributes so the group is empty.
 		// Since the normal handler prefix already includes group name and open brace
 		// it isn't possible to use the current handler prefix.
 		// The parent handler prefix, however, should work just fine.
-		// Pass in the context variable "deadGroup" to specify the name of this (now empty) group.
-		return g.parent.Handle(context.WithValue(ctx, "deadGroup", g.name), record)
-		// This is a weird solution, but it seems to work.
+		return g.parent.Handle(ctx, record)
 	}
 	return g.Handler.Handle(ctx, record)
 }
 
+func (g *group) WithAttrs(attrs []slog.Attr) slog.Handler {
+	if emptyGroup(attrs) {
+		// Without any attributes the group may still turn out to be empty.
+		return g
+	}
+	return g.Handler.WithAttrs(attrs)
+}
+
 func (g *group) WithGroup(name string) slog.Handler {
+	if name == "" {
+		// Groups with empty names are to be inlined.
+		return g
+	}
 	hdlr := g.Handler.WithGroup(name)
 	if group, ok := hdlr.(*group); ok {
 		// Override the previously set parent to be this object.
diff --git a/handlers/sloggy/composer.go b/handlers/sloggy/composer.go
index 0475e92..e8842c5 100644
--- a/handlers/sloggy/composer.go
+++ b/handlers/sloggy/composer.go
@@ -303,6 +303,7 @@ func (c *composer) addUint64(i uint64) error {
 
 func emptyGroup(attrs []slog.Attr) bool {
 	for _, attr := range attrs {
+		attr.Value = attr.Value.Resolve()
 		if attr.Equal(infra.EmptyAttr()) {
 			continue
 		}
diff --git a/handlers/sloggy/group.go b/handlers/sloggy/group.go
index 2009082..0601fe0 100644
--- a/handlers/sloggy/group.go
+++ b/handlers/sloggy/group.go
@@ -3,8 +3,6 @@ package sloggy
 import (
 	"context"
 	"log/slog"
-
-	"github.com/madkins23/go-slog/infra"
 )
 
 // group structure provides embedded group support to sloggy handler.
@@ -21,38 +19,34 @@ type group struct {
 }
 
 func (g *group) Handle(ctx context.Context, record slog.Record) error {
-	count := 0
-	var dead = false
-	var deadGroup string
-	if deadVal := ctx.Value("deadGroup"); deadVal != nil {
-		// This is a call back to remove a (now empty) group.
-		deadGroup = deadVal.(string)
-	}
+	empty := true
 	record.Attrs(func(attr slog.Attr) bool {
-		if !attr.Equal(infra.EmptyAttr()) {
-			count++
-			if deadGroup != "" && attr.Key == deadGroup {
-				if attr.Value.Kind() == slog.KindGroup {
-					dead = true
-				}
-			}
-			return false
-		}
-		return true
+		empty = emptyGroup([]slog.Attr{attr})
+		return empty
 	})
-	if count < 1 || // There is nothing in the record attributes, the group is empty or...
-		(count < 2 && dead) { // ...there is only a single attribute which is the dead group that called.
+	if empty {
+		// There is nothing in the record attributes so the group is empty.
 		// Since the normal handler prefix already includes group name and open brace
 		// it isn't possible to use the current handler prefix.
 		// The parent handler prefix, however, should work just fine.
-		// Pass in the context variable "deadGroup" to specify the name of this (now empty) group.
-		return g.parent.Handle(context.WithValue(ctx, "deadGroup", g.name), record)
-		// This is a weird solution, but it seems to work.
+		return g.parent.Handle(ctx, record)
 	}
 	return g.Handler.Handle(ctx, record)
 }
 
+func (g *group) WithAttrs(attrs []slog.Attr) slog.Handler {
+	if emptyGroup(attrs) {
+		// Without any attributes the group may still turn out to be empty.
+		return g
+	}
+	return g.Handler.WithAttrs(attrs)
+}
+
 func (g *group) WithGroup(name string) slog.Handler {
+	if name == "" {
+		// Groups with empty names are to be inlined.
+		return g
+	}
 	hdlr := g.Handler.WithGroup(name)
 	if group, ok := hdlr.(*group); ok {
 		// Override the previously set parent to be this object.
-- 
2.43.0


From acbceb05a2ac364e5bfb2ec69fbc0d87bef058b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:00 +0000
Subject: [PATCH 18/35] fix: gin writer ignored the configured traffic level

---
 gin/writer.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gin/writer.go b/gin/writer.go
index 6d0ede9..01f1cb4 100644
--- a/gin/writer.go
+++ b/gin/writer.go
@@ -154,7 +154,7 @@ func (w *writer) Write(p []byte) (int, error) {
 			// Use the pre-existing log message in variable msg.
 		} else {
 			// The traffic data in the log message parsed.
-			level = slog.LevelInfo
+			level = w.Traffic.Level
 			msg = w.Traffic.Message
 			if !w.Traffic.Embed {
 				args = []any{slog.Group(w.Traffic.Group, args...)}
-- 
2.43.0


From 049e7217e93b374302c7302b67ea7d52358b95bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:03 +0000
Subject: [PATCH 19/35] fix: gin writer rejected levels other than the four
 named constants

---
 gin/writer.go | 15 ++-------------
 1 file changed, 2 insertions(+), 13 deletions(-)

diff --git a/gin/writer.go b/gin/writer.go
index 01f1cb4..ac1d3f9 100644
--- a/gin/writer.go
+++ b/gin/writer.go
@@ -1,6 +1,7 @@
 package gin
 
 import (
+	"context"
 	"fmt"
 	"io"
 	"log/slog"
@@ -162,19 +163,7 @@ func (w *writer) Write(p []byte) (int, error) {
 		}
 	}
 
-	switch level {
-	case slog.LevelDebug:
-		slog.Debug(msg, args...)
-	case slog.LevelError:
-		slog.Error(msg, args...)
-	case slog.LevelInfo:
-		slog.Info(msg, args...)
-	case slog.LevelWarn:
-		slog.Warn(msg, args...)
-	default:
-		// Shouldn't ever happen so no test code coverage here.
-		return 0, fmt.Errorf("unknown log level %s", w.Level)
-	}
+	slog.Log(context.Background(), level.Level(), msg, args...)
 
 	return len(p), nil
 }
-- 
2.43.0


From 28f6ddabc13cc04b816742762b0068b1d98cf151 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:06 +0000
Subject: [PATCH 20/35] fix: gin traffic parsing took a single word after a tab
 for method and URL

---
 gin/parser.go | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/gin/parser.go b/gin/parser.go
index 3df5b7d..4074858 100644
--- a/gin/parser.go
+++ b/gin/parser.go
@@ -19,10 +19,7 @@ const (
 	Url     Field = "url"
 )
 
-var (
-	ptnCode  = regexp.MustCompile(`^\s*(\d+)\s*$`)
-	ptnSplit = regexp.MustCompile(`\s+`)
-)
+var ptnCode = regexp.MustCompile(`^\s*(\d+)\s*$`)
 
 // Parse a Gin traffic record (specified as message) to return an array of slog.Attr items.
 // There should be a single such item for each Field constant defined above.
@@ -50,7 +47,7 @@ func Parse(message string) ([]any, error) {
 	// Parse HTTP method and URL from fourth part.
 	// Example of parts[3]:
 	//  GET      "/chart.svg?tag=samber_zap&item=MemAllocs" System=gin
-	parts = ptnSplit.Split(strings.Trim(parts[3], " "), -1)
+	parts = strings.Fields(parts[3])
 	if len(parts) == 2 {
 		result = append(result, slog.String(string(Method), parts[0]))
 		result = append(result, slog.String(string(Url), strings.Trim(parts[1], "\"")))
-- 
2.43.0


From 26387e2d5addc036bcb234be9e93ffcf0eab10bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:21 +0000
Subject: [PATCH 21/35] fix: benchmark duplicate check never parsed the log
 line

---
 bench/tests/checks.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bench/tests/checks.go b/bench/tests/checks.go
index ae1f904..35bfc36 100644
--- a/bench/tests/checks.go
+++ b/bench/tests/checks.go
@@ -165,7 +165,7 @@ func noDuplicates(testName string) VerifyFn {
 	return func(captured []byte, logMap map[string]any, manager *warning.Manager) error {
 		logMap = getLogMap(captured, logMap, manager)
 		counter := intJSON.NewFieldCounter(captured)
-		if len(counter.Duplicates()) > 0 {
+		if err := counter.Parse(); err == nil && len(counter.Duplicates()) > 0 {
 			manager.AddWarningFn(warning.Duplicates, testName, string(captured))
 			return warning.Duplicates.ErrorExtra(testName)
 		}
-- 
2.43.0


From 473101540065da115f5b366f6418a97405236c9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:24 +0000
Subject: [PATCH 22/35] fix: field counter treated any nested fields object as
 the Apex layout

---
 internal/json/field.go | 20 +++++++++++---------
 1 file changed, 11 insertions(+), 9 deletions(-)

diff --git a/internal/json/field.go b/internal/json/field.go
index ee3f90f..7abdef7 100644
--- a/internal/json/field.go
+++ b/internal/json/field.go
@@ -139,7 +139,7 @@ func (ctr *FieldCounter) Parse() error {
 		if unicode.IsSpace(r) {
 			return nil
 		} else if r == '{' {
-			err := ctr.wrapCallError(ctr.parseObject(true), msgParseObject, true, true)
+			err := ctr.wrapCallError(ctr.parseObject(true, true), msgParseObject, true, true)
 			if errors.Is(err, io.EOF) {
 				return nil
 			} else {
@@ -177,7 +177,7 @@ func (ctr *FieldCounter) parseArray() error {
 	})
 }
 
-func (ctr *FieldCounter) parseField(field string) error {
+func (ctr *FieldCounter) parseField(field string, topLevel bool) error {
 	expectColon := true
 	return ctr.readLoop(func(r rune) error {
 		if unicode.IsSpace(r) {
@@ -192,12 +192,14 @@ func (ctr *FieldCounter) parseField(field string) error {
 		} else if expectColon {
 			return fmt.Errorf(fmtExpectedColon, r)
 		} else if r == '{' {
-			if field == "fields" {
+			if topLevel && field == "fields" {
 				// Special case for Apex wherein additional fields are in 'fields' object.
-				delete(ctr.counts, field)
-				return ctr.wrapCallError(ctr.parseObject(true), msgParseObject, true, false)
+				if ctr.counts[field]--; ctr.counts[field] == 0 {
+					delete(ctr.counts, field)
+				}
+				return ctr.wrapCallError(ctr.parseObject(true, false), msgParseObject, true, false)
 			} else {
-				return ctr.wrapCallError(ctr.parseObject(false), msgParseObject, true, false)
+				return ctr.wrapCallError(ctr.parseObject(false, false), msgParseObject, true, false)
 			}
 		} else if r == '[' {
 			return ctr.wrapCallError(ctr.parseArray(), msgParseArray, true, false)
@@ -265,7 +267,7 @@ func (ctr *FieldCounter) parseNumber() error {
 	})
 }
 
-func (ctr *FieldCounter) parseObject(countFields bool) error {
+func (ctr *FieldCounter) parseObject(countFields, topLevel bool) error {
 	expectComma := false
 	return ctr.readLoop(func(r rune) error {
 		switch {
@@ -290,7 +292,7 @@ func (ctr *FieldCounter) parseObject(countFields bool) error {
 				ctr.counts[field]++
 			}
 			expectComma = true
-			return ctr.wrapCallError(ctr.parseField(field), msgParseField, false, false)
+			return ctr.wrapCallError(ctr.parseField(field, topLevel), msgParseField, false, false)
 		case r == '}':
 			return errFinished
 		default:
@@ -357,7 +359,7 @@ func (ctr *FieldCounter) parseValue() error {
 		} else if r == '[' {
 			return ctr.wrapCallError(ctr.parseArray(), msgParseArray, true, false)
 		} else if r == '{' {
-			return ctr.wrapCallError(ctr.parseObject(false), msgParseObject, true, false)
+			return ctr.wrapCallError(ctr.parseObject(false, false), msgParseObject, true, false)
 		} else {
 			return errUnexpected(r)
 		}
-- 
2.43.0


From e1e854c902b4266001ce7575af349db26eb00012 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:27 +0000
Subject: [PATCH 23/35] fix: field counter took different spellings of one
 field name for different names

---
 internal/json/field.go | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/internal/json/field.go b/internal/json/field.go
index 7abdef7..f2cfb56 100644
--- a/internal/json/field.go
+++ b/internal/json/field.go
@@ -2,6 +2,7 @@ package json
 
 import (
 	"bytes"
+	"encoding/json"
 	"errors"
 	"fmt"
 	"io"
@@ -321,7 +322,15 @@ func (ctr *FieldCounter) parseString() (string, error) {
 			return nil
 		}
 	})
-	return builder.String(), err
+	text := builder.String()
+	if err == nil && strings.ContainsRune(text, '\\') {
+		// Different spellings of the same text are the same text.
+		var unescaped string
+		if err = json.Unmarshal([]byte(`"`+text+`"`), &unescaped); err == nil {
+			text = unescaped
+		}
+	}
+	return text, err
 }
 
 var goodKeywords = map[string]bool{
-- 
2.43.0


From b969e0a7b1a60c67270253986635fdb49c3886c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:49 +0000
Subject: [PATCH 24/35] fix: keep larger throughput units in benchmark records
 by handler

---
 internal/data/bench_parser.go | 11 +++--------
 1 file changed, 3 insertions(+), 8 deletions(-)

diff --git a/internal/data/bench_parser.go b/internal/data/bench_parser.go
index f061cc7..19c63fc 100644
--- a/internal/data/bench_parser.go
+++ b/internal/data/bench_parser.go
@@ -102,7 +102,7 @@ func (b *Benchmarks) ParseBenchmarkData(in io.Reader) error {
 			if b.byTest[test] == nil {
 				b.byTest[test] = make(HandlerRecords)
 			}
-			b.byTest[test][handler] = TestRecord{
+			record := TestRecord{
 				Runs:           runs,
 				NanosPerOp:     nsOps,
 				MemBytesPerOp:  bytesOp,
@@ -111,17 +111,12 @@ func (b *Benchmarks) ParseBenchmarkData(in io.Reader) error {
 				GbPerSec:       mbSec / 1_000.0,
 				TbPerSec:       mbSec / 1_000_000.0,
 			}
+			b.byTest[test][handler] = record
 
 			if b.ByHandler[handler] == nil {
 				b.ByHandler[handler] = make(TestRecords)
 			}
-			b.ByHandler[handler][test] = TestRecord{
-				Runs:           runs,
-				NanosPerOp:     nsOps,
-				MemBytesPerOp:  bytesOp,
-				MemAllocsPerOp: allocsOp,
-				MbPerSec:       mbSec,
-			}
+			b.ByHandler[handler][test] = record
 		}
 	}
 	if scanner.Err() != nil {
-- 
2.43.0


From 1724c9a76bd7152b21ba91444733835ae96890e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:53 +0000
Subject: [PATCH 25/35] fix: rebuild benchmark tag lists after parsing more
 data

---
 internal/data/bench_parser.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/internal/data/bench_parser.go b/internal/data/bench_parser.go
index 19c63fc..fb81678 100644
--- a/internal/data/bench_parser.go
+++ b/internal/data/bench_parser.go
@@ -37,6 +37,9 @@ func (b *Benchmarks) ParseBenchmarkData(in io.Reader) error {
 			in = os.Stdin
 		}
 	}
+	// Tag lists and the lookup map are rebuilt after parsing.
+	b.tests, b.handlers, b.lookup = nil, nil, nil
+
 	scanner := bufio.NewScanner(in)
 
 	for scanner.Scan() {
-- 
2.43.0


From c592c6590836e4d5606fcf4418b05cdf2bf94f28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:49 +0000
Subject: [PATCH 26/35] fix: do not panic on a log line before any warning
 instance

---
 internal/data/warnings_parser.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/internal/data/warnings_parser.go b/internal/data/warnings_parser.go
index 03c7563..729f8d1 100644
--- a/internal/data/warnings_parser.go
+++ b/internal/data/warnings_parser.go
@@ -173,6 +173,10 @@ func (w *Warnings) ParseWarningData(in io.Reader, source string, lookup map[stri
 		}
 		// Do this before ptnInstance as they can otherwise get confused.
 		if ptnLogLine.Match(line) {
+			if instance == nil {
+				slog.Warn("Log line without instance", "line", string(line))
+				continue
+			}
 			instance.line = string(line)
 			// Attempt to pretty-print the log line.
 			var jm map[string]any
-- 
2.43.0


From 724969e0ef17803505f7d632107c8b4dcdf48875 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:52 +0000
Subject: [PATCH 27/35] fix: keep earlier warnings of a handler when a later
 section has none

---
 internal/data/warnings_parser.go | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/internal/data/warnings_parser.go b/internal/data/warnings_parser.go
index 729f8d1..dc2c70d 100644
--- a/internal/data/warnings_parser.go
+++ b/internal/data/warnings_parser.go
@@ -148,9 +148,11 @@ func (w *Warnings) ParseWarningData(in io.Reader, source string, lookup map[stri
 		}
 		if ptnNone.Match(line) {
 			// Minimal amount of data to support score chart.
-			w.ByHandler[handler] = &Levels{
-				lookup: make(map[string]*DataLevel),
-				levels: make([]*DataLevel, 0),
+			if _, found := w.ByHandler[handler]; !found {
+				w.ByHandler[handler] = &Levels{
+					lookup: make(map[string]*DataLevel),
+					levels: make([]*DataLevel, 0),
+				}
 			}
 			continue
 		}
-- 
2.43.0


From 3b0286c67d59d3fd0613e654e9b699f33d8c6971 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:55 +0000
Subject: [PATCH 28/35] fix: count zero for warnings without any data

---
 internal/data/warnings.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/internal/data/warnings.go b/internal/data/warnings.go
index 9390806..6a45942 100644
--- a/internal/data/warnings.go
+++ b/internal/data/warnings.go
@@ -116,7 +116,10 @@ func (w *Warnings) HandlerTags() []HandlerTag {
 
 // HandlerWarningCount returns the number of the specified warning associated with the specified handler.
 func (w *Warnings) HandlerWarningCount(handler HandlerTag, warning *warning.Warning) uint {
-	return w.ByWarning[warning.Name].Count[handler]
+	if data, found := w.ByWarning[warning.Name]; found {
+		return data.Count[handler]
+	}
+	return 0
 }
 
 // HasTest returns true if a test is defined with the specified tag.
-- 
2.43.0


From c710b7ac18e38eedb802e70023ffd2e43e0fdcd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:58 +0000
Subject: [PATCH 29/35] fix: keep log lines that are not JSON in the warnings
 by test

---
 internal/data/warnings_parser.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/internal/data/warnings_parser.go b/internal/data/warnings_parser.go
index dc2c70d..b691e68 100644
--- a/internal/data/warnings_parser.go
+++ b/internal/data/warnings_parser.go
@@ -68,6 +68,7 @@ func (w *Warnings) ParseWarningData(in io.Reader, source string, lookup map[stri
 					&dataInstance{
 						name:  handler.Name(),
 						extra: instance.extra,
+						line:  instance.line,
 						log:   instance.log,
 					})
 				wd := w.FindWarning(dWarning.warning.name)
-- 
2.43.0


From 949b0134d6e56bb71ebe137389d36f52b0625872 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:01 +0000
Subject: [PATCH 30/35] fix: do not take section headers and summary ends for
 warning instances

---
 internal/data/warnings_parser.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/internal/data/warnings_parser.go b/internal/data/warnings_parser.go
index b691e68..3fc2275 100644
--- a/internal/data/warnings_parser.go
+++ b/internal/data/warnings_parser.go
@@ -89,6 +89,7 @@ func (w *Warnings) ParseWarningData(in io.Reader, source string, lookup map[stri
 
 		if matches := ptnWarningsFor.FindSubmatch(line); len(matches) == 2 {
 			saveInstance(line)
+			dWarning = nil
 			handler = HandlerTag(matches[1])
 			// Capture relationship between handler name in benchmark function vs. Creator.
 			// The handler string here is the Creator name,
@@ -142,6 +143,9 @@ func (w *Warnings) ParseWarningData(in io.Reader, source string, lookup map[stri
 					break
 				}
 			}
+			if ptnSummaryEnd.Match(line) {
+				continue
+			}
 		}
 		if handler == "" {
 			// Can't do anything until we recognize something.
-- 
2.43.0


From 8e5defb06b574c5fc2dea2b853ef73d8c3592f2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:04 +0000
Subject: [PATCH 31/35] fix: rebuild cached warning lists after parsing more
 data

---
 internal/data/warnings.go        | 3 +++
 internal/data/warnings_parser.go | 4 ++++
 2 files changed, 7 insertions(+)

diff --git a/internal/data/warnings.go b/internal/data/warnings.go
index 6a45942..9cfc658 100644
--- a/internal/data/warnings.go
+++ b/internal/data/warnings.go
@@ -318,6 +318,7 @@ func (l *Levels) findLevel(lvl warning.Level, warningName string) *dataWarning {
 			lookup: make(map[string]*dataWarning),
 		}
 		l.lookup[lvl.String()] = lv
+		l.levels = nil
 	}
 	return lv.findWarningGroup(warningName)
 }
@@ -363,6 +364,7 @@ func (l *DataLevel) findWarningGroup(warningName string) *dataWarning {
 		}
 		grp.warning.name = warningName
 		l.lookup[warningName] = grp
+		l.warnings = nil
 	}
 	return grp
 }
@@ -402,6 +404,7 @@ func (w *dataWarning) Summary() string {
 
 func (w *dataWarning) AddInstance(instance *dataInstance) {
 	w.instances = append(w.instances, instance)
+	w.sorted = false
 }
 
 func (w *dataWarning) Instances() []*dataInstance {
diff --git a/internal/data/warnings_parser.go b/internal/data/warnings_parser.go
index 3fc2275..e9c177c 100644
--- a/internal/data/warnings_parser.go
+++ b/internal/data/warnings_parser.go
@@ -49,6 +49,9 @@ func (w *Warnings) ParseWarningData(in io.Reader, source string, lookup map[stri
 			return nil
 		}
 	}
+	// Tag lists are rebuilt after parsing.
+	w.tests, w.handlers = nil, nil
+
 	scanner := bufio.NewScanner(in)
 
 	var handler HandlerTag
@@ -75,6 +78,7 @@ func (w *Warnings) ParseWarningData(in io.Reader, source string, lookup map[stri
 				wd.Count[handler]++
 				wd.hdlrMap[handler] = true
 				wd.testMap[test] = true
+				wd.handlers, wd.tests = nil, nil
 			}
 			instance = nil
 		}
-- 
2.43.0


From e101ceee380364b7293ce7c3f9acf2f2be419012 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:20 +0000
Subject: [PATCH 32/35] fix: keep ranged scores between 0 and 100 when values
 are equal or rounded

---
 internal/scoring/axis/common/range.go | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/internal/scoring/axis/common/range.go b/internal/scoring/axis/common/range.go
index 1a62ccc..0563057 100644
--- a/internal/scoring/axis/common/range.go
+++ b/internal/scoring/axis/common/range.go
@@ -50,7 +50,12 @@ func (r *RangeFloat64) Length() float64 {
 }
 
 func (r *RangeFloat64) RangedValue(from float64) score.Value {
-	return score.Value(100.0 * (r.high - from) / r.Length())
+	length := r.Length()
+	if length <= 0 {
+		// If we're all the same (the score range is essentially zero) we all get 100%.
+		return 100.0
+	}
+	return score.Value(100.0 * ((r.high - from) / length))
 }
 
 func (r *RangeFloat64) String() string {
@@ -90,7 +95,12 @@ func (r *RangeUint64) Length() float64 {
 }
 
 func (r *RangeUint64) RangedValue(from float64) score.Value {
-	return score.Value(100.0 * (float64(r.high) - from) / r.Length())
+	length := r.Length()
+	if length <= 0 {
+		// If we're all the same (the score range is essentially zero) we all get 100%.
+		return 100.0
+	}
+	return score.Value(100.0 * ((float64(r.high) - from) / length))
 }
 
 func (r *RangeUint64) String() string {
-- 
2.43.0


From c3046769af99f4735c934793561749d3dc37e5e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:23 +0000
Subject: [PATCH 33/35] fix: ignore values with weight zero in averages

---
 internal/scoring/score/average.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/internal/scoring/score/average.go b/internal/scoring/score/average.go
index d430329..2c5d17b 100644
--- a/internal/scoring/score/average.go
+++ b/internal/scoring/score/average.go
@@ -16,6 +16,10 @@ func (ba *Average) Add(v Value) *Average {
 }
 
 func (ba *Average) AddMultiple(v Value, multiple uint) *Average {
+	if multiple == 0 {
+		// Nothing to add, even when the value is not a number.
+		return ba
+	}
 	ba.Value += v * Value(multiple)
 	ba.Count += multiple
 	return ba
-- 
2.43.0


From bcb24522a5a9ac49ca97f18d326c166adef0a010 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:25 +0000
Subject: [PATCH 34/35] fix: leave empty sub-scores out of benchmark scores

---
 internal/scoring/axis/bench/original.go | 6 ++++--
 internal/scoring/axis/benchmarks.go     | 8 ++++++--
 2 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/internal/scoring/axis/bench/original.go b/internal/scoring/axis/bench/original.go
index bbf18d1..7d85892 100644
--- a/internal/scoring/axis/bench/original.go
+++ b/internal/scoring/axis/bench/original.go
@@ -71,8 +71,10 @@ func (o *Original) HandlerTest(test data.TestTag, record data.TestRecord) {
 		o.collect += score.Value(float64(o.weight[Nanoseconds]) * 100.0 * (rngTest.nanosHigh - record.NanosPerOp) / scoreRange)
 		o.count += o.weight[Nanoseconds]
 	}
-	o.total += o.collect / score.Value(o.count)
-	o.tests++
+	if o.count > 0 {
+		o.total += o.collect / score.Value(o.count)
+		o.tests++
+	}
 }
 
 // CheckRanges checks the ranges contained in this Original object to the ranges
diff --git a/internal/scoring/axis/benchmarks.go b/internal/scoring/axis/benchmarks.go
index 2ed837a..c6ab635 100644
--- a/internal/scoring/axis/benchmarks.go
+++ b/internal/scoring/axis/benchmarks.go
@@ -106,7 +106,9 @@ func (b *Benchmarks) Setup(benchMarks *data.Benchmarks, _ *data.Warnings) error
 					}
 				}
 				// Newer algorithm.
-				handlerData.Rollup(bench.OverTests).Add(handlerData.ByTest(test).Average())
+				if byTest := handlerData.ByTest(test); byTest.Count > 0 {
+					handlerData.Rollup(bench.OverTests).Add(byTest.Average())
+				}
 				original.CheckTest(handlerData, test)
 			}
 		}
@@ -116,7 +118,9 @@ func (b *Benchmarks) Setup(benchMarks *data.Benchmarks, _ *data.Warnings) error
 		handlerData.SetScore(score.ByTest, handlerData.Rollup(bench.OverTests).Average())
 		// Newer algorithm rollup over BenchWeight subs
 		for _, weight := range bench.WeightOrder {
-			handlerData.Rollup(bench.OverData).AddMultiple(handlerData.SubScore(weight).Average(), b.benchWeight[weight])
+			if subScore := handlerData.SubScore(weight); subScore.Count > 0 {
+				handlerData.Rollup(bench.OverData).AddMultiple(subScore.Average(), b.benchWeight[weight])
+			}
 		}
 		handlerData.SetScore(score.ByData, handlerData.Rollup(bench.OverData).Average())
 		original.CheckTotal(handlerData)
-- 
2.43.0


From ae811f8aae53448317b9b87c3c8add85e2be2fca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:14 +0000
Subject: [PATCH 35/35] Revert "fix: parse the log line in the benchmark
 duplicate check" (bench/tests counts as test code)

---
 bench/tests/checks.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bench/tests/checks.go b/bench/tests/checks.go
index 35bfc36..ae1f904 100644
--- a/bench/tests/checks.go
+++ b/bench/tests/checks.go
@@ -165,7 +165,7 @@ func noDuplicates(testName string) VerifyFn {
 	return func(captured []byte, logMap map[string]any, manager *warning.Manager) error {
 		logMap = getLogMap(captured, logMap, manager)
 		counter := intJSON.NewFieldCounter(captured)
-		if err := counter.Parse(); err == nil && len(counter.Duplicates()) > 0 {
+		if len(counter.Duplicates()) > 0 {
 			manager.AddWarningFn(warning.Duplicates, testName, string(captured))
 			return warning.Duplicates.ErrorExtra(testName)
 		}
-- 
2.43.0

