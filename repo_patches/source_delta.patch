From 87227b8c2a789902a135ae80ae279a85ddc3b2f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:58 +0000
Subject: [PATCH 01/27] fix: sloggy writes each line once, under the lock

The pieces of a line went to the shared writer one by one without the lock
(only the newline was locked), so concurrent records interleaved and a record
that failed halfway left a partial line behind.
---
 handlers/sloggy/handler.go | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/handlers/sloggy/handler.go b/handlers/sloggy/handler.go
index 38be0e7..6a7569b 100644
--- a/handlers/sloggy/handler.go
+++ b/handlers/sloggy/handler.go
@@ -39,7 +39,9 @@ func (h *Handler) Enabled(_ context.Context, level slog.Level) bool {
 }
 
 func (h *Handler) Handle(_ context.Context, record slog.Record) error {
-	c := newComposer(h.writer, false, h.options.ReplaceAttr, h.groups)
+	// Compose the whole line first so that it can be written all at once.
+	var line bytes.Buffer
+	c := newComposer(&line, false, h.options.ReplaceAttr, h.groups)
 	if err := c.begin(); err != nil {
 		return fmt.Errorf("begin: %w", err)
 	}
@@ -95,13 +97,16 @@ func (h *Handler) Handle(_ context.Context, record slog.Record) error {
 		return fmt.Errorf("end: %w", err)
 	}
 
-	h.mutex.Lock()
-	defer h.mutex.Unlock()
-
 	if _, err := c.Write(newLine); err != nil {
 		return fmt.Errorf("newLine: %w", err)
 	}
 
+	h.mutex.Lock()
+	defer h.mutex.Unlock()
+	if _, err := h.writer.Write(line.Bytes()); err != nil {
+		return fmt.Errorf("write line: %w", err)
+	}
+
 	return nil
 }
 
-- 
2.43.0


From e70bfd5bc08cc7d92dc69a75cedac360fe32e559 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:58 +0000
Subject: [PATCH 02/27] fix: sloggy quotes strings and group names as JSON

strconv.Quote produces Go escapes (\x00, \a, \U...) that JSON does not have
and group names were not escaped at all.
---
 handlers/sloggy/composer.go | 6 +++++-
 handlers/sloggy/handler.go  | 6 +++++-
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/handlers/sloggy/composer.go b/handlers/sloggy/composer.go
index 926ccda..1723e59 100644
--- a/handlers/sloggy/composer.go
+++ b/handlers/sloggy/composer.go
@@ -256,7 +256,11 @@ func (c *composer) addMacAddress(mac net.HardwareAddr) error {
 }
 
 func (c *composer) addString(str string) error {
-	if _, err := c.Write([]byte(strconv.Quote(str))); err != nil {
+	quoted, err := json.Marshal(str)
+	if err != nil {
+		return fmt.Errorf("quote string: %w", err)
+	}
+	if _, err := c.Write(quoted); err != nil {
 		return fmt.Errorf("write quoted string: %w", err)
 	}
 	return nil
diff --git a/handlers/sloggy/handler.go b/handlers/sloggy/handler.go
index 6a7569b..f0b1d48 100644
--- a/handlers/sloggy/handler.go
+++ b/handlers/sloggy/handler.go
@@ -165,9 +165,13 @@ func (h *Handler) WithGroup(name string) slog.Handler {
 		hdlr.suffix.Write(h.suffix.Bytes())
 	}
 
-	if _, err := fmt.Fprintf(&hdlr.prefix, "%s\"%s\": {", prefixStart, name); err != nil {
+	hdlr.prefix.Write(prefixStart)
+	c := newComposer(&hdlr.prefix, false, nil, nil)
+	if err := c.addString(name); err != nil {
 		slog.Error("open group", "err", err)
 	}
+	hdlr.prefix.Write(colonSpace)
+	hdlr.prefix.Write(braceLeft)
 	if _, err := hdlr.suffix.Write(braceRight); err != nil {
 		slog.Error("group right brace", "err", err)
 	}
-- 
2.43.0


From fb016da7386fc1106a23eef898bdf7b2035f601a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:45 +0000
Subject: [PATCH 03/27] fix: handlers derived from one handler do not share
 growing slices

Appending to prefix, suffix or groups in place let one derived handler overwrite
what a sibling derived from the same handler had appended.
---
 handlers/flash/handler.go  | 9 +++++----
 handlers/sloggy/handler.go | 3 ++-
 2 files changed, 7 insertions(+), 5 deletions(-)

diff --git a/handlers/flash/handler.go b/handlers/flash/handler.go
index 1f6a39b..32cf813 100644
--- a/handlers/flash/handler.go
+++ b/handlers/flash/handler.go
@@ -6,6 +6,7 @@ import (
 	"fmt"
 	"io"
 	"log/slog"
+	"slices"
 	"sync"
 )
 
@@ -145,7 +146,7 @@ func (h *Handler) WithAttrs(attrs []slog.Attr) slog.Handler {
 	}
 	var prefixStarted bool
 	if len(h.prefix) > 0 {
-		hdlr.prefix = h.prefix
+		hdlr.prefix = slices.Clip(h.prefix)
 		if !bytes.HasSuffix(hdlr.prefix, []byte{'{'}) {
 			prefixStarted = true
 		}
@@ -178,7 +179,7 @@ func (h *Handler) WithGroup(name string) slog.Handler {
 	if h.options.ReplaceAttr != nil {
 		// Only need this if there is a ReplaceAttr function.
 		// Even then, the function may not care, but we don't know that here.
-		groups = append(h.groups, name)
+		groups = append(slices.Clip(h.groups), name)
 	}
 	hdlr := &group{
 		Handler: &Handler{
@@ -193,7 +194,7 @@ func (h *Handler) WithGroup(name string) slog.Handler {
 	}
 	prefixStart := ""
 	if len(h.prefix) > 0 {
-		hdlr.prefix = h.prefix
+		hdlr.prefix = slices.Clip(h.prefix)
 		if !bytes.HasSuffix(h.prefix, []byte{'{'}) {
 			prefixStart = ", "
 		}
@@ -208,7 +209,7 @@ func (h *Handler) WithGroup(name string) slog.Handler {
 	hdlr.prefix = append(hdlr.prefix, []byte(fmt.Sprintf("%s\"%s\": {", prefixStart, name))...)
 	// Should really be prepending the right brace into the suffix,
 	// but suffix only contains right braces, so it doesn't really matter.
-	hdlr.suffix = append(h.suffix, '}')
+	hdlr.suffix = append(slices.Clip(h.suffix), '}')
 	return hdlr
 }
 
diff --git a/handlers/sloggy/handler.go b/handlers/sloggy/handler.go
index f0b1d48..9ed5887 100644
--- a/handlers/sloggy/handler.go
+++ b/handlers/sloggy/handler.go
@@ -7,6 +7,7 @@ import (
 	"io"
 	"log/slog"
 	"runtime"
+	"slices"
 	"sync"
 )
 
@@ -149,7 +150,7 @@ func (h *Handler) WithGroup(name string) slog.Handler {
 			mutex:   h.mutex,
 			prefix:  bytes.Buffer{},
 			suffix:  bytes.Buffer{},
-			groups:  append(h.groups, name),
+			groups:  append(slices.Clip(h.groups), name),
 		},
 		name:   name,
 		parent: h,
-- 
2.43.0


From 657db650dc549b2e31b0189df6a4dfcd0e07f7aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:45 +0000
Subject: [PATCH 04/27] fix: handler constructors leave the caller's options
 and extras unchanged

Defaults were filled into the structs (and the level name map) the caller passed in.
---
 handlers/flash/extras.go   | 13 +++++++++----
 handlers/flash/handler.go  | 11 ++++++-----
 handlers/sloggy/handler.go | 11 ++++++-----
 3 files changed, 21 insertions(+), 14 deletions(-)

diff --git a/handlers/flash/extras.go b/handlers/flash/extras.go
index 3672f86..7d91773 100644
--- a/handlers/flash/extras.go
+++ b/handlers/flash/extras.go
@@ -50,15 +50,20 @@ type Extras struct {
 // Using &Extras{} for this purpose will likely end in tears and a pointer exception
 // when some piece of code goes looking for one of the field values.
 func fixExtras(extras *Extras) *Extras {
-	if extras == nil {
-		extras = &Extras{}
+	// Fill in a copy, what the caller provided is not changed.
+	fixed := &Extras{}
+	if extras != nil {
+		*fixed = *extras
 	}
+	extras = fixed
 	if extras.TimeFormat == "" {
 		extras.TimeFormat = DefaultTimeFormat
 	}
-	if extras.LevelNames == nil {
-		extras.LevelNames = make(map[slog.Level]string, 4)
+	levelNames := make(map[slog.Level]string, 4)
+	for level, name := range extras.LevelNames {
+		levelNames[level] = name
 	}
+	extras.LevelNames = levelNames
 	if extras.LevelNames[slog.LevelDebug] == "" {
 		extras.LevelNames[slog.LevelDebug] = slog.LevelDebug.String()
 	}
diff --git a/handlers/flash/handler.go b/handlers/flash/handler.go
index 32cf813..b92b91d 100644
--- a/handlers/flash/handler.go
+++ b/handlers/flash/handler.go
@@ -218,11 +218,12 @@ func (h *Handler) WithGroup(name string) slog.Handler {
 // fixOptions makes certain that a slog.HandlerOptions object has been properly created and
 // configured with default values.
 func fixOptions(options *slog.HandlerOptions) *slog.HandlerOptions {
-	if options == nil {
-		options = &slog.HandlerOptions{}
+	var fixed slog.HandlerOptions
+	if options != nil {
+		fixed = *options
 	}
-	if options.Level == nil {
-		options.Level = slog.LevelInfo
+	if fixed.Level == nil {
+		fixed.Level = slog.LevelInfo
 	}
-	return options
+	return &fixed
 }
diff --git a/handlers/sloggy/handler.go b/handlers/sloggy/handler.go
index 9ed5887..55ae868 100644
--- a/handlers/sloggy/handler.go
+++ b/handlers/sloggy/handler.go
@@ -185,11 +185,12 @@ func (h *Handler) WithGroup(name string) slog.Handler {
 // fixOptions makes certain that a slog.HandlerOptions object has been properly created and
 // configured with default values.
 func fixOptions(options *slog.HandlerOptions) *slog.HandlerOptions {
-	if options == nil {
-		options = &slog.HandlerOptions{}
+	var fixed slog.HandlerOptions
+	if options != nil {
+		fixed = *options
 	}
-	if options.Level == nil {
-		options.Level = slog.LevelInfo
+	if fixed.Level == nil {
+		fixed.Level = slog.LevelInfo
 	}
-	return options
+	return &fixed
 }
-- 
2.43.0


From 55e6541859420f0a570dd3226949c5de3d3a50c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:46 +0000
Subject: [PATCH 05/27] fix: group handlers do not trip over the caller's
 context or empty group names

A value stored by the application under the string key "deadGroup" made Handle
panic or write attributes outside their group, and WithGroup("") on a group
logged an error through the default logger and lost the group handling.
---
 handlers/flash/group.go  | 15 +++++++++++----
 handlers/sloggy/group.go | 15 +++++++++++----
 2 files changed, 22 insertions(+), 8 deletions(-)

diff --git a/handlers/flash/group.go b/handlers/flash/group.go
index 504c9fa..6420176 100644
--- a/handlers/flash/group.go
+++ b/handlers/flash/group.go
@@ -7,6 +7,9 @@ import (
 	"github.com/madkins23/go-slog/infra"
 )
 
+// deadGroupKey is the context key for the name of an empty group.
+type deadGroupKey struct{}
+
 // group structure provides embedded group support to flash handler.
 type group struct {
 	*Handler
@@ -24,9 +27,9 @@ func (g *group) Handle(ctx context.Context, record slog.Record) error {
 	count := 0
 	var dead = false
 	var deadGroup string
-	if deadVal := ctx.Value("deadGroup"); deadVal != nil {
+	if deadVal, ok := ctx.Value(deadGroupKey{}).(string); ok {
 		// This is a call back to remove a (now empty) group.
-		deadGroup = deadVal.(string)
+		deadGroup = deadVal
 	}
 	record.Attrs(func(attr slog.Attr) bool {
 		if !attr.Equal(infra.EmptyAttr()) {
@@ -45,14 +48,18 @@ func (g *group) Handle(ctx context.Context, record slog.Record) error {
 		// Since the normal handler prefix already includes group name and open brace
 		// it isn't possible to use the current handler prefix.
 		// The parent handler prefix, however, should work just fine.
-		// Pass in the context variable "deadGroup" to specify the name of this (now empty) group.
-		return g.parent.Handle(context.WithValue(ctx, "deadGroup", g.name), record)
+		// Pass in the context variable deadGroupKey to specify the name of this (now empty) group.
+		return g.parent.Handle(context.WithValue(ctx, deadGroupKey{}, g.name), record)
 		// This is a weird solution, but it seems to work.
 	}
 	return g.Handler.Handle(ctx, record)
 }
 
 func (g *group) WithGroup(name string) slog.Handler {
+	if name == "" {
+		// Groups with empty names are to be inlined.
+		return g
+	}
 	hdlr := g.Handler.WithGroup(name)
 	if group, ok := hdlr.(*group); ok {
 		// Override the previously set parent to be this object.
diff --git a/handlers/sloggy/group.go b/handlers/sloggy/group.go
index 2009082..b95138b 100644
--- a/handlers/sloggy/group.go
+++ b/handlers/sloggy/group.go
@@ -7,6 +7,9 @@ import (
 	"github.com/madkins23/go-slog/infra"
 )
 
+// deadGroupKey is the context key for the name of an empty group.
+type deadGroupKey struct{}
+
 // group structure provides embedded group support to sloggy handler.
 type group struct {
 	*Handler
@@ -24,9 +27,9 @@ func (g *group) Handle(ctx context.Context, record slog.Record) error {
 	count := 0
 	var dead = false
 	var deadGroup string
-	if deadVal := ctx.Value("deadGroup"); deadVal != nil {
+	if deadVal, ok := ctx.Value(deadGroupKey{}).(string); ok {
 		// This is a call back to remove a (now empty) group.
-		deadGroup = deadVal.(string)
+		deadGroup = deadVal
 	}
 	record.Attrs(func(attr slog.Attr) bool {
 		if !attr.Equal(infra.EmptyAttr()) {
@@ -45,14 +48,18 @@ func (g *group) Handle(ctx context.Context, record slog.Record) error {
 		// Since the normal handler prefix already includes group name and open brace
 		// it isn't possible to use the current handler prefix.
 		// The parent handler prefix, however, should work just fine.
-		// Pass in the context variable "deadGroup" to specify the name of this (now empty) group.
-		return g.parent.Handle(context.WithValue(ctx, "deadGroup", g.name), record)
+		// Pass in the context variable deadGroupKey to specify the name of this (now empty) group.
+		return g.parent.Handle(context.WithValue(ctx, deadGroupKey{}, g.name), record)
 		// This is a weird solution, but it seems to work.
 	}
 	return g.Handler.Handle(ctx, record)
 }
 
 func (g *group) WithGroup(name string) slog.Handler {
+	if name == "" {
+		// Groups with empty names are to be inlined.
+		return g
+	}
 	hdlr := g.Handler.WithGroup(name)
 	if group, ok := hdlr.(*group); ok {
 		// Override the previously set parent to be this object.
-- 
2.43.0


From 38a8e44340d271b8629626e0a138a332d8a3a848 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:26 +0000
Subject: [PATCH 06/27] fix: handlers resolve values and call ReplaceAttr as
 slog documents

ReplaceAttr received unresolved values and group attributes, its result was not
resolved, flash switched on the kind a value had before it was resolved, groups
nested in attributes were missing from the list of open groups, and a member of
a group named like a built-in field was passed off as the built-in field.
---
 handlers/flash/composer.go  | 40 ++++++++++++++++---------------------
 handlers/flash/handler.go   |  3 ++-
 handlers/sloggy/composer.go | 25 ++++++++---------------
 handlers/sloggy/handler.go  |  3 ++-
 4 files changed, 29 insertions(+), 42 deletions(-)

diff --git a/handlers/flash/composer.go b/handlers/flash/composer.go
index 94d4572..959b0c4 100644
--- a/handlers/flash/composer.go
+++ b/handlers/flash/composer.go
@@ -5,6 +5,7 @@ import (
 	"encoding/json"
 	"fmt"
 	"log/slog"
+	"slices"
 	"strconv"
 	"time"
 
@@ -17,12 +18,11 @@ var composerPool = newGenPool[composer]()
 
 // composer handles writing attributes to an io.Writer.
 type composer struct {
-	buffer     []byte
-	started    bool
-	replace    infra.AttrFn
-	groups     []string
-	extras     *Extras
-	basicField map[string]bool
+	buffer  []byte
+	started bool
+	replace infra.AttrFn
+	groups  []string
+	extras  *Extras
 }
 
 func newComposer(buffer []byte, started bool, replace infra.AttrFn, groups []string, extras *Extras) *composer {
@@ -32,11 +32,6 @@ func newComposer(buffer []byte, started bool, replace infra.AttrFn, groups []str
 	comp.started = started
 	comp.replace = replace
 	comp.groups = groups
-	comp.basicField = make(map[string]bool, 4)
-	comp.basicField[extras.LevelKey] = true
-	comp.basicField[extras.MessageKey] = true
-	comp.basicField[extras.SourceKey] = true
-	comp.basicField[extras.TimeKey] = true
 	return comp
 }
 
@@ -55,22 +50,16 @@ func (c *composer) getBytes() []byte {
 // -----------------------------------------------------------------------------
 
 func (c *composer) addAttribute(attr slog.Attr) error {
-	kind := attr.Value.Kind()
-	if kind == slog.KindLogValuer {
+	attr.Value = attr.Value.Resolve()
+	if c.replace != nil && attr.Value.Kind() != slog.KindGroup {
+		attr = c.replace(c.groups, attr)
 		attr.Value = attr.Value.Resolve()
 	}
-	if c.replace != nil {
-		var groups []string
-		if !c.basicField[attr.Key] {
-			groups = c.groups
-		}
-		attr = c.replace(groups, attr)
-		kind = attr.Value.Kind()
-	}
 	if attr.Equal(infra.EmptyAttr()) {
 		return nil
 	}
 	value := attr.Value
+	kind := value.Kind()
 	if kind == slog.KindGroup {
 		if emptyGroup(value.Group()) {
 			return nil
@@ -86,7 +75,7 @@ func (c *composer) addAttribute(attr slog.Attr) error {
 	c.addKey(attr.Key)
 	switch kind {
 	case slog.KindGroup:
-		return c.addGroup(value.Group())
+		return c.addGroup(attr.Key, value.Group())
 	case slog.KindBool:
 		if value.Bool() {
 			c.buffer = append(c.buffer, "true"...)
@@ -270,8 +259,13 @@ func (c *composer) addEscaped(s []byte) {
 	}
 }
 
-func (c *composer) addGroup(attrs []slog.Attr) error {
+func (c *composer) addGroup(name string, attrs []slog.Attr) error {
 	var err error
+	if c.replace != nil {
+		outer := c.groups
+		c.groups = append(slices.Clip(outer), name)
+		defer func() { c.groups = outer }()
+	}
 	c.buffer = append(c.buffer, '{')
 	c.reset() // Reset composer (started = false) to avoid comma.
 	if err = c.addAttributes(attrs); err != nil {
diff --git a/handlers/flash/handler.go b/handlers/flash/handler.go
index b92b91d..2ba4bc7 100644
--- a/handlers/flash/handler.go
+++ b/handlers/flash/handler.go
@@ -56,7 +56,7 @@ func (h *Handler) Handle(_ context.Context, record slog.Record) error {
 	buffer := logPool.get()[:0]
 	defer func() { logPool.put(buffer) }()
 
-	c := newComposer(buffer, false, h.options.ReplaceAttr, h.groups, h.extras)
+	c := newComposer(buffer, false, h.options.ReplaceAttr, nil, h.extras)
 	defer reuseComposer(c)
 	c.addBytes('{')
 
@@ -103,6 +103,7 @@ func (h *Handler) Handle(_ context.Context, record slog.Record) error {
 		}
 	}
 
+	c.groups = h.groups // The basic fields are outside of any group.
 	if len(h.prefix) > 0 {
 		c.addSeparator()
 		c.addByteArray(h.prefix)
diff --git a/handlers/sloggy/composer.go b/handlers/sloggy/composer.go
index 1723e59..4b72534 100644
--- a/handlers/sloggy/composer.go
+++ b/handlers/sloggy/composer.go
@@ -8,6 +8,7 @@ import (
 	"io"
 	"log/slog"
 	"net"
+	"slices"
 	"strconv"
 	"time"
 
@@ -25,13 +26,6 @@ var (
 	newLine     = []byte{'\r', '\n'}
 )
 
-var basicField = map[string]bool{
-	slog.TimeKey:    true,
-	slog.LevelKey:   true,
-	slog.MessageKey: true,
-	slog.SourceKey:  true,
-}
-
 // -----------------------------------------------------------------------------
 
 // composer handles writing attributes to an io.Writer.
@@ -68,18 +62,15 @@ func (c *composer) addAttribute(attr slog.Attr) error {
 	if attr.Equal(infra.EmptyAttr()) {
 		return nil
 	}
-	value := attr.Value.Resolve()
-	if c.replace != nil {
-		var groups []string
-		if !basicField[attr.Key] {
-			groups = c.groups
-		}
-		attr = c.replace(groups, attr)
-		value = attr.Value
+	attr.Value = attr.Value.Resolve()
+	if c.replace != nil && attr.Value.Kind() != slog.KindGroup {
+		attr = c.replace(c.groups, attr)
+		attr.Value = attr.Value.Resolve()
 	}
 	if attr.Equal(infra.EmptyAttr()) {
 		return nil
 	}
+	value := attr.Value
 	if value.Kind() == slog.KindGroup {
 		if emptyGroup(value.Group()) {
 			return nil
@@ -204,12 +195,12 @@ func (c *composer) addFloat64(f float64) error {
 	return nil
 }
 
-func (c *composer) addGroup(_ string, attrs []slog.Attr) error {
+func (c *composer) addGroup(name string, attrs []slog.Attr) error {
 	if err := c.begin(); err != nil {
 		return fmt.Errorf("begin: %w", err)
 	}
 	// Local composer object resets started flag
-	cg := newComposer(c.Writer, false, c.replace, c.groups)
+	cg := newComposer(c.Writer, false, c.replace, append(slices.Clip(c.groups), name))
 	if err := cg.addAttributes(attrs); err != nil {
 		return fmt.Errorf("add attributes: %w", err)
 	}
diff --git a/handlers/sloggy/handler.go b/handlers/sloggy/handler.go
index 55ae868..c843fe0 100644
--- a/handlers/sloggy/handler.go
+++ b/handlers/sloggy/handler.go
@@ -42,7 +42,7 @@ func (h *Handler) Enabled(_ context.Context, level slog.Level) bool {
 func (h *Handler) Handle(_ context.Context, record slog.Record) error {
 	// Compose the whole line first so that it can be written all at once.
 	var line bytes.Buffer
-	c := newComposer(&line, false, h.options.ReplaceAttr, h.groups)
+	c := newComposer(&line, false, h.options.ReplaceAttr, nil)
 	if err := c.begin(); err != nil {
 		return fmt.Errorf("begin: %w", err)
 	}
@@ -67,6 +67,7 @@ func (h *Handler) Handle(_ context.Context, record slog.Record) error {
 		return fmt.Errorf("add basic attributes: %w", err)
 	}
 
+	c.groups = h.groups // The basic fields are outside of any group.
 	if h.prefix.Len() > 0 {
 		if _, err := c.Write(commaSpace); err != nil {
 			return fmt.Errorf("comma space: %w", err)
-- 
2.43.0


From 14fe0115804c08c075dd3415d1c33770cf4103e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:10 +0000
Subject: [PATCH 07/27] fix: flash separates a group that turned out empty from
 what follows

A group whose members were all dropped left the composer believing that nothing
had been written, so the comma before the next field was missing.
---
 handlers/flash/composer.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/handlers/flash/composer.go b/handlers/flash/composer.go
index 959b0c4..96f5451 100644
--- a/handlers/flash/composer.go
+++ b/handlers/flash/composer.go
@@ -271,6 +271,7 @@ func (c *composer) addGroup(name string, attrs []slog.Attr) error {
 	if err = c.addAttributes(attrs); err != nil {
 		return fmt.Errorf("add attributes: %w", err)
 	}
+	c.started = true // Whatever follows the group needs a comma.
 	c.addBytes('}')
 	return nil
 }
-- 
2.43.0


From 71c463bbad8eef77f36d3a3dab1d72be2fdd65c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:11 +0000
Subject: [PATCH 08/27] fix: handlers write NaN and infinite numbers as strings

They were written as bare words, which made the whole line invalid JSON.
---
 handlers/flash/composer.go  | 12 +++++++++++-
 handlers/sloggy/composer.go |  5 +++++
 2 files changed, 16 insertions(+), 1 deletion(-)

diff --git a/handlers/flash/composer.go b/handlers/flash/composer.go
index 96f5451..202848e 100644
--- a/handlers/flash/composer.go
+++ b/handlers/flash/composer.go
@@ -5,6 +5,7 @@ import (
 	"encoding/json"
 	"fmt"
 	"log/slog"
+	"math"
 	"slices"
 	"strconv"
 	"time"
@@ -85,7 +86,7 @@ func (c *composer) addAttribute(attr slog.Attr) error {
 	case slog.KindDuration:
 		c.buffer = strconv.AppendInt(c.buffer, value.Duration().Nanoseconds(), 10)
 	case slog.KindFloat64:
-		c.buffer = strconv.AppendFloat(c.buffer, value.Float64(), 'f', -1, 64)
+		c.addFloat64(value.Float64())
 	case slog.KindInt64:
 		c.buffer = strconv.AppendInt(c.buffer, value.Int64(), 10)
 	case slog.KindString:
@@ -259,6 +260,15 @@ func (c *composer) addEscaped(s []byte) {
 	}
 }
 
+func (c *composer) addFloat64(f float64) {
+	if math.IsNaN(f) || math.IsInf(f, 0) {
+		// JSON has no such numbers.
+		c.addString(strconv.FormatFloat(f, 'f', -1, 64))
+		return
+	}
+	c.buffer = strconv.AppendFloat(c.buffer, f, 'f', -1, 64)
+}
+
 func (c *composer) addGroup(name string, attrs []slog.Attr) error {
 	var err error
 	if c.replace != nil {
diff --git a/handlers/sloggy/composer.go b/handlers/sloggy/composer.go
index 4b72534..ad76b01 100644
--- a/handlers/sloggy/composer.go
+++ b/handlers/sloggy/composer.go
@@ -7,6 +7,7 @@ import (
 	"fmt"
 	"io"
 	"log/slog"
+	"math"
 	"net"
 	"slices"
 	"strconv"
@@ -189,6 +190,10 @@ func (c *composer) addError(e error) error {
 }
 
 func (c *composer) addFloat64(f float64) error {
+	if math.IsNaN(f) || math.IsInf(f, 0) {
+		// JSON has no such numbers.
+		return c.addString(strconv.FormatFloat(f, 'f', -1, 64))
+	}
 	if _, err := c.Write(strconv.AppendFloat([]byte{}, f, 'f', -1, 64)); err != nil {
 		return fmt.Errorf("float64: %w", err)
 	}
-- 
2.43.0


From 9bcbfd2a601443c840b8e4f12d6ef984b22d5120 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:11 +0000
Subject: [PATCH 09/27] fix: WithAttrs does not keep a half written attribute

When an attribute could not be marshaled its key and colon stayed in the prefix
and every line of the derived handler was invalid JSON.
---
 handlers/flash/handler.go  | 3 ++-
 handlers/sloggy/handler.go | 5 ++++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/handlers/flash/handler.go b/handlers/flash/handler.go
index 2ba4bc7..6fdeb91 100644
--- a/handlers/flash/handler.go
+++ b/handlers/flash/handler.go
@@ -165,8 +165,9 @@ func (h *Handler) WithAttrs(attrs []slog.Attr) slog.Handler {
 
 	if err := c.addAttributes(attrs); err != nil {
 		slog.Error("adding with attributes", "err", err)
+	} else {
+		hdlr.prefix = c.getBytes()
 	}
-	hdlr.prefix = c.getBytes()
 
 	return hdlr
 }
diff --git a/handlers/sloggy/handler.go b/handlers/sloggy/handler.go
index c843fe0..c0cde16 100644
--- a/handlers/sloggy/handler.go
+++ b/handlers/sloggy/handler.go
@@ -131,9 +131,12 @@ func (h *Handler) WithAttrs(attrs []slog.Attr) slog.Handler {
 	if h.suffix.Len() > 0 {
 		hdlr.suffix.Write(h.suffix.Bytes())
 	}
-	c := newComposer(&hdlr.prefix, prefixStarted, h.options.ReplaceAttr, h.groups)
+	var added bytes.Buffer
+	c := newComposer(&added, prefixStarted, h.options.ReplaceAttr, h.groups)
 	if err := c.addAttributes(attrs); err != nil {
 		slog.Error("adding with attributes", "err", err)
+	} else {
+		hdlr.prefix.Write(added.Bytes())
 	}
 
 	return hdlr
-- 
2.43.0


From 3f2d5ff591c384f83830f4cffd1604a454124218 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:11 +0000
Subject: [PATCH 10/27] fix: flash names levels other than the four standard
 ones

Such levels were logged with an empty string instead of e.g. "INFO+1".
---
 handlers/flash/extras.go  | 8 ++++++++
 handlers/flash/handler.go | 4 ++--
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/handlers/flash/extras.go b/handlers/flash/extras.go
index 7d91773..8a06436 100644
--- a/handlers/flash/extras.go
+++ b/handlers/flash/extras.go
@@ -90,3 +90,11 @@ func fixExtras(extras *Extras) *Extras {
 	}
 	return extras
 }
+
+// levelName returns the configured name for a level or the usual one for levels without configured name.
+func (extras *Extras) levelName(level slog.Level) string {
+	if name, found := extras.LevelNames[level]; found {
+		return name
+	}
+	return level.String()
+}
diff --git a/handlers/flash/handler.go b/handlers/flash/handler.go
index 6fdeb91..24c6474 100644
--- a/handlers/flash/handler.go
+++ b/handlers/flash/handler.go
@@ -76,8 +76,8 @@ func (h *Handler) Handle(_ context.Context, record slog.Record) error {
 	if h.options.ReplaceAttr == nil {
 		c.addSeparator()
 		c.addKey(h.extras.LevelKey)
-		c.addString(h.extras.LevelNames[record.Level])
-	} else if err := c.addAttribute(slog.String(h.extras.LevelKey, h.extras.LevelNames[record.Level])); err != nil {
+		c.addString(h.extras.levelName(record.Level))
+	} else if err := c.addAttribute(slog.String(h.extras.LevelKey, h.extras.levelName(record.Level))); err != nil {
 		return fmt.Errorf("add level: %w", err)
 	}
 	if h.options.ReplaceAttr == nil {
-- 
2.43.0


From 6401f245c120a2f1fdc8e971515279afc564455e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:11 +0000
Subject: [PATCH 11/27] fix: flash escapes bytes that follow an incomplete
 UTF-8 sequence

The bytes after a UTF-8 lead byte were copied without looking at them, so a quote
or control character there broke the line, and a sequence cut off at the end was
written twice.
---
 handlers/flash/composer.go | 38 +-------------------------------------
 1 file changed, 1 insertion(+), 37 deletions(-)

diff --git a/handlers/flash/composer.go b/handlers/flash/composer.go
index 202848e..dfca9c5 100644
--- a/handlers/flash/composer.go
+++ b/handlers/flash/composer.go
@@ -164,22 +164,7 @@ var hexDigit = `0123456789ABCDEF`
 func (c *composer) addEscaped(s []byte) {
 	var b byte
 	var begin, index int
-	uniByte := make([]byte, 0, 4)
-	uniMore := 0
 	for index, b = range s {
-		if uniMore > 0 {
-			uniByte = append(uniByte, b)
-			uniMore--
-			if uniMore < 1 {
-				// All unicode bytes collected in uniByte array.
-				// When they are all collected push them out.
-				c.buffer = append(c.buffer, uniByte...)
-				uniByte = uniByte[:0]
-				begin = index + 1
-			}
-			continue
-		}
-
 		switch b {
 		case '\\', '/', '"':
 			if index > begin {
@@ -220,27 +205,6 @@ func (c *composer) addEscaped(s []byte) {
 		default:
 			if b >= 32 && b < 127 {
 				// Just a normal lower ASCII character.
-			} else if b&0b11100000 == 0b11000000 {
-				// UTF8 two bytes
-				if index > begin {
-					c.buffer = append(c.buffer, s[begin:index]...)
-				}
-				uniByte = append(uniByte, b)
-				uniMore = 1
-			} else if b&0b11110000 == 0b11100000 {
-				// UTF8 three bytes
-				if index > begin {
-					c.buffer = append(c.buffer, s[begin:index]...)
-				}
-				uniByte = append(uniByte, b)
-				uniMore = 2
-			} else if b&0b11111000 == 0b11110000 {
-				// UTF8 four bytes
-				if index > begin {
-					c.buffer = append(c.buffer, s[begin:index]...)
-				}
-				uniByte = append(uniByte, b)
-				uniMore = 3
 			} else if b < 128 {
 				// Control character from lower 7 bits not previously handled.
 				if index > begin {
@@ -251,7 +215,7 @@ func (c *composer) addEscaped(s []byte) {
 				c.buffer = append(c.buffer, hexDigit[b&0xF])
 				begin = index + 1
 			} else {
-				// Some character from upper 7 bits not previously handled but likely printable.
+				// Part of a UTF8 sequence, appended as it is with its neighbors.
 			}
 		}
 	}
-- 
2.43.0


From a549534ac18c2eca8a98f7e3bffd2e32059adb06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:07:02 +0000
Subject: [PATCH 12/27] fix: sloggy writes no comma before the prefix when no
 built-in field was written

---
 handlers/sloggy/handler.go | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/handlers/sloggy/handler.go b/handlers/sloggy/handler.go
index c0cde16..cf42f5c 100644
--- a/handlers/sloggy/handler.go
+++ b/handlers/sloggy/handler.go
@@ -69,15 +69,15 @@ func (h *Handler) Handle(_ context.Context, record slog.Record) error {
 
 	c.groups = h.groups // The basic fields are outside of any group.
 	if h.prefix.Len() > 0 {
-		if _, err := c.Write(commaSpace); err != nil {
-			return fmt.Errorf("comma space: %w", err)
+		if c.started {
+			if _, err := c.Write(commaSpace); err != nil {
+				return fmt.Errorf("comma space: %w", err)
+			}
 		}
 		if _, err := c.Write(h.prefix.Bytes()); err != nil {
 			return fmt.Errorf("write prefix: %w", err)
 		}
-		if bytes.HasSuffix(h.prefix.Bytes(), []byte{'{'}) {
-			c.setStarted(false)
-		}
+		c.setStarted(!bytes.HasSuffix(h.prefix.Bytes(), []byte{'{'}))
 	}
 
 	var err error
-- 
2.43.0


From 22b3a2465edf55d5e1cbfa8b20b59229b8bf61d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:07:02 +0000
Subject: [PATCH 13/27] fix: flash quotes group names as JSON

---
 handlers/flash/handler.go | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/handlers/flash/handler.go b/handlers/flash/handler.go
index 24c6474..7e4985f 100644
--- a/handlers/flash/handler.go
+++ b/handlers/flash/handler.go
@@ -194,11 +194,11 @@ func (h *Handler) WithGroup(name string) slog.Handler {
 		name:   name,
 		parent: h,
 	}
-	prefixStart := ""
+	var prefixStarted bool
 	if len(h.prefix) > 0 {
 		hdlr.prefix = slices.Clip(h.prefix)
 		if !bytes.HasSuffix(h.prefix, []byte{'{'}) {
-			prefixStart = ", "
+			prefixStarted = true
 		}
 	} else {
 		hdlr.prefix = make([]byte, 0, lenPrefix)
@@ -208,7 +208,12 @@ func (h *Handler) WithGroup(name string) slog.Handler {
 	} else {
 		hdlr.suffix = make([]byte, 0, lenSuffix)
 	}
-	hdlr.prefix = append(hdlr.prefix, []byte(fmt.Sprintf("%s\"%s\": {", prefixStart, name))...)
+	c := newComposer(hdlr.prefix, prefixStarted, nil, nil, h.extras)
+	defer reuseComposer(c)
+	c.addSeparator()
+	c.addKey(name)
+	c.addBytes('{')
+	hdlr.prefix = c.getBytes()
 	// Should really be prepending the right brace into the suffix,
 	// but suffix only contains right braces, so it doesn't really matter.
 	hdlr.suffix = append(slices.Clip(h.suffix), '}')
-- 
2.43.0


From 4f798f9c3f917cbc18888006f3ab9f800ace9657 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:16 +0000
Subject: [PATCH 14/27] fix: gin writer logs parsed traffic at the configured
 Traffic.Level

---
 gin/writer.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gin/writer.go b/gin/writer.go
index 6d0ede9..01f1cb4 100644
--- a/gin/writer.go
+++ b/gin/writer.go
@@ -154,7 +154,7 @@ func (w *writer) Write(p []byte) (int, error) {
 			// Use the pre-existing log message in variable msg.
 		} else {
 			// The traffic data in the log message parsed.
-			level = slog.LevelInfo
+			level = w.Traffic.Level
 			msg = w.Traffic.Message
 			if !w.Traffic.Embed {
 				args = []any{slog.Group(w.Traffic.Group, args...)}
-- 
2.43.0


From 81a2246a4e9d7602b8a52c67e02618ab632995cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:19 +0000
Subject: [PATCH 15/27] fix: gin writer logs at any configured slog.Leveler

---
 gin/writer.go | 16 +++-------------
 1 file changed, 3 insertions(+), 13 deletions(-)

diff --git a/gin/writer.go b/gin/writer.go
index 01f1cb4..a803842 100644
--- a/gin/writer.go
+++ b/gin/writer.go
@@ -1,6 +1,7 @@
 package gin
 
 import (
+	"context"
 	"fmt"
 	"io"
 	"log/slog"
@@ -162,19 +163,8 @@ func (w *writer) Write(p []byte) (int, error) {
 		}
 	}
 
-	switch level {
-	case slog.LevelDebug:
-		slog.Debug(msg, args...)
-	case slog.LevelError:
-		slog.Error(msg, args...)
-	case slog.LevelInfo:
-		slog.Info(msg, args...)
-	case slog.LevelWarn:
-		slog.Warn(msg, args...)
-	default:
-		// Shouldn't ever happen so no test code coverage here.
-		return 0, fmt.Errorf("unknown log level %s", w.Level)
-	}
+	// Any slog.Leveler can be configured, including custom levels and slog.LevelVar.
+	slog.Log(context.Background(), level.Level(), msg, args...)
 
 	return len(p), nil
 }
-- 
2.43.0


From 481f75178bffb7f8f536cf48d9f98d1708ca5a49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:24 +0000
Subject: [PATCH 16/27] fix: svcrunner/jsonlog creator does not modify the
 caller's options

---
 creator/svcrunnerjsonlog/creator.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/creator/svcrunnerjsonlog/creator.go b/creator/svcrunnerjsonlog/creator.go
index e684355..db98f4b 100644
--- a/creator/svcrunnerjsonlog/creator.go
+++ b/creator/svcrunnerjsonlog/creator.go
@@ -19,8 +19,9 @@ func Creator() infra.Creator {
 }
 
 func handlerFn(w io.Writer, options *slog.HandlerOptions) slog.Handler {
-	if options.Level == nil {
-		options.Level = slog.LevelInfo
+	level := options.Level
+	if level == nil {
+		level = slog.LevelInfo
 	}
-	return jsonlog.New(options.Level.Level(), w)
+	return jsonlog.New(level.Level(), w)
 }
-- 
2.43.0


From 17ee1585633e6efb4c8eebb52ee5d6b2d730d638 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:57 +0000
Subject: [PATCH 17/27] fix: handlers by warning are listed in alphabetic order

---
 infra/warning/manager.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/infra/warning/manager.go b/infra/warning/manager.go
index 2756f48..0d21b8d 100644
--- a/infra/warning/manager.go
+++ b/infra/warning/manager.go
@@ -362,6 +362,7 @@ func ShowHandlersByWarning(showPrefix string) {
 				for handler := range handlers {
 					hdlrNames = append(hdlrNames, handler)
 				}
+				sort.Strings(hdlrNames)
 				for _, hdlrName := range hdlrNames {
 					fmt.Printf("%s      %s\n", showPrefix, hdlrName)
 				}
-- 
2.43.0


From f99e25275588be03b34c7dee18a083b116146457 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:57 +0000
Subject: [PATCH 18/27] fix: field counter lists duplicates in alphabetic order

---
 internal/json/field.go | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/internal/json/field.go b/internal/json/field.go
index ee3f90f..4882652 100644
--- a/internal/json/field.go
+++ b/internal/json/field.go
@@ -106,11 +106,13 @@ func (ctr *FieldCounter) String() string {
 	duplicates := ctr.Duplicates()
 	if len(duplicates) > 0 {
 		builder.WriteRune(',')
-		for field, count := range duplicates {
-			builder.WriteByte(' ')
-			builder.WriteString(field)
-			builder.WriteByte(':')
-			builder.WriteString(strconv.Itoa(int(count)))
+		for _, field := range ctr.Fields() {
+			if count, found := duplicates[field]; found {
+				builder.WriteByte(' ')
+				builder.WriteString(field)
+				builder.WriteByte(':')
+				builder.WriteString(strconv.Itoa(int(count)))
+			}
 		}
 	} else {
 		builder.WriteString(", no duplicates")
-- 
2.43.0


From 7dae5f2d009ae217ff4c04ccddf563d6ff4e6ce5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:57 +0000
Subject: [PATCH 19/27] fix: score chart labels with equal scores are ordered
 by handler name

---
 cmd/server/chart/score.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/cmd/server/chart/score.go b/cmd/server/chart/score.go
index ab655b1..ec7f75b 100644
--- a/cmd/server/chart/score.go
+++ b/cmd/server/chart/score.go
@@ -317,7 +317,10 @@ func (cd *scoreChartData) dataMarkers() {
 	}
 	// Sort data items by decreasing y-value.
 	sort.Slice(cd.items, func(i, j int) bool {
-		return cd.items[i].y >= cd.items[j].y
+		if cd.items[i].y != cd.items[j].y {
+			return cd.items[i].y > cd.items[j].y
+		}
+		return cd.items[i].label < cd.items[j].label
 	})
 	for i, item := range cd.items {
 		cd.series = append(cd.series, chart.ContinuousSeries{
-- 
2.43.0


From 61b50f4687096c2ad5c95e924047725c0d7ee2c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:53:09 +0000
Subject: [PATCH 20/27] fix: SkipTestIf skips nothing when warnings are turned
 off

---
 infra/warning/manager.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/infra/warning/manager.go b/infra/warning/manager.go
index 0d21b8d..5a705d2 100644
--- a/infra/warning/manager.go
+++ b/infra/warning/manager.go
@@ -200,7 +200,7 @@ func (mgr *Manager) SkipTest(because *Warning) {
 // False is returned if none of the warning are found.
 func (mgr *Manager) SkipTestIf(warns ...*Warning) bool {
 	for _, w := range warns {
-		if mgr.warnOnly[w.Name] {
+		if mgr.HasWarning(w) {
 			mgr.AddWarning(SkippingTest, w.Summary, "")
 			mgr.AddWarning(w, SkippingTest.Summary, "")
 			return true
-- 
2.43.0


From 88a9f77ce5d4954847320462be2e1b7e8c08edb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:11:22 +0000
Subject: [PATCH 21/27] fix: benchmark records by handler hold GB/s and TB/s

---
 internal/data/bench_parser.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/internal/data/bench_parser.go b/internal/data/bench_parser.go
index f061cc7..87e7930 100644
--- a/internal/data/bench_parser.go
+++ b/internal/data/bench_parser.go
@@ -121,6 +121,8 @@ func (b *Benchmarks) ParseBenchmarkData(in io.Reader) error {
 				MemBytesPerOp:  bytesOp,
 				MemAllocsPerOp: allocsOp,
 				MbPerSec:       mbSec,
+				GbPerSec:       mbSec / 1_000.0,
+				TbPerSec:       mbSec / 1_000_000.0,
 			}
 		}
 	}
-- 
2.43.0


From 67468fe161008f8259cf963db61b0fe72193f7a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:07:49 +0000
Subject: [PATCH 22/27] fix: the end of a handler summary is not parsed as a
 warning instance

---
 internal/data/warnings_parser.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/data/warnings_parser.go b/internal/data/warnings_parser.go
index 03c7563..3c9ef47 100644
--- a/internal/data/warnings_parser.go
+++ b/internal/data/warnings_parser.go
@@ -137,10 +137,10 @@ func (w *Warnings) ParseWarningData(in io.Reader, source string, lookup map[stri
 							w.getHandlerData(h).links = hdlrLinks
 						}
 					}
-					line = sumLine
 					break
 				}
 			}
+			continue
 		}
 		if handler == "" {
 			// Can't do anything until we recognize something.
-- 
2.43.0


From bc8c06f94e83d63c95e58be4f1cc13eede950b42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:07:49 +0000
Subject: [PATCH 23/27] fix: a report without warnings does not drop warnings
 parsed before

---
 internal/data/warnings_parser.go | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/internal/data/warnings_parser.go b/internal/data/warnings_parser.go
index 3c9ef47..3638b5b 100644
--- a/internal/data/warnings_parser.go
+++ b/internal/data/warnings_parser.go
@@ -148,9 +148,11 @@ func (w *Warnings) ParseWarningData(in io.Reader, source string, lookup map[stri
 		}
 		if ptnNone.Match(line) {
 			// Minimal amount of data to support score chart.
-			w.ByHandler[handler] = &Levels{
-				lookup: make(map[string]*DataLevel),
-				levels: make([]*DataLevel, 0),
+			if _, found := w.ByHandler[handler]; !found {
+				w.ByHandler[handler] = &Levels{
+					lookup: make(map[string]*DataLevel),
+					levels: make([]*DataLevel, 0),
+				}
 			}
 			continue
 		}
-- 
2.43.0


From b49a3d20ab2958bb29dfb090dea047f20edd2884 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:07:49 +0000
Subject: [PATCH 24/27] fix: a log line that belongs to no warning instance
 does not panic

---
 internal/data/warnings_parser.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/internal/data/warnings_parser.go b/internal/data/warnings_parser.go
index 3638b5b..ff99c53 100644
--- a/internal/data/warnings_parser.go
+++ b/internal/data/warnings_parser.go
@@ -175,6 +175,9 @@ func (w *Warnings) ParseWarningData(in io.Reader, source string, lookup map[stri
 		}
 		// Do this before ptnInstance as they can otherwise get confused.
 		if ptnLogLine.Match(line) {
+			if instance == nil {
+				continue
+			}
 			instance.line = string(line)
 			// Attempt to pretty-print the log line.
 			var jm map[string]any
-- 
2.43.0


From eb2f2217b9f905c2537ff57751fa5e88cf8eb75d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:16:38 +0000
Subject: [PATCH 25/27] fix: a recorded warning that was not predefined does
 not panic the summary

---
 infra/warning/manager.go | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/infra/warning/manager.go b/infra/warning/manager.go
index 5a705d2..f5b2111 100644
--- a/infra/warning/manager.go
+++ b/infra/warning/manager.go
@@ -307,10 +307,16 @@ func (mgr *Manager) ShowWarnings(output io.Writer) {
 				for _, w := range list {
 					// Track handlers that invoke warning for use in TestMain.
 					warn := mgr.predefined[w.Name]
-					if byWarning[warn] == nil {
-						byWarning[warn] = make(map[string]bool)
+					if warn == nil {
+						// A warning can be recorded without being predefined.
+						warn = ByName(w.Name)
+					}
+					if warn != nil {
+						if byWarning[warn] == nil {
+							byWarning[warn] = make(map[string]bool)
+						}
+						byWarning[warn][mgr.Name] = true
 					}
-					byWarning[warn][mgr.Name] = true
 
 					_, _ = fmt.Fprintf(output, "%s  %4d [%s] %s\n", mgr.showPrefix, w.Count, w.Name, w.Summary)
 					lineSep := "\n" + mgr.showPrefix + "           +"
-- 
2.43.0


From 171874e520fa2c06865b271d23603f055904cb66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:12:34 +0000
Subject: [PATCH 26/27] fix: a warning created after WarningsForLevel was
 called is listed

---
 infra/warning/warning.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/infra/warning/warning.go b/infra/warning/warning.go
index 841b57c..fc520ed 100644
--- a/infra/warning/warning.go
+++ b/infra/warning/warning.go
@@ -60,6 +60,7 @@ func NewWarning(level Level, name, summary, description string) *Warning {
 		}
 		allWarnings = append(allWarnings, warning)
 		byName[name] = warning
+		clear(warningTree) // Rebuilt by next WarningsForLevel call.
 	}
 	return warning
 }
-- 
2.43.0


From 75eec5a27d8f5ac1b7c0fb2bc226477929324eff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:17:05 +0000
Subject: [PATCH 27/27] fix: pages requested at the same time do not corrupt
 data built on first use

---
 internal/data/bench.go               | 11 +++++++
 internal/data/tags.go                | 10 ++++++-
 internal/data/warnings.go            | 44 ++++++++++++++++++++++------
 internal/scoring/axis/common/data.go |  9 ++++--
 internal/scoring/axis/warn/data.go   |  9 ++++--
 internal/scoring/score/keeper.go     |  9 ++++++
 6 files changed, 78 insertions(+), 14 deletions(-)

diff --git a/internal/data/bench.go b/internal/data/bench.go
index d51e926..3961008 100644
--- a/internal/data/bench.go
+++ b/internal/data/bench.go
@@ -4,10 +4,15 @@ import (
 	"flag"
 	"log/slog"
 	"sort"
+	"sync"
 )
 
 var benchFile = flag.String("bench", "", "Load benchmark data from path (optional)")
 
+// cacheLock guards everything in this package that is built on first use,
+// as cmd/server may build several pages at the same time.
+var cacheLock sync.Mutex
+
 // -----------------------------------------------------------------------------
 
 // TestRecords is a map of test records by test tag.
@@ -100,6 +105,8 @@ func (b *Benchmarks) HasTest(tag TestTag) bool {
 // where it will be used to convert handler names to tags.
 // This makes all handler tags the same between Benchmarks and Warnings.
 func (b *Benchmarks) HandlerLookup() map[string]HandlerTag {
+	cacheLock.Lock()
+	defer cacheLock.Unlock()
 	if b.lookup == nil {
 		b.lookup = make(map[string]HandlerTag, len(b.handlerNames))
 		for tag, name := range b.handlerNames {
@@ -126,6 +133,8 @@ func (b *Benchmarks) HandlerRecordsFor(test TestTag) HandlerRecords {
 
 // HandlerTags returns an array of all handler tags sorted alphabetically.
 func (b *Benchmarks) HandlerTags() []HandlerTag {
+	cacheLock.Lock()
+	defer cacheLock.Unlock()
 	if b.handlers == nil {
 		for handler := range b.ByHandler {
 			b.handlers = append(b.handlers, handler)
@@ -154,6 +163,8 @@ func (b *Benchmarks) TestRecordsFor(handler HandlerTag) TestRecords {
 
 // TestTags returns an array of all test names sorted alphabetically.
 func (b *Benchmarks) TestTags() []TestTag {
+	cacheLock.Lock()
+	defer cacheLock.Unlock()
 	if b.tests == nil {
 		for test := range b.byTest {
 			b.tests = append(b.tests, test)
diff --git a/internal/data/tags.go b/internal/data/tags.go
index 1c31fc1..7a8fa49 100644
--- a/internal/data/tags.go
+++ b/internal/data/tags.go
@@ -2,6 +2,7 @@ package data
 
 import (
 	"strings"
+	"sync"
 
 	"github.com/fatih/camelcase"
 )
@@ -17,10 +18,15 @@ const TagSeparator = "."
 // The type is an alias for string so that types can't be confused.
 type TestTag string
 
-var testTagNames = make(map[TestTag]string)
+var (
+	testTagNames = make(map[TestTag]string)
+	tagNamesLock sync.Mutex // for testTagNames and handlerTagNames
+)
 
 // Name returns a name string calculated from the TestTag string and cached for reuse.
 func (tt TestTag) Name() string {
+	tagNamesLock.Lock()
+	defer tagNamesLock.Unlock()
 	name, found := testTagNames[tt]
 	if !found {
 		var builder strings.Builder
@@ -51,6 +57,8 @@ var handlerTagNames = make(map[HandlerTag]string)
 
 // Name returns a name string calculated from the HandlerTag string and cached for reuse.
 func (ht HandlerTag) Name() string {
+	tagNamesLock.Lock()
+	defer tagNamesLock.Unlock()
 	name, found := handlerTagNames[ht]
 	if !found {
 		var builder strings.Builder
diff --git a/internal/data/warnings.go b/internal/data/warnings.go
index 9390806..cf13cbf 100644
--- a/internal/data/warnings.go
+++ b/internal/data/warnings.go
@@ -103,6 +103,8 @@ func (w *Warnings) HandlerLinks(handler HandlerTag) map[string]string {
 
 // HandlerTags returns an array of all handler names sorted alphabetically.
 func (w *Warnings) HandlerTags() []HandlerTag {
+	cacheLock.Lock()
+	defer cacheLock.Unlock()
 	if len(w.handlers) < 1 {
 		for handler := range w.ByHandler {
 			w.handlers = append(w.handlers, handler)
@@ -116,7 +118,12 @@ func (w *Warnings) HandlerTags() []HandlerTag {
 
 // HandlerWarningCount returns the number of the specified warning associated with the specified handler.
 func (w *Warnings) HandlerWarningCount(handler HandlerTag, warning *warning.Warning) uint {
-	return w.ByWarning[warning.Name].Count[handler]
+	cacheLock.Lock()
+	defer cacheLock.Unlock()
+	if data, found := w.ByWarning[warning.Name]; found {
+		return data.Count[handler]
+	}
+	return 0
 }
 
 // HasTest returns true if a test is defined with the specified tag.
@@ -147,6 +154,8 @@ func (w *Warnings) TestRecordsFor(handler HandlerTag) *Levels {
 
 // TestTags returns an array of all handler names sorted alphabetically.
 func (w *Warnings) TestTags() []TestTag {
+	cacheLock.Lock()
+	defer cacheLock.Unlock()
 	if len(w.tests) < 1 {
 		for test := range w.byTest {
 			w.tests = append(w.tests, test)
@@ -163,8 +172,9 @@ func (w *Warnings) TestTagsForSource(source string) []TestTag {
 	if !strings.HasSuffix(source, ":") {
 		source += TagSeparator
 	}
-	result := make([]TestTag, 0, len(w.TestTags())) // Causes w.tests to be loaded
-	for _, test := range w.tests {
+	tests := w.TestTags()
+	result := make([]TestTag, 0, len(tests))
+	for _, test := range tests {
 		if strings.HasPrefix(string(test), source) {
 			result = append(result, test)
 		}
@@ -204,6 +214,8 @@ func (w *Warnings) findTest(test TestTag, level warning.Level, warningName strin
 //
 // This method is public so that it can be used during template expansion in cmd/server.
 func (w *Warnings) FindWarning(name string) *WarningData {
+	cacheLock.Lock()
+	defer cacheLock.Unlock()
 	data, found := w.ByWarning[name]
 	if !found {
 		data = &WarningData{
@@ -245,6 +257,8 @@ func (wd *WarningData) HasHandlers() bool {
 }
 
 func (wd *WarningData) Handlers() []HandlerTag {
+	cacheLock.Lock()
+	defer cacheLock.Unlock()
 	if wd.handlers == nil {
 		wd.handlers = make([]HandlerTag, 0, len(wd.hdlrMap))
 		for key := range wd.hdlrMap {
@@ -261,6 +275,8 @@ func (wd *WarningData) HasTests() bool {
 }
 
 func (wd *WarningData) Tests() []TestTag {
+	cacheLock.Lock()
+	defer cacheLock.Unlock()
 	if wd.tests == nil {
 		wd.tests = make([]TestTag, 0, len(wd.testMap))
 		for key := range wd.testMap {
@@ -296,6 +312,8 @@ func (l *Levels) LevelCount(level warning.Level) uint64 {
 }
 
 func (l *Levels) Levels() []*DataLevel {
+	cacheLock.Lock()
+	defer cacheLock.Unlock()
 	if len(l.levels) < 1 {
 		l.levels = make([]*DataLevel, 0, len(warning.LevelOrder))
 		for _, lvl := range warning.LevelOrder {
@@ -336,10 +354,12 @@ func (l *DataLevel) Name() string {
 }
 
 func (l *DataLevel) String() string {
-	return fmt.Sprintf("Level:%s=%d", l.Name(), len(l.warnings))
+	return fmt.Sprintf("Level:%s=%d", l.Name(), l.Count())
 }
 
 func (l *DataLevel) Warnings() []*dataWarning {
+	cacheLock.Lock()
+	defer cacheLock.Unlock()
 	if l.warnings == nil {
 		l.warnings = make([]*dataWarning, 0, len(l.lookup))
 		for _, w := range l.lookup {
@@ -380,17 +400,21 @@ func (w *dataWarning) Name() string {
 }
 
 func (w *dataWarning) HasDescription() bool {
-	if w.warning.instance == nil {
-		w.warning.instance = warning.ByName(w.warning.name)
-	}
-	return w.warning.instance.HasDescription()
+	return w.instance().HasDescription()
 }
 
 func (w *dataWarning) Description() template.HTML {
+	return w.instance().Description()
+}
+
+// instance returns the predefined warning of the same name, if any.
+func (w *dataWarning) instance() *warning.Warning {
+	cacheLock.Lock()
+	defer cacheLock.Unlock()
 	if w.warning.instance == nil {
 		w.warning.instance = warning.ByName(w.warning.name)
 	}
-	return w.warning.instance.Description()
+	return w.warning.instance
 }
 
 func (w *dataWarning) Summary() string {
@@ -402,6 +426,8 @@ func (w *dataWarning) AddInstance(instance *dataInstance) {
 }
 
 func (w *dataWarning) Instances() []*dataInstance {
+	cacheLock.Lock()
+	defer cacheLock.Unlock()
 	if !w.sorted {
 		sort.Slice(w.instances, func(i, j int) bool {
 			return w.instances[i].name < w.instances[j].name
diff --git a/internal/scoring/axis/common/data.go b/internal/scoring/axis/common/data.go
index a0a8834..ca30bb8 100644
--- a/internal/scoring/axis/common/data.go
+++ b/internal/scoring/axis/common/data.go
@@ -1,13 +1,16 @@
 package common
 
 import (
+	"sync"
+
 	"github.com/madkins23/go-slog/internal/data"
 	"github.com/madkins23/go-slog/internal/scoring/score"
 )
 
 type HandlerData struct {
-	byTest map[data.TestTag]*score.Average
-	scores map[score.Type]score.Value
+	byTest     map[data.TestTag]*score.Average
+	byTestLock sync.Mutex
+	scores     map[score.Type]score.Value
 }
 
 func NewHandlerData() *HandlerData {
@@ -18,6 +21,8 @@ func NewHandlerData() *HandlerData {
 }
 
 func (hd *HandlerData) ByTest(test data.TestTag) *score.Average {
+	hd.byTestLock.Lock()
+	defer hd.byTestLock.Unlock()
 	if hd.byTest[test] == nil {
 		hd.byTest[test] = &score.Average{}
 	}
diff --git a/internal/scoring/axis/warn/data.go b/internal/scoring/axis/warn/data.go
index e00c6f9..f85ce2f 100644
--- a/internal/scoring/axis/warn/data.go
+++ b/internal/scoring/axis/warn/data.go
@@ -1,6 +1,8 @@
 package warn
 
 import (
+	"sync"
+
 	"github.com/madkins23/go-slog/infra/warning"
 	"github.com/madkins23/go-slog/internal/scoring/axis/common"
 	"github.com/madkins23/go-slog/internal/scoring/score"
@@ -8,8 +10,9 @@ import (
 
 type HandlerData struct {
 	*common.HandlerData
-	byLevel map[warning.Level]*score.Average
-	counts  map[warning.Level]uint64
+	byLevel     map[warning.Level]*score.Average
+	byLevelLock sync.Mutex
+	counts      map[warning.Level]uint64
 }
 
 func NewHandlerData() *HandlerData {
@@ -30,6 +33,8 @@ func (hd *HandlerData) SetCountFor(level warning.Level, count uint64) {
 }
 
 func (hd *HandlerData) ByLevel(level warning.Level) *score.Average {
+	hd.byLevelLock.Lock()
+	defer hd.byLevelLock.Unlock()
 	if hd.byLevel[level] == nil {
 		hd.byLevel[level] = &score.Average{}
 	}
diff --git a/internal/scoring/score/keeper.go b/internal/scoring/score/keeper.go
index af96567..6391d97 100644
--- a/internal/scoring/score/keeper.go
+++ b/internal/scoring/score/keeper.go
@@ -5,6 +5,7 @@ import (
 	"fmt"
 	"html/template"
 	"sort"
+	"sync"
 
 	"github.com/madkins23/go-slog/internal/data"
 	"github.com/madkins23/go-slog/internal/markdown"
@@ -113,10 +114,13 @@ var (
 	//go:embed doc/overview.md
 	overviewMD   string
 	overviewHTML template.HTML
+	overviewLock sync.Mutex
 )
 
 // Overview returns documentation applicable to all scorekeepers.
 func (k *Keeper) Overview() template.HTML {
+	overviewLock.Lock()
+	defer overviewLock.Unlock()
 	if overviewHTML == "" {
 		overviewHTML = markdown.TemplateHTML(overviewMD, false)
 	}
@@ -140,9 +144,12 @@ func (k *Keeper) Y() Axis {
 var (
 	keepers    map[KeeperTag]*Keeper
 	keeperTags []KeeperTag
+	keeperLock sync.Mutex
 )
 
 func AddKeeper(keeper *Keeper) error {
+	keeperLock.Lock()
+	defer keeperLock.Unlock()
 	if keepers == nil {
 		keepers = make(map[KeeperTag]*Keeper)
 	}
@@ -160,6 +167,8 @@ func GetKeeper(tag KeeperTag) *Keeper {
 }
 
 func Keepers() []KeeperTag {
+	keeperLock.Lock()
+	defer keeperLock.Unlock()
 	if keeperTags == nil {
 		keeperTags = make([]KeeperTag, 0, len(keepers))
 		for tag := range keepers {
-- 
2.43.0

