From 083089177fdedb8f649cb59104445774c59ecfd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:19 +0000
Subject: [PATCH 01/60] fix: emit two-digit hex escapes for Go byte string keys

byteStr rendered bytes below 0x10 as \xN, which is not a valid Go escape
(or silently absorbs the following byte)
---
 templates/goshared/register.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/templates/goshared/register.go b/templates/goshared/register.go
index e532d08..6223918 100644
--- a/templates/goshared/register.go
+++ b/templates/goshared/register.go
@@ -199,7 +199,7 @@ func (fns goSharedFuncs) isBytes(f interface {
 func (fns goSharedFuncs) byteStr(x []byte) string {
 	elms := make([]string, len(x))
 	for i, b := range x {
-		elms[i] = fmt.Sprintf(`\x%X`, b)
+		elms[i] = fmt.Sprintf(`\x%02X`, b)
 	}
 
 	return fmt.Sprintf(`"%s"`, strings.Join(elms, ""))
-- 
2.43.0


From dd9d813c906e8566f85b4dd480317b92e56b0dbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:18 +0000
Subject: [PATCH 02/60] fix: look at nested messages when deciding a file needs
 the UUID pattern

FileNeeds only visited top-level messages, so a uuid rule inside a nested
message generated Go code referring to an undeclared pattern
---
 templates/shared/well_known.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/templates/shared/well_known.go b/templates/shared/well_known.go
index 87f5e98..0747f16 100644
--- a/templates/shared/well_known.go
+++ b/templates/shared/well_known.go
@@ -14,7 +14,7 @@ const (
 )
 
 func FileNeeds(f pgs.File, wk WellKnown) bool {
-	for _, msg := range f.Messages() {
+	for _, msg := range f.AllMessages() {
 		needed := Needs(msg, wk)
 		if needed {
 			return true
-- 
2.43.0


From 6afc083d64f8fcded2cc47e59d9f50674f36a285 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:18 +0000
Subject: [PATCH 03/60] fix: do not leave the map key unused in generated Go
 code

A map whose values are skipped and whose keys have no rules generated a
range loop with an unused variable, which does not compile
---
 templates/goshared/map.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/templates/goshared/map.go b/templates/goshared/map.go
index cadf990..1655ac7 100644
--- a/templates/goshared/map.go
+++ b/templates/goshared/map.go
@@ -37,7 +37,7 @@ const mapTpl = `
 
 	{{ if or $r.GetNoSparse (ne (.Elem "" "").Typ "none") (ne (.Key "" "").Typ "none") }}
 		for key, val := range {{ accessor . }} {
-			_ = val
+			_, _ = key, val
 
 			{{ if $r.GetNoSparse }}
 				if val == nil {
-- 
2.43.0


From 96240f7230ea9d1abfae804717a97217a9e3e1b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:29 +0000
Subject: [PATCH 04/60] fix: reject non-ASCII letters in Go hostname validation

strings.ToLower maps U+0130 and U+212A to the ASCII letters i and k, so
hostnames holding those characters were accepted
---
 templates/goshared/known.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/templates/goshared/known.go b/templates/goshared/known.go
index ad32cfc..afd3aaa 100644
--- a/templates/goshared/known.go
+++ b/templates/goshared/known.go
@@ -2,7 +2,7 @@ package goshared
 
 const hostTpl = `
 	func (m {{ (msgTyp .).Pointer }}) _validateHostname(host string) error {
-		s := strings.ToLower(strings.TrimSuffix(host, "."))
+		s := strings.TrimSuffix(host, ".")
 
 		if len(host) > 253 {
 			return errors.New("hostname cannot exceed 253 characters")
@@ -22,7 +22,7 @@ const hostTpl = `
 			}
 
 			for _, r := range part {
-				if (r < 'a' || r > 'z') && (r < '0' || r > '9') && r != '-' {
+				if (r < 'a' || r > 'z') && (r < 'A' || r > 'Z') && (r < '0' || r > '9') && r != '-' {
 					return fmt.Errorf("hostname parts can only contain alphanumeric characters or hyphens, got %q", string(r))
 				}
 			}
-- 
2.43.0


From b7ea393d181efdc0c8fcd71b14a8b936cccfe774 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:29 +0000
Subject: [PATCH 05/60] fix: keep the comma out of the HTTP_HEADER_NAME pattern

The unescaped +-. in the character class is a range that includes ',',
which is not an RFC 7230 token character
---
 module/checker.go                       | 2 +-
 python/protoc_gen_validate/validator.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/module/checker.go b/module/checker.go
index d8beabe..cad70d7 100644
--- a/module/checker.go
+++ b/module/checker.go
@@ -14,7 +14,7 @@ import (
 )
 
 var unknown = ""
-var httpHeaderName = "^:?[0-9a-zA-Z!#$%&'*+-.^_|~\x60]+$"
+var httpHeaderName = "^:?[0-9a-zA-Z!#$%&'*+\\-.^_|~\x60]+$"
 var httpHeaderValue = "^[^\u0000-\u0008\u000A-\u001F\u007F]*$"
 var headerString = "^[^\u0000\u000A\u000D]*$" // For non-strict validation.
 
diff --git a/python/protoc_gen_validate/validator.py b/python/protoc_gen_validate/validator.py
index bdca00b..9b3bef1 100644
--- a/python/protoc_gen_validate/validator.py
+++ b/python/protoc_gen_validate/validator.py
@@ -16,7 +16,7 @@ printer = ""
 # Well known regex mapping.
 regex_map = {
     "UNKNOWN": "",
-    "HTTP_HEADER_NAME": r'^:?[0-9a-zA-Z!#$%&\'*+-.^_|~\x60]+$',
+    "HTTP_HEADER_NAME": r'^:?[0-9a-zA-Z!#$%&\'*+\-.^_|~\x60]+$',
     "HTTP_HEADER_VALUE": r'^[^\u0000-\u0008\u000A-\u001F\u007F]*$',
     "HEADER_STRING": r'^[^\u0000\u000A\u000D]*$'
 }
-- 
2.43.0


From 271a0bbcc7683656d43ed623c18e186a44117366 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:29 +0000
Subject: [PATCH 06/60] fix: treat lt_now: false and gt_now: false as unset in
 Go validators

---
 templates/go/timestamp.go       | 2 +-
 templates/goshared/timestamp.go | 6 +++---
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/templates/go/timestamp.go b/templates/go/timestamp.go
index a0943bf..4b85291 100644
--- a/templates/go/timestamp.go
+++ b/templates/go/timestamp.go
@@ -3,7 +3,7 @@ package golang
 const timestampTpl = `{{ $f := .Field }}{{ $r := .Rules }}
 	{{ template "required" . }}
 
-	{{ if or $r.Lt $r.Lte $r.Gt $r.Gte $r.LtNow $r.GtNow $r.Within $r.Const }}
+	{{ if or $r.Lt $r.Lte $r.Gt $r.Gte $r.GetLtNow $r.GetGtNow $r.Within $r.Const }}
 		if t := {{ accessor . }}; t != nil {
 			ts, err := t.AsTime(), t.CheckValid()
 			if err != nil {
diff --git a/templates/goshared/timestamp.go b/templates/goshared/timestamp.go
index 3031626..60315c3 100644
--- a/templates/goshared/timestamp.go
+++ b/templates/goshared/timestamp.go
@@ -9,7 +9,7 @@ const timestampcmpTpl = `{{ $f := .Field }}{{ $r := .Rules }}
 				}
 			{{ end }}
 
-			{{ if or $r.LtNow $r.GtNow $r.Within }} now := time.Now(); {{ end }}
+			{{ if or $r.GetLtNow $r.GetGtNow $r.Within }} now := time.Now(); {{ end }}
 			{{- if $r.Lt }}  lt  := {{ tsLit $r.Lt }};  {{ end }}
 			{{- if $r.Lte }} lte := {{ tsLit $r.Lte }}; {{ end }}
 			{{- if $r.Gt }}  gt  := {{ tsLit $r.Gt }};  {{ end }}
@@ -100,7 +100,7 @@ const timestampcmpTpl = `{{ $f := .Field }}{{ $r := .Rules }}
 					if !all { return err }
 					errors = append(errors, err)
 				}
-			{{ else if $r.LtNow }}
+			{{ else if $r.GetLtNow }}
 				{{ if $r.Within }}
 					if ts.Sub(now) >= 0 || ts.Sub(now.Add(-within)) < 0 {
 						err := {{ err . "value must be less than now within " (durStr $r.GetWithin) }}
@@ -114,7 +114,7 @@ const timestampcmpTpl = `{{ $f := .Field }}{{ $r := .Rules }}
 						errors = append(errors, err)
 					}
 				{{ end }}
-			{{ else if $r.GtNow }}
+			{{ else if $r.GetGtNow }}
 				{{ if $r.Within }}
 					if ts.Sub(now) <= 0 || ts.Sub(now.Add(within)) > 0 {
 						err := {{ err . "value must be greater than now within " (durStr $r.GetWithin) }}
-- 
2.43.0


From 8016b9a2fc311b7243b53d1224164cdc9fe7e86c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:03 +0000
Subject: [PATCH 07/60] fix: split e-mail addresses at the last @ in Go
 validators

A quoted local part may contain @, so splitting at the first one handed
part of the local part to the hostname check
---
 templates/goshared/known.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/templates/goshared/known.go b/templates/goshared/known.go
index afd3aaa..aed4010 100644
--- a/templates/goshared/known.go
+++ b/templates/goshared/known.go
@@ -44,13 +44,13 @@ const emailTpl = `
 			return errors.New("email addresses cannot exceed 254 characters")
 		}
 
-		parts := strings.SplitN(addr, "@", 2)
+		at := strings.LastIndex(addr, "@")
 
-		if len(parts[0]) > 64 {
+		if len(addr[:at]) > 64 {
 			return errors.New("email address local phrase cannot exceed 64 characters")
 		}
 
-		return m._validateHostname(parts[1])
+		return m._validateHostname(addr[at+1:])
 	}
 `
 
-- 
2.43.0


From c33c06df3789e62d0ef0882183c8978490ea7606 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:18 +0000
Subject: [PATCH 08/60] fix: support rules on wrapper messages in lists and map
 values

---
 templates/cc/register.go       |  2 +-
 templates/goshared/register.go |  2 +-
 templates/shared/context.go    | 13 +++++++++++++
 templates/shared/well_known.go | 10 ++++++++--
 4 files changed, 23 insertions(+), 4 deletions(-)

diff --git a/templates/cc/register.go b/templates/cc/register.go
index 615932c..91a0df7 100644
--- a/templates/cc/register.go
+++ b/templates/cc/register.go
@@ -404,7 +404,7 @@ func (fns CCFuncs) unwrap(ctx shared.RuleContext, name string) (shared.RuleConte
 	}
 
 	ctx.AccessorOverride = fmt.Sprintf("%s.%s()", name,
-		ctx.Field.Type().Embed().Fields()[0].Name())
+		ctx.WrappedField().Name())
 
 	return ctx, nil
 }
diff --git a/templates/goshared/register.go b/templates/goshared/register.go
index 6223918..d3f9b16 100644
--- a/templates/goshared/register.go
+++ b/templates/goshared/register.go
@@ -292,7 +292,7 @@ func (fns goSharedFuncs) unwrap(ctx shared.RuleContext, name string) (shared.Rul
 	}
 
 	ctx.AccessorOverride = fmt.Sprintf("%s.Get%s()", name,
-		pgsgo.PGGUpperCamelCase(ctx.Field.Type().Embed().Fields()[0].Name()))
+		pgsgo.PGGUpperCamelCase(ctx.WrappedField().Name()))
 
 	return ctx, nil
 }
diff --git a/templates/shared/context.go b/templates/shared/context.go
index a374135..64e1f57 100644
--- a/templates/shared/context.go
+++ b/templates/shared/context.go
@@ -104,10 +104,23 @@ func (ctx RuleContext) Unwrap(name string) (out RuleContext, err error) {
 		Rules:            ctx.Rules,
 		MessageRules:     ctx.MessageRules,
 		Typ:              ctx.WrapperTyp,
+		OnKey:            ctx.OnKey,
+		Index:            ctx.Index,
 		AccessorOverride: name,
 	}, nil
 }
 
+// WrappedField returns the value field of the wrapper message that the field,
+// list item or map value of ctx holds.
+func (ctx RuleContext) WrappedField() pgs.Field {
+	typ := ctx.Field.Type()
+	if typ.IsEmbed() {
+		return typ.Embed().Fields()[0]
+	}
+
+	return typ.Element().Embed().Fields()[0]
+}
+
 func Render(tpl *template.Template) func(ctx RuleContext) (string, error) {
 	return func(ctx RuleContext) (string, error) {
 		var b bytes.Buffer
diff --git a/templates/shared/well_known.go b/templates/shared/well_known.go
index 0747f16..22e53cb 100644
--- a/templates/shared/well_known.go
+++ b/templates/shared/well_known.go
@@ -34,7 +34,7 @@ func Needs(m pgs.Message, wk WellKnown) bool {
 		}
 
 		switch {
-		case f.Type().IsRepeated() && f.Type().Element().ProtoType() == pgs.StringT:
+		case f.Type().IsRepeated() && isString(f.Type().Element()):
 			if strRulesNeeds(rules.GetRepeated().GetItems().GetString_(), wk) {
 				return true
 			}
@@ -43,7 +43,7 @@ func Needs(m pgs.Message, wk WellKnown) bool {
 				strRulesNeeds(rules.GetMap().GetKeys().GetString_(), wk) {
 				return true
 			}
-			if f.Type().Element().ProtoType() == pgs.StringT &&
+			if isString(f.Type().Element()) &&
 				strRulesNeeds(rules.GetMap().GetValues().GetString_(), wk) {
 				return true
 			}
@@ -61,6 +61,12 @@ func Needs(m pgs.Message, wk WellKnown) bool {
 	return false
 }
 
+// isString returns true if typ is a string or a wrapped string.
+func isString(typ pgs.FieldTypeElem) bool {
+	return typ.ProtoType() == pgs.StringT ||
+		typ.IsEmbed() && typ.Embed().WellKnownType() == pgs.StringValueWKT
+}
+
 func strRulesNeeds(rules *validate.StringRules, wk WellKnown) bool {
 	switch wk {
 	case Email:
-- 
2.43.0


From 887e394da9ece60507a5a9eabfcca4edc9d00fe1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:18 +0000
Subject: [PATCH 09/60] fix: mark errors on map keys as key errors

---
 templates/shared/context.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/templates/shared/context.go b/templates/shared/context.go
index 64e1f57..cde25ed 100644
--- a/templates/shared/context.go
+++ b/templates/shared/context.go
@@ -54,6 +54,7 @@ func (ctx RuleContext) Key(name, idx string) (out RuleContext, err error) {
 	out.Field = ctx.Field
 	out.AccessorOverride = name
 	out.Index = idx
+	out.OnKey = true
 
 	out.Typ, out.Rules, out.MessageRules, _ = resolveRules(ctx.Field.Type().Key(), rules.GetKeys())
 
-- 
2.43.0


From 726375d5e56bfdc65a342cdb064b103af8d1c72f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:46 +0000
Subject: [PATCH 10/60] fix: declare the lookups and patterns of all list
 items, map keys and map values in Go

---
 templates/goshared/any.go      |  4 +-
 templates/goshared/bytes.go    |  6 +--
 templates/goshared/duration.go |  4 +-
 templates/goshared/in.go       |  4 +-
 templates/goshared/msg.go      | 86 +++++++++-------------------------
 templates/goshared/register.go | 54 +++++++++------------
 templates/goshared/repeated.go |  6 +--
 templates/goshared/string.go   |  2 +-
 8 files changed, 57 insertions(+), 109 deletions(-)

diff --git a/templates/goshared/any.go b/templates/goshared/any.go
index a120592..15817da 100644
--- a/templates/goshared/any.go
+++ b/templates/goshared/any.go
@@ -5,13 +5,13 @@ const anyTpl = `{{ $f := .Field }}{{ $r := .Rules }}
 
 	if a := {{ accessor . }}; a != nil {
 		{{ if $r.In }}
-			if _, ok := {{ lookup $f "InLookup" }}[a.GetTypeUrl()]; !ok {
+			if _, ok := {{ lookup . "InLookup" }}[a.GetTypeUrl()]; !ok {
 				err := {{ err . "type URL must be in list " $r.In }}
 				if !all { return err }
 				errors = append(errors, err)
 			}
 		{{ else if $r.NotIn }}
-			if _, ok := {{ lookup $f "NotInLookup" }}[a.GetTypeUrl()]; ok {
+			if _, ok := {{ lookup . "NotInLookup" }}[a.GetTypeUrl()]; ok {
 				err := {{ err . "type URL must not be in list " $r.NotIn }}
 				if !all { return err }
 				errors = append(errors, err)
diff --git a/templates/goshared/bytes.go b/templates/goshared/bytes.go
index e9caa66..f17435f 100644
--- a/templates/goshared/bytes.go
+++ b/templates/goshared/bytes.go
@@ -68,13 +68,13 @@ const bytesTpl = `
 	{{ end }}
 
 	{{ if $r.In }}
-		if _, ok := {{ lookup $f "InLookup" }}[string({{ accessor . }})]; !ok {
+		if _, ok := {{ lookup . "InLookup" }}[string({{ accessor . }})]; !ok {
 			err := {{ err . "value must be in list " $r.In }}
 			if !all { return err }
 			errors = append(errors, err)
 		}
 	{{ else if $r.NotIn }}
-		if _, ok := {{ lookup $f "NotInLookup" }}[string({{ accessor . }})]; ok {
+		if _, ok := {{ lookup . "NotInLookup" }}[string({{ accessor . }})]; ok {
 			err := {{ err . "value must not be in list " $r.NotIn }}
 			if !all { return err }
 			errors = append(errors, err)
@@ -110,7 +110,7 @@ const bytesTpl = `
 	{{ end }}
 
 	{{ if $r.Pattern }}
-	if !{{ lookup $f "Pattern" }}.Match({{ accessor . }}) {
+	if !{{ lookup . "Pattern" }}.Match({{ accessor . }}) {
 		err := {{ err . "value does not match regex pattern " (lit $r.GetPattern) }}
 		if !all { return err }
 		errors = append(errors, err)
diff --git a/templates/goshared/duration.go b/templates/goshared/duration.go
index c039ab5..758dbb0 100644
--- a/templates/goshared/duration.go
+++ b/templates/goshared/duration.go
@@ -103,13 +103,13 @@ const durationcmpTpl = `{{ $f := .Field }}{{ $r := .Rules }}
 
 
 			{{ if $r.In }}
-				if _, ok := {{ lookup $f "InLookup" }}[dur]; !ok {
+				if _, ok := {{ lookup . "InLookup" }}[dur]; !ok {
 					err := {{ err . "value must be in list " $r.In }}
 					if !all { return err }
 					errors = append(errors, err)
 				}
 			{{ else if $r.NotIn }}
-				if _, ok := {{ lookup $f "NotInLookup" }}[dur]; ok {
+				if _, ok := {{ lookup . "NotInLookup" }}[dur]; ok {
 					err := {{ err . "value must not be in list " $r.NotIn }}
 					if !all { return err }
 					errors = append(errors, err)
diff --git a/templates/goshared/in.go b/templates/goshared/in.go
index b6fdfa4..c72e670 100644
--- a/templates/goshared/in.go
+++ b/templates/goshared/in.go
@@ -2,13 +2,13 @@ package goshared
 
 const inTpl = `{{ $f := .Field }}{{ $r := .Rules }}
 	{{ if $r.In }}
-		if _, ok := {{ lookup $f "InLookup" }}[{{ accessor . }}]; !ok {
+		if _, ok := {{ lookup . "InLookup" }}[{{ accessor . }}]; !ok {
 			err := {{ err . "value must be in list " $r.In }}
 			if !all { return err }
 			errors = append(errors, err)
 		}
 	{{ else if $r.NotIn }}
-		if _, ok := {{ lookup $f "NotInLookup" }}[{{ accessor . }}]; ok {
+		if _, ok := {{ lookup . "NotInLookup" }}[{{ accessor . }}]; ok {
 			err := {{ err . "value must not be in list " $r.NotIn }}
 			if !all { return err }
 			errors = append(errors, err)
diff --git a/templates/goshared/msg.go b/templates/goshared/msg.go
index 4e09f77..a0ce32a 100644
--- a/templates/goshared/msg.go
+++ b/templates/goshared/msg.go
@@ -132,79 +132,35 @@ var _ interface{
 	ErrorName() string
 } = {{ errname . }}{}
 
-{{ range .Fields }}{{ with (context .) }}{{ $f := .Field }}
-	{{ if has .Rules "In" }}{{ if .Rules.In }}
-		var {{ lookup .Field "InLookup" }} = map[{{ inType .Field .Rules.In }}]struct{}{
-			{{- range .Rules.In }}
-				{{ inKey $f . }}: {},
-			{{- end }}
-		}
-	{{ end }}{{ end }}
-
-	{{ if has .Rules "NotIn" }}{{ if .Rules.NotIn }}
-		var {{ lookup .Field "NotInLookup" }} = map[{{ inType .Field .Rules.In }}]struct{}{
-			{{- range .Rules.NotIn }}
-				{{ inKey $f . }}: {},
-			{{- end }}
-		}
-	{{ end }}{{ end }}
-
-	{{ if has .Rules "Pattern"}}{{ if .Rules.Pattern }}
-		var {{ lookup .Field "Pattern" }} = regexp.MustCompile({{ lit .Rules.GetPattern }})
-	{{ end }}{{ end }}
-
-	{{ if has .Rules "Items"}}{{ if .Rules.Items }}
-	{{ if has .Rules.Items.GetString_ "Pattern" }} {{ if .Rules.Items.GetString_.Pattern }}
-		var {{ lookup .Field "Pattern" }} = regexp.MustCompile({{ lit .Rules.Items.GetString_.GetPattern }})
-	{{ end }}{{ end }}
-	{{ end }}{{ end }}
+{{ range .Fields }}{{ with (context .) }}
+	{{ template "lookups" . }}
+	{{ if has .Rules "Items" }}{{ template "lookups" (.Elem "" "") }}{{ end }}
+	{{ if has .Rules "Keys" }}{{ template "lookups" (.Key "" "") }}{{ end }}
+	{{ if has .Rules "Values" }}{{ template "lookups" (.Elem "" "") }}{{ end }}
+{{ end }}{{ end }}
+{{- end -}}
+`
 
-	{{ if has .Rules "Items"}}{{ if .Rules.Items }}
-	{{ if has .Rules.Items.GetString_ "In" }} {{ if .Rules.Items.GetString_.In }}
-		var {{ lookup .Field "InLookup" }} = map[string]struct{}{
-			{{- range .Rules.Items.GetString_.In }}
-				{{ inKey $f . }}: {},
+// Package variables that the rules of a field, list item, map key or map value
+// refer to.
+const lookupsTpl = `{{ $r := .Rules }}
+	{{ if has $r "In" }}{{ if $r.In }}
+		var {{ lookup . "InLookup" }} = map[{{ inType . $r.In }}]struct{}{
+			{{- range $r.In }}
+				{{ inKey . }}: {},
 			{{- end }}
 		}
 	{{ end }}{{ end }}
-	{{ if has .Rules.Items.GetEnum "In" }} {{ if .Rules.Items.GetEnum.In }}
-		var {{ lookup .Field "InLookup" }} = map[{{ inType .Field .Rules.Items.GetEnum.In }}]struct{}{
-			{{- range .Rules.Items.GetEnum.In }}
-				{{ inKey $f . }}: {},
-			{{- end }}
-		}
-	{{ end }}{{ end }}
-	{{ end }}{{ end }}
 
-	{{ if has .Rules "Items"}}{{ if .Rules.Items }}
-	{{ if has .Rules.Items.GetString_ "NotIn" }} {{ if .Rules.Items.GetString_.NotIn }}
-		var {{ lookup .Field "NotInLookup" }} = map[string]struct{}{
-			{{- range .Rules.Items.GetString_.NotIn }}
-				{{ inKey $f . }}: {},
+	{{ if has $r "NotIn" }}{{ if $r.NotIn }}
+		var {{ lookup . "NotInLookup" }} = map[{{ inType . $r.NotIn }}]struct{}{
+			{{- range $r.NotIn }}
+				{{ inKey . }}: {},
 			{{- end }}
 		}
 	{{ end }}{{ end }}
-	{{ if has .Rules.Items.GetEnum "NotIn" }} {{ if .Rules.Items.GetEnum.NotIn }}
-		var {{ lookup .Field "NotInLookup" }} = map[{{ inType .Field .Rules.Items.GetEnum.NotIn }}]struct{}{
-			{{- range .Rules.Items.GetEnum.NotIn }}
-				{{ inKey $f . }}: {},
-			{{- end }}
-		}
-	{{ end }}{{ end }}
-	{{ end }}{{ end }}
 
-	{{ if has .Rules "Keys"}}{{ if .Rules.Keys }}
-	{{ if has .Rules.Keys.GetString_ "Pattern" }} {{ if .Rules.Keys.GetString_.Pattern }}
-		var {{ lookup .Field "Pattern" }} = regexp.MustCompile({{ lit .Rules.Keys.GetString_.GetPattern }})
+	{{ if has $r "Pattern" }}{{ if $r.Pattern }}
+		var {{ lookup . "Pattern" }} = regexp.MustCompile({{ lit $r.GetPattern }})
 	{{ end }}{{ end }}
-	{{ end }}{{ end }}
-
-	{{ if has .Rules "Values"}}{{ if .Rules.Values }}
-	{{ if has .Rules.Values.GetString_ "Pattern" }} {{ if .Rules.Values.GetString_.Pattern }}
-		var {{ lookup .Field "Pattern" }} = regexp.MustCompile({{ lit .Rules.Values.GetString_.GetPattern }})
-	{{ end }}{{ end }}
-	{{ end }}{{ end }}
-
-{{ end }}{{ end }}
-{{- end -}}
 `
diff --git a/templates/goshared/register.go b/templates/goshared/register.go
index d3f9b16..b756233 100644
--- a/templates/goshared/register.go
+++ b/templates/goshared/register.go
@@ -11,6 +11,7 @@ import (
 	"google.golang.org/protobuf/types/known/timestamppb"
 
 	"github.com/envoyproxy/protoc-gen-validate/templates/shared"
+	"github.com/envoyproxy/protoc-gen-validate/validate"
 	"github.com/lyft/protoc-gen-star"
 	"github.com/lyft/protoc-gen-star/lang/go"
 )
@@ -51,6 +52,7 @@ func Register(tpl *template.Template, params pgs.Parameters) {
 	})
 
 	template.Must(tpl.New("msg").Parse(msgTpl))
+	template.Must(tpl.New("lookups").Parse(lookupsTpl))
 	template.Must(tpl.New("const").Parse(constTpl))
 	template.Must(tpl.New("ltgt").Parse(ltgtTpl))
 	template.Must(tpl.New("in").Parse(inTpl))
@@ -154,7 +156,12 @@ func (fns goSharedFuncs) errIdx(ctx shared.RuleContext, idx string, reason ...in
 	return fns.errIdxCause(ctx, idx, "nil", reason...)
 }
 
-func (fns goSharedFuncs) lookup(f pgs.Field, name string) string {
+func (fns goSharedFuncs) lookup(ctx shared.RuleContext, name string) string {
+	f := ctx.Field
+	if ctx.OnKey {
+		name = "Key" + name
+	}
+
 	return fmt.Sprintf(
 		"_%s_%s_%s",
 		fns.Name(f.Message()),
@@ -209,40 +216,25 @@ func (fns goSharedFuncs) oneofTypeName(f pgs.Field) pgsgo.TypeName {
 	return pgsgo.TypeName(fns.OneofOption(f)).Pointer()
 }
 
-func (fns goSharedFuncs) inType(f pgs.Field, x interface{}) string {
-	switch f.Type().ProtoType() {
-	case pgs.BytesT:
+func (fns goSharedFuncs) inType(ctx shared.RuleContext, x interface{}) string {
+	switch ctx.Rules.(type) {
+	case *validate.BytesRules:
 		return "string"
-	case pgs.MessageT:
-		switch x.(type) {
-		case []*durationpb.Duration:
-			return "time.Duration"
-		default:
-			return pgsgo.TypeName(fmt.Sprintf("%T", x)).Element().String()
-		}
-	case pgs.EnumT:
-		if f.Type().IsRepeated() {
-			return strings.TrimLeft(fns.Type(f).String(), "[]")
-		} else {
-			return fns.Type(f).String()
-		}
-	default:
-		return fns.Type(f).String()
+	case *validate.DurationRules:
+		return "time.Duration"
+	case *validate.EnumRules:
+		return fns.Type(ctx.Field).Element().Value().String()
 	}
+
+	return pgsgo.TypeName(fmt.Sprintf("%T", x)).Element().String()
 }
 
-func (fns goSharedFuncs) inKey(f pgs.Field, x interface{}) string {
-	switch f.Type().ProtoType() {
-	case pgs.BytesT:
-		return fns.byteStr(x.([]byte))
-	case pgs.MessageT:
-		switch x := x.(type) {
-		case *durationpb.Duration:
-			dur := x.AsDuration()
-			return fns.lit(int64(dur))
-		default:
-			return fns.lit(x)
-		}
+func (fns goSharedFuncs) inKey(x interface{}) string {
+	switch x := x.(type) {
+	case []byte:
+		return fns.byteStr(x)
+	case *durationpb.Duration:
+		return fns.lit(int64(x.AsDuration()))
 	default:
 		return fns.lit(x)
 	}
diff --git a/templates/goshared/repeated.go b/templates/goshared/repeated.go
index a98f350..c5a7ce5 100644
--- a/templates/goshared/repeated.go
+++ b/templates/goshared/repeated.go
@@ -36,7 +36,7 @@ const repTpl = `
 	{{ end }}
 
 	{{ if $r.GetUnique }}
-		{{ lookup $f "Unique" }} := {{ if isBytes $f.Type.Element -}}
+		{{ lookup . "Unique" }} := {{ if isBytes $f.Type.Element -}}
 			make(map[string]struct{}, len({{ accessor . }}))
 		{{ else -}}
 			make(map[{{ (typ $f).Element }}]struct{}, len({{ accessor . }}))
@@ -47,12 +47,12 @@ const repTpl = `
 		for idx, item := range {{ accessor . }} {
 			_, _ = idx, item
 			{{ if $r.GetUnique }}
-				if _, exists := {{ lookup $f "Unique" }}[{{ if isBytes $f.Type.Element }}string(item){{ else }}item{{ end }}]; exists {
+				if _, exists := {{ lookup . "Unique" }}[{{ if isBytes $f.Type.Element }}string(item){{ else }}item{{ end }}]; exists {
 					err := {{ errIdx . "idx" "repeated value must contain unique items" }}
 					if !all { return err }
 					errors = append(errors, err)
 				} else {
-					{{ lookup $f "Unique" }}[{{ if isBytes $f.Type.Element }}string(item){{ else }}item{{ end }}] = struct{}{}
+					{{ lookup . "Unique" }}[{{ if isBytes $f.Type.Element }}string(item){{ else }}item{{ end }}] = struct{}{}
 				}
 			{{ end }}
 
diff --git a/templates/goshared/string.go b/templates/goshared/string.go
index 8df69b3..d64ba92 100644
--- a/templates/goshared/string.go
+++ b/templates/goshared/string.go
@@ -176,7 +176,7 @@ const strTpl = `
 	{{ end }}
 
 	{{ if $r.Pattern }}
-		if !{{ lookup $f "Pattern" }}.MatchString({{ accessor . }}) {
+		if !{{ lookup . "Pattern" }}.MatchString({{ accessor . }}) {
 			err := {{ err . "value does not match regex pattern " (lit $r.GetPattern) }}
 			if !all { return err }
 			errors = append(errors, err)
-- 
2.43.0


From 3be81203347893b1364cb14fe3aa41d9f8496f7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:22 +0000
Subject: [PATCH 11/60] fix: import the packages of external enums in lists and
 maps

---
 templates/goshared/register.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/templates/goshared/register.go b/templates/goshared/register.go
index b756233..9b8d36d 100644
--- a/templates/goshared/register.go
+++ b/templates/goshared/register.go
@@ -298,7 +298,12 @@ func (fns goSharedFuncs) externalEnums(file pgs.File) []pgs.Enum {
 
 	for _, msg := range file.AllMessages() {
 		for _, fld := range msg.Fields() {
-			if en := fld.Type().Enum(); fld.Type().IsEnum() && en.Package().ProtoName() != fld.Package().ProtoName() && fns.PackageName(en) != fns.PackageName(fld) {
+			en := fld.Type().Enum()
+			if el := fld.Type().Element(); el != nil {
+				en = el.Enum()
+			}
+
+			if en != nil && en.Package().ProtoName() != fld.Package().ProtoName() && fns.PackageName(en) != fns.PackageName(fld) {
 				out = append(out, en)
 			}
 		}
-- 
2.43.0


From 538a01d2a6c8e883f5367863be60bdbfbf5292c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:30 +0000
Subject: [PATCH 12/60] fix: reject any, duration and timestamp rules on other
 field types

---
 module/checker.go | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/module/checker.go b/module/checker.go
index cad70d7..36ef987 100644
--- a/module/checker.go
+++ b/module/checker.go
@@ -331,10 +331,12 @@ func (m *Module) CheckMap(ft FieldType, r *validate.MapRules) {
 }
 
 func (m *Module) CheckAny(ft FieldType, r *validate.AnyRules) {
+	m.mustWKT(ft, pgs.AnyWKT)
 	m.checkIns(len(r.In), len(r.NotIn))
 }
 
 func (m *Module) CheckDuration(ft FieldType, r *validate.DurationRules) {
+	m.mustWKT(ft, pgs.DurationWKT)
 	m.checkNums(
 		len(r.GetIn()),
 		len(r.GetNotIn()),
@@ -356,6 +358,7 @@ func (m *Module) CheckDuration(ft FieldType, r *validate.DurationRules) {
 }
 
 func (m *Module) CheckTimestamp(ft FieldType, r *validate.TimestampRules) {
+	m.mustWKT(ft, pgs.TimestampWKT)
 	m.checkNums(0, 0,
 		m.checkTS(r.GetConst()),
 		m.checkTS(r.GetLt()),
@@ -381,6 +384,18 @@ func (m *Module) CheckTimestamp(ft FieldType, r *validate.TimestampRules) {
 		"`within` rule must be positive and non-zero")
 }
 
+// mustWKT asserts that typ is a singular message of the well-known type wkt.
+func (m *Module) mustWKT(typ FieldType, wkt pgs.WellKnownType) {
+	if typ, ok := typ.(Repeatable); ok {
+		m.Assert(!typ.IsRepeated(),
+			"repeated rule should be used for repeated fields")
+	}
+
+	emb := typ.Embed()
+	m.Assert(emb != nil && emb.IsWellKnown() && emb.WellKnownType() == wkt,
+		"expected a google.protobuf.", wkt.Name().String(), " for rules of that type")
+}
+
 func (m *Module) mustFieldType(ft FieldType) pgs.FieldType {
 	typ, ok := ft.(pgs.FieldType)
 	if !ok {
-- 
2.43.0


From 0dec2372b265920f9da840087a5789356a3d3377 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:48 +0000
Subject: [PATCH 13/60] fix: compare timestamp rules without wrapping their
 nanoseconds

---
 module/checker.go | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/module/checker.go b/module/checker.go
index 36ef987..76ddd27 100644
--- a/module/checker.go
+++ b/module/checker.go
@@ -8,7 +8,6 @@ import (
 
 	"github.com/envoyproxy/protoc-gen-validate/validate"
 	"github.com/lyft/protoc-gen-star"
-	"google.golang.org/protobuf/proto"
 	"google.golang.org/protobuf/types/known/durationpb"
 	"google.golang.org/protobuf/types/known/timestamppb"
 )
@@ -511,12 +510,12 @@ func (m *Module) checkDur(d *durationpb.Duration) *time.Duration {
 	return &dur
 }
 
-func (m *Module) checkTS(ts *timestamppb.Timestamp) *int64 {
+func (m *Module) checkTS(ts *timestamppb.Timestamp) *time.Time {
 	if ts == nil {
 		return nil
 	}
 
 	t, err := ts.AsTime(), ts.CheckValid()
 	m.CheckErr(err, "could not resolve timestamp")
-	return proto.Int64(t.UnixNano())
+	return &t
 }
-- 
2.43.0


From 04be87cb9fc46c169f5c69078a7c74d9edebc029 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:16 +0000
Subject: [PATCH 14/60] fix: reject C++ durations whose seconds and nanos
 differ in sign

---
 templates/cc/duration.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/templates/cc/duration.go b/templates/cc/duration.go
index 16f086f..0016231 100644
--- a/templates/cc/duration.go
+++ b/templates/cc/duration.go
@@ -9,6 +9,7 @@ const durationTpl = `{{ $f := .Field }}{{ $r := .Rules }}
 			const pgv::protobuf_wkt::Duration& dur = {{ accessor . }};
 
 			if (dur.nanos() > 999999999 || dur.nanos() < -999999999 ||
+			    (dur.seconds() < 0 && dur.nanos() > 0) || (dur.seconds() > 0 && dur.nanos() < 0) ||
 			    dur.seconds() > pgv::protobuf::util::TimeUtil::kDurationMaxSeconds ||
 			    dur.seconds() < pgv::protobuf::util::TimeUtil::kDurationMinSeconds)
 				{{ errCause . "err" "value is not a valid duration" }}
-- 
2.43.0


From 94bf602d714c5eac8424e95f63afb0d7d88a572c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:17 +0000
Subject: [PATCH 15/60] fix: do not take C++ text after a NUL for an IP address

---
 validate/validate.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/validate/validate.h b/validate/validate.h
index b859497..76ac7d7 100644
--- a/validate/validate.h
+++ b/validate/validate.h
@@ -96,12 +96,13 @@ static inline bool NotContains(const string& search_in, const string& to_find)
 
 static inline bool IsIpv4(const string& to_validate) {
 	struct sockaddr_in sa;
-	return !(inet_pton(AF_INET, to_validate.c_str(), &sa.sin_addr) < 1);
+	// inet_pton reads up to the first NUL
+	return to_validate.find('\0') == string::npos && !(inet_pton(AF_INET, to_validate.c_str(), &sa.sin_addr) < 1);
 }
 
 static inline bool IsIpv6(const string& to_validate) {
   struct sockaddr_in6 sa_six;
-	return !(inet_pton(AF_INET6, to_validate.c_str(), &sa_six.sin6_addr) < 1);
+	return to_validate.find('\0') == string::npos && !(inet_pton(AF_INET6, to_validate.c_str(), &sa_six.sin6_addr) < 1);
 }
 
 static inline bool IsIp(const string& to_validate) {
-- 
2.43.0


From 088de76f8e7c8ebbf5479957d093ebd6e7570e30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:18 +0000
Subject: [PATCH 16/60] fix: name C++ accessors as protoc does

---
 templates/cc/register.go | 99 ++++++++++++++++++++++++++++++++++++----
 1 file changed, 91 insertions(+), 8 deletions(-)

diff --git a/templates/cc/register.go b/templates/cc/register.go
index 91a0df7..6aa8f20 100644
--- a/templates/cc/register.go
+++ b/templates/cc/register.go
@@ -113,16 +113,99 @@ func CcFilePath(f pgs.File, ctx pgsgo.Context, tpl *template.Template) *pgs.File
 	return &out
 }
 
+// ccKeywords are the identifiers protoc's C++ generator avoids.
+var ccKeywords = map[string]bool{
+	"alignas":          true,
+	"alignof":          true,
+	"and":              true,
+	"and_eq":           true,
+	"asm":              true,
+	"auto":             true,
+	"bitand":           true,
+	"bitor":            true,
+	"bool":             true,
+	"break":            true,
+	"case":             true,
+	"catch":            true,
+	"char":             true,
+	"class":            true,
+	"compl":            true,
+	"const":            true,
+	"constexpr":        true,
+	"const_cast":       true,
+	"continue":         true,
+	"decltype":         true,
+	"default":          true,
+	"delete":           true,
+	"do":               true,
+	"double":           true,
+	"dynamic_cast":     true,
+	"else":             true,
+	"enum":             true,
+	"explicit":         true,
+	"export":           true,
+	"extern":           true,
+	"false":            true,
+	"float":            true,
+	"for":              true,
+	"friend":           true,
+	"goto":             true,
+	"if":               true,
+	"inline":           true,
+	"int":              true,
+	"long":             true,
+	"mutable":          true,
+	"namespace":        true,
+	"new":              true,
+	"noexcept":         true,
+	"not":              true,
+	"not_eq":           true,
+	"nullptr":          true,
+	"operator":         true,
+	"or":               true,
+	"or_eq":            true,
+	"private":          true,
+	"protected":        true,
+	"public":           true,
+	"register":         true,
+	"reinterpret_cast": true,
+	"return":           true,
+	"short":            true,
+	"signed":           true,
+	"sizeof":           true,
+	"static":           true,
+	"static_assert":    true,
+	"static_cast":      true,
+	"struct":           true,
+	"switch":           true,
+	"template":         true,
+	"this":             true,
+	"thread_local":     true,
+	"throw":            true,
+	"true":             true,
+	"try":              true,
+	"typedef":          true,
+	"typeid":           true,
+	"typename":         true,
+	"union":            true,
+	"unsigned":         true,
+	"using":            true,
+	"virtual":          true,
+	"void":             true,
+	"volatile":         true,
+	"wchar_t":          true,
+	"while":            true,
+	"xor":              true,
+	"xor_eq":           true,
+}
+
 func (fns CCFuncs) methodName(name interface{}) string {
-	nameStr := fmt.Sprintf("%s", name)
-	switch nameStr {
-	case "const":
-		return "const_"
-	case "inline":
-		return "inline_"
-	default:
-		return nameStr
+	// protoc lower-cases accessors and appends an underscore to keywords
+	nameStr := strings.ToLower(fmt.Sprintf("%s", name))
+	if ccKeywords[nameStr] {
+		return nameStr + "_"
 	}
+	return nameStr
 }
 
 func (fns CCFuncs) accessor(ctx shared.RuleContext) string {
-- 
2.43.0


From 0e4897834d963065fac447e3e05fc43faed4aad1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:19 +0000
Subject: [PATCH 17/60] fix: C++ tables for wrapper in/not_in rules and unique
 on enums

---
 templates/cc/register.go | 21 ++++++++++++++++++++-
 templates/cc/repeated.go |  2 +-
 2 files changed, 21 insertions(+), 2 deletions(-)

diff --git a/templates/cc/register.go b/templates/cc/register.go
index 6aa8f20..41e787a 100644
--- a/templates/cc/register.go
+++ b/templates/cc/register.go
@@ -35,6 +35,7 @@ func RegisterModule(tpl *template.Template, params pgs.Parameters) {
 		"inKey":         fns.inKey,
 		"inType":        fns.inType,
 		"isBytes":       fns.isBytes,
+		"itemType":      fns.itemType,
 		"lit":           fns.lit,
 		"lookup":        fns.lookup,
 		"oneof":         fns.oneofTypeName,
@@ -376,17 +377,35 @@ func (fns CCFuncs) inType(f pgs.Field, x interface{}) string {
 		case []*durationpb.Duration:
 			return "pgv::protobuf_wkt::Duration"
 		default:
-			return fns.className(f.Type().Element().Embed())
+			if !f.Type().IsEmbed() {
+				return fns.className(f.Type().Element().Embed())
+			}
+			// a wrapper: its rules are those of the value it holds
+			return fns.cType(f.Type().Embed().Fields()[0].Type())
 		}
 	default:
 		return fns.cType(f.Type())
 	}
 }
 
+// itemType is the C++ type of the elements of a repeated field.
+func (fns CCFuncs) itemType(f pgs.Field) string {
+	if f.Type().Element().IsEnum() {
+		return "int"
+	}
+	return fns.inType(f, nil)
+}
+
 func (fns CCFuncs) cType(t pgs.FieldType) string {
 	if t.IsEmbed() {
 		return fns.className(t.Embed())
 	}
+	if t.IsEnum() {
+		return fns.className(t.Enum())
+	}
+	if (t.IsRepeated() || t.IsMap()) && t.Element().IsEnum() {
+		return fns.className(t.Element().Enum())
+	}
 	if t.IsRepeated() {
 		if t.ProtoType() == pgs.MessageT {
 			return fns.className(t.Element().Embed())
diff --git a/templates/cc/repeated.go b/templates/cc/repeated.go
index 53b2a35..ce338d9 100644
--- a/templates/cc/repeated.go
+++ b/templates/cc/repeated.go
@@ -1,7 +1,7 @@
 package cc
 
 const repTpl = `
-	{{ $f := .Field }}{{ $r := .Rules }}{{ $typ := inType $f nil }}
+	{{ $f := .Field }}{{ $r := .Rules }}{{ $typ := itemType $f }}
 	{{ if $r.GetIgnoreEmpty }}
 		if ({{ accessor . }}.size() > 0) {
 	{{ end }}
-- 
2.43.0


From 60adc487497235ea53bae6322fa60d6f0657da73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:20 +0000
Subject: [PATCH 18/60] fix: keep NaN out of C++ in and not_in lists

---
 templates/cc/msg.go      |  4 ++--
 templates/cc/register.go | 13 +++++++++++++
 2 files changed, 15 insertions(+), 2 deletions(-)

diff --git a/templates/cc/msg.go b/templates/cc/msg.go
index a54450e..33c13d6 100644
--- a/templates/cc/msg.go
+++ b/templates/cc/msg.go
@@ -16,7 +16,7 @@ const msgTpl = `
 
 {{ range .Fields }}{{ with (context .) }}{{ $f := .Field }}
 	{{ if has .Rules "In" }}{{ if .Rules.In }}
-	const std::set<{{ inType .Field .Rules.In }}> {{ lookup .Field "InLookup" }} = {
+	const {{ inTable .Field .Rules.In }} {{ lookup .Field "InLookup" }} = {
 			{{- range .Rules.In }}
 				{{ inKey $f . }},
 			{{- end }}
@@ -24,7 +24,7 @@ const msgTpl = `
 	{{ end }}{{ end }}
 
 	{{ if has .Rules "NotIn" }}{{ if .Rules.NotIn }}
-	const std::set<{{ inType .Field .Rules.NotIn }}> {{ lookup .Field "NotInLookup" }} = {
+	const {{ inTable .Field .Rules.NotIn }} {{ lookup .Field "NotInLookup" }} = {
 			{{- range .Rules.NotIn }}
 				{{ inKey $f . }},
 			{{- end }}
diff --git a/templates/cc/register.go b/templates/cc/register.go
index 41e787a..fb25f33 100644
--- a/templates/cc/register.go
+++ b/templates/cc/register.go
@@ -33,6 +33,7 @@ func RegisterModule(tpl *template.Template, params pgs.Parameters) {
 		"errIdxCause":   fns.errIdxCause,
 		"hasAccessor":   fns.hasAccessor,
 		"inKey":         fns.inKey,
+		"inTable":       fns.inTable,
 		"inType":        fns.inType,
 		"isBytes":       fns.isBytes,
 		"itemType":      fns.itemType,
@@ -388,6 +389,18 @@ func (fns CCFuncs) inType(f pgs.Field, x interface{}) string {
 	}
 }
 
+// inTable is the type of the table an in or not_in rule looks values up in.
+func (fns CCFuncs) inTable(f pgs.Field, x interface{}) string {
+	switch x.(type) {
+	case []float32, []float64:
+		// std::set orders by operator<, under which NaN is equivalent to
+		// every number
+		return "std::unordered_set<" + fns.inType(f, x) + ">"
+	default:
+		return "std::set<" + fns.inType(f, x) + ">"
+	}
+}
+
 // itemType is the C++ type of the elements of a repeated field.
 func (fns CCFuncs) itemType(f pgs.Field) string {
 	if f.Type().Element().IsEnum() {
-- 
2.43.0


From 7244e953b4ff5656deca8e4d61b257eb7c1b5f4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:21 +0000
Subject: [PATCH 19/60] fix: emit exact C++ literals for strings, floats and
 extreme integers

---
 templates/cc/ltgt.go     | 24 ++++++++--------
 templates/cc/msg.go      | 16 +++++------
 templates/cc/register.go | 62 +++++++++++++++++++++++++++++-----------
 3 files changed, 66 insertions(+), 36 deletions(-)

diff --git a/templates/cc/ltgt.go b/templates/cc/ltgt.go
index f296d93..14416b2 100644
--- a/templates/cc/ltgt.go
+++ b/templates/cc/ltgt.go
@@ -4,61 +4,61 @@ const ltgtTpl = `{{ $f := .Field }}{{ $r := .Rules }}{{ $v := (accessor .) }}
 	{{ if $r.Lt }}
 		{{ if $r.Gt }}
 			{{  if gt $r.GetLt $r.GetGt }}
-				if ({{ $v }} <= {{ $r.Gt }} || {{ $v }} >= {{ $r.Lt }}) {
+				if ({{ $v }} <= {{ lit $r.Gt }} || {{ $v }} >= {{ lit $r.Lt }}) {
 					{{ err . "value must be inside range (" $r.GetGt ", " $r.GetLt ")" }}
 				}
 			{{ else }}
-				if ({{ $v }} >= {{ $r.Lt }} && {{ $v }} <= {{ $r.Gt }}) {
+				if ({{ $v }} >= {{ lit $r.Lt }} && {{ $v }} <= {{ lit $r.Gt }}) {
 					{{ err . "value must be outside range [" $r.GetLt ", " $r.GetGt "]" }}
 				}
 			{{ end }}
 		{{ else if $r.Gte }}
 			{{  if gt $r.GetLt $r.GetGte }}
-				if ({{ $v }} < {{ $r.Gte }} || {{ $v }} >= {{ $r.Lt }}) {
+				if ({{ $v }} < {{ lit $r.Gte }} || {{ $v }} >= {{ lit $r.Lt }}) {
 					{{ err . "value must be inside range [" $r.GetGte ", " $r.GetLt ")" }}
 				}
 			{{ else }}
-				if ({{ $v }} >= {{ $r.Lt }} && {{ $v }} < {{ $r.Gte }}) {
+				if ({{ $v }} >= {{ lit $r.Lt }} && {{ $v }} < {{ lit $r.Gte }}) {
 					{{ err . "value must be outside range [" $r.GetLt ", " $r.GetGte ")" }}
 				}
 			{{ end }}
 		{{ else }}
-			if ({{ accessor . }} >= {{ $r.Lt }}) {
+			if ({{ accessor . }} >= {{ lit $r.Lt }}) {
 				{{ err . "value must be less than " $r.GetLt }}
 			}
 		{{ end }}
 	{{ else if $r.Lte }}
 		{{ if $r.Gt }}
 			{{  if gt $r.GetLte $r.GetGt }}
-				if ({{ $v }} <= {{ $r.Gt }} || {{ $v }} > {{ $r.Lte }}) {
+				if ({{ $v }} <= {{ lit $r.Gt }} || {{ $v }} > {{ lit $r.Lte }}) {
 					{{ err . "value must be inside range (" $r.GetGt ", " $r.GetLte "]" }}
 				}
 			{{ else }}
-				if ({{ $v }} > {{ $r.Lte }} && {{ $v }} <= {{ $r.Gt }}) {
+				if ({{ $v }} > {{ lit $r.Lte }} && {{ $v }} <= {{ lit $r.Gt }}) {
 					{{ err . "value must be outside range (" $r.GetLte ", " $r.GetGt "]" }}
 				}
 			{{ end }}
 		{{ else if $r.Gte }}
 			{{ if gt $r.GetLte $r.GetGte }}
-				if ({{ $v }} < {{ $r.Gte }} || {{ $v }} > {{ $r.Lte }}) {
+				if ({{ $v }} < {{ lit $r.Gte }} || {{ $v }} > {{ lit $r.Lte }}) {
 					{{ err . "value must be inside range [" $r.GetGte ", " $r.GetLte "]" }}
 				}
 			{{ else }}
-				if ({{ $v }} > {{ $r.Lte }} && {{ $v }} < {{ $r.Gte }}) {
+				if ({{ $v }} > {{ lit $r.Lte }} && {{ $v }} < {{ lit $r.Gte }}) {
 					{{ err . "value must be outside range (" $r.GetLte ", " $r.GetGte ")" }}
 				}
 			{{ end }}
 		{{ else }}
-			if ({{ accessor . }} > {{ $r.Lte }}) {
+			if ({{ accessor . }} > {{ lit $r.Lte }}) {
 				{{ err . "value must be less than or equal to " $r.GetLte }}
 			}
 		{{ end }}
 	{{ else if $r.Gt }}
-		if ({{ accessor . }} <= {{ $r.Gt }}) {
+		if ({{ accessor . }} <= {{ lit $r.Gt }}) {
 			{{ err . "value must be greater than " $r.GetGt }}
 		}
 	{{ else if $r.Gte }}
-		if ({{ accessor . }} < {{ $r.Gte }}) {
+		if ({{ accessor . }} < {{ lit $r.Gte }}) {
 			{{ err . "value must be greater than or equal to " $r.GetGte }}
 		}
 	{{ end }}
diff --git a/templates/cc/msg.go b/templates/cc/msg.go
index 33c13d6..e6bc615 100644
--- a/templates/cc/msg.go
+++ b/templates/cc/msg.go
@@ -66,28 +66,28 @@ const msgTpl = `
 	{{ end }}{{ end }}
 
         {{ if has .Rules "Pattern"}}{{ if .Rules.Pattern }}
-               const re2::RE2 {{ lookup .Field "Pattern" }}(re2::StringPiece({{ lit .Rules.GetPattern }},
-                                                            sizeof({{ lit .Rules.GetPattern }}) - 1));
+               const re2::RE2 {{ lookup .Field "Pattern" }}(re2::StringPiece({{ cQuote .Rules.GetPattern }},
+                                                            sizeof({{ cQuote .Rules.GetPattern }}) - 1));
 	{{ end }}{{ end }}
 
 	{{ if has .Rules "Items"}}{{ if .Rules.Items }}
         {{ if has .Rules.Items.GetString_ "Pattern" }} {{ if .Rules.Items.GetString_.Pattern }}
-               const re2::RE2 {{ lookup .Field "Pattern" }}(re2::StringPiece({{ lit .Rules.Items.GetString_.GetPattern }},
-                                              sizeof({{ lit .Rules.Items.GetString_.GetPattern }}) - 1));
+               const re2::RE2 {{ lookup .Field "Pattern" }}(re2::StringPiece({{ cQuote .Rules.Items.GetString_.GetPattern }},
+                                              sizeof({{ cQuote .Rules.Items.GetString_.GetPattern }}) - 1));
 	{{ end }}{{ end }}
         {{ end }}{{ end }}
 
         {{ if has .Rules "Keys"}}{{ if .Rules.Keys }}
 	{{ if has .Rules.Keys.GetString_ "Pattern" }} {{ if .Rules.Keys.GetString_.Pattern }}
-		const re2::RE2 {{ lookup .Field "Pattern" }}(re2::StringPiece({{ lit .Rules.Keys.GetString_.GetPattern }},
-                                              sizeof({{ lit .Rules.Keys.GetString_.GetPattern }}) - 1));
+		const re2::RE2 {{ lookup .Field "Pattern" }}(re2::StringPiece({{ cQuote .Rules.Keys.GetString_.GetPattern }},
+                                              sizeof({{ cQuote .Rules.Keys.GetString_.GetPattern }}) - 1));
 	{{ end }}{{ end }}
 	{{ end }}{{ end }}
 
 	{{ if has .Rules "Values"}}{{ if .Rules.Values }}
 	{{ if has .Rules.Values.GetString_ "Pattern" }} {{ if .Rules.Values.GetString_.Pattern }}
-		const re2::RE2 {{ lookup .Field "Pattern" }}(re2::StringPiece({{ lit .Rules.Values.GetString_.GetPattern }},
-                                              sizeof({{ lit .Rules.Values.GetString_.GetPattern }}) - 1));
+		const re2::RE2 {{ lookup .Field "Pattern" }}(re2::StringPiece({{ cQuote .Rules.Values.GetString_.GetPattern }},
+                                              sizeof({{ cQuote .Rules.Values.GetString_.GetPattern }}) - 1));
 	{{ end }}{{ end }}
 	{{ end }}{{ end }}
 
diff --git a/templates/cc/register.go b/templates/cc/register.go
index fb25f33..1953dff 100644
--- a/templates/cc/register.go
+++ b/templates/cc/register.go
@@ -2,6 +2,7 @@ package cc
 
 import (
 	"fmt"
+	"math"
 	"reflect"
 	"strconv"
 	"strings"
@@ -21,6 +22,7 @@ func RegisterModule(tpl *template.Template, params pgs.Parameters) {
 	tpl.Funcs(map[string]interface{}{
 		"accessor":      fns.accessor,
 		"byteStr":       fns.byteStr,
+		"cQuote":        fns.cQuote,
 		"class":         fns.className,
 		"cmt":           pgs.C80,
 		"ctype":         fns.cType,
@@ -290,7 +292,7 @@ func (fns CCFuncs) errIdxCause(ctx shared.RuleContext, idx, cause string, reason
 		output = append(output, fmt.Sprintf(`msg << "[" << %s << "]";`, ctx.Index))
 	}
 
-	output = append(output, fmt.Sprintf(`msg << ": " << %q;`, fmt.Sprint(reason...)))
+	output = append(output, fmt.Sprintf(`msg << ": " << %s;`, fns.cQuote(fmt.Sprint(reason...))))
 
 	if cause != "nil" && cause != "" {
 		output = append(output, fmt.Sprintf(`msg << " | caused by " << %s;`, cause))
@@ -324,25 +326,58 @@ func (fns CCFuncs) lit(x interface{}) string {
 
 	switch val.Kind() {
 	case reflect.String:
-		return fmt.Sprintf("%q", x)
+		return fns.strLit(val.String())
 	case reflect.Uint8:
 		return fmt.Sprintf("%d", x)
 	case reflect.Slice:
-		els := make([]string, val.Len())
-		switch reflect.TypeOf(x).Elem().Kind() {
+		switch val.Type().Elem().Kind() {
 		case reflect.Uint8:
-			for i, l := 0, val.Len(); i < l; i++ {
-				els[i] = fmt.Sprintf("\\x%x", val.Index(i).Interface())
-			}
-			return fmt.Sprintf("\"%s\"", strings.Join(els, ""))
+			return fns.strLit(string(val.Bytes()))
 		default:
 			panic(fmt.Sprintf("don't know how to format literals of type %v", val.Kind()))
 		}
 	case reflect.Float32:
-		return fmt.Sprintf("%fF", x)
+		return strconv.FormatFloat(val.Float(), 'e', -1, 32) + "F"
+	case reflect.Int64:
+		if val.Int() == math.MinInt64 {
+			// 9223372036854775808 does not fit in a signed integer literal
+			return "(-9223372036854775807 - 1)"
+		}
+		return strconv.FormatInt(val.Int(), 10)
+	case reflect.Uint64:
+		return strconv.FormatUint(val.Uint(), 10) + "U"
 	default:
-		return fmt.Sprint(x)
+		return fmt.Sprint(val.Interface())
+	}
+}
+
+// cQuote returns s as a C++ string literal. Octal escapes are used because,
+// unlike hexadecimal ones, they cannot absorb the characters that follow them.
+func (fns CCFuncs) cQuote(s string) string {
+	var b strings.Builder
+	b.WriteByte('"')
+	for i := 0; i < len(s); i++ {
+		switch c := s[i]; {
+		case c == '"' || c == '\\':
+			b.WriteByte('\\')
+			b.WriteByte(c)
+		case c < ' ' || c > '~' || c == '?':
+			fmt.Fprintf(&b, "\\%03o", c)
+		default:
+			b.WriteByte(c)
+		}
+	}
+	b.WriteByte('"')
+	return b.String()
+}
+
+// strLit returns an expression for s; a string with embedded NULs needs its
+// length spelled out.
+func (fns CCFuncs) strLit(s string) string {
+	if strings.IndexByte(s, 0) < 0 {
+		return fns.cQuote(s)
 	}
+	return fmt.Sprintf("std::string(%s, %d)", fns.cQuote(s), len(s))
 }
 
 func (fns CCFuncs) isBytes(f interface {
@@ -352,12 +387,7 @@ func (fns CCFuncs) isBytes(f interface {
 }
 
 func (fns CCFuncs) byteStr(x []byte) string {
-	elms := make([]string, len(x))
-	for i, b := range x {
-		elms[i] = fmt.Sprintf(`\x%X`, b)
-	}
-
-	return fmt.Sprintf(`"%s"`, strings.Join(elms, ""))
+	return fns.strLit(string(x))
 }
 
 func (fns CCFuncs) oneofTypeName(f pgs.Field) pgsgo.TypeName {
-- 
2.43.0


From 7072a736c42e656da83c8d4167f730b5816f46f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:44 +0000
Subject: [PATCH 20/60] fix: unsigned limits and infinities in generated Java
 validators

---
 templates/java/num.go      |  24 ++++----
 templates/java/register.go | 115 +++++++++++++++++++------------------
 2 files changed, 72 insertions(+), 67 deletions(-)

diff --git a/templates/java/num.go b/templates/java/num.go
index e0a25e9..79b5ee1 100644
--- a/templates/java/num.go
+++ b/templates/java/num.go
@@ -2,31 +2,31 @@ package java
 
 const numConstTpl = `{{ $f := .Field }}{{ $r := .Rules -}}
 {{- if $r.Const }}
-		private final {{ javaTypeFor .}} {{ constantName . "Const" }} = {{ $r.GetConst }}{{ javaTypeLiteralSuffixFor . }};
+		private final {{ javaTypeFor .}} {{ constantName . "Const" }} = {{ numLit . $r.GetConst }};
 {{- end -}}
 {{- if $r.Lt }}
-		private final {{ javaTypeFor .}} {{ constantName . "Lt" }} = {{ $r.GetLt }}{{ javaTypeLiteralSuffixFor . }};
+		private final {{ javaTypeFor .}} {{ constantName . "Lt" }} = {{ numLit . $r.GetLt }};
 {{- end -}}
 {{- if $r.Lte }}
-		private final {{ javaTypeFor .}} {{ constantName . "Lte" }} = {{ $r.GetLte }}{{ javaTypeLiteralSuffixFor . }};
+		private final {{ javaTypeFor .}} {{ constantName . "Lte" }} = {{ numLit . $r.GetLte }};
 {{- end -}}
 {{- if $r.Gt }}
-		private final {{ javaTypeFor .}} {{ constantName . "Gt" }} = {{ $r.GetGt }}{{ javaTypeLiteralSuffixFor . }};
+		private final {{ javaTypeFor .}} {{ constantName . "Gt" }} = {{ numLit . $r.GetGt }};
 {{- end -}}
 {{- if $r.Gte }}
-		private final {{ javaTypeFor .}} {{ constantName . "Gte" }} = {{ $r.GetGte }}{{ javaTypeLiteralSuffixFor . }};
+		private final {{ javaTypeFor .}} {{ constantName . "Gte" }} = {{ numLit . $r.GetGte }};
 {{- end -}}
 {{- if $r.In }}
 		private final {{ javaTypeFor . }}[] {{ constantName . "In" }} = new {{ javaTypeFor . }}[]{
 			{{- range $r.In -}}
-				{{- sprintf "%v" . -}}{{ javaTypeLiteralSuffixFor $ }},
+				{{- numLit $ . -}},
 			{{- end -}}
 		};
 {{- end -}}
 {{- if $r.NotIn }}
 		private final {{ javaTypeFor . }}[] {{ constantName . "NotIn" }} = new {{ javaTypeFor . }}[]{
 			{{- range $r.NotIn -}}
-				{{- sprintf "%v" . -}}{{ javaTypeLiteralSuffixFor $ }},
+				{{- numLit $ . -}},
 			{{- end -}}
 		};
 {{- end -}}`
@@ -39,19 +39,19 @@ const numTpl = `{{ $f := .Field }}{{ $r := .Rules -}}
 			io.envoyproxy.pgv.ConstantValidation.constant("{{ $f.FullyQualifiedName }}", {{ accessor . }}, {{ constantName . "Const" }});
 {{- end -}}
 {{- if and (or $r.Lt $r.Lte) (or $r.Gt $r.Gte)}}
-			io.envoyproxy.pgv.ComparativeValidation.range("{{ $f.FullyQualifiedName }}", {{ accessor . }}, {{ if $r.Lt }}{{ constantName . "Lt" }}{{ else }}null{{ end }}, {{ if $r.Lte }}{{ constantName . "Lte" }}{{ else }}null{{ end }}, {{ if $r.Gt }}{{ constantName . "Gt" }}{{ else }}null{{ end }}, {{ if $r.Gte }}{{ constantName . "Gte" }}{{ else }}null{{ end }}, java.util.Comparator.naturalOrder());
+			io.envoyproxy.pgv.ComparativeValidation.range("{{ $f.FullyQualifiedName }}", {{ accessor . }}, {{ if $r.Lt }}{{ constantName . "Lt" }}{{ else }}null{{ end }}, {{ if $r.Lte }}{{ constantName . "Lte" }}{{ else }}null{{ end }}, {{ if $r.Gt }}{{ constantName . "Gt" }}{{ else }}null{{ end }}, {{ if $r.Gte }}{{ constantName . "Gte" }}{{ else }}null{{ end }}, {{ comparator . }});
 {{- else -}}
 {{- if $r.Lt }}
-			io.envoyproxy.pgv.ComparativeValidation.lessThan("{{ $f.FullyQualifiedName }}", {{ accessor . }}, {{ constantName . "Lt" }}, java.util.Comparator.naturalOrder());
+			io.envoyproxy.pgv.ComparativeValidation.lessThan("{{ $f.FullyQualifiedName }}", {{ accessor . }}, {{ constantName . "Lt" }}, {{ comparator . }});
 {{- end -}}
 {{- if $r.Lte }}
-			io.envoyproxy.pgv.ComparativeValidation.lessThanOrEqual("{{ $f.FullyQualifiedName }}", {{ accessor . }}, {{ constantName . "Lte" }}, java.util.Comparator.naturalOrder());
+			io.envoyproxy.pgv.ComparativeValidation.lessThanOrEqual("{{ $f.FullyQualifiedName }}", {{ accessor . }}, {{ constantName . "Lte" }}, {{ comparator . }});
 {{- end -}}
 {{- if $r.Gt }}
-			io.envoyproxy.pgv.ComparativeValidation.greaterThan("{{ $f.FullyQualifiedName }}", {{ accessor . }}, {{ constantName . "Gt" }}, java.util.Comparator.naturalOrder());
+			io.envoyproxy.pgv.ComparativeValidation.greaterThan("{{ $f.FullyQualifiedName }}", {{ accessor . }}, {{ constantName . "Gt" }}, {{ comparator . }});
 {{- end -}}
 {{- if $r.Gte }}
-			io.envoyproxy.pgv.ComparativeValidation.greaterThanOrEqual("{{ $f.FullyQualifiedName }}", {{ accessor . }}, {{ constantName . "Gte" }}, java.util.Comparator.naturalOrder());
+			io.envoyproxy.pgv.ComparativeValidation.greaterThanOrEqual("{{ $f.FullyQualifiedName }}", {{ accessor . }}, {{ constantName . "Gte" }}, {{ comparator . }});
 {{- end -}}
 {{- end -}}
 {{- if $r.In }}
diff --git a/templates/java/register.go b/templates/java/register.go
index 534785a..ddf45c9 100644
--- a/templates/java/register.go
+++ b/templates/java/register.go
@@ -3,6 +3,7 @@ package java
 import (
 	"bytes"
 	"fmt"
+	"math"
 	"os"
 	"strings"
 	"text/template"
@@ -32,29 +33,30 @@ func Register(tpl *template.Template, params pgs.Parameters) {
 	fns := javaFuncs{pgsgo.InitContext(params)}
 
 	tpl.Funcs(map[string]interface{}{
-		"accessor":                 fns.accessor,
-		"byteArrayLit":             fns.byteArrayLit,
-		"camelCase":                fns.camelCase,
-		"classNameFile":            classNameFile,
-		"classNameMessage":         classNameMessage,
-		"durLit":                   fns.durLit,
-		"fieldName":                fns.fieldName,
-		"javaPackage":              javaPackage,
-		"javaStringEscape":         fns.javaStringEscape,
-		"javaTypeFor":              fns.javaTypeFor,
-		"javaTypeLiteralSuffixFor": fns.javaTypeLiteralSuffixFor,
-		"hasAccessor":              fns.hasAccessor,
-		"oneof":                    fns.oneofTypeName,
-		"sprintf":                  fmt.Sprintf,
-		"simpleName":               fns.Name,
-		"tsLit":                    fns.tsLit,
-		"qualifiedName":            fns.qualifiedName,
-		"isOfFileType":             fns.isOfFileType,
-		"isOfMessageType":          fns.isOfMessageType,
-		"isOfStringType":           fns.isOfStringType,
-		"unwrap":                   fns.unwrap,
-		"renderConstants":          fns.renderConstants(tpl),
-		"constantName":             fns.constantName,
+		"accessor":         fns.accessor,
+		"comparator":       fns.comparator,
+		"numLit":           fns.numLit,
+		"byteArrayLit":     fns.byteArrayLit,
+		"camelCase":        fns.camelCase,
+		"classNameFile":    classNameFile,
+		"classNameMessage": classNameMessage,
+		"durLit":           fns.durLit,
+		"fieldName":        fns.fieldName,
+		"javaPackage":      javaPackage,
+		"javaStringEscape": fns.javaStringEscape,
+		"javaTypeFor":      fns.javaTypeFor,
+		"hasAccessor":      fns.hasAccessor,
+		"oneof":            fns.oneofTypeName,
+		"sprintf":          fmt.Sprintf,
+		"simpleName":       fns.Name,
+		"tsLit":            fns.tsLit,
+		"qualifiedName":    fns.qualifiedName,
+		"isOfFileType":     fns.isOfFileType,
+		"isOfMessageType":  fns.isOfMessageType,
+		"isOfStringType":   fns.isOfStringType,
+		"unwrap":           fns.unwrap,
+		"renderConstants":  fns.renderConstants(tpl),
+		"constantName":     fns.constantName,
 	})
 
 	template.Must(tpl.Parse(fileTpl))
@@ -398,44 +400,47 @@ func (fns javaFuncs) javaTypeForProtoType(t pgs.ProtoType) string {
 	}
 }
 
-func (fns javaFuncs) javaTypeLiteralSuffixFor(ctx shared.RuleContext) string {
-	t := ctx.Field.Type()
-
-	if t.IsMap() {
-		switch ctx.AccessorOverride {
-		case "key":
-			return fns.javaTypeLiteralSuffixForPrototype(t.Key().ProtoType())
-		case "value":
-			return fns.javaTypeLiteralSuffixForPrototype(t.Element().ProtoType())
-		}
+// numLit renders v as a literal of the boxed type of ctx. Java has no unsigned
+// types: unsigned values are held as the signed value with the same bits.
+func (fns javaFuncs) numLit(ctx shared.RuleContext, v interface{}) string {
+	switch n := v.(type) {
+	case float32:
+		return floatLit("Float", "F", float64(n), fmt.Sprint(n))
+	case float64:
+		return floatLit("Double", "D", n, fmt.Sprint(n))
+	case uint32:
+		return fmt.Sprint(int32(n))
+	case int64:
+		return fmt.Sprintf("%dL", n)
+	case uint64:
+		return fmt.Sprintf("%dL", int64(n))
+	default:
+		return fmt.Sprint(n)
 	}
+}
 
-	if t.IsEmbed() {
-		if embed := t.Embed(); embed.IsWellKnown() {
-			switch embed.WellKnownType() {
-			case pgs.Int64ValueWKT, pgs.UInt64ValueWKT:
-				return "L"
-			case pgs.FloatValueWKT:
-				return "F"
-			case pgs.DoubleValueWKT:
-				return "D"
-			}
-		}
+func floatLit(typ, suffix string, n float64, lit string) string {
+	switch {
+	case math.IsNaN(n):
+		return "java.lang." + typ + ".NaN"
+	case math.IsInf(n, 1):
+		return "java.lang." + typ + ".POSITIVE_INFINITY"
+	case math.IsInf(n, -1):
+		return "java.lang." + typ + ".NEGATIVE_INFINITY"
+	default:
+		return lit + suffix
 	}
-
-	return fns.javaTypeLiteralSuffixForPrototype(t.ProtoType())
 }
 
-func (fns javaFuncs) javaTypeLiteralSuffixForPrototype(t pgs.ProtoType) string {
-	switch t {
-	case pgs.Int64T, pgs.UInt64T, pgs.SInt64, pgs.Fixed64T, pgs.SFixed64:
-		return "L"
-	case pgs.FloatT:
-		return "F"
-	case pgs.DoubleT:
-		return "D"
+// comparator is the order of the values of ctx.
+func (fns javaFuncs) comparator(ctx shared.RuleContext) string {
+	switch ctx.Typ {
+	case "uint32", "fixed32":
+		return "java.lang.Integer::compareUnsigned"
+	case "uint64", "fixed64":
+		return "java.lang.Long::compareUnsigned"
 	default:
-		return ""
+		return "java.util.Comparator.naturalOrder()"
 	}
 }
 
-- 
2.43.0


From 7e62471e065a6ae4cddc71dc793e4d04f0e05344 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:48 +0000
Subject: [PATCH 21/60] fix: Java types and accessors for list items and map
 entries

---
 templates/java/register.go | 46 +++++++++++++++++++++++---------------
 1 file changed, 28 insertions(+), 18 deletions(-)

diff --git a/templates/java/register.go b/templates/java/register.go
index ddf45c9..b9e20f3 100644
--- a/templates/java/register.go
+++ b/templates/java/register.go
@@ -329,18 +329,32 @@ func (fns javaFuncs) fieldName(ctx shared.RuleContext) string {
 	return ctx.Field.Name().String()
 }
 
-func (fns javaFuncs) javaTypeFor(ctx shared.RuleContext) string {
+// valueType is the part of pgs.FieldType that fields, list items, and map keys
+// and values share.
+type valueType interface {
+	ProtoType() pgs.ProtoType
+	IsEmbed() bool
+	IsEnum() bool
+	Embed() pgs.Message
+	Enum() pgs.Enum
+}
+
+// typeOf returns the type of the value that the rules of ctx apply to.
+func typeOf(ctx shared.RuleContext) valueType {
 	t := ctx.Field.Type()
 
-	// Map key and value types
-	if t.IsMap() {
-		switch ctx.AccessorOverride {
-		case "key":
-			return fns.javaTypeForProtoType(t.Key().ProtoType())
-		case "value":
-			return fns.javaTypeForProtoType(t.Element().ProtoType())
-		}
+	switch {
+	case t.IsMap() && ctx.OnKey:
+		return t.Key()
+	case t.IsMap(), t.IsRepeated():
+		return t.Element()
+	default:
+		return t
 	}
+}
+
+func (fns javaFuncs) javaTypeFor(ctx shared.RuleContext) string {
+	t := typeOf(ctx)
 
 	if t.IsEmbed() {
 		if embed := t.Embed(); embed.IsWellKnown() {
@@ -359,16 +373,12 @@ func (fns javaFuncs) javaTypeFor(ctx shared.RuleContext) string {
 				return "Double"
 			case pgs.FloatValueWKT:
 				return "Float"
+			case pgs.StringValueWKT:
+				return "String"
 			}
 		}
-	}
 
-	if t.IsRepeated() {
-		if t.ProtoType() == pgs.MessageT {
-			return fns.qualifiedName(t.Element().Embed())
-		} else if t.ProtoType() == pgs.EnumT {
-			return fns.qualifiedName(t.Element().Enum())
-		}
+		return fns.qualifiedName(t.Embed())
 	}
 
 	if t.IsEnum() {
@@ -503,12 +513,12 @@ func (fns javaFuncs) isOfStringType(f pgs.Field) bool {
 }
 
 func (fns javaFuncs) unwrap(ctx shared.RuleContext) (shared.RuleContext, error) {
+	accessor := fns.accessor(ctx)
 	ctx, err := ctx.Unwrap("wrapped")
 	if err != nil {
 		return ctx, err
 	}
-	ctx.AccessorOverride = fmt.Sprintf("%s.get%s()", fns.fieldAccessor(ctx.Field),
-		fns.camelCase(ctx.Field.Type().Embed().Fields()[0].Name()))
+	ctx.AccessorOverride = fmt.Sprintf("%s.get%s()", accessor, fns.camelCase(ctx.WrappedField().Name()))
 	return ctx, nil
 }
 
-- 
2.43.0


From 9a07314c46eba6b02fc079075fc4237298aea69a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:50 +0000
Subject: [PATCH 22/60] fix: escape text in generated Java validators

---
 templates/java/any.go      |  4 ++--
 templates/java/register.go | 27 ++++++++++++++++++++-------
 templates/java/string.go   | 14 +++++++-------
 3 files changed, 29 insertions(+), 16 deletions(-)

diff --git a/templates/java/any.go b/templates/java/any.go
index e7ec579..ec7f6e7 100644
--- a/templates/java/any.go
+++ b/templates/java/any.go
@@ -4,14 +4,14 @@ const anyConstTpl = `{{ $f := .Field }}{{ $r := .Rules }}
 {{- if $r.In }}
 		private final String[] {{ constantName . "In" }} = new String[]{
 			{{- range $r.In }}
-			"{{ . }}",
+			{{ javaStringEscape . }},
 			{{- end }}
 		};
 {{- end -}}
 {{- if $r.NotIn }}
 		private final String[] {{ constantName . "NotIn" }} = new String[]{
 			{{- range $r.NotIn }}
-			"{{ . }}",
+			{{ javaStringEscape . }},
 			{{- end }}
 		};
 {{- end -}}`
diff --git a/templates/java/register.go b/templates/java/register.go
index b9e20f3..08f1fac 100644
--- a/templates/java/register.go
+++ b/templates/java/register.go
@@ -8,6 +8,7 @@ import (
 	"strings"
 	"text/template"
 	"unicode"
+	"unicode/utf16"
 
 	"github.com/envoyproxy/protoc-gen-validate/templates/shared"
 	"github.com/iancoleman/strcase"
@@ -455,13 +456,25 @@ func (fns javaFuncs) comparator(ctx shared.RuleContext) string {
 }
 
 func (fns javaFuncs) javaStringEscape(s string) string {
-	s = fmt.Sprintf("%q", s)
-	s = s[1 : len(s)-1]
-	s = strings.Replace(s, `\u00`, `\x`, -1)
-	s = strings.Replace(s, `\x`, `\\x`, -1)
-	// s = strings.Replace(s, `\`, `\\`, -1)
-	s = strings.Replace(s, `"`, `\"`, -1)
-	return `"` + s + `"`
+	var sb strings.Builder
+	sb.WriteByte('"')
+	for _, r := range s {
+		switch {
+		case r == '"' || r == '\\':
+			sb.WriteByte('\\')
+			sb.WriteRune(r)
+		case r < 0x20 || r == 0x7f:
+			fmt.Fprintf(&sb, "\\%03o", r)
+		case r < 0x7f:
+			sb.WriteRune(r)
+		default:
+			for _, u := range utf16.Encode([]rune{r}) {
+				fmt.Fprintf(&sb, "\\u%04x", u)
+			}
+		}
+	}
+	sb.WriteByte('"')
+	return sb.String()
 }
 
 func (fns javaFuncs) camelCase(name pgs.Name) string {
diff --git a/templates/java/string.go b/templates/java/string.go
index 2a11215..9dd6699 100644
--- a/templates/java/string.go
+++ b/templates/java/string.go
@@ -4,14 +4,14 @@ const stringConstTpl = `{{ $f := .Field }}{{ $r := .Rules -}}
 {{- if $r.In }}
 		private final {{ javaTypeFor . }}[] {{ constantName . "In" }} = new {{ javaTypeFor . }}[]{
 			{{- range $r.In -}}
-				"{{- sprintf "%v" . -}}",
+				{{- javaStringEscape . -}},
 			{{- end -}}
 		};
 {{- end -}}
 {{- if $r.NotIn }}
 		private final {{ javaTypeFor . }}[] {{ constantName . "NotIn" }} = new {{ javaTypeFor . }}[]{
 			{{- range $r.NotIn -}}
-				"{{- sprintf "%v" . -}}",
+				{{- javaStringEscape . -}},
 			{{- end -}}
 		};
 {{- end -}}
@@ -24,7 +24,7 @@ const stringTpl = `{{ $f := .Field }}{{ $r := .Rules -}}
 			if ( !{{ accessor . }}.isEmpty() ) {
 {{- end -}}
 {{- if $r.Const }}
-			io.envoyproxy.pgv.ConstantValidation.constant("{{ $f.FullyQualifiedName }}", {{ accessor . }}, "{{ $r.GetConst }}");
+			io.envoyproxy.pgv.ConstantValidation.constant("{{ $f.FullyQualifiedName }}", {{ accessor . }}, {{ javaStringEscape $r.GetConst }});
 {{- end -}}
 {{- if $r.In }}
 			io.envoyproxy.pgv.CollectiveValidation.in("{{ $f.FullyQualifiedName }}", {{ accessor . }}, {{ constantName . "In" }});
@@ -54,16 +54,16 @@ const stringTpl = `{{ $f := .Field }}{{ $r := .Rules -}}
 			io.envoyproxy.pgv.StringValidation.pattern("{{ $f.FullyQualifiedName }}", {{ accessor . }}, {{ constantName . "Pattern" }});
 {{- end -}}
 {{- if $r.Prefix }}
-			io.envoyproxy.pgv.StringValidation.prefix("{{ $f.FullyQualifiedName }}", {{ accessor . }}, "{{ $r.GetPrefix }}");
+			io.envoyproxy.pgv.StringValidation.prefix("{{ $f.FullyQualifiedName }}", {{ accessor . }}, {{ javaStringEscape $r.GetPrefix }});
 {{- end -}}
 {{- if $r.Contains }}
-			io.envoyproxy.pgv.StringValidation.contains("{{ $f.FullyQualifiedName }}", {{ accessor . }}, "{{ $r.GetContains }}");
+			io.envoyproxy.pgv.StringValidation.contains("{{ $f.FullyQualifiedName }}", {{ accessor . }}, {{ javaStringEscape $r.GetContains }});
 {{- end -}}
 {{- if $r.NotContains }}
-			io.envoyproxy.pgv.StringValidation.notContains("{{ $f.FullyQualifiedName }}", {{ accessor . }}, "{{ $r.GetNotContains }}");
+			io.envoyproxy.pgv.StringValidation.notContains("{{ $f.FullyQualifiedName }}", {{ accessor . }}, {{ javaStringEscape $r.GetNotContains }});
 {{- end -}}
 {{- if $r.Suffix }}
-			io.envoyproxy.pgv.StringValidation.suffix("{{ $f.FullyQualifiedName }}", {{ accessor . }}, "{{ $r.GetSuffix }}");
+			io.envoyproxy.pgv.StringValidation.suffix("{{ $f.FullyQualifiedName }}", {{ accessor . }}, {{ javaStringEscape $r.GetSuffix }});
 {{- end -}}
 {{- if $r.GetEmail }}
 			io.envoyproxy.pgv.StringValidation.email("{{ $f.FullyQualifiedName }}", {{ accessor . }});
-- 
2.43.0


From 77e2903825a9edd67ba7d595d50e4eb072541097 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:51 +0000
Subject: [PATCH 23/60] fix: name Java validators after the classes protoc
 generates

---
 templates/java/file.go     |  2 +-
 templates/java/register.go | 11 ++---------
 2 files changed, 3 insertions(+), 10 deletions(-)

diff --git a/templates/java/file.go b/templates/java/file.go
index 567831c..18f0e4b 100644
--- a/templates/java/file.go
+++ b/templates/java/file.go
@@ -28,7 +28,7 @@ public class {{ classNameFile . }}Validator {
 @SuppressWarnings("all")
 public class {{ classNameMessage .}}Validator implements io.envoyproxy.pgv.ValidatorImpl<{{ qualifiedName . }}>{
 	public static io.envoyproxy.pgv.ValidatorImpl validatorFor(Class clazz) {
-		if (clazz.equals({{ qualifiedName . }}.class)) return new {{ simpleName .}}Validator();
+		if (clazz.equals({{ qualifiedName . }}.class)) return new {{ classNameMessage .}}Validator();
 		{{ range .AllMessages }}
 		{{ if not (ignored .) -}}
 		if (clazz.equals({{ qualifiedName . }}.class)) return new {{ simpleName .}}Validator();
diff --git a/templates/java/register.go b/templates/java/register.go
index 08f1fac..dfcf2b1 100644
--- a/templates/java/register.go
+++ b/templates/java/register.go
@@ -164,15 +164,8 @@ func classNameFile(f pgs.File) string {
 }
 
 func classNameMessage(m pgs.Message) string {
-	className := m.Name().String()
-	// This is really silly, but when the multiple files option is true, protoc puts underscores in file names.
-	// When multiple files is false, underscores are stripped. Short of rewriting all the name sanitization
-	// logic for java, using "UnderscoreUnderscoreUnderscore" is an escape sequence seems to work with an extremely
-	// small likelihood of name conflict.
-	className = strings.Replace(className, "_", "UnderscoreUnderscoreUnderscore", -1)
-	className = sanitizeClassName(className)
-	className = strings.Replace(className, "UnderscoreUnderscoreUnderscore", "_", -1)
-	return className
+	// With multiple files, protoc names classes exactly like their messages.
+	return m.Name().String()
 }
 
 func sanitizeClassName(className string) string {
-- 
2.43.0


From 3af4804b71751a046b30068fe72311b2c6e728b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:08 +0000
Subject: [PATCH 24/60] fix: honour a maximum of zero items or pairs in Java

---
 templates/java/map.go      | 4 ++--
 templates/java/repeated.go | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/templates/java/map.go b/templates/java/map.go
index 632d7eb..4be2575 100644
--- a/templates/java/map.go
+++ b/templates/java/map.go
@@ -11,10 +11,10 @@ const mapTpl = `{{ $f := .Field }}{{ $r := .Rules -}}
 {{- if $r.GetIgnoreEmpty }}
 			if ( !{{ accessor . }}.isEmpty() ) {
 {{- end -}}
-{{- if $r.GetMinPairs }}
+{{- if $r.MinPairs }}
 			io.envoyproxy.pgv.MapValidation.min("{{ $f.FullyQualifiedName }}", {{ accessor . }}, {{ $r.GetMinPairs }});
 {{- end -}}
-{{- if $r.GetMaxPairs }}
+{{- if $r.MaxPairs }}
 			io.envoyproxy.pgv.MapValidation.max("{{ $f.FullyQualifiedName }}", {{ accessor . }}, {{ $r.GetMaxPairs }});
 {{- end -}}
 {{- if $r.GetNoSparse }}
diff --git a/templates/java/repeated.go b/templates/java/repeated.go
index 776b407..d190868 100644
--- a/templates/java/repeated.go
+++ b/templates/java/repeated.go
@@ -6,10 +6,10 @@ const repeatedTpl = `{{ $f := .Field }}{{ $r := .Rules -}}
 {{- if $r.GetIgnoreEmpty }}
 			if ( !{{ accessor . }}.isEmpty() ) {
 {{- end -}}
-{{- if $r.GetMinItems }}
+{{- if $r.MinItems }}
 			io.envoyproxy.pgv.RepeatedValidation.minItems("{{ $f.FullyQualifiedName }}", {{ accessor . }}, {{ $r.GetMinItems }});
 {{- end -}}
-{{- if $r.GetMaxItems }}
+{{- if $r.MaxItems }}
 			io.envoyproxy.pgv.RepeatedValidation.maxItems("{{ $f.FullyQualifiedName }}", {{ accessor . }}, {{ $r.GetMaxItems }});
 {{- end -}}
 {{- if $r.GetUnique }}
-- 
2.43.0


From bc93910455c361b0e47690b4f5da153adc0cf753 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:09 +0000
Subject: [PATCH 25/60] fix: lt_now and gt_now set to false in Java

---
 templates/java/timestamp.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/templates/java/timestamp.go b/templates/java/timestamp.go
index 8ff860f..70f7775 100644
--- a/templates/java/timestamp.go
+++ b/templates/java/timestamp.go
@@ -42,10 +42,10 @@ const timestampTpl = `{{ $f := .Field }}{{ $r := .Rules -}}
 			if ({{ hasAccessor . }}) io.envoyproxy.pgv.ComparativeValidation.greaterThanOrEqual("{{ $f.FullyQualifiedName }}", {{ accessor . }}, {{ constantName . "Gte" }}, com.google.protobuf.util.Timestamps.comparator());
 {{- end -}}
 {{- end -}}
-{{- if $r.LtNow }}
+{{- if $r.GetLtNow }}
 			if ({{ hasAccessor . }}) io.envoyproxy.pgv.ComparativeValidation.lessThan("{{ $f.FullyQualifiedName }}", {{ accessor . }}, io.envoyproxy.pgv.TimestampValidation.currentTimestamp(), com.google.protobuf.util.Timestamps.comparator());
 {{- end -}}
-{{- if $r.GtNow }}
+{{- if $r.GetGtNow }}
 			if ({{ hasAccessor . }}) io.envoyproxy.pgv.ComparativeValidation.greaterThan("{{ $f.FullyQualifiedName }}", {{ accessor . }}, io.envoyproxy.pgv.TimestampValidation.currentTimestamp(), com.google.protobuf.util.Timestamps.comparator());
 {{- end -}}
 {{- if $r.Within }}
-- 
2.43.0


From faa80e89b2c9550b0b3f9e759a0779fc8ab0dcbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:09 +0000
Subject: [PATCH 26/60] fix: require messages that are skipped in Java

---
 templates/java/message.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/templates/java/message.go b/templates/java/message.go
index a9b7a62..b176101 100644
--- a/templates/java/message.go
+++ b/templates/java/message.go
@@ -1,10 +1,10 @@
 package java
 
 const messageTpl = `{{ $f := .Field }}{{ $r := .Rules }}
+	{{- template "required" . }}
 	{{- if .MessageRules.GetSkip }}
 			// skipping validation for {{ $f.Name }}
 	{{- else -}}
-		{{- template "required" . }}
 		{{- if (isOfMessageType $f) }}
 			// Validate {{ $f.Name }}
 			if ({{ hasAccessor . }}) index.validatorFor({{ accessor . }}).assertValid({{ accessor . }});
-- 
2.43.0


From 24f5ef11cd00aede28a458a6ab91fa76d0c39fd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:09 +0000
Subject: [PATCH 27/60] fix: treat ignored messages as having no validator in
 Java

---
 .../main/java/io/envoyproxy/pgv/ReflectiveValidatorIndex.java | 4 ++++
 templates/java/file.go                                        | 2 ++
 templates/java/msg.go                                         | 4 +++-
 3 files changed, 9 insertions(+), 1 deletion(-)

diff --git a/java/pgv-java-stub/src/main/java/io/envoyproxy/pgv/ReflectiveValidatorIndex.java b/java/pgv-java-stub/src/main/java/io/envoyproxy/pgv/ReflectiveValidatorIndex.java
index f9f7778..418f3d0 100644
--- a/java/pgv-java-stub/src/main/java/io/envoyproxy/pgv/ReflectiveValidatorIndex.java
+++ b/java/pgv-java-stub/src/main/java/io/envoyproxy/pgv/ReflectiveValidatorIndex.java
@@ -48,6 +48,10 @@ public final class ReflectiveValidatorIndex implements ValidatorIndex {
         String validatorClassName = enclosingClass.getName() + "Validator";
         Class validatorClass = clazz.getClassLoader().loadClass(validatorClassName);
         ValidatorImpl impl = (ValidatorImpl) validatorClass.getDeclaredMethod("validatorFor", Class.class).invoke(null, clazz);
+        if (impl == null) {
+            // no validator was generated for an ignored message
+            return fallbackIndex.validatorFor(clazz);
+        }
 
         return proto -> impl.assertValid(proto, ReflectiveValidatorIndex.this);
     }
diff --git a/templates/java/file.go b/templates/java/file.go
index 18f0e4b..4c29048 100644
--- a/templates/java/file.go
+++ b/templates/java/file.go
@@ -28,7 +28,9 @@ public class {{ classNameFile . }}Validator {
 @SuppressWarnings("all")
 public class {{ classNameMessage .}}Validator implements io.envoyproxy.pgv.ValidatorImpl<{{ qualifiedName . }}>{
 	public static io.envoyproxy.pgv.ValidatorImpl validatorFor(Class clazz) {
+		{{ if not (ignored .) -}}
 		if (clazz.equals({{ qualifiedName . }}.class)) return new {{ classNameMessage .}}Validator();
+		{{- end }}
 		{{ range .AllMessages }}
 		{{ if not (ignored .) -}}
 		if (clazz.equals({{ qualifiedName . }}.class)) return new {{ simpleName .}}Validator();
diff --git a/templates/java/msg.go b/templates/java/msg.go
index 26ba40a..31cd8ba 100644
--- a/templates/java/msg.go
+++ b/templates/java/msg.go
@@ -12,15 +12,17 @@ const msgTpl = `
 `
 
 const msgInnerTpl = `
+	{{- if not (ignored .) }}
 	{{- range .NonOneOfFields }}
 		{{ renderConstants (context .) }}
 	{{ end }}
 	{{ range .OneOfs }}
 		{{ template "oneOfConst" . }}
 	{{ end }}
+	{{- end }}
 
 	public void assertValid({{ qualifiedName . }} proto, io.envoyproxy.pgv.ValidatorIndex index) throws io.envoyproxy.pgv.ValidationException {
-	{{ if disabled . }}
+	{{ if or (disabled .) (ignored .) }}
 		// Validate is disabled for {{ simpleName . }}
 		return;
 	{{- else -}}
-- 
2.43.0


From 4b6aa88b4d4fcf182a7c7667846f98b4ee9884e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:09 +0000
Subject: [PATCH 28/60] fix: apply the fallback validator in
 ExplicitValidatorIndex

---
 .../src/main/java/io/envoyproxy/pgv/ExplicitValidatorIndex.java | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/java/pgv-java-stub/src/main/java/io/envoyproxy/pgv/ExplicitValidatorIndex.java b/java/pgv-java-stub/src/main/java/io/envoyproxy/pgv/ExplicitValidatorIndex.java
index 828d13e..f1051d3 100644
--- a/java/pgv-java-stub/src/main/java/io/envoyproxy/pgv/ExplicitValidatorIndex.java
+++ b/java/pgv-java-stub/src/main/java/io/envoyproxy/pgv/ExplicitValidatorIndex.java
@@ -33,7 +33,7 @@ public final class ExplicitValidatorIndex implements ValidatorIndex {
     @SuppressWarnings("unchecked")
     public <T> Validator<T> validatorFor(Class clazz) {
         return VALIDATOR_INDEX.computeIfAbsent(clazz, c ->
-                proto -> VALIDATOR_IMPL_INDEX.getOrDefault(c, (p, i) -> fallbackIndex.validatorFor(c))
+                proto -> VALIDATOR_IMPL_INDEX.getOrDefault(c, (p, i) -> fallbackIndex.validatorFor(c).assertValid(p))
                         .assertValid(proto, ExplicitValidatorIndex.this));
     }
 }
-- 
2.43.0


From 6f49d6d5906f679e8abfa9aac5d2ee6d5ba3a2da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:09 +0000
Subject: [PATCH 29/60] fix: long seconds in Java durations and timestamps

---
 templates/java/register.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/templates/java/register.go b/templates/java/register.go
index dfcf2b1..d22ccf0 100644
--- a/templates/java/register.go
+++ b/templates/java/register.go
@@ -487,13 +487,13 @@ func (fns javaFuncs) byteArrayLit(bytes []uint8) string {
 
 func (fns javaFuncs) durLit(dur *durationpb.Duration) string {
 	return fmt.Sprintf(
-		"io.envoyproxy.pgv.TimestampValidation.toDuration(%d,%d)",
+		"io.envoyproxy.pgv.TimestampValidation.toDuration(%dL,%d)",
 		dur.GetSeconds(), dur.GetNanos())
 }
 
 func (fns javaFuncs) tsLit(ts *timestamppb.Timestamp) string {
 	return fmt.Sprintf(
-		"io.envoyproxy.pgv.TimestampValidation.toTimestamp(%d,%d)",
+		"io.envoyproxy.pgv.TimestampValidation.toTimestamp(%dL,%d)",
 		ts.GetSeconds(), ts.GetNanos())
 }
 
-- 
2.43.0


From 50b2bdcd83211efdad0b016e4fb46f3a745f6834 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:42 +0000
Subject: [PATCH 30/60] fix: within on timestamps centuries away in Java

---
 .../main/java/io/envoyproxy/pgv/TimestampValidation.java  | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/java/pgv-java-stub/src/main/java/io/envoyproxy/pgv/TimestampValidation.java b/java/pgv-java-stub/src/main/java/io/envoyproxy/pgv/TimestampValidation.java
index ff51948..0c61f94 100644
--- a/java/pgv-java-stub/src/main/java/io/envoyproxy/pgv/TimestampValidation.java
+++ b/java/pgv-java-stub/src/main/java/io/envoyproxy/pgv/TimestampValidation.java
@@ -13,11 +13,17 @@ public final class TimestampValidation {
 
     public static void within(String field, Timestamp value, Duration duration, Timestamp when) throws ValidationException {
         Duration between = Timestamps.between(when, value);
-        if (Long.compare(Math.abs(Durations.toNanos(between)), Math.abs(Durations.toNanos(duration))) == 1) {
+        if (Durations.comparator().compare(abs(between), abs(duration)) > 0) {
             throw new ValidationException(field, value, "value must be within " + Durations.toString(duration) + " of " + Timestamps.toString(when));
         }
     }
 
+    private static Duration abs(Duration duration) {
+        return duration.getSeconds() < 0 || duration.getNanos() < 0
+                ? toDuration(-duration.getSeconds(), -duration.getNanos())
+                : duration;
+    }
+
     /**
      * Converts {@code seconds} and {@code nanos} to a protobuf {@code Timestamp}.
      */
-- 
2.43.0


From cd2620d01342df8febfdbe322fd42b50ac797416 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:20 +0000
Subject: [PATCH 31/60] fix: honour ignore_empty: false on numbers in Python

---
 python/protoc_gen_validate/validator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/protoc_gen_validate/validator.py b/python/protoc_gen_validate/validator.py
index 9b3bef1..ad3de54 100644
--- a/python/protoc_gen_validate/validator.py
+++ b/python/protoc_gen_validate/validator.py
@@ -326,7 +326,7 @@ def bool_template(option_value, name):
 def num_template(option_value, name, num):
     num_tmpl = """
     {% set i = 0 %}
-    {%- if num.HasField('ignore_empty') -%}
+    {%- if num['ignore_empty'] -%}
     if {{ name }}:
     {% set i = 4 %}
     {%- endif -%}
-- 
2.43.0


From 0e04f6182fcb96504c20a7db611a96967c86ed8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:20 +0000
Subject: [PATCH 32/60] fix: apply rules whose value is zero in Python

---
 python/protoc_gen_validate/validator.py | 28 ++++++++++++-------------
 1 file changed, 14 insertions(+), 14 deletions(-)

diff --git a/python/protoc_gen_validate/validator.py b/python/protoc_gen_validate/validator.py
index ad3de54..7525b4c 100644
--- a/python/protoc_gen_validate/validator.py
+++ b/python/protoc_gen_validate/validator.py
@@ -139,7 +139,7 @@ def const_template(option_value, name):
     {%- elif str(o.bool) and o.bool['const'] != "" -%}
     if {{ name }} != {{ o.bool['const'] }}:
         raise ValidationFailed(\"{{ name }} not equal to {{ o.bool['const'] }}\")
-    {%- elif str(o.enum) and o.enum['const'] -%}
+    {%- elif str(o.enum) and o.enum.HasField('const') -%}
     if {{ name }} != {{ o.enum['const'] }}:
         raise ValidationFailed(\"{{ name }} not equal to {{ o.enum['const'] }}\")
     {%- elif str(o.bytes) and o.bytes.HasField('const') -%}
@@ -188,27 +188,27 @@ def string_template(option_value, name):
     {% filter indent(i,True) %}
     {{ const_template(o, name) -}}
     {{ in_template(o.string, name) -}}
-    {%- if s['len'] %}
+    {%- if s.HasField('len') %}
     if len({{ name }}) != {{ s['len'] }}:
         raise ValidationFailed(\"{{ name }} length does not equal {{ s['len'] }}\")
     {%- endif -%}
-    {%- if s['min_len'] %}
+    {%- if s.HasField('min_len') %}
     if len({{ name }}) < {{ s['min_len'] }}:
         raise ValidationFailed(\"{{ name }} length is less than {{ s['min_len'] }}\")
     {%- endif -%}
-    {%- if s['max_len'] %}
+    {%- if s.HasField('max_len') %}
     if len({{ name }}) > {{ s['max_len'] }}:
         raise ValidationFailed(\"{{ name }} length is more than {{ s['max_len'] }}\")
     {%- endif -%}
-    {%- if s['len_bytes'] %}
+    {%- if s.HasField('len_bytes') %}
     if byte_len({{ name }}) != {{ s['len_bytes'] }}:
         raise ValidationFailed(\"{{ name }} length does not equal {{ s['len_bytes'] }}\")
     {%- endif -%}
-    {%- if s['min_bytes'] %}
+    {%- if s.HasField('min_bytes') %}
     if byte_len({{ name }}) < {{ s['min_bytes'] }}:
         raise ValidationFailed(\"{{ name }} length is less than {{ s['min_bytes'] }}\")
     {%- endif -%}
-    {%- if s['max_bytes'] %}
+    {%- if s.HasField('max_bytes') %}
     if byte_len({{ name }}) > {{ s['max_bytes'] }}:
         raise ValidationFailed(\"{{ name }} length is greater than {{ s['max_bytes'] }}\")
     {%- endif -%}
@@ -708,15 +708,15 @@ def bytes_template(option_value, name):
     {% filter indent(i,True) %}
     {{ const_template(o, name) -}}
     {{ in_template(o.bytes, name) -}}
-    {%- if b['len'] %}
+    {%- if b.HasField('len') %}
     if len({{ name }}) != {{ b['len'] }}:
         raise ValidationFailed(\"{{ name }} length does not equal {{ b['len'] }}\")
     {%- endif -%}
-    {%- if b['min_len'] %}
+    {%- if b.HasField('min_len') %}
     if len({{ name }}) < {{ b['min_len'] }}:
         raise ValidationFailed(\"{{ name }} length is less than {{ b['min_len'] }}\")
     {%- endif -%}
-    {%- if b['max_len'] %}
+    {%- if b.HasField('max_len') %}
     if len({{ name }}) > {{ b['max_len'] }}:
         raise ValidationFailed(\"{{ name }} length is more than {{ b['max_len'] }}\")
     {%- endif -%}
@@ -841,11 +841,11 @@ def repeated_template(option_value, name, field):
     {% set i = 4 %}
     {%- endif -%}
     {% filter indent(i,True) %}
-    {%- if o and o.repeated['min_items'] %}
+    {%- if o and o.repeated.HasField('min_items') %}
     if len({{ name }}) < {{ o.repeated['min_items'] }}:
         raise ValidationFailed(\"{{ name }} needs to contain at least {{ o.repeated['min_items'] }} items\")
     {%- endif %}
-    {%- if o and o.repeated['max_items'] %}
+    {%- if o and o.repeated.HasField('max_items') %}
     if len({{ name }}) > {{ o.repeated['max_items'] }}:
         raise ValidationFailed(\"{{ name }} needs to contain at most {{ o.repeated['max_items'] }} items\")
     {%- endif %}
@@ -890,11 +890,11 @@ def map_template(option_value, name, field):
     {% set i = 4 %}
     {%- endif -%}
     {% filter indent(i,True) %}
-    {%- if o and o.map['min_pairs'] %}
+    {%- if o and o.map.HasField('min_pairs') %}
     if len({{ name }}) < {{ o.map['min_pairs'] }}:
         raise ValidationFailed(\"{{ name }} needs to contain at least {{ o.map['min_pairs'] }} items\")
     {%- endif %}
-    {%- if o and o.map['max_pairs'] %}
+    {%- if o and o.map.HasField('max_pairs') %}
     if len({{ name }}) > {{ o.map['max_pairs'] }}:
         raise ValidationFailed(\"{{ name }} can contain at most {{ o.map['max_pairs'] }} items\")
     {%- endif %}
-- 
2.43.0


From 2f45f58ce54154faa4d105e7cf9b0547e2d39e8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:20 +0000
Subject: [PATCH 33/60] fix: honour lt_now: false and gt_now: false in Python

---
 python/protoc_gen_validate/validator.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/python/protoc_gen_validate/validator.py b/python/protoc_gen_validate/validator.py
index 7525b4c..5992f77 100644
--- a/python/protoc_gen_validate/validator.py
+++ b/python/protoc_gen_validate/validator.py
@@ -580,7 +580,7 @@ def timestamp_template(option_value, name, repeated=False):
         {%- elif ts.HasField('gte') %}
         if ts < gte:
             raise ValidationFailed(\"{{ name }} is not greater than or equal to {{ dur_lit(ts['gte']) }}\")
-        {%- elif ts.HasField('lt_now') %}
+        {%- elif ts['lt_now'] %}
         now = time.time()
             {%- if ts.HasField('within') %}
         within = {{ dur_lit(ts['within']) }}
@@ -590,7 +590,7 @@ def timestamp_template(option_value, name, repeated=False):
         if ts >= now:
             raise ValidationFailed(\"{{ name }} is not lesser than now\")
             {%- endif -%}
-        {%- elif ts.HasField('gt_now') %}
+        {%- elif ts['gt_now'] %}
         now = time.time()
             {%- if ts.HasField('within') %}
         within = {{ dur_lit(ts['within']) }}
-- 
2.43.0


From 0b50728eb7241c81e8af9cac5336fb94f2e70627 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:20 +0000
Subject: [PATCH 34/60] fix: reject a trailing newline in Python HTTP header
 rules

---
 python/protoc_gen_validate/validator.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/python/protoc_gen_validate/validator.py b/python/protoc_gen_validate/validator.py
index 5992f77..5575435 100644
--- a/python/protoc_gen_validate/validator.py
+++ b/python/protoc_gen_validate/validator.py
@@ -16,9 +16,9 @@ printer = ""
 # Well known regex mapping.
 regex_map = {
     "UNKNOWN": "",
-    "HTTP_HEADER_NAME": r'^:?[0-9a-zA-Z!#$%&\'*+\-.^_|~\x60]+$',
-    "HTTP_HEADER_VALUE": r'^[^\u0000-\u0008\u000A-\u001F\u007F]*$',
-    "HEADER_STRING": r'^[^\u0000\u000A\u000D]*$'
+    "HTTP_HEADER_NAME": r'^:?[0-9a-zA-Z!#$%&\'*+\-.^_|~\x60]+\Z',
+    "HTTP_HEADER_VALUE": r'^[^\u0000-\u0008\u000A-\u001F\u007F]*\Z',
+    "HEADER_STRING": r'^[^\u0000\u000A\u000D]*\Z'
 }
 
 
-- 
2.43.0


From 4d629a5b050bd81abe420dd93780a37a6fbc1ba5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:20 +0000
Subject: [PATCH 35/60] fix: escape the text of rules in generated Python code

---
 python/protoc_gen_validate/validator.py | 54 +++++++++++++------------
 1 file changed, 28 insertions(+), 26 deletions(-)

diff --git a/python/protoc_gen_validate/validator.py b/python/protoc_gen_validate/validator.py
index 5575435..cfa8829 100644
--- a/python/protoc_gen_validate/validator.py
+++ b/python/protoc_gen_validate/validator.py
@@ -134,8 +134,8 @@ def _has_field(message_pb, property_name):
 
 def const_template(option_value, name):
     const_tmpl = """{%- if str(o.string) and o.string.HasField('const') -%}
-    if {{ name }} != \"{{ o.string['const'] }}\":
-        raise ValidationFailed(\"{{ name }} not equal to {{ o.string['const'] }}\")
+    if {{ name }} != {{ repr(o.string['const']) }}:
+        raise ValidationFailed({{ repr(name + " not equal to " + o.string['const']) }})
     {%- elif str(o.bool) and o.bool['const'] != "" -%}
     if {{ name }} != {{ o.bool['const'] }}:
         raise ValidationFailed(\"{{ name }} not equal to {{ o.bool['const'] }}\")
@@ -145,28 +145,28 @@ def const_template(option_value, name):
     {%- elif str(o.bytes) and o.bytes.HasField('const') -%}
         {% if sys.version_info[0] >= 3 %}
     if {{ name }} != {{ o.bytes['const'] }}:
-        raise ValidationFailed(\"{{ name }} not equal to {{ o.bytes['const'] }}\")
+        raise ValidationFailed({{ repr(name + " not equal to " + str(o.bytes['const'])) }})
         {% else %}
     if {{ name }} != b\"{{ o.bytes['const'].encode('string_escape') }}\":
         raise ValidationFailed(\"{{ name }} not equal to {{ o.bytes['const'].encode('string_escape') }}\")
         {% endif %}
     {%- endif -%}
     """
-    return Template(const_tmpl).render(sys=sys, o=option_value, name=name, str=str)
+    return Template(const_tmpl).render(sys=sys, o=option_value, name=name, str=str, repr=repr)
 
 
 def in_template(value, name):
     in_tmpl = """
     {%- if value['in'] %}
     if {{ name }} not in {{ value['in'] }}:
-        raise ValidationFailed(\"{{ name }} not in {{ value['in'] }}\")
+        raise ValidationFailed({{ repr(name + " not in " + str(value['in'])) }})
     {%- endif -%}
     {%- if value['not_in'] %}
     if {{ name }} in {{ value['not_in'] }}:
-        raise ValidationFailed(\"{{ name }} in {{ value['not_in'] }}\")
+        raise ValidationFailed({{ repr(name + " in " + str(value['not_in'])) }})
     {%- endif -%}
     """
-    return Template(in_tmpl).render(value=value, name=name)
+    return Template(in_tmpl).render(value=value, name=name, str=str, repr=repr)
 
 
 def string_template(option_value, name):
@@ -213,24 +213,24 @@ def string_template(option_value, name):
         raise ValidationFailed(\"{{ name }} length is greater than {{ s['max_bytes'] }}\")
     {%- endif -%}
     {%- if s['pattern'] %}
-    if re.search(r\'{{ s['pattern'] }}\', {{ name }}) is None:
-        raise ValidationFailed(\"{{ name }} pattern does not match {{ s['pattern'] }}\")
+    if re.search({{ repr(s['pattern']) }}, {{ name }}) is None:
+        raise ValidationFailed({{ repr(name + " pattern does not match " + s['pattern']) }})
     {%- endif -%}
     {%- if s['prefix'] %}
-    if not {{ name }}.startswith(\"{{ s['prefix'] }}\"):
-        raise ValidationFailed(\"{{ name }} does not start with prefix {{ s['prefix'] }}\")
+    if not {{ name }}.startswith({{ repr(s['prefix']) }}):
+        raise ValidationFailed({{ repr(name + " does not start with prefix " + s['prefix']) }})
     {%- endif -%}
     {%- if s['suffix'] %}
-    if not {{ name }}.endswith(\"{{ s['suffix'] }}\"):
-        raise ValidationFailed(\"{{ name }} does not end with suffix {{ s['suffix'] }}\")
+    if not {{ name }}.endswith({{ repr(s['suffix']) }}):
+        raise ValidationFailed({{ repr(name + " does not end with suffix " + s['suffix']) }})
     {%- endif -%}
     {%- if s['contains'] %}
-    if not \"{{ s['contains'] }}\" in {{ name }}:
-        raise ValidationFailed(\"{{ name }} does not contain {{ s['contains'] }}\")
+    if not {{ repr(s['contains']) }} in {{ name }}:
+        raise ValidationFailed({{ repr(name + " does not contain " + s['contains']) }})
     {%- endif -%}
     {%- if s['not_contains'] %}
-    if \"{{ s['not_contains'] }}\" in {{ name }}:
-        raise ValidationFailed(\"{{ name }} contains {{ s['not_contains'] }}\")
+    if {{ repr(s['not_contains']) }} in {{ name }}:
+        raise ValidationFailed({{ repr(name + " contains " + s['not_contains']) }})
     {%- endif -%}
     {%- if s['email'] %}
     if not _validateEmail({{ name }}):
@@ -283,7 +283,8 @@ def string_template(option_value, name):
     {%- endif -%}
     {% endfilter %}
     """
-    return Template(str_templ).render(o=option_value, name=name, const_template=const_template, in_template=in_template)
+    return Template(str_templ).render(o=option_value, name=name, const_template=const_template,
+                                      in_template=in_template, repr=repr)
 
 
 def required_template(value, name):
@@ -682,7 +683,7 @@ def any_template(option_value, name, repeated=False):
     if _has_field(p, \"{{ name.split('.')[-1] }}\"):
     {% endif %}
         if {{ name }}.type_url not in {{ o['in'] }}:
-            raise ValidationFailed(\"{{ name }} not in {{ o['in'] }}\")
+            raise ValidationFailed({{ repr(name + " not in " + str(o['in'])) }})
     {%- endif %}
     {%- if o['not_in'] %}
     {% if repeated %}
@@ -691,11 +692,11 @@ def any_template(option_value, name, repeated=False):
     if _has_field(p, \"{{ name.split('.')[-1] }}\"):
     {% endif %}
         if {{ name }}.type_url in {{ o['not_in'] }}:
-            raise ValidationFailed(\"{{ name }} in {{ o['not_in'] }}\")
+            raise ValidationFailed({{ repr(name + " in " + str(o['not_in'])) }})
     {%- endif %}
     """
     return Template(any_tmpl).render(
-        o=option_value.any, name=name, required_template=required_template, repeated=repeated)
+        o=option_value.any, name=name, required_template=required_template, repeated=repeated, str=str, repr=repr)
 
 
 def bytes_template(option_value, name):
@@ -750,7 +751,7 @@ def bytes_template(option_value, name):
     {% if b['contains'] %}
         {% if sys.version_info[0] >= 3 %}
     if not {{ b['contains'] }} in {{ name }}:
-        raise ValidationFailed(\"{{ name }} does not contain {{ b['contains'] }}\")
+        raise ValidationFailed({{ repr(name + " does not contain " + str(b['contains'])) }})
         {% else %}
     if not b\"{{ b['contains'].encode('string_escape') }}\" in {{ name }}:
         raise ValidationFailed(\"{{ name }} does not contain \")
@@ -759,7 +760,7 @@ def bytes_template(option_value, name):
     {% if b['prefix'] %}
         {% if sys.version_info[0] >= 3 %}
     if not {{ name }}.startswith({{ b['prefix'] }}):
-        raise ValidationFailed(\"{{ name }} does not start with prefix {{ b['prefix'] }}\")
+        raise ValidationFailed({{ repr(name + " does not start with prefix " + str(b['prefix'])) }})
         {% else %}
     if not {{name}}.startswith(b\"{{ b['prefix'].encode('string_escape') }}\"):
         raise ValidationFailed(\"{{ name }} does not start with prefix {{ b['prefix'].encode('string_escape') }}\")
@@ -768,16 +769,17 @@ def bytes_template(option_value, name):
     {% if b['suffix'] %}
         {% if sys.version_info[0] >= 3 %}
     if not {{ name }}.endswith({{ b['suffix'] }}):
-        raise ValidationFailed(\"{{ name }} does not end with suffix {{ b['suffix'] }}\")
+        raise ValidationFailed({{ repr(name + " does not end with suffix " + str(b['suffix'])) }})
         {% else %}
     if not {{name}}.endswith(b\"{{ b['suffix'].encode('string_escape') }}\"):
-        raise ValidationFailed(\"{{ name }} does not end with suffix {{ b['suffix'] }}\")
+        raise ValidationFailed({{ repr(name + " does not end with suffix " + str(b['suffix'])) }})
         {% endif %}
     {% endif %}
     {% endfilter %}
     """
     return Template(bytes_tmpl).render(sys=sys, o=option_value, name=name,
-                                       const_template=const_template, in_template=in_template, b=option_value.bytes)
+                                       const_template=const_template, in_template=in_template, b=option_value.bytes,
+                                       str=str, repr=repr)
 
 
 def switcher_template(accessor, name, field, map=False):
-- 
2.43.0


From b19376227c6d35c1568410c334e93c922d0d5b97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:20 +0000
Subject: [PATCH 36/60] fix: match bytes patterns with escapes in Python

---
 python/protoc_gen_validate/validator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/protoc_gen_validate/validator.py b/python/protoc_gen_validate/validator.py
index cfa8829..853a7cb 100644
--- a/python/protoc_gen_validate/validator.py
+++ b/python/protoc_gen_validate/validator.py
@@ -741,7 +741,7 @@ def bytes_template(option_value, name):
     {%- endif -%}
     {% if b['pattern'] %}
         {% if sys.version_info[0] >= 3%}
-    if re.search({{ b['pattern'].encode('unicode-escape') }}, {{ name }}) is None:
+    if re.search({{ b['pattern'].encode('utf-8') }}, {{ name }}) is None:
         raise ValidationFailed(\"{{ name }} pattern does not match b['pattern'].encode('unicode-escape')\")
         {% else %}
     if re.search(b\"{{ b['pattern'].encode('unicode-escape') }}\", {{ name }}) is None:
-- 
2.43.0


From c78498e7df1f68d5475683a8c0482e29811bdbf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:20 +0000
Subject: [PATCH 37/60] fix: accept only canonical UUIDs in Python

---
 python/protoc_gen_validate/validator.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/python/protoc_gen_validate/validator.py b/python/protoc_gen_validate/validator.py
index 853a7cb..c73acd8 100644
--- a/python/protoc_gen_validate/validator.py
+++ b/python/protoc_gen_validate/validator.py
@@ -2,7 +2,6 @@ import re
 import struct
 import sys
 import time
-import uuid
 from functools import lru_cache
 from ipaddress import IPv4Address, IPv6Address, ip_address
 from urllib import parse as urlparse
@@ -21,6 +20,8 @@ regex_map = {
     "HEADER_STRING": r'^[^\u0000\u000A\u000D]*\Z'
 }
 
+uuid_regex = r'\A[0-9a-fA-F]{8}(-[0-9a-fA-F]{4}){3}-[0-9a-fA-F]{12}\Z'
+
 
 class ValidationFailed(Exception):
     pass
@@ -276,9 +277,7 @@ def string_template(option_value, name):
         raise ValidationFailed(\"{{ name }} is not a valid uri ref\")
     {%- endif -%}
     {%- if s['uuid'] %}
-    try:
-        uuid.UUID({{ name }})
-    except ValueError:
+    if re.search(uuid_regex, {{ name }}) is None:
         raise ValidationFailed(\"{{ name }} is not a valid UUID\")
     {%- endif -%}
     {% endfilter %}
-- 
2.43.0


From 2540d9c1a7738c2ac13b999c87368c84d6b033e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:20 +0000
Subject: [PATCH 38/60] fix: accept empty rules in Python

---
 python/protoc_gen_validate/validator.py | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/python/protoc_gen_validate/validator.py b/python/protoc_gen_validate/validator.py
index c73acd8..6d8ac73 100644
--- a/python/protoc_gen_validate/validator.py
+++ b/python/protoc_gen_validate/validator.py
@@ -987,8 +987,6 @@ def rule_type(field):
                     return repeated_template(option_value, name, field)
                 elif str(option_value.map):
                     return map_template(option_value, name, field)
-                elif str(option_value.required):
-                    return required_template(option_value, name)
     if field.message_type:
         for option_descriptor, option_value in field.GetOptions().ListFields():
             if option_descriptor.full_name == "validate.rules":
@@ -1008,8 +1006,6 @@ def rule_type(field):
                     return repeated_template(option_value, name, field)
                 elif str(option_value.map):
                     return map_template(option_value, name, field)
-                elif str(option_value.required):
-                    return required_template(option_value, name)
         if field.message_type.full_name.startswith("google.protobuf"):
             return ""
         elif is_map(field):
-- 
2.43.0


From 7ab621fec1221fbfc9bc1f224149773a75575b68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:20 +0000
Subject: [PATCH 39/60] fix: validate bytes items and map values in Python

---
 python/protoc_gen_validate/validator.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/python/protoc_gen_validate/validator.py b/python/protoc_gen_validate/validator.py
index 6d8ac73..d7ddac1 100644
--- a/python/protoc_gen_validate/validator.py
+++ b/python/protoc_gen_validate/validator.py
@@ -811,6 +811,8 @@ def switcher_template(accessor, name, field, map=False):
     {{- bool_template(accessor, name)|indent(4,True) -}}
     {%- elif str(accessor.string) %}
     {{- string_template(accessor, name)|indent(4,True) -}}
+    {%- elif str(accessor.bytes) %}
+    {{- bytes_template(accessor, name)|indent(4,True) -}}
     {%- elif str(accessor.enum) and map %}
     {{- enum_template(accessor, name, field.message_type.fields[1])|indent(4,True) -}}
     {%- elif str(accessor.enum) and not map %}
@@ -831,7 +833,8 @@ def switcher_template(accessor, name, field, map=False):
                                           bool_template=bool_template, string_template=string_template,
                                           enum_template=enum_template, duration_template=duration_template,
                                           timestamp_template=timestamp_template, any_template=any_template,
-                                          message_template=message_template, field=field, map=map)
+                                          message_template=message_template, bytes_template=bytes_template,
+                                          field=field, map=map)
 
 
 def repeated_template(option_value, name, field):
-- 
2.43.0


From c7b8a46e8a171df4e24537d01059be4f8605dc74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:20 +0000
Subject: [PATCH 40/60] fix: do not look for list items and map values among
 the fields in Python

---
 python/protoc_gen_validate/validator.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/python/protoc_gen_validate/validator.py b/python/protoc_gen_validate/validator.py
index d7ddac1..3c16254 100644
--- a/python/protoc_gen_validate/validator.py
+++ b/python/protoc_gen_validate/validator.py
@@ -412,7 +412,9 @@ def dur_lit(dur):
 
 def duration_template(option_value, name, repeated=False):
     dur_tmpl = """
+    {%- if not repeated %}
     {{- required_template(o.duration, name) }}
+    {%- endif %}
     {% if repeated %}
     if {{ name }}:
     {% else %}
@@ -500,7 +502,9 @@ def duration_template(option_value, name, repeated=False):
 
 def timestamp_template(option_value, name, repeated=False):
     timestamp_tmpl = """
+    {%- if not repeated %}
     {{- required_template(o.timestamp, name) }}
+    {%- endif %}
     {% if repeated %}
     if {{ name }}:
     {% else %}
@@ -674,7 +678,9 @@ def enum_template(option_value, name, field):
 
 def any_template(option_value, name, repeated=False):
     any_tmpl = """
+    {%- if not repeated %}
     {{- required_template(o, name) }}
+    {%- endif %}
     {%- if o['in'] %}
     {% if repeated %}
     if {{ name }}:
@@ -821,20 +827,15 @@ def switcher_template(accessor, name, field, map=False):
     {{- duration_template(accessor, name, True)|indent(4,True) -}}
     {%- elif str(accessor.timestamp) %}
     {{- timestamp_template(accessor, name, True)|indent(4,True) -}}
-    {%- elif str(accessor.message) %}
-    {{- message_template(accessor, name, True)|indent(4,True) -}}
     {%- elif str(accessor.any) %}
     {{- any_template(accessor, name, True)|indent(4,True) -}}
-    {%- elif str(accessor.message) %}
-    {{- message_template(accessor, name, True)|indent(4,True) -}}
     {%- endif %}
     """
     return Template(switcher_tmpl).render(accessor=accessor, name=name, str=str, num_template=num_template,
                                           bool_template=bool_template, string_template=string_template,
                                           enum_template=enum_template, duration_template=duration_template,
                                           timestamp_template=timestamp_template, any_template=any_template,
-                                          message_template=message_template, bytes_template=bytes_template,
-                                          field=field, map=map)
+                                          bytes_template=bytes_template, field=field, map=map)
 
 
 def repeated_template(option_value, name, field):
-- 
2.43.0


From 5ea0de0b2124f62f3204838ca6df560ee2176632 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:20 +0000
Subject: [PATCH 41/60] fix: validate embedded map values whose keys have rules
 in Python

---
 python/protoc_gen_validate/validator.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/python/protoc_gen_validate/validator.py b/python/protoc_gen_validate/validator.py
index 3c16254..a382ad3 100644
--- a/python/protoc_gen_validate/validator.py
+++ b/python/protoc_gen_validate/validator.py
@@ -937,7 +937,8 @@ def map_template(option_value, name, field):
         {%- set values = o.map['values'] -%}
         {{ switcher_template(values, name +'[key]', field, True) }}
         pass
-    {%- elif field.message_type.fields[1].message_type %}
+    {%- endif %}
+    {%- if field.message_type.fields[1].message_type and not (o and o.map['values'].message.skip) %}
     for key in {{ name }}:
         validate({{ name }}[key])
     {%- endif %}
-- 
2.43.0


From 19fb85a5fee6c906137ed9cb75e3b674c1ab13d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:20 +0000
Subject: [PATCH 42/60] fix: do not take messages with key and value fields for
 map entries in Python

---
 python/protoc_gen_validate/validator.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/python/protoc_gen_validate/validator.py b/python/protoc_gen_validate/validator.py
index a382ad3..b031746 100644
--- a/python/protoc_gen_validate/validator.py
+++ b/python/protoc_gen_validate/validator.py
@@ -883,8 +883,7 @@ def repeated_template(option_value, name, field):
 
 
 def is_map(field):
-    return field.label == 3 and field.message_type and len(field.message_type.fields) == 2 and \
-        field.message_type.fields[0].name == "key" and field.message_type.fields[1].name == "value"
+    return field.label == 3 and field.message_type and field.message_type.GetOptions().map_entry
 
 
 def map_template(option_value, name, field):
-- 
2.43.0


From 8a8e1f56cc441c420a11854e3f02d21055c86473 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:20 +0000
Subject: [PATCH 43/60] fix: apply the rules of wrapped items and map values in
 Python

---
 python/protoc_gen_validate/validator.py | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/python/protoc_gen_validate/validator.py b/python/protoc_gen_validate/validator.py
index b031746..5e0053d 100644
--- a/python/protoc_gen_validate/validator.py
+++ b/python/protoc_gen_validate/validator.py
@@ -787,9 +787,19 @@ def bytes_template(option_value, name):
                                        str=str, repr=repr)
 
 
+def is_wrapper(message_type):
+    return message_type is not None and message_type.full_name in [
+        "google.protobuf." + name + "Value"
+        for name in ("Double", "Float", "Int64", "UInt64", "Int32", "UInt32", "Bool", "String", "Bytes")
+    ]
+
+
 def switcher_template(accessor, name, field, map=False):
+    message_type = field.message_type.fields[1].message_type if map else field.message_type
     switcher_tmpl = """
-    {%- if str(accessor.float) %}
+    {%- if is_wrapper(message_type) %}
+    {{- wrapper_template(accessor, name, True)|indent(4,True) -}}
+    {%- elif str(accessor.float) %}
     {{- num_template(accessor, name, accessor.float)|indent(4,True) -}}
     {%- elif str(accessor.double) %}
     {{- num_template(accessor, name, accessor.double)|indent(4,True) -}}
@@ -835,7 +845,8 @@ def switcher_template(accessor, name, field, map=False):
                                           bool_template=bool_template, string_template=string_template,
                                           enum_template=enum_template, duration_template=duration_template,
                                           timestamp_template=timestamp_template, any_template=any_template,
-                                          bytes_template=bytes_template, field=field, map=map)
+                                          bytes_template=bytes_template, wrapper_template=wrapper_template,
+                                          is_wrapper=is_wrapper, message_type=message_type, field=field, map=map)
 
 
 def repeated_template(option_value, name, field):
-- 
2.43.0


From 635dc7bd10e7e62ba8d308a7bce3269a610fc812 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:20 +0000
Subject: [PATCH 44/60] fix: reject values outside a range of one value in
 Python

---
 python/protoc_gen_validate/validator.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/python/protoc_gen_validate/validator.py b/python/protoc_gen_validate/validator.py
index 5e0053d..119e38b 100644
--- a/python/protoc_gen_validate/validator.py
+++ b/python/protoc_gen_validate/validator.py
@@ -371,7 +371,7 @@ def num_template(option_value, name, num):
         raise ValidationFailed(\"{{ name }} is not in range {{ num['gt'], num['lte'] }}\")
             {%- endif -%}
         {%- elif num.HasField('gte') %}
-            {%- if num['lte'] > num['gte'] %}
+            {%- if num['lte'] >= num['gte'] %}
     if {{ name }} < {{ num['gte'] }} or {{ name }} > {{ num ['lte'] }}:
         raise ValidationFailed(\"{{ name }} is not in range {{ num['lte'], num['gte'] }}\")
             {%- else %}
@@ -477,7 +477,7 @@ def duration_template(option_value, name, repeated=False):
             raise ValidationFailed(\"{{ name }} is not in range {{ dur_lit(dur['gt']), dur_lit(dur['lte']) }}\")
                 {%- endif -%}
             {%- elif dur.HasField('gte') %}
-                {%- if dur_lit(dur['lte']) > dur_lit(dur['gte']) %}
+                {%- if dur_lit(dur['lte']) >= dur_lit(dur['gte']) %}
         if dur < gte or dur > lte:
             raise ValidationFailed(\"{{ name }} is not in range {{ dur_lit(dur['lte']), dur_lit(dur['gte']) }}\")
                 {%- else -%}
@@ -567,7 +567,7 @@ def timestamp_template(option_value, name, repeated=False):
             raise ValidationFailed(\"{{ name }} is not in range {{ dur_lit(ts['gt']), dur_lit(ts['lte']) }}\")
                 {%- endif -%}
             {%- elif ts.HasField('gte') %}
-                {%- if dur_lit(ts['lte']) > dur_lit(ts['gte']) %}
+                {%- if dur_lit(ts['lte']) >= dur_lit(ts['gte']) %}
         if ts < gte or ts > lte:
             raise ValidationFailed(\"{{ name }} is not in range {{ dur_lit(ts['lte']), dur_lit(ts['gte']) }}\")
                 {%- else -%}
-- 
2.43.0


From 7c8ac2c8d2e7c1bc28016ed1364aff14185ed45d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:20 +0000
Subject: [PATCH 45/60] fix: compare durations and timestamps to the nanosecond
 in Python

---
 python/protoc_gen_validate/validator.py | 74 ++++++++++++++-----------
 1 file changed, 42 insertions(+), 32 deletions(-)

diff --git a/python/protoc_gen_validate/validator.py b/python/protoc_gen_validate/validator.py
index 119e38b..aebbc80 100644
--- a/python/protoc_gen_validate/validator.py
+++ b/python/protoc_gen_validate/validator.py
@@ -410,6 +410,14 @@ def dur_lit(dur):
     return value
 
 
+def dur_ns(dur):
+    return dur.seconds * 10**9 + dur.nanos
+
+
+def dur_arr_ns(dur):
+    return [dur_ns(val) for val in dur]
+
+
 def duration_template(option_value, name, repeated=False):
     dur_tmpl = """
     {%- if not repeated %}
@@ -420,35 +428,35 @@ def duration_template(option_value, name, repeated=False):
     {% else %}
     if _has_field(p, \"{{ name.split('.')[-1] }}\"):
     {% endif %}
-        dur = {{ name }}.seconds + round((10**-9 * {{ name }}.nanos), 9)
+        dur = {{ name }}.seconds * 10**9 + {{ name }}.nanos
         {%- set dur = o.duration -%}
         {%- if dur.HasField('lt') %}
-        lt = {{ dur_lit(dur['lt']) }}
+        lt = {{ dur_ns(dur['lt']) }}
         {% endif %}
         {%- if dur.HasField('lte') %}
-        lte = {{ dur_lit(dur['lte']) }}
+        lte = {{ dur_ns(dur['lte']) }}
         {% endif %}
         {%- if dur.HasField('gt') %}
-        gt = {{ dur_lit(dur['gt']) }}
+        gt = {{ dur_ns(dur['gt']) }}
         {% endif %}
         {%- if dur.HasField('gte') %}
-        gte = {{ dur_lit(dur['gte']) }}
+        gte = {{ dur_ns(dur['gte']) }}
         {% endif %}
         {%- if dur.HasField('const') %}
-        if dur != {{ dur_lit(dur['const']) }}:
+        if dur != {{ dur_ns(dur['const']) }}:
             raise ValidationFailed(\"{{ name }} is not equal to {{ dur_lit(dur['const']) }}\")
         {%- endif -%}
         {%- if dur['in'] %}
-        if dur not in {{ dur_arr(dur['in']) }}:
+        if dur not in {{ dur_arr_ns(dur['in']) }}:
             raise ValidationFailed(\"{{ name }} is not in {{ dur_arr(dur['in']) }}\")
         {%- endif -%}
         {%- if dur['not_in'] %}
-        if dur in {{ dur_arr(dur['not_in']) }}:
+        if dur in {{ dur_arr_ns(dur['not_in']) }}:
             raise ValidationFailed(\"{{ name }} is not in {{ dur_arr(dur['not_in']) }}\")
         {%- endif -%}
         {%- if dur.HasField('lt') %}
             {%- if dur.HasField('gt') %}
-                {%- if dur_lit(dur['lt']) > dur_lit(dur['gt']) %}
+                {%- if dur_ns(dur['lt']) > dur_ns(dur['gt']) %}
         if dur <= gt or dur >= lt:
             raise ValidationFailed(\"{{ name }} is not in range {{ dur_lit(dur['lt']), dur_lit(dur['gt']) }}\")
                 {%- else -%}
@@ -456,7 +464,7 @@ def duration_template(option_value, name, repeated=False):
             raise ValidationFailed(\"{{ name }} is not in range {{ dur_lit(dur['gt']), dur_lit(dur['lt']) }}\")
                 {%- endif -%}
             {%- elif dur.HasField('gte') %}
-                {%- if dur_lit(dur['lt']) > dur_lit(dur['gte']) %}
+                {%- if dur_ns(dur['lt']) > dur_ns(dur['gte']) %}
         if dur < gte or dur >= lt:
             raise ValidationFailed(\"{{ name }} is not in range {{ dur_lit(dur['lt']), dur_lit(dur['gte']) }}\")
                 {%- else -%}
@@ -469,7 +477,7 @@ def duration_template(option_value, name, repeated=False):
             {%- endif -%}
         {%- elif dur.HasField('lte') %}
             {%- if dur.HasField('gt') %}
-                {%- if dur_lit(dur['lte']) > dur_lit(dur['gt']) %}
+                {%- if dur_ns(dur['lte']) > dur_ns(dur['gt']) %}
         if dur <= gt or dur > lte:
             raise ValidationFailed(\"{{ name }} is not in range {{ dur_lit(dur['lte']), dur_lit(dur['gt']) }}\")
                 {%- else -%}
@@ -477,7 +485,7 @@ def duration_template(option_value, name, repeated=False):
             raise ValidationFailed(\"{{ name }} is not in range {{ dur_lit(dur['gt']), dur_lit(dur['lte']) }}\")
                 {%- endif -%}
             {%- elif dur.HasField('gte') %}
-                {%- if dur_lit(dur['lte']) >= dur_lit(dur['gte']) %}
+                {%- if dur_ns(dur['lte']) >= dur_ns(dur['gte']) %}
         if dur < gte or dur > lte:
             raise ValidationFailed(\"{{ name }} is not in range {{ dur_lit(dur['lte']), dur_lit(dur['gte']) }}\")
                 {%- else -%}
@@ -497,7 +505,8 @@ def duration_template(option_value, name, repeated=False):
         {%- endif -%}
     """
     return Template(dur_tmpl).render(o=option_value, name=name, required_template=required_template,
-                                     dur_lit=dur_lit, dur_arr=dur_arr, repeated=repeated)
+                                     dur_lit=dur_lit, dur_arr=dur_arr, dur_ns=dur_ns, dur_arr_ns=dur_arr_ns,
+                                     repeated=repeated)
 
 
 def timestamp_template(option_value, name, repeated=False):
@@ -510,35 +519,35 @@ def timestamp_template(option_value, name, repeated=False):
     {% else %}
     if _has_field(p, \"{{ name.split('.')[-1] }}\"):
     {% endif %}
-        ts = {{ name }}.seconds + round((10**-9 * {{ name }}.nanos), 9)
+        ts = {{ name }}.seconds * 10**9 + {{ name }}.nanos
         {%- set ts = o.timestamp -%}
         {%- if ts.HasField('lt') %}
-        lt = {{ dur_lit(ts['lt']) }}
+        lt = {{ dur_ns(ts['lt']) }}
         {% endif -%}
         {%- if ts.HasField('lte') %}
-        lte = {{ dur_lit(ts['lte']) }}
+        lte = {{ dur_ns(ts['lte']) }}
         {% endif -%}
         {%- if ts.HasField('gt') %}
-        gt = {{ dur_lit(ts['gt']) }}
+        gt = {{ dur_ns(ts['gt']) }}
         {% endif -%}
         {%- if ts.HasField('gte') %}
-        gte = {{ dur_lit(ts['gte']) }}
+        gte = {{ dur_ns(ts['gte']) }}
         {% endif -%}
         {%- if ts.HasField('const') %}
-        if ts != {{ dur_lit(ts['const']) }}:
+        if ts != {{ dur_ns(ts['const']) }}:
             raise ValidationFailed(\"{{ name }} is not equal to {{ dur_lit(ts['const']) }}\")
         {% endif %}
         {%- if ts['in'] %}
-        if ts not in {{ dur_arr(ts['in']) }}:
+        if ts not in {{ dur_arr_ns(ts['in']) }}:
             raise ValidationFailed(\"{{ name }} is not in {{ dur_arr(ts['in']) }}\")
         {%- endif %}
         {%- if ts['not_in'] %}
-        if ts in {{ dur_arr(ts['not_in']) }}:
+        if ts in {{ dur_arr_ns(ts['not_in']) }}:
             raise ValidationFailed(\"{{ name }} is not in {{ dur_arr(ts['not_in']) }}\")
         {%- endif %}
         {%- if ts.HasField('lt') %}
             {%- if ts.HasField('gt') %}
-                {%- if dur_lit(ts['lt']) > dur_lit(ts['gt']) %}
+                {%- if dur_ns(ts['lt']) > dur_ns(ts['gt']) %}
         if ts <= gt or ts >= lt:
             raise ValidationFailed(\"{{ name }} is not in range {{ dur_lit(ts['lt']), dur_lit(ts['gt']) }}\")
                 {%- else -%}
@@ -546,7 +555,7 @@ def timestamp_template(option_value, name, repeated=False):
             raise ValidationFailed(\"{{ name }} is not in range {{ dur_lit(ts['gt']), dur_lit(ts['lt']) }}\")
                 {%- endif -%}
             {%- elif ts.HasField('gte') %}
-                {%- if dur_lit(ts['lt']) > dur_lit(ts['gte']) %}
+                {%- if dur_ns(ts['lt']) > dur_ns(ts['gte']) %}
         if ts < gte or ts >= lt:
             raise ValidationFailed(\"{{ name }} is not in range {{ dur_lit(ts['lt']), dur_lit(ts['gte']) }}\")
                 {%- else -%}
@@ -559,7 +568,7 @@ def timestamp_template(option_value, name, repeated=False):
             {%- endif -%}
         {%- elif ts.HasField('lte') %}
             {%- if ts.HasField('gt') %}
-                {%- if dur_lit(ts['lte']) > dur_lit(ts['gt']) %}
+                {%- if dur_ns(ts['lte']) > dur_ns(ts['gt']) %}
         if ts <= gt or ts > lte:
             raise ValidationFailed(\"{{ name }} is not in range {{ dur_lit(ts['lte']), dur_lit(ts['gt']) }}\")
                 {%- else -%}
@@ -567,7 +576,7 @@ def timestamp_template(option_value, name, repeated=False):
             raise ValidationFailed(\"{{ name }} is not in range {{ dur_lit(ts['gt']), dur_lit(ts['lte']) }}\")
                 {%- endif -%}
             {%- elif ts.HasField('gte') %}
-                {%- if dur_lit(ts['lte']) >= dur_lit(ts['gte']) %}
+                {%- if dur_ns(ts['lte']) >= dur_ns(ts['gte']) %}
         if ts < gte or ts > lte:
             raise ValidationFailed(\"{{ name }} is not in range {{ dur_lit(ts['lte']), dur_lit(ts['gte']) }}\")
                 {%- else -%}
@@ -585,9 +594,9 @@ def timestamp_template(option_value, name, repeated=False):
         if ts < gte:
             raise ValidationFailed(\"{{ name }} is not greater than or equal to {{ dur_lit(ts['gte']) }}\")
         {%- elif ts['lt_now'] %}
-        now = time.time()
+        now = int(time.time() * 10**9)
             {%- if ts.HasField('within') %}
-        within = {{ dur_lit(ts['within']) }}
+        within = {{ dur_ns(ts['within']) }}
         if ts >= now or ts <= now - within:
             raise ValidationFailed(\"{{ name }} is not within range {{ dur_lit(ts['within']) }}\")
             {%- else %}
@@ -595,9 +604,9 @@ def timestamp_template(option_value, name, repeated=False):
             raise ValidationFailed(\"{{ name }} is not lesser than now\")
             {%- endif -%}
         {%- elif ts['gt_now'] %}
-        now = time.time()
+        now = int(time.time() * 10**9)
             {%- if ts.HasField('within') %}
-        within = {{ dur_lit(ts['within']) }}
+        within = {{ dur_ns(ts['within']) }}
         if ts <= now or ts >= now + within:
             raise ValidationFailed(\"{{ name }} is not within range {{ dur_lit(ts['within']) }}\")
             {%- else %}
@@ -605,14 +614,15 @@ def timestamp_template(option_value, name, repeated=False):
             raise ValidationFailed(\"{{ name }} is not greater than now\")
             {%- endif -%}
         {%- elif ts.HasField('within') %}
-        now = time.time()
-        within = {{ dur_lit(ts['within']) }}
+        now = int(time.time() * 10**9)
+        within = {{ dur_ns(ts['within']) }}
         if ts >= now + within or ts <= now - within:
              raise ValidationFailed(\"{{ name }} is not within range {{ dur_lit(ts['within']) }}\")
         {%- endif -%}
     """
     return Template(timestamp_tmpl).render(o=option_value, name=name, required_template=required_template,
-                                           dur_lit=dur_lit, dur_arr=dur_arr, repeated=repeated)
+                                           dur_lit=dur_lit, dur_arr=dur_arr, dur_ns=dur_ns, dur_arr_ns=dur_arr_ns,
+                                     repeated=repeated)
 
 
 def wrapper_template(option_value, name, repeated=False):
-- 
2.43.0


From aa56294b11dc9b06d8bbee692ceac3ba406716c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:20 +0000
Subject: [PATCH 46/60] fix: read fields named like Python keywords

---
 python/protoc_gen_validate/validator.py | 51 ++++++++++++++++---------
 1 file changed, 33 insertions(+), 18 deletions(-)

diff --git a/python/protoc_gen_validate/validator.py b/python/protoc_gen_validate/validator.py
index aebbc80..7ef1c16 100644
--- a/python/protoc_gen_validate/validator.py
+++ b/python/protoc_gen_validate/validator.py
@@ -1,3 +1,4 @@
+import keyword
 import re
 import struct
 import sys
@@ -133,6 +134,18 @@ def _has_field(message_pb, property_name):
         return property_name in all_fields
 
 
+def field_accessor(name):
+    if keyword.iskeyword(name):
+        return "getattr(p, '" + name + "')"
+    return "p." + name
+
+
+def field_name(accessor):
+    if accessor.startswith("getattr"):
+        return accessor.split("'")[1]
+    return accessor.split('.')[-1]
+
+
 def const_template(option_value, name):
     const_tmpl = """{%- if str(o.string) and o.string.HasField('const') -%}
     if {{ name }} != {{ repr(o.string['const']) }}:
@@ -288,11 +301,11 @@ def string_template(option_value, name):
 
 def required_template(value, name):
     req_tmpl = """{%- if value['required'] %}
-    if not _has_field(p, \"{{ name.split('.')[-1] }}\"):
+    if not _has_field(p, \"{{ field_name(name) }}\"):
         raise ValidationFailed(\"{{ name }} is required.\")
     {%- endif -%}
     """
-    return Template(req_tmpl).render(value=value, name=name)
+    return Template(req_tmpl).render(value=value, name=name, field_name=field_name)
 
 
 def message_template(option_value, name, repeated=False):
@@ -305,15 +318,16 @@ def message_template(option_value, name, repeated=False):
     {% if repeated %}
     if {{ name }}:
     {% else %}
-    if _has_field(p, \"{{ name.split('.')[-1] }}\"):
+    if _has_field(p, \"{{ field_name(name) }}\"):
     {% endif %}
-        embedded = validate(p.{{ name }})
+        embedded = validate({{ name }})
         if embedded is not None:
             return embedded
     {%- endif -%}
     """
     return Template(message_tmpl).render(
-        m=option_value, name=name, required_template=required_template, repeated=repeated)
+        m=option_value, name=name, required_template=required_template, repeated=repeated,
+        field_name=field_name)
 
 
 def bool_template(option_value, name):
@@ -426,7 +440,7 @@ def duration_template(option_value, name, repeated=False):
     {% if repeated %}
     if {{ name }}:
     {% else %}
-    if _has_field(p, \"{{ name.split('.')[-1] }}\"):
+    if _has_field(p, \"{{ field_name(name) }}\"):
     {% endif %}
         dur = {{ name }}.seconds * 10**9 + {{ name }}.nanos
         {%- set dur = o.duration -%}
@@ -506,7 +520,7 @@ def duration_template(option_value, name, repeated=False):
     """
     return Template(dur_tmpl).render(o=option_value, name=name, required_template=required_template,
                                      dur_lit=dur_lit, dur_arr=dur_arr, dur_ns=dur_ns, dur_arr_ns=dur_arr_ns,
-                                     repeated=repeated)
+                                     repeated=repeated, field_name=field_name)
 
 
 def timestamp_template(option_value, name, repeated=False):
@@ -517,7 +531,7 @@ def timestamp_template(option_value, name, repeated=False):
     {% if repeated %}
     if {{ name }}:
     {% else %}
-    if _has_field(p, \"{{ name.split('.')[-1] }}\"):
+    if _has_field(p, \"{{ field_name(name) }}\"):
     {% endif %}
         ts = {{ name }}.seconds * 10**9 + {{ name }}.nanos
         {%- set ts = o.timestamp -%}
@@ -622,7 +636,7 @@ def timestamp_template(option_value, name, repeated=False):
     """
     return Template(timestamp_tmpl).render(o=option_value, name=name, required_template=required_template,
                                            dur_lit=dur_lit, dur_arr=dur_arr, dur_ns=dur_ns, dur_arr_ns=dur_arr_ns,
-                                     repeated=repeated)
+                                     repeated=repeated, field_name=field_name)
 
 
 def wrapper_template(option_value, name, repeated=False):
@@ -630,7 +644,7 @@ def wrapper_template(option_value, name, repeated=False):
     {% if repeated %}
     if {{ name }}:
     {% else %}
-    if p.HasField(\"{{ name[2:] }}\"):
+    if p.HasField(\"{{ field_name(name) }}\"):
     {% endif %}
         {%- if str(option_value.float) %}
         {{- num_template(option_value, name + ".value", option_value.float)|indent(4,True) -}}
@@ -666,7 +680,7 @@ def wrapper_template(option_value, name, repeated=False):
     """
     return Template(wrapper_tmpl).render(option_value=option_value, name=name, str=str, num_template=num_template,
                                          bool_template=bool_template, string_template=string_template,
-                                         bytes_template=bytes_template, repeated=repeated)
+                                         bytes_template=bytes_template, repeated=repeated, field_name=field_name)
 
 
 def enum_values(field):
@@ -695,7 +709,7 @@ def any_template(option_value, name, repeated=False):
     {% if repeated %}
     if {{ name }}:
     {% else %}
-    if _has_field(p, \"{{ name.split('.')[-1] }}\"):
+    if _has_field(p, \"{{ field_name(name) }}\"):
     {% endif %}
         if {{ name }}.type_url not in {{ o['in'] }}:
             raise ValidationFailed({{ repr(name + " not in " + str(o['in'])) }})
@@ -704,14 +718,15 @@ def any_template(option_value, name, repeated=False):
     {% if repeated %}
     if {{ name }}:
     {% else %}
-    if _has_field(p, \"{{ name.split('.')[-1] }}\"):
+    if _has_field(p, \"{{ field_name(name) }}\"):
     {% endif %}
         if {{ name }}.type_url in {{ o['not_in'] }}:
             raise ValidationFailed({{ repr(name + " in " + str(o['not_in'])) }})
     {%- endif %}
     """
     return Template(any_tmpl).render(
-        o=option_value.any, name=name, required_template=required_template, repeated=repeated, str=str, repr=repr)
+        o=option_value.any, name=name, required_template=required_template, repeated=repeated, str=str, repr=repr,
+        field_name=field_name)
 
 
 def bytes_template(option_value, name):
@@ -970,14 +985,14 @@ def map_template(option_value, name, field):
 
 
 def rule_type(field):
-    name = "p." + field.name
+    name = field_accessor(field.name)
     if has_validate(field) and field.message_type is None:
         for option_descriptor, option_value in field.GetOptions().ListFields():
             if option_descriptor.full_name == "validate.rules":
                 if str(option_value.string):
                     return string_template(option_value, name)
                 elif str(option_value.message):
-                    return message_template(option_value, field.name)
+                    return message_template(option_value, name)
                 elif str(option_value.bool):
                     return bool_template(option_value, name)
                 elif str(option_value.float):
@@ -1024,7 +1039,7 @@ def rule_type(field):
                         str(option_value.bool) or str(option_value.string) or str(option_value.bytes):
                     return wrapper_template(option_value, name)
                 elif str(option_value.message) != "":
-                    return message_template(option_value, field.name)
+                    return message_template(option_value, name)
                 elif str(option_value.any):
                     return any_template(option_value, name)
                 elif str(option_value.repeated):
@@ -1038,7 +1053,7 @@ def rule_type(field):
         elif field.label == 3:
             return repeated_template(None, name, field)
         else:
-            return message_template(None, field.name)
+            return message_template(None, name)
     return ""
 
 
-- 
2.43.0


From 399de398a1870084db86368ca0c9071922e7079f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:19:16 +0000
Subject: [PATCH 47/60] fix: accept ignore_empty without other rules in Python

The generated function had an if statement without a body when
ignore_empty was the only rule, and when the only rule of a list of
wrappers was message.required, so validate() raised IndentationError.
---
 python/protoc_gen_validate/validator.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/python/protoc_gen_validate/validator.py b/python/protoc_gen_validate/validator.py
index 7ef1c16..c3e3ecb 100644
--- a/python/protoc_gen_validate/validator.py
+++ b/python/protoc_gen_validate/validator.py
@@ -197,6 +197,7 @@ def string_template(option_value, name):
     {% set i = 0 %}
     {%- if s['ignore_empty'] -%}
     if {{ name }}:
+        pass
     {% set i = 4 %}
     {%- endif -%}
     {% filter indent(i,True) %}
@@ -342,6 +343,7 @@ def num_template(option_value, name, num):
     {% set i = 0 %}
     {%- if num['ignore_empty'] -%}
     if {{ name }}:
+        pass
     {% set i = 4 %}
     {%- endif -%}
     {% filter indent(i,True) %}
@@ -646,6 +648,7 @@ def wrapper_template(option_value, name, repeated=False):
     {% else %}
     if p.HasField(\"{{ field_name(name) }}\"):
     {% endif %}
+        pass
         {%- if str(option_value.float) %}
         {{- num_template(option_value, name + ".value", option_value.float)|indent(4,True) -}}
         {% endif -%}
@@ -734,6 +737,7 @@ def bytes_template(option_value, name):
     {% set i = 0 %}
     {%- if b['ignore_empty'] -%}
     if {{ name }}:
+        pass
     {% set i = 4 %}
     {%- endif -%}
     {% filter indent(i,True) %}
@@ -879,6 +883,7 @@ def repeated_template(option_value, name, field):
     {% set i = 0 %}
     {%- if o and o.repeated['ignore_empty'] %}
     if {{ name }}:
+        pass
     {% set i = 4 %}
     {%- endif -%}
     {% filter indent(i,True) %}
@@ -927,6 +932,7 @@ def map_template(option_value, name, field):
     {% set i = 0 %}
     {%- if o and o.map['ignore_empty'] %}
     if {{ name }}:
+        pass
     {% set i = 4 %}
     {%- endif -%}
     {% filter indent(i,True) %}
-- 
2.43.0


From 973aedd98347c00fc2260d941d428648800671de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:19:32 +0000
Subject: [PATCH 48/60] fix: name the field of a missing required wrapper in
 Java

The exception held the Go representation of the descriptor.
---
 templates/java/wrapper.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/templates/java/wrapper.go b/templates/java/wrapper.go
index 3e3984e..80e1adc 100644
--- a/templates/java/wrapper.go
+++ b/templates/java/wrapper.go
@@ -8,5 +8,5 @@ const wrapperTpl = `{{ $f := .Field }}{{ $r := .Rules }}
 				{{- render (unwrap .) }}
 			}
 			{{ if .MessageRules.GetRequired }} else {
-				throw new io.envoyproxy.pgv.ValidationException("{{ $f }}", "null", "is required");
+				throw new io.envoyproxy.pgv.ValidationException("{{ $f.FullyQualifiedName }}", "null", "is required");
 			} {{ end }}`
-- 
2.43.0


From 1c3292569ab4f212bae03700f57e7b0bb15564eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:19:48 +0000
Subject: [PATCH 49/60] fix: drop messages after the server interceptor
 rejected the call in Java

Valid messages that followed an invalid one in a client stream were
still delivered to the service, and a second invalid message closed the
call again.
---
 .../io/envoyproxy/pgv/grpc/ValidatingServerInterceptor.java    | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/java/pgv-java-grpc/src/main/java/io/envoyproxy/pgv/grpc/ValidatingServerInterceptor.java b/java/pgv-java-grpc/src/main/java/io/envoyproxy/pgv/grpc/ValidatingServerInterceptor.java
index 60b5147..5da08aa 100644
--- a/java/pgv-java-grpc/src/main/java/io/envoyproxy/pgv/grpc/ValidatingServerInterceptor.java
+++ b/java/pgv-java-grpc/src/main/java/io/envoyproxy/pgv/grpc/ValidatingServerInterceptor.java
@@ -25,6 +25,9 @@ public class ValidatingServerInterceptor implements ServerInterceptor {
 
             @Override
             public void onMessage(ReqT message) {
+                if (aborted) {
+                    return;
+                }
                 try {
                     index.validatorFor(message.getClass()).assertValid(message);
                     super.onMessage(message);
-- 
2.43.0


From 537d6fd8b3bfd915bbd2c11bb354687ac9913f6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:25:30 +0000
Subject: [PATCH 50/60] fix: name Java accessors, cases and outer classes as
 protoc does

---
 templates/java/register.go    | 131 +++++++++++++++++-----------------
 templates/shared/functions.go |  31 ++++++++
 2 files changed, 95 insertions(+), 67 deletions(-)

diff --git a/templates/java/register.go b/templates/java/register.go
index d22ccf0..b5dee46 100644
--- a/templates/java/register.go
+++ b/templates/java/register.go
@@ -7,7 +7,6 @@ import (
 	"os"
 	"strings"
 	"text/template"
-	"unicode"
 	"unicode/utf16"
 
 	"github.com/envoyproxy/protoc-gen-validate/templates/shared"
@@ -157,8 +156,7 @@ func classNameFile(f pgs.File) string {
 
 	protoName := pgs.FilePath(f.Name().String()).BaseName()
 
-	className := sanitizeClassName(protoName)
-	className = appendOuterClassName(className, f)
+	className := appendOuterClassName(shared.UpperCamelCase(protoName), f)
 
 	return className
 }
@@ -168,14 +166,6 @@ func classNameMessage(m pgs.Message) string {
 	return m.Name().String()
 }
 
-func sanitizeClassName(className string) string {
-	className = makeInvalidClassnameCharactersUnderscores(className)
-	className = underscoreBetweenConsecutiveUppercase(className)
-	className = strcase.ToCamel(strcase.ToSnake(className))
-	className = upperCaseAfterNumber(className)
-	return className
-}
-
 func javaPackage(file pgs.File) string {
 	// Explicit java package overrides implicit package
 	options := file.Descriptor().GetOptions()
@@ -214,67 +204,24 @@ func (fns javaFuncs) qualifiedName(entity pgs.Entity) string {
 	return entity.Name().String()
 }
 
-// Replace invalid identifier characters with an underscore
-func makeInvalidClassnameCharactersUnderscores(name string) string {
-	var sb string
-	for _, c := range name {
-		switch {
-		case c >= '0' && c <= '9':
-			sb += string(c)
-		case c >= 'a' && c <= 'z':
-			sb += string(c)
-		case c >= 'A' && c <= 'Z':
-			sb += string(c)
-		default:
-			sb += "_"
-		}
-	}
-	return sb
-}
-
-func upperCaseAfterNumber(name string) string {
-	var sb string
-	var p rune
-
-	for _, c := range name {
-		if unicode.IsDigit(p) {
-			sb += string(unicode.ToUpper(c))
-		} else {
-			sb += string(c)
-		}
-		p = c
-	}
-	return sb
-}
-
-func underscoreBetweenConsecutiveUppercase(name string) string {
-	var sb string
-	var p rune
-
-	for _, c := range name {
-		if unicode.IsUpper(p) && unicode.IsUpper(c) {
-			sb += "_" + string(c)
-		} else {
-			sb += string(c)
-		}
-		p = c
-	}
-	return sb
-}
-
 func appendOuterClassName(outerClassName string, file pgs.File) string {
 	conflict := false
 
-	for _, enum := range file.Enums() {
+	for _, enum := range file.AllEnums() {
 		if enum.Name().String() == outerClassName {
 			conflict = true
 		}
 	}
 
-	for _, message := range file.Messages() {
+	for _, message := range file.AllMessages() {
 		if message.Name().String() == outerClassName {
 			conflict = true
 		}
+		for _, entry := range message.MapEntries() {
+			if entry.Name().String() == outerClassName {
+				conflict = true
+			}
+		}
 	}
 
 	for _, service := range file.Services() {
@@ -298,7 +245,7 @@ func (fns javaFuncs) accessor(ctx shared.RuleContext) string {
 }
 
 func (fns javaFuncs) fieldAccessor(f pgs.Field) string {
-	fieldName := strcase.ToCamel(f.Name().String())
+	fieldName := accessorName(f)
 	if f.Type().IsMap() {
 		fieldName += "Map"
 	}
@@ -306,7 +253,6 @@ func (fns javaFuncs) fieldAccessor(f pgs.Field) string {
 		fieldName += "List"
 	}
 
-	fieldName = upperCaseAfterNumber(fieldName)
 	return fmt.Sprintf("proto.get%s()", fieldName)
 }
 
@@ -314,9 +260,60 @@ func (fns javaFuncs) hasAccessor(ctx shared.RuleContext) string {
 	if ctx.AccessorOverride != "" {
 		return "true"
 	}
-	fiedlName := strcase.ToCamel(ctx.Field.Name().String())
-	fiedlName = upperCaseAfterNumber(fiedlName)
-	return "proto.has" + fiedlName + "()"
+	return "proto.has" + accessorName(ctx.Field) + "()"
+}
+
+// accessorName is the name protoc's Java generator uses in the accessors of f.
+func accessorName(f pgs.Field) string {
+	name := capitalizedName(f)
+
+	// Fields whose accessors would clash are told apart by their numbers.
+	for _, other := range f.Message().Fields() {
+		if other.Name() == f.Name() {
+			continue
+		}
+
+		otherName := capitalizedName(other)
+		if name == otherName || clashes(f, name, otherName, other) || clashes(other, otherName, name, f) {
+			return fmt.Sprintf("%s%d", name, f.Descriptor().GetNumber())
+		}
+	}
+
+	return name
+}
+
+// clashes reports whether the singular field other, named otherName, has the
+// name of a method that protoc generates for the repeated or map field f.
+func clashes(f pgs.Field, name, otherName string, other pgs.Field) bool {
+	if !isCollection(f) || isCollection(other) {
+		return false
+	}
+	return otherName == name+"Count" || otherName == name+"List"
+}
+
+func isCollection(f pgs.Field) bool {
+	return f.Type().IsRepeated() || f.Type().IsMap()
+}
+
+func capitalizedName(f pgs.Field) string {
+	name := shared.UpperCamelCase(f.Name().String())
+	if javaReserved[name] {
+		return name + "_"
+	}
+	return name
+}
+
+// javaReserved are the names whose getters every message already has.
+var javaReserved = map[string]bool{
+	"AllFields":                 true,
+	"CachedSize":                true,
+	"Class":                     true,
+	"DefaultInstanceForType":    true,
+	"DescriptorForType":         true,
+	"InitializationErrorString": true,
+	"ParserForType":             true,
+	"SerializedSize":            true,
+	"UnknownFields":             true,
 }
 
 func (fns javaFuncs) fieldName(ctx shared.RuleContext) string {
@@ -471,7 +468,7 @@ func (fns javaFuncs) javaStringEscape(s string) string {
 }
 
 func (fns javaFuncs) camelCase(name pgs.Name) string {
-	return strcase.ToCamel(name.String())
+	return shared.UpperCamelCase(name.String())
 }
 
 func (fns javaFuncs) byteArrayLit(bytes []uint8) string {
diff --git a/templates/shared/functions.go b/templates/shared/functions.go
index 2bf111a..8422159 100644
--- a/templates/shared/functions.go
+++ b/templates/shared/functions.go
@@ -1,7 +1,9 @@
 package shared
 
 import (
+	"strings"
 	"text/template"
+	"unicode"
 
 	"github.com/lyft/protoc-gen-star"
 )
@@ -18,3 +20,32 @@ func RegisterFunctions(tpl *template.Template, params pgs.Parameters) {
 		"fileneeds": FileNeeds,
 	})
 }
+
+// UpperCamelCase capitalizes and joins the words of name as protoc's Java
+// and C++ generators do: everything but letters and digits separates words,
+// and a digit ends one.
+func UpperCamelCase(name string) string {
+	var sb strings.Builder
+	capNext := true
+
+	for _, c := range name {
+		switch {
+		case c >= 'a' && c <= 'z':
+			if capNext {
+				c = unicode.ToUpper(c)
+			}
+			sb.WriteRune(c)
+			capNext = false
+		case c >= 'A' && c <= 'Z':
+			sb.WriteRune(c)
+			capNext = false
+		case c >= '0' && c <= '9':
+			sb.WriteRune(c)
+			capNext = true
+		default:
+			capNext = true
+		}
+	}
+
+	return sb.String()
+}
-- 
2.43.0


From 9cd97c549b663e2f23c32e8d67dd735844f35dc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:25:31 +0000
Subject: [PATCH 51/60] fix: generate Java for files without a package

---
 templates/java/file.go     |  2 +-
 templates/java/register.go | 16 ++++++++++++----
 2 files changed, 13 insertions(+), 5 deletions(-)

diff --git a/templates/java/file.go b/templates/java/file.go
index 4c29048..2738a76 100644
--- a/templates/java/file.go
+++ b/templates/java/file.go
@@ -3,7 +3,7 @@ package java
 const fileTpl = `// Code generated by protoc-gen-validate. DO NOT EDIT.
 // source: {{ .File.InputPath }}
 
-package {{ javaPackage .File }};
+{{ with javaPackage .File }}package {{ . }};{{ end }}
 
 {{ if isOfFileType . }}
 @SuppressWarnings("all")
diff --git a/templates/java/register.go b/templates/java/register.go
index b5dee46..8f4c630 100644
--- a/templates/java/register.go
+++ b/templates/java/register.go
@@ -181,10 +181,10 @@ func (fns javaFuncs) qualifiedName(entity pgs.Entity) string {
 		name := javaPackage(file)
 		if file.Descriptor().GetOptions() != nil {
 			if !file.Descriptor().GetOptions().GetJavaMultipleFiles() {
-				name += ("." + classNameFile(file))
+				name = joinNames(name, classNameFile(file))
 			}
 		} else {
-			name += ("." + classNameFile(file))
+			name = joinNames(name, classNameFile(file))
 		}
 		return name
 	}
@@ -192,18 +192,26 @@ func (fns javaFuncs) qualifiedName(entity pgs.Entity) string {
 	message, isMessage := entity.(pgs.Message)
 	if isMessage && message.Parent() != nil {
 		// recurse
-		return fns.qualifiedName(message.Parent()) + "." + entity.Name().String()
+		return joinNames(fns.qualifiedName(message.Parent()), entity.Name().String())
 	}
 
 	enum, isEnum := entity.(pgs.Enum)
 	if isEnum && enum.Parent() != nil {
 		// recurse
-		return fns.qualifiedName(enum.Parent()) + "." + entity.Name().String()
+		return joinNames(fns.qualifiedName(enum.Parent()), entity.Name().String())
 	}
 
 	return entity.Name().String()
 }
 
+// joinNames qualifies name, unless its parent is the unnamed package.
+func joinNames(parent, name string) string {
+	if parent == "" {
+		return name
+	}
+	return parent + "." + name
+}
+
 func appendOuterClassName(outerClassName string, file pgs.File) string {
 	conflict := false
 
-- 
2.43.0


From 81e4eabec8f48f9197a252aa8a69b29c025d1d52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:25:32 +0000
Subject: [PATCH 52/60] fix: tell apart the Java constants of fields that
 differ in case

---
 templates/java/register.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/templates/java/register.go b/templates/java/register.go
index 8f4c630..a76890d 100644
--- a/templates/java/register.go
+++ b/templates/java/register.go
@@ -554,5 +554,6 @@ func (fns javaFuncs) renderConstants(tpl *template.Template) func(ctx shared.Rul
 }
 
 func (fns javaFuncs) constantName(ctx shared.RuleContext, rule string) string {
-	return strcase.ToScreamingSnake(ctx.Field.Name().String() + "_" + ctx.Index + "_" + rule)
+	// Names of fields may differ in case only.
+	return ctx.Field.Name().String() + "_" + strcase.ToScreamingSnake(ctx.Index+"_"+rule)
 }
-- 
2.43.0


From c250fa87e2f18f582c486f830c030f80676d7949 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:25:34 +0000
Subject: [PATCH 53/60] fix: name C++ classes, namespaces and cases as protoc
 does

---
 templates/cc/file.go     |  8 ++++----
 templates/cc/register.go | 30 ++++++++++++++++++++++++------
 2 files changed, 28 insertions(+), 10 deletions(-)

diff --git a/templates/cc/file.go b/templates/cc/file.go
index a85cf82..06bd8be 100644
--- a/templates/cc/file.go
+++ b/templates/cc/file.go
@@ -34,7 +34,7 @@ pgv::Validator<{{ class . }}> {{ staticVarName . }}(static_cast<bool(*)(const {{
 } // namespace validate
 } // namespace pgv
 
-{{ range .Package.ProtoName.Split }}
+{{ range namespaces . }}
 namespace {{ . }} {
 {{- end }}
 
@@ -42,7 +42,7 @@ namespace {{ . }} {
 	{{- template "msg" . }}
 {{ end }}
 
-{{ range .Package.ProtoName.Split -}}
+{{ range namespaces . -}}
 } // namespace
 {{ end }}
 `
@@ -62,7 +62,7 @@ const headerFileTpl = `// Code generated by protoc-gen-validate
 #include "validate/validate.h"
 #include "{{ output .File ".h" }}"
 
-{{ range .Package.ProtoName.Split }}
+{{ range namespaces . }}
 namespace {{ . }} {
 {{- end }}
 
@@ -72,7 +72,7 @@ using std::string;
 	{{- template "decl" . }}
 {{ end }}
 
-{{ range .Package.ProtoName.Split -}}
+{{ range namespaces . -}}
 } // namespace
 {{ end }}
 
diff --git a/templates/cc/register.go b/templates/cc/register.go
index 1953dff..a95fb30 100644
--- a/templates/cc/register.go
+++ b/templates/cc/register.go
@@ -43,6 +43,7 @@ func RegisterModule(tpl *template.Template, params pgs.Parameters) {
 		"lookup":        fns.lookup,
 		"oneof":         fns.oneofTypeName,
 		"output":        fns.output,
+		"namespaces":    fns.namespaces,
 		"package":       fns.packageName,
 		"quote":         fns.quote,
 		"staticVarName": fns.staticVarName,
@@ -100,6 +101,7 @@ func RegisterHeader(tpl *template.Template, params pgs.Parameters) {
 
 	tpl.Funcs(map[string]interface{}{
 		"class":                fns.className,
+		"namespaces":           fns.namespaces,
 		"output":               fns.output,
 		"screaming_snake_case": strcase.ToScreamingSnake,
 	})
@@ -238,18 +240,34 @@ type childEntity interface {
 }
 
 func (fns CCFuncs) classBaseName(ent childEntity) string {
+	name := ent.Name().String()
 	if m, ok := ent.Parent().(pgs.Message); ok {
-		return fmt.Sprintf("%s_%s", fns.classBaseName(m), ent.Name().String())
+		name = fmt.Sprintf("%s_%s", fns.classBaseName(m), name)
 	}
-	return ent.Name().String()
+	if ccKeywords[name] {
+		name += "_"
+	}
+	return name
 }
 
 func (fns CCFuncs) className(ent childEntity) string {
 	return fns.packageName(ent) + "::" + fns.classBaseName(ent)
 }
 
-func (fns CCFuncs) packageName(msg pgs.Entity) string {
-	return "::" + strings.Join(msg.Package().ProtoName().Split(), "::")
+func (fns CCFuncs) packageName(ent pgs.Entity) string {
+	var name string
+	for _, part := range fns.namespaces(ent) {
+		name += "::" + part
+	}
+	return name
+}
+
+// namespaces are those the package of ent is nested in, if it has a package.
+func (fns CCFuncs) namespaces(ent pgs.Entity) []string {
+	if ent.Package().ProtoName() == "" {
+		return nil
+	}
+	return ent.Package().ProtoName().Split()
 }
 
 func (fns CCFuncs) quote(s interface {
@@ -393,8 +411,8 @@ func (fns CCFuncs) byteStr(x []byte) string {
 func (fns CCFuncs) oneofTypeName(f pgs.Field) pgsgo.TypeName {
 	return pgsgo.TypeName(fmt.Sprintf("%s::%sCase::k%s",
 		fns.className(f.Message()),
-		pgsgo.PGGUpperCamelCase(f.OneOf().Name()),
-		strings.ReplaceAll(pgsgo.PGGUpperCamelCase(f.Name()).String(), "_", "")))
+		shared.UpperCamelCase(f.OneOf().Name().String()),
+		shared.UpperCamelCase(f.Name().String())))
 }
 
 func (fns CCFuncs) inType(f pgs.Field, x interface{}) string {
-- 
2.43.0


From ef34bd0a60c3341f039f3c8ef4b91ea5ac62306c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:25:35 +0000
Subject: [PATCH 54/60] fix: give every C++ table and pattern a name of its own

---
 templates/cc/register.go | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/templates/cc/register.go b/templates/cc/register.go
index a95fb30..5919662 100644
--- a/templates/cc/register.go
+++ b/templates/cc/register.go
@@ -322,11 +322,13 @@ func (fns CCFuncs) errIdxCause(ctx shared.RuleContext, idx, cause string, reason
 	return strings.Join(output, "\n")
 }
 
+// lookup names a table or pattern of f.  The class and the field number tell
+// it from those of every other field, however they are nested and spelled.
 func (fns CCFuncs) lookup(f pgs.Field, name string) string {
 	return fmt.Sprintf(
-		"_%s_%s_%s",
-		pgsgo.PGGUpperCamelCase(f.Message().Name()),
-		pgsgo.PGGUpperCamelCase(f.Name()),
+		"_%s_%d_%s",
+		fns.classBaseName(f.Message()),
+		f.Descriptor().GetNumber(),
 		name,
 	)
 }
-- 
2.43.0


From 5ecefefd07e301dd1ef6d52945055267671a9254 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:25:36 +0000
Subject: [PATCH 55/60] fix: hold values, not pointers, in the C++ tables of
 proto2 fields

---
 templates/cc/register.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/templates/cc/register.go b/templates/cc/register.go
index 5919662..ffa8e8f 100644
--- a/templates/cc/register.go
+++ b/templates/cc/register.go
@@ -483,7 +483,8 @@ func (fns CCFuncs) cType(t pgs.FieldType) string {
 		return fns.cTypeOfString(fns.Type(t.Field()).Element().String())
 	}
 
-	return fns.cTypeOfString(fns.Type(t.Field()).String())
+	// Go points to the values of fields that track presence
+	return fns.cTypeOfString(strings.TrimPrefix(fns.Type(t.Field()).String(), "*"))
 }
 
 func (fns CCFuncs) cTypeOfString(s string) string {
-- 
2.43.0


From 344662d36729a8046c11af6a7b1f4eb149e6f548 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:25:37 +0000
Subject: [PATCH 56/60] fix: generate defined_only for proto2 enum fields in Go

---
 templates/goshared/enum.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/templates/goshared/enum.go b/templates/goshared/enum.go
index ffd6dc6..eb8f728 100644
--- a/templates/goshared/enum.go
+++ b/templates/goshared/enum.go
@@ -6,7 +6,7 @@ const enumTpl = `
 		{{ template "in" . }}
 
 		{{ if $r.GetDefinedOnly }}
-			if _, ok := {{ (typ $f).Element }}_name[int32({{ accessor . }})]; !ok {
+			if _, ok := {{ (typ $f).Element.Value }}_name[int32({{ accessor . }})]; !ok {
 				err := {{ err . "value must be one of the defined enum values" }}
 				if !all { return err }
 				errors = append(errors, err)
-- 
2.43.0


From 20b20d19b5abdb505bf2964c40a5fdf4f99fe09e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:25:54 +0000
Subject: [PATCH 57/60] fix: use the field, oneof and wrapper names of
 protoc-gen-go

---
 templates/goshared/register.go | 56 +++++++++++++++++++++++++++++++++-
 1 file changed, 55 insertions(+), 1 deletion(-)

diff --git a/templates/goshared/register.go b/templates/goshared/register.go
index 9b8d36d..e821e31 100644
--- a/templates/goshared/register.go
+++ b/templates/goshared/register.go
@@ -93,6 +93,45 @@ func Register(tpl *template.Template, params pgs.Parameters) {
 
 type goSharedFuncs struct{ pgsgo.Context }
 
+// Name is the name that protoc-gen-go gives to node.  It renames the fields and
+// oneofs of a message which would otherwise share a name or hide a getter.
+func (fns goSharedFuncs) Name(node pgs.Node) pgs.Name {
+	var msg pgs.Message
+
+	switch n := node.(type) {
+	case pgs.Field:
+		msg = n.Message()
+	case pgs.OneOf:
+		msg = n.Message()
+	default:
+		return fns.Context.Name(node)
+	}
+
+	used := map[pgs.Name]bool{}
+	unique := func(n pgs.Node, getter bool) pgs.Name {
+		name := fns.Context.Name(n)
+		for used[name] || getter && used["Get"+name] {
+			name += "_"
+		}
+		used[name], used["Get"+name] = true, getter
+		return name
+	}
+
+	for _, f := range msg.Fields() {
+		if name := unique(f, true); f == node {
+			return name
+		}
+		if !f.InOneOf() || f.OneOf().Fields()[0] != f {
+			continue
+		}
+		if name := unique(f.OneOf(), false); f.OneOf() == node {
+			return name
+		}
+	}
+
+	return fns.Context.Name(node)
+}
+
 func (fns goSharedFuncs) accessor(ctx shared.RuleContext) string {
 	if ctx.AccessorOverride != "" {
 		return ctx.AccessorOverride
@@ -213,7 +252,22 @@ func (fns goSharedFuncs) byteStr(x []byte) string {
 }
 
 func (fns goSharedFuncs) oneofTypeName(f pgs.Field) pgsgo.TypeName {
-	return pgsgo.TypeName(fns.OneofOption(f)).Pointer()
+	name := fns.Name(f.Message()) + "_" + fns.Name(f)
+
+	for taken := true; taken; {
+		taken = false
+		for _, m := range f.Message().Messages() {
+			taken = taken || fns.Name(m) == name
+		}
+		for _, en := range f.Message().Enums() {
+			taken = taken || fns.Name(en) == name
+		}
+		if taken {
+			name += "_"
+		}
+	}
+
+	return pgsgo.TypeName(name).Pointer()
 }
 
 func (fns goSharedFuncs) inType(ctx shared.RuleContext, x interface{}) string {
-- 
2.43.0


From 4e91de5e5abcafe8506609f52ad97ac61265e153 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:25:55 +0000
Subject: [PATCH 58/60] fix: give every Go table and pattern a name of its own

---
 templates/goshared/register.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/templates/goshared/register.go b/templates/goshared/register.go
index e821e31..0343346 100644
--- a/templates/goshared/register.go
+++ b/templates/goshared/register.go
@@ -195,6 +195,8 @@ func (fns goSharedFuncs) errIdx(ctx shared.RuleContext, idx string, reason ...in
 	return fns.errIdxCause(ctx, idx, "nil", reason...)
 }
 
+// lookup names a table or pattern of a field.  The message and the field number
+// tell it from those of every other field of the package.
 func (fns goSharedFuncs) lookup(ctx shared.RuleContext, name string) string {
 	f := ctx.Field
 	if ctx.OnKey {
@@ -202,9 +204,9 @@ func (fns goSharedFuncs) lookup(ctx shared.RuleContext, name string) string {
 	}
 
 	return fmt.Sprintf(
-		"_%s_%s_%s",
+		"_%s_%d_%s",
 		fns.Name(f.Message()),
-		fns.Name(f),
+		f.Descriptor().GetNumber(),
 		name,
 	)
 }
-- 
2.43.0


From 3a6eacb542c524c328e71f44721f120f9d50c08b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:25:57 +0000
Subject: [PATCH 59/60] fix: name the UUID pattern of Go files as protoc-gen-go
 names theirs

---
 templates/go/file.go           |  2 +-
 templates/goshared/known.go    |  2 +-
 templates/goshared/register.go | 17 +++++++++++++----
 3 files changed, 15 insertions(+), 6 deletions(-)

diff --git a/templates/go/file.go b/templates/go/file.go
index 81cbf64..9935f45 100644
--- a/templates/go/file.go
+++ b/templates/go/file.go
@@ -45,7 +45,7 @@ var (
 
 {{- if fileneeds . "uuid" }}
 // define the regex for a UUID once up-front
-var _{{ snakeCase .File.InputPath.BaseName }}_uuidPattern = regexp.MustCompile("^[0-9a-fA-F]{8}-[0-9a-fA-F]{4}-[0-9a-fA-F]{4}-[0-9a-fA-F]{4}-[0-9a-fA-F]{12}$")
+var {{ fileVar .File "uuidPattern" }} = regexp.MustCompile("^[0-9a-fA-F]{8}-[0-9a-fA-F]{4}-[0-9a-fA-F]{4}-[0-9a-fA-F]{4}-[0-9a-fA-F]{12}$")
 {{ end }}
 
 {{ range .AllMessages }}
diff --git a/templates/goshared/known.go b/templates/goshared/known.go
index aed4010..b8992eb 100644
--- a/templates/goshared/known.go
+++ b/templates/goshared/known.go
@@ -56,7 +56,7 @@ const emailTpl = `
 
 const uuidTpl = `
 	func (m {{ (msgTyp .).Pointer }}) _validateUuid(uuid string) error {
-		if matched := _{{ snakeCase .File.InputPath.BaseName }}_uuidPattern.MatchString(uuid); !matched {
+		if matched := {{ fileVar .File "uuidPattern" }}.MatchString(uuid); !matched {
 			return errors.New("invalid uuid format")
 		}
 
diff --git a/templates/goshared/register.go b/templates/goshared/register.go
index 0343346..88011d2 100644
--- a/templates/goshared/register.go
+++ b/templates/goshared/register.go
@@ -5,8 +5,8 @@ import (
 	"reflect"
 	"strings"
 	"text/template"
+	"unicode"
 
-	"github.com/iancoleman/strcase"
 	"google.golang.org/protobuf/types/known/durationpb"
 	"google.golang.org/protobuf/types/known/timestamppb"
 
@@ -22,7 +22,7 @@ func Register(tpl *template.Template, params pgs.Parameters) {
 	tpl.Funcs(map[string]interface{}{
 		"accessor":      fns.accessor,
 		"byteStr":       fns.byteStr,
-		"snakeCase":	 fns.snakeCase,
+		"fileVar":       fns.fileVar,
 		"cmt":           pgs.C80,
 		"durGt":         fns.durGt,
 		"durLit":        fns.durLit,
@@ -378,6 +378,15 @@ func (fns goSharedFuncs) enumPackages(enums []pgs.Enum) map[pgs.FilePath]pgs.Nam
 	return out
 }
 
-func (fns goSharedFuncs) snakeCase(name string) string {
-	return strcase.ToSnake(name)
+// fileVar names a variable of file.  As in the names that protoc-gen-go derives
+// from the path of a file, an underscore stands for what cannot be in a name.
+func (fns goSharedFuncs) fileVar(file pgs.File, name string) string {
+	path := strings.Map(func(r rune) rune {
+		if unicode.IsLetter(r) || unicode.IsDigit(r) {
+			return r
+		}
+		return '_'
+	}, file.InputPath().SetExt("").String())
+
+	return fmt.Sprintf("_%s_%s", path, name)
 }
-- 
2.43.0


From 9761b9b3e15dd1653a56c5c33a5c34f941dac71f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:24:57 +0000
Subject: [PATCH 60/60] fix: Java validators compile with length and count
 rules beyond int

---
 templates/java/bytes.go    |  6 +++---
 templates/java/map.go      |  4 ++--
 templates/java/register.go | 10 ++++++++++
 templates/java/repeated.go |  4 ++--
 templates/java/string.go   | 12 ++++++------
 5 files changed, 23 insertions(+), 13 deletions(-)

diff --git a/templates/java/bytes.go b/templates/java/bytes.go
index 52f9f4c..45dfddb 100644
--- a/templates/java/bytes.go
+++ b/templates/java/bytes.go
@@ -39,13 +39,13 @@ const bytesTpl = `{{ $f := .Field }}{{ $r := .Rules -}}
 			io.envoyproxy.pgv.ConstantValidation.constant("{{ $f.FullyQualifiedName }}", {{ accessor . }}, {{ constantName . "Const" }});
 {{- end -}}
 {{- if $r.Len }}
-			io.envoyproxy.pgv.BytesValidation.length("{{ $f.FullyQualifiedName }}", {{ accessor . }}, {{ $r.GetLen }});
+			io.envoyproxy.pgv.BytesValidation.length("{{ $f.FullyQualifiedName }}", {{ accessor . }}, {{ sizeLit $r.GetLen }});
 {{- end -}}
 {{- if $r.MinLen }}
-			io.envoyproxy.pgv.BytesValidation.minLength("{{ $f.FullyQualifiedName }}", {{ accessor . }}, {{ $r.GetMinLen }});
+			io.envoyproxy.pgv.BytesValidation.minLength("{{ $f.FullyQualifiedName }}", {{ accessor . }}, {{ sizeLit $r.GetMinLen }});
 {{- end -}}
 {{- if $r.MaxLen }}
-			io.envoyproxy.pgv.BytesValidation.maxLength("{{ $f.FullyQualifiedName }}", {{ accessor . }}, {{ $r.GetMaxLen }});
+			io.envoyproxy.pgv.BytesValidation.maxLength("{{ $f.FullyQualifiedName }}", {{ accessor . }}, {{ sizeLit $r.GetMaxLen }});
 {{- end -}}
 {{- if $r.Pattern }}
 			io.envoyproxy.pgv.BytesValidation.pattern("{{ $f.FullyQualifiedName }}", {{ accessor . }}, {{ constantName . "Pattern" }});
diff --git a/templates/java/map.go b/templates/java/map.go
index 4be2575..9157428 100644
--- a/templates/java/map.go
+++ b/templates/java/map.go
@@ -12,10 +12,10 @@ const mapTpl = `{{ $f := .Field }}{{ $r := .Rules -}}
 			if ( !{{ accessor . }}.isEmpty() ) {
 {{- end -}}
 {{- if $r.MinPairs }}
-			io.envoyproxy.pgv.MapValidation.min("{{ $f.FullyQualifiedName }}", {{ accessor . }}, {{ $r.GetMinPairs }});
+			io.envoyproxy.pgv.MapValidation.min("{{ $f.FullyQualifiedName }}", {{ accessor . }}, {{ sizeLit $r.GetMinPairs }});
 {{- end -}}
 {{- if $r.MaxPairs }}
-			io.envoyproxy.pgv.MapValidation.max("{{ $f.FullyQualifiedName }}", {{ accessor . }}, {{ $r.GetMaxPairs }});
+			io.envoyproxy.pgv.MapValidation.max("{{ $f.FullyQualifiedName }}", {{ accessor . }}, {{ sizeLit $r.GetMaxPairs }});
 {{- end -}}
 {{- if $r.GetNoSparse }}
 			io.envoyproxy.pgv.MapValidation.noSparse("{{ $f.FullyQualifiedName }}", {{ accessor . }});
diff --git a/templates/java/register.go b/templates/java/register.go
index a76890d..ddcff7b 100644
--- a/templates/java/register.go
+++ b/templates/java/register.go
@@ -50,6 +50,7 @@ func Register(tpl *template.Template, params pgs.Parameters) {
 		"sprintf":          fmt.Sprintf,
 		"simpleName":       fns.Name,
 		"tsLit":            fns.tsLit,
+		"sizeLit":          fns.sizeLit,
 		"qualifiedName":    fns.qualifiedName,
 		"isOfFileType":     fns.isOfFileType,
 		"isOfMessageType":  fns.isOfMessageType,
@@ -453,6 +454,15 @@ func (fns javaFuncs) comparator(ctx shared.RuleContext) string {
 	}
 }
 
+// sizeLit renders a bound on a length or a count. No Java value is larger than
+// an int can tell, so neither do larger bounds need to be.
+func (fns javaFuncs) sizeLit(n uint64) string {
+	if n > math.MaxInt32 {
+		n = math.MaxInt32
+	}
+	return fmt.Sprint(n)
+}
+
 func (fns javaFuncs) javaStringEscape(s string) string {
 	var sb strings.Builder
 	sb.WriteByte('"')
diff --git a/templates/java/repeated.go b/templates/java/repeated.go
index d190868..302dc10 100644
--- a/templates/java/repeated.go
+++ b/templates/java/repeated.go
@@ -7,10 +7,10 @@ const repeatedTpl = `{{ $f := .Field }}{{ $r := .Rules -}}
 			if ( !{{ accessor . }}.isEmpty() ) {
 {{- end -}}
 {{- if $r.MinItems }}
-			io.envoyproxy.pgv.RepeatedValidation.minItems("{{ $f.FullyQualifiedName }}", {{ accessor . }}, {{ $r.GetMinItems }});
+			io.envoyproxy.pgv.RepeatedValidation.minItems("{{ $f.FullyQualifiedName }}", {{ accessor . }}, {{ sizeLit $r.GetMinItems }});
 {{- end -}}
 {{- if $r.MaxItems }}
-			io.envoyproxy.pgv.RepeatedValidation.maxItems("{{ $f.FullyQualifiedName }}", {{ accessor . }}, {{ $r.GetMaxItems }});
+			io.envoyproxy.pgv.RepeatedValidation.maxItems("{{ $f.FullyQualifiedName }}", {{ accessor . }}, {{ sizeLit $r.GetMaxItems }});
 {{- end -}}
 {{- if $r.GetUnique }}
 			io.envoyproxy.pgv.RepeatedValidation.unique("{{ $f.FullyQualifiedName }}", {{ accessor . }});
diff --git a/templates/java/string.go b/templates/java/string.go
index 9dd6699..76cb93c 100644
--- a/templates/java/string.go
+++ b/templates/java/string.go
@@ -33,22 +33,22 @@ const stringTpl = `{{ $f := .Field }}{{ $r := .Rules -}}
 			io.envoyproxy.pgv.CollectiveValidation.notIn("{{ $f.FullyQualifiedName }}", {{ accessor . }}, {{ constantName . "NotIn" }});
 {{- end -}}
 {{- if $r.Len }}
-			io.envoyproxy.pgv.StringValidation.length("{{ $f.FullyQualifiedName }}", {{ accessor . }}, {{ $r.GetLen }});
+			io.envoyproxy.pgv.StringValidation.length("{{ $f.FullyQualifiedName }}", {{ accessor . }}, {{ sizeLit $r.GetLen }});
 {{- end -}}
 {{- if $r.MinLen }}
-			io.envoyproxy.pgv.StringValidation.minLength("{{ $f.FullyQualifiedName }}", {{ accessor . }}, {{ $r.GetMinLen }});
+			io.envoyproxy.pgv.StringValidation.minLength("{{ $f.FullyQualifiedName }}", {{ accessor . }}, {{ sizeLit $r.GetMinLen }});
 {{- end -}}
 {{- if $r.MaxLen }}
-			io.envoyproxy.pgv.StringValidation.maxLength("{{ $f.FullyQualifiedName }}", {{ accessor . }}, {{ $r.GetMaxLen }});
+			io.envoyproxy.pgv.StringValidation.maxLength("{{ $f.FullyQualifiedName }}", {{ accessor . }}, {{ sizeLit $r.GetMaxLen }});
 {{- end -}}
 {{- if $r.LenBytes }}
-			io.envoyproxy.pgv.StringValidation.lenBytes("{{ $f.FullyQualifiedName }}", {{ accessor . }}, {{ $r.GetLenBytes }});
+			io.envoyproxy.pgv.StringValidation.lenBytes("{{ $f.FullyQualifiedName }}", {{ accessor . }}, {{ sizeLit $r.GetLenBytes }});
 {{- end -}}
 {{- if $r.MinBytes }}
-			io.envoyproxy.pgv.StringValidation.minBytes("{{ $f.FullyQualifiedName }}", {{ accessor . }}, {{ $r.GetMinBytes }});
+			io.envoyproxy.pgv.StringValidation.minBytes("{{ $f.FullyQualifiedName }}", {{ accessor . }}, {{ sizeLit $r.GetMinBytes }});
 {{- end -}}
 {{- if $r.MaxBytes }}
-			io.envoyproxy.pgv.StringValidation.maxBytes("{{ $f.FullyQualifiedName }}", {{ accessor . }}, {{ $r.GetMaxBytes }});
+			io.envoyproxy.pgv.StringValidation.maxBytes("{{ $f.FullyQualifiedName }}", {{ accessor . }}, {{ sizeLit $r.GetMaxBytes }});
 {{- end -}}
 {{- if $r.Pattern }}
 			io.envoyproxy.pgv.StringValidation.pattern("{{ $f.FullyQualifiedName }}", {{ accessor . }}, {{ constantName . "Pattern" }});
-- 
2.43.0

