From 32a412a75b90ecce7a0ce6433acb02f098da57bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:30 +0000
Subject: [PATCH 01/53] fix: emit two-digit hex escapes in Go bytes literals

---
 templates/goshared/register.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/templates/goshared/register.go b/templates/goshared/register.go
index e532d08..7de0b56 100644
--- a/templates/goshared/register.go
+++ b/templates/goshared/register.go
@@ -199,7 +199,7 @@ func (fns goSharedFuncs) isBytes(f interface {
 func (fns goSharedFuncs) byteStr(x []byte) string {
 	elms := make([]string, len(x))
 	for i, b := range x {
-		elms[i] = fmt.Sprintf(`\x%X`, b)
+		elms[i] = fmt.Sprintf(`\x%.2X`, b)
 	}
 
 	return fmt.Sprintf(`"%s"`, strings.Join(elms, ""))
-- 
2.43.0


From 17e53f238e23528f3a51338d7f51e45e5b57bcfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:30 +0000
Subject: [PATCH 02/53] fix: key the lookup tables of BytesValue fields by
 string

---
 templates/goshared/msg.go      | 2 +-
 templates/goshared/register.go | 4 ++++
 2 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/templates/goshared/msg.go b/templates/goshared/msg.go
index 4e09f77..e4c279e 100644
--- a/templates/goshared/msg.go
+++ b/templates/goshared/msg.go
@@ -142,7 +142,7 @@ var _ interface{
 	{{ end }}{{ end }}
 
 	{{ if has .Rules "NotIn" }}{{ if .Rules.NotIn }}
-		var {{ lookup .Field "NotInLookup" }} = map[{{ inType .Field .Rules.In }}]struct{}{
+		var {{ lookup .Field "NotInLookup" }} = map[{{ inType .Field .Rules.NotIn }}]struct{}{
 			{{- range .Rules.NotIn }}
 				{{ inKey $f . }}: {},
 			{{- end }}
diff --git a/templates/goshared/register.go b/templates/goshared/register.go
index 7de0b56..9049f10 100644
--- a/templates/goshared/register.go
+++ b/templates/goshared/register.go
@@ -217,6 +217,8 @@ func (fns goSharedFuncs) inType(f pgs.Field, x interface{}) string {
 		switch x.(type) {
 		case []*durationpb.Duration:
 			return "time.Duration"
+		case [][]byte:
+			return "string"
 		default:
 			return pgsgo.TypeName(fmt.Sprintf("%T", x)).Element().String()
 		}
@@ -240,6 +242,8 @@ func (fns goSharedFuncs) inKey(f pgs.Field, x interface{}) string {
 		case *durationpb.Duration:
 			dur := x.AsDuration()
 			return fns.lit(int64(dur))
+		case []byte:
+			return fns.byteStr(x)
 		default:
 			return fns.lit(x)
 		}
-- 
2.43.0


From 95dd5296478883945ec3fa0b28976185f67e7ff0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:30 +0000
Subject: [PATCH 03/53] fix: keep the map key used when no rule reports it

---
 templates/goshared/map.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/templates/goshared/map.go b/templates/goshared/map.go
index cadf990..1655ac7 100644
--- a/templates/goshared/map.go
+++ b/templates/goshared/map.go
@@ -37,7 +37,7 @@ const mapTpl = `
 
 	{{ if or $r.GetNoSparse (ne (.Elem "" "").Typ "none") (ne (.Key "" "").Typ "none") }}
 		for key, val := range {{ accessor . }} {
-			_ = val
+			_, _ = key, val
 
 			{{ if $r.GetNoSparse }}
 				if val == nil {
-- 
2.43.0


From ab6cc00b83e2566c76bda60e497c48f6996a10c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:30 +0000
Subject: [PATCH 04/53] fix: look for well-known formats in nested messages too

---
 templates/shared/well_known.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/templates/shared/well_known.go b/templates/shared/well_known.go
index 87f5e98..0747f16 100644
--- a/templates/shared/well_known.go
+++ b/templates/shared/well_known.go
@@ -14,7 +14,7 @@ const (
 )
 
 func FileNeeds(f pgs.File, wk WellKnown) bool {
-	for _, msg := range f.Messages() {
+	for _, msg := range f.AllMessages() {
 		needed := Needs(msg, wk)
 		if needed {
 			return true
-- 
2.43.0


From f6b5b50249b30041730b17d17d9ca6fedee1eb3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:40 +0000
Subject: [PATCH 05/53] fix: reject any, duration and timestamp rules on fields
 of other types

---
 module/checker.go | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/module/checker.go b/module/checker.go
index d8beabe..a604e8e 100644
--- a/module/checker.go
+++ b/module/checker.go
@@ -124,10 +124,13 @@ func (m *Module) CheckFieldRules(typ FieldType, rules *validate.FieldRules) {
 	case *validate.FieldRules_Map:
 		m.CheckMap(typ, r.Map)
 	case *validate.FieldRules_Any:
+		m.mustWellKnown(typ, pgs.AnyWKT)
 		m.CheckAny(typ, r.Any)
 	case *validate.FieldRules_Duration:
+		m.mustWellKnown(typ, pgs.DurationWKT)
 		m.CheckDuration(typ, r.Duration)
 	case *validate.FieldRules_Timestamp:
+		m.mustWellKnown(typ, pgs.TimestampWKT)
 		m.CheckTimestamp(typ, r.Timestamp)
 	case nil: // noop
 	default:
@@ -154,6 +157,17 @@ func (m *Module) MustType(typ FieldType, pt pgs.ProtoType, wrapper pgs.WellKnown
 	)
 }
 
+func (m *Module) mustWellKnown(typ FieldType, wkt pgs.WellKnownType) {
+	if typ, ok := typ.(Repeatable); ok {
+		m.Assert(!typ.IsRepeated(),
+			"repeated rule should be used for repeated fields")
+	}
+
+	emb := typ.Embed()
+	m.Assert(emb != nil && emb.WellKnownType() == wkt,
+		"rules for ", wkt, " used on a field of another type")
+}
+
 func (m *Module) CheckFloat(r *validate.FloatRules) {
 	m.checkNums(len(r.In), len(r.NotIn), r.Const, r.Lt, r.Lte, r.Gt, r.Gte)
 }
-- 
2.43.0


From ab05114b9e2f0e533747f1b4ca089365c55e6c62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:23 +0000
Subject: [PATCH 06/53] fix: enforce an empty bytes const

---
 templates/cc/const.go          | 2 +-
 templates/goshared/bytes.go    | 2 +-
 templates/java/bytes.go        | 4 ++--
 templates/shared/functions.go  | 1 +
 templates/shared/reflection.go | 7 +++++++
 5 files changed, 12 insertions(+), 4 deletions(-)

diff --git a/templates/cc/const.go b/templates/cc/const.go
index 2d6af9e..4b1121c 100644
--- a/templates/cc/const.go
+++ b/templates/cc/const.go
@@ -1,7 +1,7 @@
 package cc
 
 const constTpl = `{{ $r := .Rules }}
-	{{ if $r.Const }}
+	{{ if isSet $r.Const }}
 		if ({{ accessor . }} != {{ lit $r.GetConst }}) {
 			{{ err . "value must equal " (lit $r.GetConst) }}
 		}
diff --git a/templates/goshared/bytes.go b/templates/goshared/bytes.go
index e9caa66..a61acb2 100644
--- a/templates/goshared/bytes.go
+++ b/templates/goshared/bytes.go
@@ -81,7 +81,7 @@ const bytesTpl = `
 		}
 	{{ end }}
 
-	{{ if $r.Const }}
+	{{ if isSet $r.Const }}
 		if !bytes.Equal({{ accessor . }}, {{ lit $r.Const }}) {
 			err := {{ err . "value must equal " $r.Const }}
 			if !all { return err }
diff --git a/templates/java/bytes.go b/templates/java/bytes.go
index 52f9f4c..caea99a 100644
--- a/templates/java/bytes.go
+++ b/templates/java/bytes.go
@@ -1,7 +1,7 @@
 package java
 
 const bytesConstTpl = `{{ $f := .Field }}{{ $r := .Rules -}}
-{{- if $r.Const }}
+{{- if isSet $r.Const }}
 		private final com.google.protobuf.ByteString {{ constantName . "Const" }} = com.google.protobuf.ByteString.copyFrom({{ byteArrayLit $r.GetConst }});
 {{- end -}}
 {{- if $r.In }}
@@ -35,7 +35,7 @@ const bytesTpl = `{{ $f := .Field }}{{ $r := .Rules -}}
 {{- if $r.GetIgnoreEmpty }}
 			if ( !{{ accessor . }}.isEmpty() ) {
 {{- end -}}
-{{- if $r.Const }}
+{{- if isSet $r.Const }}
 			io.envoyproxy.pgv.ConstantValidation.constant("{{ $f.FullyQualifiedName }}", {{ accessor . }}, {{ constantName . "Const" }});
 {{- end -}}
 {{- if $r.Len }}
diff --git a/templates/shared/functions.go b/templates/shared/functions.go
index 2bf111a..dce971e 100644
--- a/templates/shared/functions.go
+++ b/templates/shared/functions.go
@@ -14,6 +14,7 @@ func RegisterFunctions(tpl *template.Template, params pgs.Parameters) {
 		"context":   rulesContext,
 		"render":    Render(tpl),
 		"has":       Has,
+		"isSet":     IsSet,
 		"needs":     Needs,
 		"fileneeds": FileNeeds,
 	})
diff --git a/templates/shared/reflection.go b/templates/shared/reflection.go
index 0e1272c..bcb993a 100644
--- a/templates/shared/reflection.go
+++ b/templates/shared/reflection.go
@@ -26,3 +26,10 @@ func Has(msg proto.Message, fld string) bool {
 	return val.IsValid() &&
 		val.FieldByName(fld).IsValid()
 }
+
+// IsSet returns true if an optional rule has been given a value: unlike the
+// truth of a template pipeline, it holds for empty byte strings too.
+func IsSet(rule interface{}) bool {
+	val := reflect.ValueOf(rule)
+	return val.IsValid() && !val.IsNil()
+}
-- 
2.43.0


From 86811b1b87e963642d7c292d7e51f4fee60c3466 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:24 +0000
Subject: [PATCH 07/53] fix: mark violations of map keys as such

---
 templates/shared/context.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/templates/shared/context.go b/templates/shared/context.go
index a374135..33cb247 100644
--- a/templates/shared/context.go
+++ b/templates/shared/context.go
@@ -52,6 +52,7 @@ func (ctx RuleContext) Key(name, idx string) (out RuleContext, err error) {
 	}
 
 	out.Field = ctx.Field
+	out.OnKey = true
 	out.AccessorOverride = name
 	out.Index = idx
 
-- 
2.43.0


From 877bf6141c9be4272f694491337fe231821583d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:36 +0000
Subject: [PATCH 08/53] fix: unwrap wrapper messages inside repeated and map
 fields

---
 templates/cc/register.go       |  2 +-
 templates/goshared/register.go |  2 +-
 templates/java/register.go     |  5 +++--
 templates/shared/context.go    | 11 +++++++++++
 4 files changed, 16 insertions(+), 4 deletions(-)

diff --git a/templates/cc/register.go b/templates/cc/register.go
index 615932c..3e31a29 100644
--- a/templates/cc/register.go
+++ b/templates/cc/register.go
@@ -404,7 +404,7 @@ func (fns CCFuncs) unwrap(ctx shared.RuleContext, name string) (shared.RuleConte
 	}
 
 	ctx.AccessorOverride = fmt.Sprintf("%s.%s()", name,
-		ctx.Field.Type().Embed().Fields()[0].Name())
+		ctx.Wrapped().Name())
 
 	return ctx, nil
 }
diff --git a/templates/goshared/register.go b/templates/goshared/register.go
index 9049f10..da7780a 100644
--- a/templates/goshared/register.go
+++ b/templates/goshared/register.go
@@ -296,7 +296,7 @@ func (fns goSharedFuncs) unwrap(ctx shared.RuleContext, name string) (shared.Rul
 	}
 
 	ctx.AccessorOverride = fmt.Sprintf("%s.Get%s()", name,
-		pgsgo.PGGUpperCamelCase(ctx.Field.Type().Embed().Fields()[0].Name()))
+		pgsgo.PGGUpperCamelCase(ctx.Wrapped().Name()))
 
 	return ctx, nil
 }
diff --git a/templates/java/register.go b/templates/java/register.go
index 534785a..5945057 100644
--- a/templates/java/register.go
+++ b/templates/java/register.go
@@ -498,12 +498,13 @@ func (fns javaFuncs) isOfStringType(f pgs.Field) bool {
 }
 
 func (fns javaFuncs) unwrap(ctx shared.RuleContext) (shared.RuleContext, error) {
+	wrapper := fns.accessor(ctx)
 	ctx, err := ctx.Unwrap("wrapped")
 	if err != nil {
 		return ctx, err
 	}
-	ctx.AccessorOverride = fmt.Sprintf("%s.get%s()", fns.fieldAccessor(ctx.Field),
-		fns.camelCase(ctx.Field.Type().Embed().Fields()[0].Name()))
+	ctx.AccessorOverride = fmt.Sprintf("%s.get%s()", wrapper,
+		fns.camelCase(ctx.Wrapped().Name()))
 	return ctx, nil
 }
 
diff --git a/templates/shared/context.go b/templates/shared/context.go
index 33cb247..3c5f828 100644
--- a/templates/shared/context.go
+++ b/templates/shared/context.go
@@ -105,10 +105,21 @@ func (ctx RuleContext) Unwrap(name string) (out RuleContext, err error) {
 		Rules:            ctx.Rules,
 		MessageRules:     ctx.MessageRules,
 		Typ:              ctx.WrapperTyp,
+		Index:            ctx.Index,
 		AccessorOverride: name,
 	}, nil
 }
 
+// Wrapped returns the field of the wrapper message that holds its value.
+func (ctx RuleContext) Wrapped() pgs.Field {
+	typ := ctx.Field.Type()
+	if typ.IsRepeated() || typ.IsMap() {
+		return typ.Element().Embed().Fields()[0]
+	}
+
+	return typ.Embed().Fields()[0]
+}
+
 func Render(tpl *template.Template) func(ctx RuleContext) (string, error) {
 	return func(ctx RuleContext) (string, error) {
 		var b bytes.Buffer
-- 
2.43.0


From 2ea9606fa057c774abf74f85ccb895b5f836ff80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:53 +0000
Subject: [PATCH 09/53] fix: look for well-known formats in wrappers inside
 repeated and map fields

---
 templates/shared/well_known.go | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/templates/shared/well_known.go b/templates/shared/well_known.go
index 0747f16..befc10b 100644
--- a/templates/shared/well_known.go
+++ b/templates/shared/well_known.go
@@ -34,7 +34,7 @@ func Needs(m pgs.Message, wk WellKnown) bool {
 		}
 
 		switch {
-		case f.Type().IsRepeated() && f.Type().Element().ProtoType() == pgs.StringT:
+		case f.Type().IsRepeated():
 			if strRulesNeeds(rules.GetRepeated().GetItems().GetString_(), wk) {
 				return true
 			}
@@ -43,8 +43,7 @@ func Needs(m pgs.Message, wk WellKnown) bool {
 				strRulesNeeds(rules.GetMap().GetKeys().GetString_(), wk) {
 				return true
 			}
-			if f.Type().Element().ProtoType() == pgs.StringT &&
-				strRulesNeeds(rules.GetMap().GetValues().GetString_(), wk) {
+			if strRulesNeeds(rules.GetMap().GetValues().GetString_(), wk) {
 				return true
 			}
 		case f.Type().ProtoType() == pgs.StringT:
-- 
2.43.0


From 54537417110b47e91c689207c4a8d87ab8e6d914 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:05 +0000
Subject: [PATCH 10/53] fix: refuse len together with min_len or max_len on
 bytes fields

---
 module/checker.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/module/checker.go b/module/checker.go
index a604e8e..df0c04b 100644
--- a/module/checker.go
+++ b/module/checker.go
@@ -245,6 +245,7 @@ func (m *Module) CheckString(r *validate.StringRules) {
 }
 
 func (m *Module) CheckBytes(r *validate.BytesRules) {
+	m.checkLen(r.Len, r.MinLen, r.MaxLen)
 	m.checkMinMax(r.MinLen, r.MaxLen)
 	m.checkIns(len(r.In), len(r.NotIn))
 	m.checkPattern(r.Pattern, len(r.In))
-- 
2.43.0


From f6b359cf124596ec2aaecd2132e811082df40e60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:08 +0000
Subject: [PATCH 11/53] fix: strip the module parameter only where it is the
 prefix of an output path

---
 module/validate.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/module/validate.go b/module/validate.go
index 1ca8510..693172c 100644
--- a/module/validate.go
+++ b/module/validate.go
@@ -51,7 +51,11 @@ func (m *Module) Execute(targets map[string]pgs.File, pkgs map[string]pgs.Packag
 			// implementation-specific FilePathFor implementations.
 			// Ex: Don't generate Java validators for files that don't reference PGV.
 			if out != nil {
-				outPath := strings.TrimLeft(strings.ReplaceAll(out.String(), module, ""), "/")
+				outPath := out.String()
+				if module != "" {
+					outPath = strings.TrimPrefix(outPath, strings.TrimRight(module, "/")+"/")
+				}
+				outPath = strings.TrimLeft(outPath, "/")
 
 				if opts := f.Descriptor().GetOptions(); opts != nil && opts.GetJavaMultipleFiles() && lang == "java" {
 					// TODO: Only Java supports multiple file generation. If more languages add multiple file generation
-- 
2.43.0


From 23f36e94d69093d769a7ea7eb01e93517b4c6ae9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:08 +0000
Subject: [PATCH 12/53] fix: name the Java validator of a message in a
 multiple-files proto after the message's class

---
 templates/java/register.go | 11 ++---------
 1 file changed, 2 insertions(+), 9 deletions(-)

diff --git a/templates/java/register.go b/templates/java/register.go
index 5945057..709da3a 100644
--- a/templates/java/register.go
+++ b/templates/java/register.go
@@ -161,15 +161,8 @@ func classNameFile(f pgs.File) string {
 }
 
 func classNameMessage(m pgs.Message) string {
-	className := m.Name().String()
-	// This is really silly, but when the multiple files option is true, protoc puts underscores in file names.
-	// When multiple files is false, underscores are stripped. Short of rewriting all the name sanitization
-	// logic for java, using "UnderscoreUnderscoreUnderscore" is an escape sequence seems to work with an extremely
-	// small likelihood of name conflict.
-	className = strings.Replace(className, "_", "UnderscoreUnderscoreUnderscore", -1)
-	className = sanitizeClassName(className)
-	className = strings.Replace(className, "UnderscoreUnderscoreUnderscore", "_", -1)
-	return className
+	// protoc gives the class of a message exactly the message's name
+	return m.Name().String()
 }
 
 func sanitizeClassName(className string) string {
-- 
2.43.0


From da4a6b21963cba0cec80b0e1e14152a2f8767efc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:08 +0000
Subject: [PATCH 13/53] fix: count nested types as conflicting with the Java
 outer class name

---
 templates/java/register.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/templates/java/register.go b/templates/java/register.go
index 709da3a..13a908e 100644
--- a/templates/java/register.go
+++ b/templates/java/register.go
@@ -262,13 +262,14 @@ func underscoreBetweenConsecutiveUppercase(name string) string {
 func appendOuterClassName(outerClassName string, file pgs.File) string {
 	conflict := false
 
-	for _, enum := range file.Enums() {
+	// protoc considers nested messages and enums too
+	for _, enum := range file.AllEnums() {
 		if enum.Name().String() == outerClassName {
 			conflict = true
 		}
 	}
 
-	for _, message := range file.Messages() {
+	for _, message := range file.AllMessages() {
 		if message.Name().String() == outerClassName {
 			conflict = true
 		}
-- 
2.43.0


From e94716ededea4e9baf4226b8ce45dbea7caa9748 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:51 +0000
Subject: [PATCH 14/53] fix: give no Java validator for an ignored message in a
 multiple-files proto

---
 templates/java/file.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/templates/java/file.go b/templates/java/file.go
index 567831c..4c29048 100644
--- a/templates/java/file.go
+++ b/templates/java/file.go
@@ -28,7 +28,9 @@ public class {{ classNameFile . }}Validator {
 @SuppressWarnings("all")
 public class {{ classNameMessage .}}Validator implements io.envoyproxy.pgv.ValidatorImpl<{{ qualifiedName . }}>{
 	public static io.envoyproxy.pgv.ValidatorImpl validatorFor(Class clazz) {
-		if (clazz.equals({{ qualifiedName . }}.class)) return new {{ simpleName .}}Validator();
+		{{ if not (ignored .) -}}
+		if (clazz.equals({{ qualifiedName . }}.class)) return new {{ classNameMessage .}}Validator();
+		{{- end }}
 		{{ range .AllMessages }}
 		{{ if not (ignored .) -}}
 		if (clazz.equals({{ qualifiedName . }}.class)) return new {{ simpleName .}}Validator();
-- 
2.43.0


From 9784625f35cd839bc21e09679eb8f4fb47cb19dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:51 +0000
Subject: [PATCH 15/53] fix: fall back instead of failing on Java messages
 without a validator

---
 .../main/java/io/envoyproxy/pgv/ReflectiveValidatorIndex.java | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/java/pgv-java-stub/src/main/java/io/envoyproxy/pgv/ReflectiveValidatorIndex.java b/java/pgv-java-stub/src/main/java/io/envoyproxy/pgv/ReflectiveValidatorIndex.java
index f9f7778..f025e90 100644
--- a/java/pgv-java-stub/src/main/java/io/envoyproxy/pgv/ReflectiveValidatorIndex.java
+++ b/java/pgv-java-stub/src/main/java/io/envoyproxy/pgv/ReflectiveValidatorIndex.java
@@ -48,6 +48,10 @@ public final class ReflectiveValidatorIndex implements ValidatorIndex {
         String validatorClassName = enclosingClass.getName() + "Validator";
         Class validatorClass = clazz.getClassLoader().loadClass(validatorClassName);
         ValidatorImpl impl = (ValidatorImpl) validatorClass.getDeclaredMethod("validatorFor", Class.class).invoke(null, clazz);
+        if (impl == null) {
+            // e.g. messages marked (validate.ignored)
+            return fallbackIndex.validatorFor(clazz);
+        }
 
         return proto -> impl.assertValid(proto, ReflectiveValidatorIndex.this);
     }
-- 
2.43.0


From 3a331f3eb31453b4cc5e302657c1b5a05925cb93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:51 +0000
Subject: [PATCH 16/53] fix: derive the Java outer class name from the file
 name the way protoc does

---
 templates/java/register.go | 59 ++++++++++++++------------------------
 1 file changed, 21 insertions(+), 38 deletions(-)

diff --git a/templates/java/register.go b/templates/java/register.go
index 13a908e..268593f 100644
--- a/templates/java/register.go
+++ b/templates/java/register.go
@@ -165,12 +165,28 @@ func classNameMessage(m pgs.Message) string {
 	return m.Name().String()
 }
 
+// sanitizeClassName mirrors protoc's conversion of file names to class names:
+// characters other than letters and digits are dropped, and a letter that
+// follows one of them or a digit is capitalized.
 func sanitizeClassName(className string) string {
-	className = makeInvalidClassnameCharactersUnderscores(className)
-	className = underscoreBetweenConsecutiveUppercase(className)
-	className = strcase.ToCamel(strcase.ToSnake(className))
-	className = upperCaseAfterNumber(className)
-	return className
+	var sb strings.Builder
+	capitalize := true
+	for _, c := range className {
+		switch {
+		case c >= '0' && c <= '9':
+			sb.WriteRune(c)
+			capitalize = true
+		case c >= 'a' && c <= 'z', c >= 'A' && c <= 'Z':
+			if capitalize {
+				c = unicode.ToUpper(c)
+			}
+			sb.WriteRune(c)
+			capitalize = false
+		default:
+			capitalize = true
+		}
+	}
+	return sb.String()
 }
 
 func javaPackage(file pgs.File) string {
@@ -211,24 +227,6 @@ func (fns javaFuncs) qualifiedName(entity pgs.Entity) string {
 	return entity.Name().String()
 }
 
-// Replace invalid identifier characters with an underscore
-func makeInvalidClassnameCharactersUnderscores(name string) string {
-	var sb string
-	for _, c := range name {
-		switch {
-		case c >= '0' && c <= '9':
-			sb += string(c)
-		case c >= 'a' && c <= 'z':
-			sb += string(c)
-		case c >= 'A' && c <= 'Z':
-			sb += string(c)
-		default:
-			sb += "_"
-		}
-	}
-	return sb
-}
-
 func upperCaseAfterNumber(name string) string {
 	var sb string
 	var p rune
@@ -244,21 +242,6 @@ func upperCaseAfterNumber(name string) string {
 	return sb
 }
 
-func underscoreBetweenConsecutiveUppercase(name string) string {
-	var sb string
-	var p rune
-
-	for _, c := range name {
-		if unicode.IsUpper(p) && unicode.IsUpper(c) {
-			sb += "_" + string(c)
-		} else {
-			sb += string(c)
-		}
-		p = c
-	}
-	return sb
-}
-
 func appendOuterClassName(outerClassName string, file pgs.File) string {
 	conflict := false
 
-- 
2.43.0


From 06c2567144606dbdf0d550cf379f708c537cf4b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:31 +0000
Subject: [PATCH 17/53] fix: declare the lookup tables and patterns of element
 and key rules

A list (in, not_in) or a pattern in the rules of list items or map keys or
values referred to a table that was only declared for some types, keys and
values of a map shared one pattern, and an entry listed twice made a
duplicate map key: the generated Go code did not compile.
---
 templates/goshared/any.go      |  4 +-
 templates/goshared/bytes.go    |  6 +--
 templates/goshared/duration.go |  4 +-
 templates/goshared/in.go       | 27 +++++++++++-
 templates/goshared/msg.go      | 81 ++++------------------------------
 templates/goshared/register.go | 80 ++++++++++++++++++---------------
 templates/goshared/repeated.go |  6 +--
 templates/goshared/string.go   |  2 +-
 8 files changed, 88 insertions(+), 122 deletions(-)

diff --git a/templates/goshared/any.go b/templates/goshared/any.go
index a120592..15817da 100644
--- a/templates/goshared/any.go
+++ b/templates/goshared/any.go
@@ -5,13 +5,13 @@ const anyTpl = `{{ $f := .Field }}{{ $r := .Rules }}
 
 	if a := {{ accessor . }}; a != nil {
 		{{ if $r.In }}
-			if _, ok := {{ lookup $f "InLookup" }}[a.GetTypeUrl()]; !ok {
+			if _, ok := {{ lookup . "InLookup" }}[a.GetTypeUrl()]; !ok {
 				err := {{ err . "type URL must be in list " $r.In }}
 				if !all { return err }
 				errors = append(errors, err)
 			}
 		{{ else if $r.NotIn }}
-			if _, ok := {{ lookup $f "NotInLookup" }}[a.GetTypeUrl()]; ok {
+			if _, ok := {{ lookup . "NotInLookup" }}[a.GetTypeUrl()]; ok {
 				err := {{ err . "type URL must not be in list " $r.NotIn }}
 				if !all { return err }
 				errors = append(errors, err)
diff --git a/templates/goshared/bytes.go b/templates/goshared/bytes.go
index a61acb2..cee7b5e 100644
--- a/templates/goshared/bytes.go
+++ b/templates/goshared/bytes.go
@@ -68,13 +68,13 @@ const bytesTpl = `
 	{{ end }}
 
 	{{ if $r.In }}
-		if _, ok := {{ lookup $f "InLookup" }}[string({{ accessor . }})]; !ok {
+		if _, ok := {{ lookup . "InLookup" }}[string({{ accessor . }})]; !ok {
 			err := {{ err . "value must be in list " $r.In }}
 			if !all { return err }
 			errors = append(errors, err)
 		}
 	{{ else if $r.NotIn }}
-		if _, ok := {{ lookup $f "NotInLookup" }}[string({{ accessor . }})]; ok {
+		if _, ok := {{ lookup . "NotInLookup" }}[string({{ accessor . }})]; ok {
 			err := {{ err . "value must not be in list " $r.NotIn }}
 			if !all { return err }
 			errors = append(errors, err)
@@ -110,7 +110,7 @@ const bytesTpl = `
 	{{ end }}
 
 	{{ if $r.Pattern }}
-	if !{{ lookup $f "Pattern" }}.Match({{ accessor . }}) {
+	if !{{ lookup . "Pattern" }}.Match({{ accessor . }}) {
 		err := {{ err . "value does not match regex pattern " (lit $r.GetPattern) }}
 		if !all { return err }
 		errors = append(errors, err)
diff --git a/templates/goshared/duration.go b/templates/goshared/duration.go
index c039ab5..758dbb0 100644
--- a/templates/goshared/duration.go
+++ b/templates/goshared/duration.go
@@ -103,13 +103,13 @@ const durationcmpTpl = `{{ $f := .Field }}{{ $r := .Rules }}
 
 
 			{{ if $r.In }}
-				if _, ok := {{ lookup $f "InLookup" }}[dur]; !ok {
+				if _, ok := {{ lookup . "InLookup" }}[dur]; !ok {
 					err := {{ err . "value must be in list " $r.In }}
 					if !all { return err }
 					errors = append(errors, err)
 				}
 			{{ else if $r.NotIn }}
-				if _, ok := {{ lookup $f "NotInLookup" }}[dur]; ok {
+				if _, ok := {{ lookup . "NotInLookup" }}[dur]; ok {
 					err := {{ err . "value must not be in list " $r.NotIn }}
 					if !all { return err }
 					errors = append(errors, err)
diff --git a/templates/goshared/in.go b/templates/goshared/in.go
index b6fdfa4..5dc9324 100644
--- a/templates/goshared/in.go
+++ b/templates/goshared/in.go
@@ -2,16 +2,39 @@ package goshared
 
 const inTpl = `{{ $f := .Field }}{{ $r := .Rules }}
 	{{ if $r.In }}
-		if _, ok := {{ lookup $f "InLookup" }}[{{ accessor . }}]; !ok {
+		if _, ok := {{ lookup . "InLookup" }}[{{ accessor . }}]; !ok {
 			err := {{ err . "value must be in list " $r.In }}
 			if !all { return err }
 			errors = append(errors, err)
 		}
 	{{ else if $r.NotIn }}
-		if _, ok := {{ lookup $f "NotInLookup" }}[{{ accessor . }}]; ok {
+		if _, ok := {{ lookup . "NotInLookup" }}[{{ accessor . }}]; ok {
 			err := {{ err . "value must not be in list " $r.NotIn }}
 			if !all { return err }
 			errors = append(errors, err)
 		}
 	{{ end }}
 `
+
+// lookupsTpl declares the tables and patterns the rules of a context refer to.
+const lookupsTpl = `
+	{{ if has .Rules "In" }}{{ if .Rules.In }}
+		var {{ lookup . "InLookup" }} = map[{{ inType . .Rules.In }}]struct{}{
+			{{- range inKeys .Rules.In }}
+				{{ . }}: {},
+			{{- end }}
+		}
+	{{ end }}{{ end }}
+
+	{{ if has .Rules "NotIn" }}{{ if .Rules.NotIn }}
+		var {{ lookup . "NotInLookup" }} = map[{{ inType . .Rules.NotIn }}]struct{}{
+			{{- range inKeys .Rules.NotIn }}
+				{{ . }}: {},
+			{{- end }}
+		}
+	{{ end }}{{ end }}
+
+	{{ if has .Rules "Pattern" }}{{ if .Rules.Pattern }}
+		var {{ lookup . "Pattern" }} = regexp.MustCompile({{ lit .Rules.GetPattern }})
+	{{ end }}{{ end }}
+`
diff --git a/templates/goshared/msg.go b/templates/goshared/msg.go
index e4c279e..4f86a5c 100644
--- a/templates/goshared/msg.go
+++ b/templates/goshared/msg.go
@@ -132,79 +132,14 @@ var _ interface{
 	ErrorName() string
 } = {{ errname . }}{}
 
-{{ range .Fields }}{{ with (context .) }}{{ $f := .Field }}
-	{{ if has .Rules "In" }}{{ if .Rules.In }}
-		var {{ lookup .Field "InLookup" }} = map[{{ inType .Field .Rules.In }}]struct{}{
-			{{- range .Rules.In }}
-				{{ inKey $f . }}: {},
-			{{- end }}
-		}
-	{{ end }}{{ end }}
-
-	{{ if has .Rules "NotIn" }}{{ if .Rules.NotIn }}
-		var {{ lookup .Field "NotInLookup" }} = map[{{ inType .Field .Rules.NotIn }}]struct{}{
-			{{- range .Rules.NotIn }}
-				{{ inKey $f . }}: {},
-			{{- end }}
-		}
-	{{ end }}{{ end }}
-
-	{{ if has .Rules "Pattern"}}{{ if .Rules.Pattern }}
-		var {{ lookup .Field "Pattern" }} = regexp.MustCompile({{ lit .Rules.GetPattern }})
-	{{ end }}{{ end }}
-
-	{{ if has .Rules "Items"}}{{ if .Rules.Items }}
-	{{ if has .Rules.Items.GetString_ "Pattern" }} {{ if .Rules.Items.GetString_.Pattern }}
-		var {{ lookup .Field "Pattern" }} = regexp.MustCompile({{ lit .Rules.Items.GetString_.GetPattern }})
-	{{ end }}{{ end }}
-	{{ end }}{{ end }}
-
-	{{ if has .Rules "Items"}}{{ if .Rules.Items }}
-	{{ if has .Rules.Items.GetString_ "In" }} {{ if .Rules.Items.GetString_.In }}
-		var {{ lookup .Field "InLookup" }} = map[string]struct{}{
-			{{- range .Rules.Items.GetString_.In }}
-				{{ inKey $f . }}: {},
-			{{- end }}
-		}
-	{{ end }}{{ end }}
-	{{ if has .Rules.Items.GetEnum "In" }} {{ if .Rules.Items.GetEnum.In }}
-		var {{ lookup .Field "InLookup" }} = map[{{ inType .Field .Rules.Items.GetEnum.In }}]struct{}{
-			{{- range .Rules.Items.GetEnum.In }}
-				{{ inKey $f . }}: {},
-			{{- end }}
-		}
-	{{ end }}{{ end }}
-	{{ end }}{{ end }}
-
-	{{ if has .Rules "Items"}}{{ if .Rules.Items }}
-	{{ if has .Rules.Items.GetString_ "NotIn" }} {{ if .Rules.Items.GetString_.NotIn }}
-		var {{ lookup .Field "NotInLookup" }} = map[string]struct{}{
-			{{- range .Rules.Items.GetString_.NotIn }}
-				{{ inKey $f . }}: {},
-			{{- end }}
-		}
-	{{ end }}{{ end }}
-	{{ if has .Rules.Items.GetEnum "NotIn" }} {{ if .Rules.Items.GetEnum.NotIn }}
-		var {{ lookup .Field "NotInLookup" }} = map[{{ inType .Field .Rules.Items.GetEnum.NotIn }}]struct{}{
-			{{- range .Rules.Items.GetEnum.NotIn }}
-				{{ inKey $f . }}: {},
-			{{- end }}
-		}
-	{{ end }}{{ end }}
-	{{ end }}{{ end }}
-
-	{{ if has .Rules "Keys"}}{{ if .Rules.Keys }}
-	{{ if has .Rules.Keys.GetString_ "Pattern" }} {{ if .Rules.Keys.GetString_.Pattern }}
-		var {{ lookup .Field "Pattern" }} = regexp.MustCompile({{ lit .Rules.Keys.GetString_.GetPattern }})
-	{{ end }}{{ end }}
-	{{ end }}{{ end }}
-
-	{{ if has .Rules "Values"}}{{ if .Rules.Values }}
-	{{ if has .Rules.Values.GetString_ "Pattern" }} {{ if .Rules.Values.GetString_.Pattern }}
-		var {{ lookup .Field "Pattern" }} = regexp.MustCompile({{ lit .Rules.Values.GetString_.GetPattern }})
-	{{ end }}{{ end }}
-	{{ end }}{{ end }}
-
+{{ range .Fields }}{{ with (context .) }}
+	{{ template "lookups" . }}
+	{{ if and .Field.Type.IsRepeated (eq .Typ "repeated") }}
+		{{ template "lookups" (.Elem "" "") }}
+	{{ else if and .Field.Type.IsMap (eq .Typ "map") }}
+		{{ template "lookups" (.Key "" "") }}
+		{{ template "lookups" (.Elem "" "") }}
+	{{ end }}
 {{ end }}{{ end }}
 {{- end -}}
 `
diff --git a/templates/goshared/register.go b/templates/goshared/register.go
index da7780a..16951fe 100644
--- a/templates/goshared/register.go
+++ b/templates/goshared/register.go
@@ -32,7 +32,7 @@ func Register(tpl *template.Template, params pgs.Parameters) {
 		"errIdxCause":   fns.errIdxCause,
 		"errname":       fns.errName,
 		"multierrname":  fns.multiErrName,
-		"inKey":         fns.inKey,
+		"inKeys":        fns.inKeys,
 		"inType":        fns.inType,
 		"isBytes":       fns.isBytes,
 		"lit":           fns.lit,
@@ -54,6 +54,7 @@ func Register(tpl *template.Template, params pgs.Parameters) {
 	template.Must(tpl.New("const").Parse(constTpl))
 	template.Must(tpl.New("ltgt").Parse(ltgtTpl))
 	template.Must(tpl.New("in").Parse(inTpl))
+	template.Must(tpl.New("lookups").Parse(lookupsTpl))
 
 	template.Must(tpl.New("none").Parse(noneTpl))
 	template.Must(tpl.New("float").Parse(numTpl))
@@ -154,11 +155,15 @@ func (fns goSharedFuncs) errIdx(ctx shared.RuleContext, idx string, reason ...in
 	return fns.errIdxCause(ctx, idx, "nil", reason...)
 }
 
-func (fns goSharedFuncs) lookup(f pgs.Field, name string) string {
+func (fns goSharedFuncs) lookup(ctx shared.RuleContext, name string) string {
+	if ctx.OnKey {
+		name = "Key" + name
+	}
+
 	return fmt.Sprintf(
 		"_%s_%s_%s",
-		fns.Name(f.Message()),
-		fns.Name(f),
+		fns.Name(ctx.Field.Message()),
+		fns.Name(ctx.Field),
 		name,
 	)
 }
@@ -209,44 +214,47 @@ func (fns goSharedFuncs) oneofTypeName(f pgs.Field) pgsgo.TypeName {
 	return pgsgo.TypeName(fns.OneofOption(f)).Pointer()
 }
 
-func (fns goSharedFuncs) inType(f pgs.Field, x interface{}) string {
-	switch f.Type().ProtoType() {
-	case pgs.BytesT:
+func (fns goSharedFuncs) inType(ctx shared.RuleContext, x interface{}) string {
+	switch x.(type) {
+	case []*durationpb.Duration:
+		return "time.Duration"
+	case [][]byte:
 		return "string"
-	case pgs.MessageT:
-		switch x.(type) {
-		case []*durationpb.Duration:
-			return "time.Duration"
-		case [][]byte:
-			return "string"
-		default:
-			return pgsgo.TypeName(fmt.Sprintf("%T", x)).Element().String()
-		}
-	case pgs.EnumT:
-		if f.Type().IsRepeated() {
-			return strings.TrimLeft(fns.Type(f).String(), "[]")
-		} else {
-			return fns.Type(f).String()
-		}
 	default:
-		return fns.Type(f).String()
+		typ := ctx.Field.Type()
+		if typ.IsEnum() || !ctx.OnKey && typ.Element() != nil && typ.Element().IsEnum() {
+			return fns.Type(ctx.Field).Element().Value().String()
+		}
+		return pgsgo.TypeName(fmt.Sprintf("%T", x)).Element().String()
 	}
 }
 
-func (fns goSharedFuncs) inKey(f pgs.Field, x interface{}) string {
-	switch f.Type().ProtoType() {
-	case pgs.BytesT:
-		return fns.byteStr(x.([]byte))
-	case pgs.MessageT:
-		switch x := x.(type) {
-		case *durationpb.Duration:
-			dur := x.AsDuration()
-			return fns.lit(int64(dur))
-		case []byte:
-			return fns.byteStr(x)
-		default:
-			return fns.lit(x)
+// inKeys returns the distinct keys of the lookup table of a list.
+func (fns goSharedFuncs) inKeys(list interface{}) []string {
+	val := reflect.ValueOf(list)
+	seen := make(map[string]struct{}, val.Len())
+
+	var out []string
+	for i, l := 0, val.Len(); i < l; i++ {
+		key := fns.inKey(val.Index(i).Interface())
+		if _, ok := seen[key]; ok {
+			continue
 		}
+
+		seen[key] = struct{}{}
+		out = append(out, key)
+	}
+
+	return out
+}
+
+func (fns goSharedFuncs) inKey(x interface{}) string {
+	switch x := x.(type) {
+	case *durationpb.Duration:
+		dur := x.AsDuration()
+		return fns.lit(int64(dur))
+	case []byte:
+		return fns.byteStr(x)
 	default:
 		return fns.lit(x)
 	}
diff --git a/templates/goshared/repeated.go b/templates/goshared/repeated.go
index a98f350..c5a7ce5 100644
--- a/templates/goshared/repeated.go
+++ b/templates/goshared/repeated.go
@@ -36,7 +36,7 @@ const repTpl = `
 	{{ end }}
 
 	{{ if $r.GetUnique }}
-		{{ lookup $f "Unique" }} := {{ if isBytes $f.Type.Element -}}
+		{{ lookup . "Unique" }} := {{ if isBytes $f.Type.Element -}}
 			make(map[string]struct{}, len({{ accessor . }}))
 		{{ else -}}
 			make(map[{{ (typ $f).Element }}]struct{}, len({{ accessor . }}))
@@ -47,12 +47,12 @@ const repTpl = `
 		for idx, item := range {{ accessor . }} {
 			_, _ = idx, item
 			{{ if $r.GetUnique }}
-				if _, exists := {{ lookup $f "Unique" }}[{{ if isBytes $f.Type.Element }}string(item){{ else }}item{{ end }}]; exists {
+				if _, exists := {{ lookup . "Unique" }}[{{ if isBytes $f.Type.Element }}string(item){{ else }}item{{ end }}]; exists {
 					err := {{ errIdx . "idx" "repeated value must contain unique items" }}
 					if !all { return err }
 					errors = append(errors, err)
 				} else {
-					{{ lookup $f "Unique" }}[{{ if isBytes $f.Type.Element }}string(item){{ else }}item{{ end }}] = struct{}{}
+					{{ lookup . "Unique" }}[{{ if isBytes $f.Type.Element }}string(item){{ else }}item{{ end }}] = struct{}{}
 				}
 			{{ end }}
 
diff --git a/templates/goshared/string.go b/templates/goshared/string.go
index 8df69b3..d64ba92 100644
--- a/templates/goshared/string.go
+++ b/templates/goshared/string.go
@@ -176,7 +176,7 @@ const strTpl = `
 	{{ end }}
 
 	{{ if $r.Pattern }}
-		if !{{ lookup $f "Pattern" }}.MatchString({{ accessor . }}) {
+		if !{{ lookup . "Pattern" }}.MatchString({{ accessor . }}) {
 			err := {{ err . "value does not match regex pattern " (lit $r.GetPattern) }}
 			if !all { return err }
 			errors = append(errors, err)
-- 
2.43.0


From dfcf7378f6637c62e39bd2a2075e8e3184face23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:31 +0000
Subject: [PATCH 18/53] fix: import the Go packages of all enums declared
 elsewhere

The import was left out for the elements of lists and maps, and for an enum
of another Go package with the same package name or proto package.
---
 templates/goshared/register.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/templates/goshared/register.go b/templates/goshared/register.go
index 16951fe..b228764 100644
--- a/templates/goshared/register.go
+++ b/templates/goshared/register.go
@@ -318,7 +318,12 @@ func (fns goSharedFuncs) externalEnums(file pgs.File) []pgs.Enum {
 
 	for _, msg := range file.AllMessages() {
 		for _, fld := range msg.Fields() {
-			if en := fld.Type().Enum(); fld.Type().IsEnum() && en.Package().ProtoName() != fld.Package().ProtoName() && fns.PackageName(en) != fns.PackageName(fld) {
+			en := fld.Type().Enum()
+			if el := fld.Type().Element(); el != nil {
+				en = el.Enum()
+			}
+
+			if en != nil && fns.ImportPath(en) != fns.ImportPath(fld) {
 				out = append(out, en)
 			}
 		}
-- 
2.43.0


From ceef390745196611df0ee3dc588ce11826594027 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:31 +0000
Subject: [PATCH 19/53] fix: derive a valid identifier from a file name with
 dots or punctuation

---
 templates/goshared/register.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/templates/goshared/register.go b/templates/goshared/register.go
index b228764..814413e 100644
--- a/templates/goshared/register.go
+++ b/templates/goshared/register.go
@@ -5,6 +5,7 @@ import (
 	"reflect"
 	"strings"
 	"text/template"
+	"unicode"
 
 	"github.com/iancoleman/strcase"
 	"google.golang.org/protobuf/types/known/durationpb"
@@ -343,5 +344,10 @@ func (fns goSharedFuncs) enumPackages(enums []pgs.Enum) map[pgs.FilePath]pgs.Nam
 }
 
 func (fns goSharedFuncs) snakeCase(name string) string {
-	return strcase.ToSnake(name)
+	return strings.Map(func(r rune) rune {
+		if r == '_' || unicode.IsLetter(r) || unicode.IsDigit(r) {
+			return r
+		}
+		return '_'
+	}, strcase.ToSnake(name))
 }
-- 
2.43.0


From 2b11c9b43275d88180c4db120812715f97927622 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:33 +0000
Subject: [PATCH 20/53] fix: look a proto2 enum up in the table of its type,
 not of a pointer to it

---
 templates/goshared/enum.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/templates/goshared/enum.go b/templates/goshared/enum.go
index ffd6dc6..eb8f728 100644
--- a/templates/goshared/enum.go
+++ b/templates/goshared/enum.go
@@ -6,7 +6,7 @@ const enumTpl = `
 		{{ template "in" . }}
 
 		{{ if $r.GetDefinedOnly }}
-			if _, ok := {{ (typ $f).Element }}_name[int32({{ accessor . }})]; !ok {
+			if _, ok := {{ (typ $f).Element.Value }}_name[int32({{ accessor . }})]; !ok {
 				err := {{ err . "value must be one of the defined enum values" }}
 				if !all { return err }
 				errors = append(errors, err)
-- 
2.43.0


From d5c229fe6485c9a3a8bbfc4ffae9fc7ecd99abdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:09 +0000
Subject: [PATCH 21/53] fix: derive the Java type of rule constants from the
 rules

---
 templates/java/register.go | 114 ++++++++-----------------------------
 1 file changed, 24 insertions(+), 90 deletions(-)

diff --git a/templates/java/register.go b/templates/java/register.go
index 268593f..e2a004d 100644
--- a/templates/java/register.go
+++ b/templates/java/register.go
@@ -305,111 +305,45 @@ func (fns javaFuncs) fieldName(ctx shared.RuleContext) string {
 }
 
 func (fns javaFuncs) javaTypeFor(ctx shared.RuleContext) string {
-	t := ctx.Field.Type()
-
-	// Map key and value types
-	if t.IsMap() {
-		switch ctx.AccessorOverride {
-		case "key":
-			return fns.javaTypeForProtoType(t.Key().ProtoType())
-		case "value":
-			return fns.javaTypeForProtoType(t.Element().ProtoType())
-		}
-	}
-
-	if t.IsEmbed() {
-		if embed := t.Embed(); embed.IsWellKnown() {
-			switch embed.WellKnownType() {
-			case pgs.AnyWKT:
-				return "String"
-			case pgs.DurationWKT:
-				return "com.google.protobuf.Duration"
-			case pgs.TimestampWKT:
-				return "com.google.protobuf.Timestamp"
-			case pgs.Int32ValueWKT, pgs.UInt32ValueWKT:
-				return "Integer"
-			case pgs.Int64ValueWKT, pgs.UInt64ValueWKT:
-				return "Long"
-			case pgs.DoubleValueWKT:
-				return "Double"
-			case pgs.FloatValueWKT:
-				return "Float"
-			}
-		}
-	}
-
-	if t.IsRepeated() {
-		if t.ProtoType() == pgs.MessageT {
-			return fns.qualifiedName(t.Element().Embed())
-		} else if t.ProtoType() == pgs.EnumT {
-			return fns.qualifiedName(t.Element().Enum())
-		}
-	}
-
-	if t.IsEnum() {
-		return fns.qualifiedName(t.Enum())
-	}
-
-	return fns.javaTypeForProtoType(t.ProtoType())
-}
-
-func (fns javaFuncs) javaTypeForProtoType(t pgs.ProtoType) string {
-
-	switch t {
-	case pgs.Int32T, pgs.UInt32T, pgs.SInt32, pgs.Fixed32T, pgs.SFixed32:
+	// the rules tell the type of a value wherever it is found: in the field
+	// itself, its elements, keys or values, or in a wrapper message
+	switch ctx.Typ {
+	case "int32", "uint32", "sint32", "fixed32", "sfixed32":
 		return "Integer"
-	case pgs.Int64T, pgs.UInt64T, pgs.SInt64, pgs.Fixed64T, pgs.SFixed64:
+	case "int64", "uint64", "sint64", "fixed64", "sfixed64":
 		return "Long"
-	case pgs.DoubleT:
+	case "double":
 		return "Double"
-	case pgs.FloatT:
+	case "float":
 		return "Float"
-	case pgs.BoolT:
+	case "bool":
 		return "Boolean"
-	case pgs.StringT:
+	case "string", "any":
 		return "String"
-	case pgs.BytesT:
+	case "bytes":
 		return "com.google.protobuf.ByteString"
+	case "duration":
+		return "com.google.protobuf.Duration"
+	case "timestamp":
+		return "com.google.protobuf.Timestamp"
+	case "enum":
+		t := ctx.Field.Type()
+		if t.IsRepeated() || t.IsMap() {
+			return fns.qualifiedName(t.Element().Enum())
+		}
+		return fns.qualifiedName(t.Enum())
 	default:
 		return "Object"
 	}
 }
 
 func (fns javaFuncs) javaTypeLiteralSuffixFor(ctx shared.RuleContext) string {
-	t := ctx.Field.Type()
-
-	if t.IsMap() {
-		switch ctx.AccessorOverride {
-		case "key":
-			return fns.javaTypeLiteralSuffixForPrototype(t.Key().ProtoType())
-		case "value":
-			return fns.javaTypeLiteralSuffixForPrototype(t.Element().ProtoType())
-		}
-	}
-
-	if t.IsEmbed() {
-		if embed := t.Embed(); embed.IsWellKnown() {
-			switch embed.WellKnownType() {
-			case pgs.Int64ValueWKT, pgs.UInt64ValueWKT:
-				return "L"
-			case pgs.FloatValueWKT:
-				return "F"
-			case pgs.DoubleValueWKT:
-				return "D"
-			}
-		}
-	}
-
-	return fns.javaTypeLiteralSuffixForPrototype(t.ProtoType())
-}
-
-func (fns javaFuncs) javaTypeLiteralSuffixForPrototype(t pgs.ProtoType) string {
-	switch t {
-	case pgs.Int64T, pgs.UInt64T, pgs.SInt64, pgs.Fixed64T, pgs.SFixed64:
+	switch fns.javaTypeFor(ctx) {
+	case "Long":
 		return "L"
-	case pgs.FloatT:
+	case "Float":
 		return "F"
-	case pgs.DoubleT:
+	case "Double":
 		return "D"
 	default:
 		return ""
-- 
2.43.0


From 0477e30799a29ad400b704670aa9ac5d41eac8d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:35 +0000
Subject: [PATCH 22/53] fix: escape the strings of Java string rules

---
 templates/java/any.go      |  4 ++--
 templates/java/register.go | 13 +++++--------
 templates/java/string.go   | 14 +++++++-------
 3 files changed, 14 insertions(+), 17 deletions(-)

diff --git a/templates/java/any.go b/templates/java/any.go
index e7ec579..ec7f6e7 100644
--- a/templates/java/any.go
+++ b/templates/java/any.go
@@ -4,14 +4,14 @@ const anyConstTpl = `{{ $f := .Field }}{{ $r := .Rules }}
 {{- if $r.In }}
 		private final String[] {{ constantName . "In" }} = new String[]{
 			{{- range $r.In }}
-			"{{ . }}",
+			{{ javaStringEscape . }},
 			{{- end }}
 		};
 {{- end -}}
 {{- if $r.NotIn }}
 		private final String[] {{ constantName . "NotIn" }} = new String[]{
 			{{- range $r.NotIn }}
-			"{{ . }}",
+			{{ javaStringEscape . }},
 			{{- end }}
 		};
 {{- end -}}`
diff --git a/templates/java/register.go b/templates/java/register.go
index e2a004d..857982c 100644
--- a/templates/java/register.go
+++ b/templates/java/register.go
@@ -2,6 +2,7 @@ package java
 
 import (
 	"bytes"
+	"encoding/json"
 	"fmt"
 	"os"
 	"strings"
@@ -350,14 +351,10 @@ func (fns javaFuncs) javaTypeLiteralSuffixFor(ctx shared.RuleContext) string {
 	}
 }
 
-func (fns javaFuncs) javaStringEscape(s string) string {
-	s = fmt.Sprintf("%q", s)
-	s = s[1 : len(s)-1]
-	s = strings.Replace(s, `\u00`, `\x`, -1)
-	s = strings.Replace(s, `\x`, `\\x`, -1)
-	// s = strings.Replace(s, `\`, `\\`, -1)
-	s = strings.Replace(s, `"`, `\"`, -1)
-	return `"` + s + `"`
+func (fns javaFuncs) javaStringEscape(s string) (string, error) {
+	// every JSON string literal is a Java string literal of the same value
+	lit, err := json.Marshal(s)
+	return string(lit), err
 }
 
 func (fns javaFuncs) camelCase(name pgs.Name) string {
diff --git a/templates/java/string.go b/templates/java/string.go
index 2a11215..9dd6699 100644
--- a/templates/java/string.go
+++ b/templates/java/string.go
@@ -4,14 +4,14 @@ const stringConstTpl = `{{ $f := .Field }}{{ $r := .Rules -}}
 {{- if $r.In }}
 		private final {{ javaTypeFor . }}[] {{ constantName . "In" }} = new {{ javaTypeFor . }}[]{
 			{{- range $r.In -}}
-				"{{- sprintf "%v" . -}}",
+				{{- javaStringEscape . -}},
 			{{- end -}}
 		};
 {{- end -}}
 {{- if $r.NotIn }}
 		private final {{ javaTypeFor . }}[] {{ constantName . "NotIn" }} = new {{ javaTypeFor . }}[]{
 			{{- range $r.NotIn -}}
-				"{{- sprintf "%v" . -}}",
+				{{- javaStringEscape . -}},
 			{{- end -}}
 		};
 {{- end -}}
@@ -24,7 +24,7 @@ const stringTpl = `{{ $f := .Field }}{{ $r := .Rules -}}
 			if ( !{{ accessor . }}.isEmpty() ) {
 {{- end -}}
 {{- if $r.Const }}
-			io.envoyproxy.pgv.ConstantValidation.constant("{{ $f.FullyQualifiedName }}", {{ accessor . }}, "{{ $r.GetConst }}");
+			io.envoyproxy.pgv.ConstantValidation.constant("{{ $f.FullyQualifiedName }}", {{ accessor . }}, {{ javaStringEscape $r.GetConst }});
 {{- end -}}
 {{- if $r.In }}
 			io.envoyproxy.pgv.CollectiveValidation.in("{{ $f.FullyQualifiedName }}", {{ accessor . }}, {{ constantName . "In" }});
@@ -54,16 +54,16 @@ const stringTpl = `{{ $f := .Field }}{{ $r := .Rules -}}
 			io.envoyproxy.pgv.StringValidation.pattern("{{ $f.FullyQualifiedName }}", {{ accessor . }}, {{ constantName . "Pattern" }});
 {{- end -}}
 {{- if $r.Prefix }}
-			io.envoyproxy.pgv.StringValidation.prefix("{{ $f.FullyQualifiedName }}", {{ accessor . }}, "{{ $r.GetPrefix }}");
+			io.envoyproxy.pgv.StringValidation.prefix("{{ $f.FullyQualifiedName }}", {{ accessor . }}, {{ javaStringEscape $r.GetPrefix }});
 {{- end -}}
 {{- if $r.Contains }}
-			io.envoyproxy.pgv.StringValidation.contains("{{ $f.FullyQualifiedName }}", {{ accessor . }}, "{{ $r.GetContains }}");
+			io.envoyproxy.pgv.StringValidation.contains("{{ $f.FullyQualifiedName }}", {{ accessor . }}, {{ javaStringEscape $r.GetContains }});
 {{- end -}}
 {{- if $r.NotContains }}
-			io.envoyproxy.pgv.StringValidation.notContains("{{ $f.FullyQualifiedName }}", {{ accessor . }}, "{{ $r.GetNotContains }}");
+			io.envoyproxy.pgv.StringValidation.notContains("{{ $f.FullyQualifiedName }}", {{ accessor . }}, {{ javaStringEscape $r.GetNotContains }});
 {{- end -}}
 {{- if $r.Suffix }}
-			io.envoyproxy.pgv.StringValidation.suffix("{{ $f.FullyQualifiedName }}", {{ accessor . }}, "{{ $r.GetSuffix }}");
+			io.envoyproxy.pgv.StringValidation.suffix("{{ $f.FullyQualifiedName }}", {{ accessor . }}, {{ javaStringEscape $r.GetSuffix }});
 {{- end -}}
 {{- if $r.GetEmail }}
 			io.envoyproxy.pgv.StringValidation.email("{{ $f.FullyQualifiedName }}", {{ accessor . }});
-- 
2.43.0


From 6ece6e371526c17b0947fd9bd6711f41ae4675ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:42 +0000
Subject: [PATCH 23/53] fix: treat unsigned numbers as such in Java number
 rules

---
 templates/java/num.go      | 24 ++++++-------
 templates/java/register.go | 71 ++++++++++++++++++++++++++------------
 2 files changed, 60 insertions(+), 35 deletions(-)

diff --git a/templates/java/num.go b/templates/java/num.go
index e0a25e9..ea4a732 100644
--- a/templates/java/num.go
+++ b/templates/java/num.go
@@ -2,31 +2,31 @@ package java
 
 const numConstTpl = `{{ $f := .Field }}{{ $r := .Rules -}}
 {{- if $r.Const }}
-		private final {{ javaTypeFor .}} {{ constantName . "Const" }} = {{ $r.GetConst }}{{ javaTypeLiteralSuffixFor . }};
+		private final {{ javaTypeFor .}} {{ constantName . "Const" }} = {{ numLit . $r.GetConst }};
 {{- end -}}
 {{- if $r.Lt }}
-		private final {{ javaTypeFor .}} {{ constantName . "Lt" }} = {{ $r.GetLt }}{{ javaTypeLiteralSuffixFor . }};
+		private final {{ javaTypeFor .}} {{ constantName . "Lt" }} = {{ numLit . $r.GetLt }};
 {{- end -}}
 {{- if $r.Lte }}
-		private final {{ javaTypeFor .}} {{ constantName . "Lte" }} = {{ $r.GetLte }}{{ javaTypeLiteralSuffixFor . }};
+		private final {{ javaTypeFor .}} {{ constantName . "Lte" }} = {{ numLit . $r.GetLte }};
 {{- end -}}
 {{- if $r.Gt }}
-		private final {{ javaTypeFor .}} {{ constantName . "Gt" }} = {{ $r.GetGt }}{{ javaTypeLiteralSuffixFor . }};
+		private final {{ javaTypeFor .}} {{ constantName . "Gt" }} = {{ numLit . $r.GetGt }};
 {{- end -}}
 {{- if $r.Gte }}
-		private final {{ javaTypeFor .}} {{ constantName . "Gte" }} = {{ $r.GetGte }}{{ javaTypeLiteralSuffixFor . }};
+		private final {{ javaTypeFor .}} {{ constantName . "Gte" }} = {{ numLit . $r.GetGte }};
 {{- end -}}
 {{- if $r.In }}
 		private final {{ javaTypeFor . }}[] {{ constantName . "In" }} = new {{ javaTypeFor . }}[]{
 			{{- range $r.In -}}
-				{{- sprintf "%v" . -}}{{ javaTypeLiteralSuffixFor $ }},
+				{{- numLit $ . -}},
 			{{- end -}}
 		};
 {{- end -}}
 {{- if $r.NotIn }}
 		private final {{ javaTypeFor . }}[] {{ constantName . "NotIn" }} = new {{ javaTypeFor . }}[]{
 			{{- range $r.NotIn -}}
-				{{- sprintf "%v" . -}}{{ javaTypeLiteralSuffixFor $ }},
+				{{- numLit $ . -}},
 			{{- end -}}
 		};
 {{- end -}}`
@@ -39,19 +39,19 @@ const numTpl = `{{ $f := .Field }}{{ $r := .Rules -}}
 			io.envoyproxy.pgv.ConstantValidation.constant("{{ $f.FullyQualifiedName }}", {{ accessor . }}, {{ constantName . "Const" }});
 {{- end -}}
 {{- if and (or $r.Lt $r.Lte) (or $r.Gt $r.Gte)}}
-			io.envoyproxy.pgv.ComparativeValidation.range("{{ $f.FullyQualifiedName }}", {{ accessor . }}, {{ if $r.Lt }}{{ constantName . "Lt" }}{{ else }}null{{ end }}, {{ if $r.Lte }}{{ constantName . "Lte" }}{{ else }}null{{ end }}, {{ if $r.Gt }}{{ constantName . "Gt" }}{{ else }}null{{ end }}, {{ if $r.Gte }}{{ constantName . "Gte" }}{{ else }}null{{ end }}, java.util.Comparator.naturalOrder());
+			io.envoyproxy.pgv.ComparativeValidation.range("{{ $f.FullyQualifiedName }}", {{ accessor . }}, {{ if $r.Lt }}{{ constantName . "Lt" }}{{ else }}null{{ end }}, {{ if $r.Lte }}{{ constantName . "Lte" }}{{ else }}null{{ end }}, {{ if $r.Gt }}{{ constantName . "Gt" }}{{ else }}null{{ end }}, {{ if $r.Gte }}{{ constantName . "Gte" }}{{ else }}null{{ end }}, {{ numComparator . }});
 {{- else -}}
 {{- if $r.Lt }}
-			io.envoyproxy.pgv.ComparativeValidation.lessThan("{{ $f.FullyQualifiedName }}", {{ accessor . }}, {{ constantName . "Lt" }}, java.util.Comparator.naturalOrder());
+			io.envoyproxy.pgv.ComparativeValidation.lessThan("{{ $f.FullyQualifiedName }}", {{ accessor . }}, {{ constantName . "Lt" }}, {{ numComparator . }});
 {{- end -}}
 {{- if $r.Lte }}
-			io.envoyproxy.pgv.ComparativeValidation.lessThanOrEqual("{{ $f.FullyQualifiedName }}", {{ accessor . }}, {{ constantName . "Lte" }}, java.util.Comparator.naturalOrder());
+			io.envoyproxy.pgv.ComparativeValidation.lessThanOrEqual("{{ $f.FullyQualifiedName }}", {{ accessor . }}, {{ constantName . "Lte" }}, {{ numComparator . }});
 {{- end -}}
 {{- if $r.Gt }}
-			io.envoyproxy.pgv.ComparativeValidation.greaterThan("{{ $f.FullyQualifiedName }}", {{ accessor . }}, {{ constantName . "Gt" }}, java.util.Comparator.naturalOrder());
+			io.envoyproxy.pgv.ComparativeValidation.greaterThan("{{ $f.FullyQualifiedName }}", {{ accessor . }}, {{ constantName . "Gt" }}, {{ numComparator . }});
 {{- end -}}
 {{- if $r.Gte }}
-			io.envoyproxy.pgv.ComparativeValidation.greaterThanOrEqual("{{ $f.FullyQualifiedName }}", {{ accessor . }}, {{ constantName . "Gte" }}, java.util.Comparator.naturalOrder());
+			io.envoyproxy.pgv.ComparativeValidation.greaterThanOrEqual("{{ $f.FullyQualifiedName }}", {{ accessor . }}, {{ constantName . "Gte" }}, {{ numComparator . }});
 {{- end -}}
 {{- end -}}
 {{- if $r.In }}
diff --git a/templates/java/register.go b/templates/java/register.go
index 857982c..266648e 100644
--- a/templates/java/register.go
+++ b/templates/java/register.go
@@ -33,29 +33,30 @@ func Register(tpl *template.Template, params pgs.Parameters) {
 	fns := javaFuncs{pgsgo.InitContext(params)}
 
 	tpl.Funcs(map[string]interface{}{
-		"accessor":                 fns.accessor,
-		"byteArrayLit":             fns.byteArrayLit,
-		"camelCase":                fns.camelCase,
-		"classNameFile":            classNameFile,
-		"classNameMessage":         classNameMessage,
-		"durLit":                   fns.durLit,
-		"fieldName":                fns.fieldName,
-		"javaPackage":              javaPackage,
-		"javaStringEscape":         fns.javaStringEscape,
-		"javaTypeFor":              fns.javaTypeFor,
-		"javaTypeLiteralSuffixFor": fns.javaTypeLiteralSuffixFor,
-		"hasAccessor":              fns.hasAccessor,
-		"oneof":                    fns.oneofTypeName,
-		"sprintf":                  fmt.Sprintf,
-		"simpleName":               fns.Name,
-		"tsLit":                    fns.tsLit,
-		"qualifiedName":            fns.qualifiedName,
-		"isOfFileType":             fns.isOfFileType,
-		"isOfMessageType":          fns.isOfMessageType,
-		"isOfStringType":           fns.isOfStringType,
-		"unwrap":                   fns.unwrap,
-		"renderConstants":          fns.renderConstants(tpl),
-		"constantName":             fns.constantName,
+		"accessor":         fns.accessor,
+		"byteArrayLit":     fns.byteArrayLit,
+		"camelCase":        fns.camelCase,
+		"classNameFile":    classNameFile,
+		"classNameMessage": classNameMessage,
+		"durLit":           fns.durLit,
+		"fieldName":        fns.fieldName,
+		"javaPackage":      javaPackage,
+		"javaStringEscape": fns.javaStringEscape,
+		"javaTypeFor":      fns.javaTypeFor,
+		"hasAccessor":      fns.hasAccessor,
+		"oneof":            fns.oneofTypeName,
+		"sprintf":          fmt.Sprintf,
+		"simpleName":       fns.Name,
+		"tsLit":            fns.tsLit,
+		"qualifiedName":    fns.qualifiedName,
+		"isOfFileType":     fns.isOfFileType,
+		"isOfMessageType":  fns.isOfMessageType,
+		"isOfStringType":   fns.isOfStringType,
+		"unwrap":           fns.unwrap,
+		"renderConstants":  fns.renderConstants(tpl),
+		"constantName":     fns.constantName,
+		"numLit":           fns.numLit,
+		"numComparator":    fns.numComparator,
 	})
 
 	template.Must(tpl.Parse(fileTpl))
@@ -357,6 +358,30 @@ func (fns javaFuncs) javaStringEscape(s string) (string, error) {
 	return string(lit), err
 }
 
+// numLit renders a number of the rules. Java has no unsigned types: protobuf
+// keeps unsigned numbers in the signed type of the same width.
+func (fns javaFuncs) numLit(ctx shared.RuleContext, n interface{}) string {
+	switch ctx.Typ {
+	case "uint32", "fixed32":
+		return fmt.Sprintf(`Integer.parseUnsignedInt("%v")`, n)
+	case "uint64", "fixed64":
+		return fmt.Sprintf(`Long.parseUnsignedLong("%v")`, n)
+	default:
+		return fmt.Sprintf("%v%s", n, fns.javaTypeLiteralSuffixFor(ctx))
+	}
+}
+
+func (fns javaFuncs) numComparator(ctx shared.RuleContext) string {
+	switch ctx.Typ {
+	case "uint32", "fixed32":
+		return "Integer::compareUnsigned"
+	case "uint64", "fixed64":
+		return "Long::compareUnsigned"
+	default:
+		return "java.util.Comparator.naturalOrder()"
+	}
+}
+
 func (fns javaFuncs) camelCase(name pgs.Name) string {
 	return strcase.ToCamel(name.String())
 }
-- 
2.43.0


From fbdcf1306374becf92a0816ea5cdb75c3e4b4237 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:27 +0000
Subject: [PATCH 24/53] fix: enforce required on skipped message fields in Java

---
 templates/java/message.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/templates/java/message.go b/templates/java/message.go
index a9b7a62..b176101 100644
--- a/templates/java/message.go
+++ b/templates/java/message.go
@@ -1,10 +1,10 @@
 package java
 
 const messageTpl = `{{ $f := .Field }}{{ $r := .Rules }}
+	{{- template "required" . }}
 	{{- if .MessageRules.GetSkip }}
 			// skipping validation for {{ $f.Name }}
 	{{- else -}}
-		{{- template "required" . }}
 		{{- if (isOfMessageType $f) }}
 			// Validate {{ $f.Name }}
 			if ({{ hasAccessor . }}) index.validatorFor({{ accessor . }}).assertValid({{ accessor . }});
-- 
2.43.0


From e067c75ac536f1da5bd479298bc5c23448a5c753 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:35 +0000
Subject: [PATCH 25/53] fix: enforce a maximum of zero items or pairs in Java

---
 templates/java/map.go      | 2 +-
 templates/java/repeated.go | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/templates/java/map.go b/templates/java/map.go
index 632d7eb..7d960d8 100644
--- a/templates/java/map.go
+++ b/templates/java/map.go
@@ -14,7 +14,7 @@ const mapTpl = `{{ $f := .Field }}{{ $r := .Rules -}}
 {{- if $r.GetMinPairs }}
 			io.envoyproxy.pgv.MapValidation.min("{{ $f.FullyQualifiedName }}", {{ accessor . }}, {{ $r.GetMinPairs }});
 {{- end -}}
-{{- if $r.GetMaxPairs }}
+{{- if $r.MaxPairs }}
 			io.envoyproxy.pgv.MapValidation.max("{{ $f.FullyQualifiedName }}", {{ accessor . }}, {{ $r.GetMaxPairs }});
 {{- end -}}
 {{- if $r.GetNoSparse }}
diff --git a/templates/java/repeated.go b/templates/java/repeated.go
index 776b407..0ceb9b2 100644
--- a/templates/java/repeated.go
+++ b/templates/java/repeated.go
@@ -9,7 +9,7 @@ const repeatedTpl = `{{ $f := .Field }}{{ $r := .Rules -}}
 {{- if $r.GetMinItems }}
 			io.envoyproxy.pgv.RepeatedValidation.minItems("{{ $f.FullyQualifiedName }}", {{ accessor . }}, {{ $r.GetMinItems }});
 {{- end -}}
-{{- if $r.GetMaxItems }}
+{{- if $r.MaxItems }}
 			io.envoyproxy.pgv.RepeatedValidation.maxItems("{{ $f.FullyQualifiedName }}", {{ accessor . }}, {{ $r.GetMaxItems }});
 {{- end -}}
 {{- if $r.GetUnique }}
-- 
2.43.0


From c27f4e7acd4c22c6a5996f82fd38ae31762877ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:43 +0000
Subject: [PATCH 26/53] fix: name the field of a missing required wrapper in
 Java

---
 templates/java/wrapper.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/templates/java/wrapper.go b/templates/java/wrapper.go
index 3e3984e..80e1adc 100644
--- a/templates/java/wrapper.go
+++ b/templates/java/wrapper.go
@@ -8,5 +8,5 @@ const wrapperTpl = `{{ $f := .Field }}{{ $r := .Rules }}
 				{{- render (unwrap .) }}
 			}
 			{{ if .MessageRules.GetRequired }} else {
-				throw new io.envoyproxy.pgv.ValidationException("{{ $f }}", "null", "is required");
+				throw new io.envoyproxy.pgv.ValidationException("{{ $f.FullyQualifiedName }}", "null", "is required");
 			} {{ end }}`
-- 
2.43.0


From b384d9a1458d0f8b8ea59623ee1abf63bb96ed64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:50 +0000
Subject: [PATCH 27/53] fix: apply the fallback validator of
 ExplicitValidatorIndex

---
 .../src/main/java/io/envoyproxy/pgv/ExplicitValidatorIndex.java | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/java/pgv-java-stub/src/main/java/io/envoyproxy/pgv/ExplicitValidatorIndex.java b/java/pgv-java-stub/src/main/java/io/envoyproxy/pgv/ExplicitValidatorIndex.java
index 828d13e..f1051d3 100644
--- a/java/pgv-java-stub/src/main/java/io/envoyproxy/pgv/ExplicitValidatorIndex.java
+++ b/java/pgv-java-stub/src/main/java/io/envoyproxy/pgv/ExplicitValidatorIndex.java
@@ -33,7 +33,7 @@ public final class ExplicitValidatorIndex implements ValidatorIndex {
     @SuppressWarnings("unchecked")
     public <T> Validator<T> validatorFor(Class clazz) {
         return VALIDATOR_INDEX.computeIfAbsent(clazz, c ->
-                proto -> VALIDATOR_IMPL_INDEX.getOrDefault(c, (p, i) -> fallbackIndex.validatorFor(c))
+                proto -> VALIDATOR_IMPL_INDEX.getOrDefault(c, (p, i) -> fallbackIndex.validatorFor(c).assertValid(p))
                         .assertValid(proto, ExplicitValidatorIndex.this));
     }
 }
-- 
2.43.0


From 2901554e3d223049ddabc5d9641a7d6e549d64c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:39 +0000
Subject: [PATCH 28/53] fix: refuse letters that only lower-case to ASCII in Go
 host names

---
 templates/goshared/known.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/templates/goshared/known.go b/templates/goshared/known.go
index ad32cfc..afd3aaa 100644
--- a/templates/goshared/known.go
+++ b/templates/goshared/known.go
@@ -2,7 +2,7 @@ package goshared
 
 const hostTpl = `
 	func (m {{ (msgTyp .).Pointer }}) _validateHostname(host string) error {
-		s := strings.ToLower(strings.TrimSuffix(host, "."))
+		s := strings.TrimSuffix(host, ".")
 
 		if len(host) > 253 {
 			return errors.New("hostname cannot exceed 253 characters")
@@ -22,7 +22,7 @@ const hostTpl = `
 			}
 
 			for _, r := range part {
-				if (r < 'a' || r > 'z') && (r < '0' || r > '9') && r != '-' {
+				if (r < 'a' || r > 'z') && (r < 'A' || r > 'Z') && (r < '0' || r > '9') && r != '-' {
 					return fmt.Errorf("hostname parts can only contain alphanumeric characters or hyphens, got %q", string(r))
 				}
 			}
-- 
2.43.0


From d3f23585482c5eca2f9a2ce143087fb478533364 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:21 +0000
Subject: [PATCH 29/53] fix: write the seconds of Java times as longs

---
 templates/java/register.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/templates/java/register.go b/templates/java/register.go
index 266648e..4ffe1a8 100644
--- a/templates/java/register.go
+++ b/templates/java/register.go
@@ -399,13 +399,13 @@ func (fns javaFuncs) byteArrayLit(bytes []uint8) string {
 
 func (fns javaFuncs) durLit(dur *durationpb.Duration) string {
 	return fmt.Sprintf(
-		"io.envoyproxy.pgv.TimestampValidation.toDuration(%d,%d)",
+		"io.envoyproxy.pgv.TimestampValidation.toDuration(%dL,%d)",
 		dur.GetSeconds(), dur.GetNanos())
 }
 
 func (fns javaFuncs) tsLit(ts *timestamppb.Timestamp) string {
 	return fmt.Sprintf(
-		"io.envoyproxy.pgv.TimestampValidation.toTimestamp(%d,%d)",
+		"io.envoyproxy.pgv.TimestampValidation.toTimestamp(%dL,%d)",
 		ts.GetSeconds(), ts.GetNanos())
 }
 
-- 
2.43.0


From eda380312ac9d33a0b81f403b9beae5f5fa38c81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:21 +0000
Subject: [PATCH 30/53] fix: emit valid Java for files without a package

---
 templates/java/file.go     |  4 +++-
 templates/java/register.go | 17 +++++++++++++----
 2 files changed, 16 insertions(+), 5 deletions(-)

diff --git a/templates/java/file.go b/templates/java/file.go
index 4c29048..977b061 100644
--- a/templates/java/file.go
+++ b/templates/java/file.go
@@ -3,7 +3,9 @@ package java
 const fileTpl = `// Code generated by protoc-gen-validate. DO NOT EDIT.
 // source: {{ .File.InputPath }}
 
-package {{ javaPackage .File }};
+{{ with javaPackage .File -}}
+package {{ . }};
+{{- end }}
 
 {{ if isOfFileType . }}
 @SuppressWarnings("all")
diff --git a/templates/java/register.go b/templates/java/register.go
index 4ffe1a8..36ddd58 100644
--- a/templates/java/register.go
+++ b/templates/java/register.go
@@ -206,10 +206,10 @@ func (fns javaFuncs) qualifiedName(entity pgs.Entity) string {
 		name := javaPackage(file)
 		if file.Descriptor().GetOptions() != nil {
 			if !file.Descriptor().GetOptions().GetJavaMultipleFiles() {
-				name += ("." + classNameFile(file))
+				name = qualify(name, classNameFile(file))
 			}
 		} else {
-			name += ("." + classNameFile(file))
+			name = qualify(name, classNameFile(file))
 		}
 		return name
 	}
@@ -217,18 +217,27 @@ func (fns javaFuncs) qualifiedName(entity pgs.Entity) string {
 	message, isMessage := entity.(pgs.Message)
 	if isMessage && message.Parent() != nil {
 		// recurse
-		return fns.qualifiedName(message.Parent()) + "." + entity.Name().String()
+		return qualify(fns.qualifiedName(message.Parent()), entity.Name().String())
 	}
 
 	enum, isEnum := entity.(pgs.Enum)
 	if isEnum && enum.Parent() != nil {
 		// recurse
-		return fns.qualifiedName(enum.Parent()) + "." + entity.Name().String()
+		return qualify(fns.qualifiedName(enum.Parent()), entity.Name().String())
 	}
 
 	return entity.Name().String()
 }
 
+// qualify prepends the name of a package or class; that of a file without a
+// package is empty.
+func qualify(scope, name string) string {
+	if scope == "" {
+		return name
+	}
+	return scope + "." + name
+}
+
 func upperCaseAfterNumber(name string) string {
 	var sb string
 	var p rune
-- 
2.43.0


From 82e8024ce0cf19285a7fb9841d68f33ca9ba6c0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:21 +0000
Subject: [PATCH 31/53] fix: write infinite and NaN bounds of Java rules as
 constants

---
 templates/java/register.go | 23 ++++++++++++++++++++++-
 1 file changed, 22 insertions(+), 1 deletion(-)

diff --git a/templates/java/register.go b/templates/java/register.go
index 36ddd58..31ed77c 100644
--- a/templates/java/register.go
+++ b/templates/java/register.go
@@ -4,6 +4,7 @@ import (
 	"bytes"
 	"encoding/json"
 	"fmt"
+	"math"
 	"os"
 	"strings"
 	"text/template"
@@ -375,8 +376,28 @@ func (fns javaFuncs) numLit(ctx shared.RuleContext, n interface{}) string {
 		return fmt.Sprintf(`Integer.parseUnsignedInt("%v")`, n)
 	case "uint64", "fixed64":
 		return fmt.Sprintf(`Long.parseUnsignedLong("%v")`, n)
+	}
+	switch v := n.(type) {
+	case float32:
+		if math.IsInf(float64(v), 0) || math.IsNaN(float64(v)) {
+			return "(float) " + nonFiniteLit(float64(v))
+		}
+	case float64:
+		if math.IsInf(v, 0) || math.IsNaN(v) {
+			return nonFiniteLit(v)
+		}
+	}
+	return fmt.Sprintf("%v%s", n, fns.javaTypeLiteralSuffixFor(ctx))
+}
+
+func nonFiniteLit(v float64) string {
+	switch {
+	case math.IsInf(v, 1):
+		return "Double.POSITIVE_INFINITY"
+	case math.IsInf(v, -1):
+		return "Double.NEGATIVE_INFINITY"
 	default:
-		return fmt.Sprintf("%v%s", n, fns.javaTypeLiteralSuffixFor(ctx))
+		return "Double.NaN"
 	}
 }
 
-- 
2.43.0


From 69924696e9a9130372ecc922187688f236fe0555 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:21 +0000
Subject: [PATCH 32/53] fix: limit the lengths of Java rules to those Java can
 express

---
 templates/java/bytes.go    |  6 +++---
 templates/java/map.go      |  4 ++--
 templates/java/register.go | 10 ++++++++++
 templates/java/repeated.go |  4 ++--
 templates/java/string.go   | 12 ++++++------
 5 files changed, 23 insertions(+), 13 deletions(-)

diff --git a/templates/java/bytes.go b/templates/java/bytes.go
index caea99a..b577486 100644
--- a/templates/java/bytes.go
+++ b/templates/java/bytes.go
@@ -39,13 +39,13 @@ const bytesTpl = `{{ $f := .Field }}{{ $r := .Rules -}}
 			io.envoyproxy.pgv.ConstantValidation.constant("{{ $f.FullyQualifiedName }}", {{ accessor . }}, {{ constantName . "Const" }});
 {{- end -}}
 {{- if $r.Len }}
-			io.envoyproxy.pgv.BytesValidation.length("{{ $f.FullyQualifiedName }}", {{ accessor . }}, {{ $r.GetLen }});
+			io.envoyproxy.pgv.BytesValidation.length("{{ $f.FullyQualifiedName }}", {{ accessor . }}, {{ lengthLit $r.GetLen }});
 {{- end -}}
 {{- if $r.MinLen }}
-			io.envoyproxy.pgv.BytesValidation.minLength("{{ $f.FullyQualifiedName }}", {{ accessor . }}, {{ $r.GetMinLen }});
+			io.envoyproxy.pgv.BytesValidation.minLength("{{ $f.FullyQualifiedName }}", {{ accessor . }}, {{ lengthLit $r.GetMinLen }});
 {{- end -}}
 {{- if $r.MaxLen }}
-			io.envoyproxy.pgv.BytesValidation.maxLength("{{ $f.FullyQualifiedName }}", {{ accessor . }}, {{ $r.GetMaxLen }});
+			io.envoyproxy.pgv.BytesValidation.maxLength("{{ $f.FullyQualifiedName }}", {{ accessor . }}, {{ lengthLit $r.GetMaxLen }});
 {{- end -}}
 {{- if $r.Pattern }}
 			io.envoyproxy.pgv.BytesValidation.pattern("{{ $f.FullyQualifiedName }}", {{ accessor . }}, {{ constantName . "Pattern" }});
diff --git a/templates/java/map.go b/templates/java/map.go
index 7d960d8..d61b3e6 100644
--- a/templates/java/map.go
+++ b/templates/java/map.go
@@ -12,10 +12,10 @@ const mapTpl = `{{ $f := .Field }}{{ $r := .Rules -}}
 			if ( !{{ accessor . }}.isEmpty() ) {
 {{- end -}}
 {{- if $r.GetMinPairs }}
-			io.envoyproxy.pgv.MapValidation.min("{{ $f.FullyQualifiedName }}", {{ accessor . }}, {{ $r.GetMinPairs }});
+			io.envoyproxy.pgv.MapValidation.min("{{ $f.FullyQualifiedName }}", {{ accessor . }}, {{ lengthLit $r.GetMinPairs }});
 {{- end -}}
 {{- if $r.MaxPairs }}
-			io.envoyproxy.pgv.MapValidation.max("{{ $f.FullyQualifiedName }}", {{ accessor . }}, {{ $r.GetMaxPairs }});
+			io.envoyproxy.pgv.MapValidation.max("{{ $f.FullyQualifiedName }}", {{ accessor . }}, {{ lengthLit $r.GetMaxPairs }});
 {{- end -}}
 {{- if $r.GetNoSparse }}
 			io.envoyproxy.pgv.MapValidation.noSparse("{{ $f.FullyQualifiedName }}", {{ accessor . }});
diff --git a/templates/java/register.go b/templates/java/register.go
index 31ed77c..8ad78bf 100644
--- a/templates/java/register.go
+++ b/templates/java/register.go
@@ -57,6 +57,7 @@ func Register(tpl *template.Template, params pgs.Parameters) {
 		"renderConstants":  fns.renderConstants(tpl),
 		"constantName":     fns.constantName,
 		"numLit":           fns.numLit,
+		"lengthLit":        fns.lengthLit,
 		"numComparator":    fns.numComparator,
 	})
 
@@ -401,6 +402,15 @@ func nonFiniteLit(v float64) string {
 	}
 }
 
+// lengthLit renders a limit of a length or a count. Java counts with signed
+// integers, and nothing is larger than the largest of them.
+func (fns javaFuncs) lengthLit(n uint64) string {
+	if n > math.MaxInt32 {
+		n = math.MaxInt32
+	}
+	return fmt.Sprint(n)
+}
+
 func (fns javaFuncs) numComparator(ctx shared.RuleContext) string {
 	switch ctx.Typ {
 	case "uint32", "fixed32":
diff --git a/templates/java/repeated.go b/templates/java/repeated.go
index 0ceb9b2..5fe71ea 100644
--- a/templates/java/repeated.go
+++ b/templates/java/repeated.go
@@ -7,10 +7,10 @@ const repeatedTpl = `{{ $f := .Field }}{{ $r := .Rules -}}
 			if ( !{{ accessor . }}.isEmpty() ) {
 {{- end -}}
 {{- if $r.GetMinItems }}
-			io.envoyproxy.pgv.RepeatedValidation.minItems("{{ $f.FullyQualifiedName }}", {{ accessor . }}, {{ $r.GetMinItems }});
+			io.envoyproxy.pgv.RepeatedValidation.minItems("{{ $f.FullyQualifiedName }}", {{ accessor . }}, {{ lengthLit $r.GetMinItems }});
 {{- end -}}
 {{- if $r.MaxItems }}
-			io.envoyproxy.pgv.RepeatedValidation.maxItems("{{ $f.FullyQualifiedName }}", {{ accessor . }}, {{ $r.GetMaxItems }});
+			io.envoyproxy.pgv.RepeatedValidation.maxItems("{{ $f.FullyQualifiedName }}", {{ accessor . }}, {{ lengthLit $r.GetMaxItems }});
 {{- end -}}
 {{- if $r.GetUnique }}
 			io.envoyproxy.pgv.RepeatedValidation.unique("{{ $f.FullyQualifiedName }}", {{ accessor . }});
diff --git a/templates/java/string.go b/templates/java/string.go
index 9dd6699..e30b407 100644
--- a/templates/java/string.go
+++ b/templates/java/string.go
@@ -33,22 +33,22 @@ const stringTpl = `{{ $f := .Field }}{{ $r := .Rules -}}
 			io.envoyproxy.pgv.CollectiveValidation.notIn("{{ $f.FullyQualifiedName }}", {{ accessor . }}, {{ constantName . "NotIn" }});
 {{- end -}}
 {{- if $r.Len }}
-			io.envoyproxy.pgv.StringValidation.length("{{ $f.FullyQualifiedName }}", {{ accessor . }}, {{ $r.GetLen }});
+			io.envoyproxy.pgv.StringValidation.length("{{ $f.FullyQualifiedName }}", {{ accessor . }}, {{ lengthLit $r.GetLen }});
 {{- end -}}
 {{- if $r.MinLen }}
-			io.envoyproxy.pgv.StringValidation.minLength("{{ $f.FullyQualifiedName }}", {{ accessor . }}, {{ $r.GetMinLen }});
+			io.envoyproxy.pgv.StringValidation.minLength("{{ $f.FullyQualifiedName }}", {{ accessor . }}, {{ lengthLit $r.GetMinLen }});
 {{- end -}}
 {{- if $r.MaxLen }}
-			io.envoyproxy.pgv.StringValidation.maxLength("{{ $f.FullyQualifiedName }}", {{ accessor . }}, {{ $r.GetMaxLen }});
+			io.envoyproxy.pgv.StringValidation.maxLength("{{ $f.FullyQualifiedName }}", {{ accessor . }}, {{ lengthLit $r.GetMaxLen }});
 {{- end -}}
 {{- if $r.LenBytes }}
-			io.envoyproxy.pgv.StringValidation.lenBytes("{{ $f.FullyQualifiedName }}", {{ accessor . }}, {{ $r.GetLenBytes }});
+			io.envoyproxy.pgv.StringValidation.lenBytes("{{ $f.FullyQualifiedName }}", {{ accessor . }}, {{ lengthLit $r.GetLenBytes }});
 {{- end -}}
 {{- if $r.MinBytes }}
-			io.envoyproxy.pgv.StringValidation.minBytes("{{ $f.FullyQualifiedName }}", {{ accessor . }}, {{ $r.GetMinBytes }});
+			io.envoyproxy.pgv.StringValidation.minBytes("{{ $f.FullyQualifiedName }}", {{ accessor . }}, {{ lengthLit $r.GetMinBytes }});
 {{- end -}}
 {{- if $r.MaxBytes }}
-			io.envoyproxy.pgv.StringValidation.maxBytes("{{ $f.FullyQualifiedName }}", {{ accessor . }}, {{ $r.GetMaxBytes }});
+			io.envoyproxy.pgv.StringValidation.maxBytes("{{ $f.FullyQualifiedName }}", {{ accessor . }}, {{ lengthLit $r.GetMaxBytes }});
 {{- end -}}
 {{- if $r.Pattern }}
 			io.envoyproxy.pgv.StringValidation.pattern("{{ $f.FullyQualifiedName }}", {{ accessor . }}, {{ constantName . "Pattern" }});
-- 
2.43.0


From fde50c956cd453f7b4c5f617a63ff1a18ee58421 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:30 +0000
Subject: [PATCH 33/53] fix: declare the lookup tables and patterns of C++
 element, key and wrapper rules

---
 templates/cc/any.go      |  6 +--
 templates/cc/bytes.go    |  4 +-
 templates/cc/duration.go |  6 +--
 templates/cc/in.go       | 30 ++++++++++++--
 templates/cc/msg.go      | 85 ++++------------------------------------
 templates/cc/register.go | 81 +++++++++++++++++++++++++-------------
 templates/cc/repeated.go |  6 +--
 templates/cc/string.go   |  4 +-
 8 files changed, 102 insertions(+), 120 deletions(-)

diff --git a/templates/cc/any.go b/templates/cc/any.go
index 2dd32ca..28c820e 100644
--- a/templates/cc/any.go
+++ b/templates/cc/any.go
@@ -1,15 +1,15 @@
 package cc
 
-const anyTpl = `{{ $f := .Field }}{{ $r := .Rules }}
+const anyTpl = `{{ $r := .Rules }}
 	{{ template "required" . }}
 
 	{{ if $r.In }}
-		{{ $table := lookup $f "InLookup" }}
+		{{ $table := lookup . "InLookup" }}
 		if ({{ hasAccessor . }} && {{ $table }}.find({{ accessor . }}.type_url()) == {{ $table }}.end()) {
 			{{ err . "type URL must be in list " $r.In }}
 		}
 	{{ else if $r.NotIn }}
-		{{ $table := lookup $f "NotInLookup" }}
+		{{ $table := lookup . "NotInLookup" }}
 		if ({{ hasAccessor . }} && {{ $table }}.find({{ accessor . }}.type_url()) != {{ $table }}.end()) {
 			{{ err . "type URL must not be in list " $r.NotIn }}
 		}
diff --git a/templates/cc/bytes.go b/templates/cc/bytes.go
index 9bae2c8..13e7eb0 100644
--- a/templates/cc/bytes.go
+++ b/templates/cc/bytes.go
@@ -1,7 +1,7 @@
 package cc
 
 const bytesTpl = `
-	{{ $f := .Field }}{{ $r := .Rules }}
+	{{ $r := .Rules }}
 	{{ if $r.GetIgnoreEmpty }}
 		if ({{ accessor . }}.size() > 0) {
 	{{ end }}
@@ -69,7 +69,7 @@ const bytesTpl = `
         {{ if $r.Pattern }}
         {
                 if (!RE2::FullMatch(re2::StringPiece({{ accessor . }}.c_str(), {{ accessor . }}.size()),
-                                    {{ lookup $f "Pattern" }})) {
+                                    {{ lookup . "Pattern" }})) {
 		        {{ err . "value does not match regex pattern " (lit $r.GetPattern) }}
 	        }
         }
diff --git a/templates/cc/duration.go b/templates/cc/duration.go
index 16f086f..52472c8 100644
--- a/templates/cc/duration.go
+++ b/templates/cc/duration.go
@@ -1,6 +1,6 @@
 package cc
 
-const durationTpl = `{{ $f := .Field }}{{ $r := .Rules }}
+const durationTpl = `{{ $r := .Rules }}
 	{{ template "required" . }}
 
 	{{ if or $r.In $r.NotIn $r.Lt $r.Lte $r.Gt $r.Gte $r.Const }}
@@ -76,10 +76,10 @@ const durationTpl = `{{ $f := .Field }}{{ $r := .Rules }}
 
 
 			{{ if $r.In }}
-				if ({{ lookup $f "InLookup" }}.find(dur) == {{ lookup $f "InLookup" }}.end())
+				if ({{ lookup . "InLookup" }}.find(dur) == {{ lookup . "InLookup" }}.end())
 					{{ err . "value must be in list " $r.In }}
 			{{ else if $r.NotIn }}
-				if ({{ lookup $f "NotInLookup" }}.find(dur) != {{ lookup $f "NotInLookup" }}.end())
+				if ({{ lookup . "NotInLookup" }}.find(dur) != {{ lookup . "NotInLookup" }}.end())
 					{{ err . "value must not be in list " $r.NotIn }}
 			{{ end }}
 	        }
diff --git a/templates/cc/in.go b/templates/cc/in.go
index c9b8f75..246d45f 100644
--- a/templates/cc/in.go
+++ b/templates/cc/in.go
@@ -1,13 +1,37 @@
 package cc
 
-const inTpl = `{{ $f := .Field -}}{{ $r := .Rules -}}
+const inTpl = `{{ $r := .Rules -}}
 	{{- if $r.In }}
-		if ({{ lookup $f "InLookup" }}.find(static_cast<decltype({{ lookup $f "InLookup" }})::key_type>({{ accessor . }})) == {{ lookup $f "InLookup" }}.end()) {
+		if ({{ lookup . "InLookup" }}.find(static_cast<decltype({{ lookup . "InLookup" }})::key_type>({{ accessor . }})) == {{ lookup . "InLookup" }}.end()) {
 			{{ err . "value must be in list " $r.In }}
 		}
 	{{- else if $r.NotIn }}
-		if ({{ lookup $f "NotInLookup" }}.find(static_cast<decltype({{ lookup $f "NotInLookup" }})::key_type>({{ accessor . }})) != {{ lookup $f "NotInLookup" }}.end()) {
+		if ({{ lookup . "NotInLookup" }}.find(static_cast<decltype({{ lookup . "NotInLookup" }})::key_type>({{ accessor . }})) != {{ lookup . "NotInLookup" }}.end()) {
 			{{ err . "value must not be in list " $r.NotIn }}
 		}
 	{{- end }}
 `
+
+// lookupsTpl declares the tables and patterns the rules of a context refer to.
+const lookupsTpl = `{{ $ctx := . }}
+	{{ if has .Rules "In" }}{{ if .Rules.In }}
+	const std::set<{{ inType . .Rules.In }}> {{ lookup . "InLookup" }} = {
+			{{- range .Rules.In }}
+				{{ inKey $ctx . }},
+			{{- end }}
+		};
+	{{ end }}{{ end }}
+
+	{{ if has .Rules "NotIn" }}{{ if .Rules.NotIn }}
+	const std::set<{{ inType . .Rules.NotIn }}> {{ lookup . "NotInLookup" }} = {
+			{{- range .Rules.NotIn }}
+				{{ inKey $ctx . }},
+			{{- end }}
+		};
+	{{ end }}{{ end }}
+
+	{{ if has .Rules "Pattern"}}{{ if .Rules.Pattern }}
+	const re2::RE2 {{ lookup . "Pattern" }}(re2::StringPiece({{ lit .Rules.GetPattern }},
+	                                        sizeof({{ lit .Rules.GetPattern }}) - 1));
+	{{ end }}{{ end }}
+`
diff --git a/templates/cc/msg.go b/templates/cc/msg.go
index a54450e..41e712f 100644
--- a/templates/cc/msg.go
+++ b/templates/cc/msg.go
@@ -14,83 +14,14 @@ const msgTpl = `
 	{{ cmt "Validate checks the field values on " (class .) " with the rules defined in the proto definition for this message. If any rules are violated, the return value is false and an error message is written to the input string argument." }}
 {{- end -}}
 
-{{ range .Fields }}{{ with (context .) }}{{ $f := .Field }}
-	{{ if has .Rules "In" }}{{ if .Rules.In }}
-	const std::set<{{ inType .Field .Rules.In }}> {{ lookup .Field "InLookup" }} = {
-			{{- range .Rules.In }}
-				{{ inKey $f . }},
-			{{- end }}
-		};
-	{{ end }}{{ end }}
-
-	{{ if has .Rules "NotIn" }}{{ if .Rules.NotIn }}
-	const std::set<{{ inType .Field .Rules.NotIn }}> {{ lookup .Field "NotInLookup" }} = {
-			{{- range .Rules.NotIn }}
-				{{ inKey $f . }},
-			{{- end }}
-		};
-	{{ end }}{{ end }}
-
-	{{ if has .Rules "Items"}}{{ if .Rules.Items }}
-	{{ if has .Rules.Items.GetString_ "In" }} {{ if .Rules.Items.GetString_.In }}
-	const std::set<string> {{ lookup .Field "InLookup" }} = {
-			{{- range .Rules.Items.GetString_.In }}
-				{{ inKey $f . }},
-			{{- end }}
-		};
-	{{ end }}{{ end }}
-	{{ if has .Rules.Items.GetEnum "In" }} {{ if .Rules.Items.GetEnum.In }}
-	const std::set<{{ inType .Field .Rules.Items.GetEnum.In }}> {{ lookup .Field "InLookup" }} = {
-			{{- range .Rules.Items.GetEnum.In }}
-				{{ inKey $f . }},
-			{{- end }}
-		};
-	{{ end }}{{ end }}
-	{{ end }}{{ end }}
-
-	{{ if has .Rules "Items"}}{{ if .Rules.Items }}
-	{{ if has .Rules.Items.GetString_ "NotIn" }} {{ if .Rules.Items.GetString_.NotIn }}
-	const std::set<string> {{ lookup .Field "NotInLookup" }} = {
-			{{- range .Rules.Items.GetString_.NotIn }}
-				{{ inKey $f . }},
-			{{- end }}
-		};
-	{{ end }}{{ end }}
-	{{ if has .Rules.Items.GetEnum "NotIn" }} {{ if .Rules.Items.GetEnum.NotIn }}
-	const std::set<{{ inType .Field .Rules.Items.GetEnum.NotIn }}> {{ lookup .Field "NotInLookup" }} = {
-			{{- range .Rules.Items.GetEnum.NotIn }}
-				{{ inKey $f . }},
-			{{- end }}
-		};
-	{{ end }}{{ end }}
-	{{ end }}{{ end }}
-
-        {{ if has .Rules "Pattern"}}{{ if .Rules.Pattern }}
-               const re2::RE2 {{ lookup .Field "Pattern" }}(re2::StringPiece({{ lit .Rules.GetPattern }},
-                                                            sizeof({{ lit .Rules.GetPattern }}) - 1));
-	{{ end }}{{ end }}
-
-	{{ if has .Rules "Items"}}{{ if .Rules.Items }}
-        {{ if has .Rules.Items.GetString_ "Pattern" }} {{ if .Rules.Items.GetString_.Pattern }}
-               const re2::RE2 {{ lookup .Field "Pattern" }}(re2::StringPiece({{ lit .Rules.Items.GetString_.GetPattern }},
-                                              sizeof({{ lit .Rules.Items.GetString_.GetPattern }}) - 1));
-	{{ end }}{{ end }}
-        {{ end }}{{ end }}
-
-        {{ if has .Rules "Keys"}}{{ if .Rules.Keys }}
-	{{ if has .Rules.Keys.GetString_ "Pattern" }} {{ if .Rules.Keys.GetString_.Pattern }}
-		const re2::RE2 {{ lookup .Field "Pattern" }}(re2::StringPiece({{ lit .Rules.Keys.GetString_.GetPattern }},
-                                              sizeof({{ lit .Rules.Keys.GetString_.GetPattern }}) - 1));
-	{{ end }}{{ end }}
-	{{ end }}{{ end }}
-
-	{{ if has .Rules "Values"}}{{ if .Rules.Values }}
-	{{ if has .Rules.Values.GetString_ "Pattern" }} {{ if .Rules.Values.GetString_.Pattern }}
-		const re2::RE2 {{ lookup .Field "Pattern" }}(re2::StringPiece({{ lit .Rules.Values.GetString_.GetPattern }},
-                                              sizeof({{ lit .Rules.Values.GetString_.GetPattern }}) - 1));
-	{{ end }}{{ end }}
-	{{ end }}{{ end }}
-
+{{ range .Fields }}{{ with (context .) }}
+	{{ template "lookups" . }}
+	{{ if and .Field.Type.IsRepeated (eq .Typ "repeated") }}
+		{{ template "lookups" (.Elem "" "") }}
+	{{ else if and .Field.Type.IsMap (eq .Typ "map") }}
+		{{ template "lookups" (.Key "" "") }}
+		{{ template "lookups" (.Elem "" "") }}
+	{{ end }}
 {{ end }}{{ end }}
 
 bool Validate(const {{ class . }}& m, pgv::ValidationMsg* err) {
diff --git a/templates/cc/register.go b/templates/cc/register.go
index 3e31a29..993bc58 100644
--- a/templates/cc/register.go
+++ b/templates/cc/register.go
@@ -27,6 +27,7 @@ func RegisterModule(tpl *template.Template, params pgs.Parameters) {
 		"durGt":         fns.durGt,
 		"durLit":        fns.durLit,
 		"durStr":        fns.durStr,
+		"elemType":      fns.elemType,
 		"err":           fns.err,
 		"errCause":      fns.errCause,
 		"errIdx":        fns.errIdx,
@@ -54,6 +55,7 @@ func RegisterModule(tpl *template.Template, params pgs.Parameters) {
 	template.Must(tpl.New("const").Parse(constTpl))
 	template.Must(tpl.New("ltgt").Parse(ltgtTpl))
 	template.Must(tpl.New("in").Parse(inTpl))
+	template.Must(tpl.New("lookups").Parse(lookupsTpl))
 	template.Must(tpl.New("required").Parse(requiredTpl))
 
 	template.Must(tpl.New("none").Parse(noneTpl))
@@ -217,11 +219,15 @@ func (fns CCFuncs) errIdxCause(ctx shared.RuleContext, idx, cause string, reason
 	return strings.Join(output, "\n")
 }
 
-func (fns CCFuncs) lookup(f pgs.Field, name string) string {
+func (fns CCFuncs) lookup(ctx shared.RuleContext, name string) string {
+	if ctx.OnKey {
+		name = "Key" + name
+	}
+
 	return fmt.Sprintf(
 		"_%s_%s_%s",
-		pgsgo.PGGUpperCamelCase(f.Message().Name()),
-		pgsgo.PGGUpperCamelCase(f.Name()),
+		fns.classBaseName(ctx.Field.Message()),
+		pgsgo.PGGUpperCamelCase(ctx.Field.Name()),
 		name,
 	)
 }
@@ -282,19 +288,44 @@ func (fns CCFuncs) oneofTypeName(f pgs.Field) pgsgo.TypeName {
 		strings.ReplaceAll(pgsgo.PGGUpperCamelCase(f.Name()).String(), "_", "")))
 }
 
-func (fns CCFuncs) inType(f pgs.Field, x interface{}) string {
-	switch f.Type().ProtoType() {
-	case pgs.BytesT:
+// inType returns the type of the entries of the lookup table of a list.
+func (fns CCFuncs) inType(ctx shared.RuleContext, list interface{}) string {
+	switch list.(type) {
+	case []*durationpb.Duration:
+		return "pgv::protobuf_wkt::Duration"
+	case [][]byte:
 		return "string"
-	case pgs.MessageT:
-		switch x.(type) {
-		case []string:
-			return "string"
-		case []*durationpb.Duration:
-			return "pgv::protobuf_wkt::Duration"
-		default:
-			return fns.className(f.Type().Element().Embed())
+	default:
+		if enum := fns.enumOf(ctx); enum != nil {
+			return fns.className(enum)
 		}
+		// Strip the leading []
+		return fns.cTypeOfString(fmt.Sprintf("%T", list)[2:])
+	}
+}
+
+// enumOf returns the enum the values of a context belong to, if any.
+func (fns CCFuncs) enumOf(ctx shared.RuleContext) pgs.Enum {
+	typ := ctx.Field.Type()
+	switch {
+	case ctx.OnKey:
+		return nil
+	case typ.IsEnum():
+		return typ.Enum()
+	case typ.Element() != nil && typ.Element().IsEnum():
+		return typ.Element().Enum()
+	default:
+		return nil
+	}
+}
+
+// elemType returns the type of the items of a repeated field.
+func (fns CCFuncs) elemType(f pgs.Field) string {
+	switch {
+	case f.Type().Element().IsEnum():
+		return "int"
+	case f.Type().ProtoType() == pgs.BytesT:
+		return "string"
 	default:
 		return fns.cType(f.Type())
 	}
@@ -342,20 +373,16 @@ func (fns CCFuncs) cTypeOfString(s string) string {
 	}
 }
 
-func (fns CCFuncs) inKey(f pgs.Field, x interface{}) string {
-	switch f.Type().ProtoType() {
-	case pgs.BytesT:
-		return fns.byteStr(x.([]byte))
-	case pgs.MessageT:
-		switch x := x.(type) {
-		case *durationpb.Duration:
-			return fns.durLit(x)
-		default:
-			return fns.lit(x)
-		}
-	case pgs.EnumT:
-		return fmt.Sprintf("%s(%d)", fns.cType(f.Type()), x.(int32))
+func (fns CCFuncs) inKey(ctx shared.RuleContext, x interface{}) string {
+	switch x := x.(type) {
+	case []byte:
+		return fns.byteStr(x)
+	case *durationpb.Duration:
+		return fns.durLit(x)
 	default:
+		if enum := fns.enumOf(ctx); enum != nil {
+			return fmt.Sprintf("%s(%d)", fns.className(enum), x)
+		}
 		return fns.lit(x)
 	}
 }
diff --git a/templates/cc/repeated.go b/templates/cc/repeated.go
index 53b2a35..4c37fa6 100644
--- a/templates/cc/repeated.go
+++ b/templates/cc/repeated.go
@@ -1,7 +1,7 @@
 package cc
 
 const repTpl = `
-	{{ $f := .Field }}{{ $r := .Rules }}{{ $typ := inType $f nil }}
+	{{ $f := .Field }}{{ $r := .Rules }}{{ $typ := elemType $f }}
 	{{ if $r.GetIgnoreEmpty }}
 		if ({{ accessor . }}.size() > 0) {
 	{{ end }}
@@ -42,7 +42,7 @@ const repTpl = `
 	};
 
 	// Save a set of references to avoid copying overhead
-	std::unordered_set<std::reference_wrapper<{{ $typ }}>, hash, cmp> {{ lookup $f "Unique" }};
+	std::unordered_set<std::reference_wrapper<{{ $typ }}>, hash, cmp> {{ lookup . "Unique" }};
 	{{ end }}
 
 	{{ if or $r.GetUnique (ne (.Elem "" "").Typ "none") }}
@@ -51,7 +51,7 @@ const repTpl = `
 			(void)item;
 
 			{{ if $r.GetUnique }}
-				auto p = {{ lookup $f "Unique" }}.emplace(const_cast<{{ $typ }}&>(item));
+				auto p = {{ lookup . "Unique" }}.emplace(const_cast<{{ $typ }}&>(item));
 				if (p.second == false) {
 					{{ errIdx . "i" "repeated value must contain unique items" }}
 				}
diff --git a/templates/cc/string.go b/templates/cc/string.go
index 112966c..a00da12 100644
--- a/templates/cc/string.go
+++ b/templates/cc/string.go
@@ -1,7 +1,7 @@
 package cc
 
 const strTpl = `
-	{{ $f := .Field }}{{ $r := .Rules }}
+	{{ $r := .Rules }}
 	{{ if $r.GetIgnoreEmpty }}
 		if ({{ accessor . }} != "") {
 	{{ end }}
@@ -112,7 +112,7 @@ const strTpl = `
         {{ if $r.Pattern }}
         {
                 if (!RE2::FullMatch(re2::StringPiece({{ accessor . }}.c_str(), {{ accessor . }}.size()),
-                                    {{ lookup $f "Pattern" }})) {
+                                    {{ lookup . "Pattern" }})) {
 		        {{ err . "value does not match regex pattern " (lit $r.GetPattern) }}
 	        }
         }
-- 
2.43.0


From d83682e95548008c916361994bba538d57eac823 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:49 +0000
Subject: [PATCH 34/53] fix: write the numbers of C++ rules as literals of
 exactly their value and type

---
 templates/cc/file.go     |  1 +
 templates/cc/ltgt.go     | 24 ++++++++++++------------
 templates/cc/register.go | 34 ++++++++++++++++++++++++++++++++--
 3 files changed, 45 insertions(+), 14 deletions(-)

diff --git a/templates/cc/file.go b/templates/cc/file.go
index a85cf82..416c6d3 100644
--- a/templates/cc/file.go
+++ b/templates/cc/file.go
@@ -54,6 +54,7 @@ const headerFileTpl = `// Code generated by protoc-gen-validate
 #pragma once
 
 #include <algorithm>
+#include <limits>
 #include <string>
 #include <sstream>
 #include <unordered_set>
diff --git a/templates/cc/ltgt.go b/templates/cc/ltgt.go
index f296d93..14416b2 100644
--- a/templates/cc/ltgt.go
+++ b/templates/cc/ltgt.go
@@ -4,61 +4,61 @@ const ltgtTpl = `{{ $f := .Field }}{{ $r := .Rules }}{{ $v := (accessor .) }}
 	{{ if $r.Lt }}
 		{{ if $r.Gt }}
 			{{  if gt $r.GetLt $r.GetGt }}
-				if ({{ $v }} <= {{ $r.Gt }} || {{ $v }} >= {{ $r.Lt }}) {
+				if ({{ $v }} <= {{ lit $r.Gt }} || {{ $v }} >= {{ lit $r.Lt }}) {
 					{{ err . "value must be inside range (" $r.GetGt ", " $r.GetLt ")" }}
 				}
 			{{ else }}
-				if ({{ $v }} >= {{ $r.Lt }} && {{ $v }} <= {{ $r.Gt }}) {
+				if ({{ $v }} >= {{ lit $r.Lt }} && {{ $v }} <= {{ lit $r.Gt }}) {
 					{{ err . "value must be outside range [" $r.GetLt ", " $r.GetGt "]" }}
 				}
 			{{ end }}
 		{{ else if $r.Gte }}
 			{{  if gt $r.GetLt $r.GetGte }}
-				if ({{ $v }} < {{ $r.Gte }} || {{ $v }} >= {{ $r.Lt }}) {
+				if ({{ $v }} < {{ lit $r.Gte }} || {{ $v }} >= {{ lit $r.Lt }}) {
 					{{ err . "value must be inside range [" $r.GetGte ", " $r.GetLt ")" }}
 				}
 			{{ else }}
-				if ({{ $v }} >= {{ $r.Lt }} && {{ $v }} < {{ $r.Gte }}) {
+				if ({{ $v }} >= {{ lit $r.Lt }} && {{ $v }} < {{ lit $r.Gte }}) {
 					{{ err . "value must be outside range [" $r.GetLt ", " $r.GetGte ")" }}
 				}
 			{{ end }}
 		{{ else }}
-			if ({{ accessor . }} >= {{ $r.Lt }}) {
+			if ({{ accessor . }} >= {{ lit $r.Lt }}) {
 				{{ err . "value must be less than " $r.GetLt }}
 			}
 		{{ end }}
 	{{ else if $r.Lte }}
 		{{ if $r.Gt }}
 			{{  if gt $r.GetLte $r.GetGt }}
-				if ({{ $v }} <= {{ $r.Gt }} || {{ $v }} > {{ $r.Lte }}) {
+				if ({{ $v }} <= {{ lit $r.Gt }} || {{ $v }} > {{ lit $r.Lte }}) {
 					{{ err . "value must be inside range (" $r.GetGt ", " $r.GetLte "]" }}
 				}
 			{{ else }}
-				if ({{ $v }} > {{ $r.Lte }} && {{ $v }} <= {{ $r.Gt }}) {
+				if ({{ $v }} > {{ lit $r.Lte }} && {{ $v }} <= {{ lit $r.Gt }}) {
 					{{ err . "value must be outside range (" $r.GetLte ", " $r.GetGt "]" }}
 				}
 			{{ end }}
 		{{ else if $r.Gte }}
 			{{ if gt $r.GetLte $r.GetGte }}
-				if ({{ $v }} < {{ $r.Gte }} || {{ $v }} > {{ $r.Lte }}) {
+				if ({{ $v }} < {{ lit $r.Gte }} || {{ $v }} > {{ lit $r.Lte }}) {
 					{{ err . "value must be inside range [" $r.GetGte ", " $r.GetLte "]" }}
 				}
 			{{ else }}
-				if ({{ $v }} > {{ $r.Lte }} && {{ $v }} < {{ $r.Gte }}) {
+				if ({{ $v }} > {{ lit $r.Lte }} && {{ $v }} < {{ lit $r.Gte }}) {
 					{{ err . "value must be outside range (" $r.GetLte ", " $r.GetGte ")" }}
 				}
 			{{ end }}
 		{{ else }}
-			if ({{ accessor . }} > {{ $r.Lte }}) {
+			if ({{ accessor . }} > {{ lit $r.Lte }}) {
 				{{ err . "value must be less than or equal to " $r.GetLte }}
 			}
 		{{ end }}
 	{{ else if $r.Gt }}
-		if ({{ accessor . }} <= {{ $r.Gt }}) {
+		if ({{ accessor . }} <= {{ lit $r.Gt }}) {
 			{{ err . "value must be greater than " $r.GetGt }}
 		}
 	{{ else if $r.Gte }}
-		if ({{ accessor . }} < {{ $r.Gte }}) {
+		if ({{ accessor . }} < {{ lit $r.Gte }}) {
 			{{ err . "value must be greater than or equal to " $r.GetGte }}
 		}
 	{{ end }}
diff --git a/templates/cc/register.go b/templates/cc/register.go
index 993bc58..92ee65e 100644
--- a/templates/cc/register.go
+++ b/templates/cc/register.go
@@ -2,6 +2,7 @@ package cc
 
 import (
 	"fmt"
+	"math"
 	"reflect"
 	"strconv"
 	"strings"
@@ -260,9 +261,38 @@ func (fns CCFuncs) lit(x interface{}) string {
 			panic(fmt.Sprintf("don't know how to format literals of type %v", val.Kind()))
 		}
 	case reflect.Float32:
-		return fmt.Sprintf("%fF", x)
+		return floatLit(val.Float(), 32)
+	case reflect.Float64:
+		return floatLit(val.Float(), 64)
+	case reflect.Int64:
+		if val.Int() == math.MinInt64 {
+			// the literal of its magnitude does not fit any signed type
+			return fmt.Sprintf("(%d - 1)", int64(math.MinInt64+1))
+		}
+		return fmt.Sprint(val.Interface())
+	case reflect.Uint64:
+		return fmt.Sprintf("%dULL", val.Interface())
+	default:
+		return fmt.Sprint(val.Interface())
+	}
+}
+
+// floatLit returns a literal with exactly the value and the precision given.
+func floatLit(v float64, bits int) string {
+	typ, suffix := "double", ""
+	if bits == 32 {
+		typ, suffix = "float", "F"
+	}
+
+	switch {
+	case math.IsInf(v, 1):
+		return fmt.Sprintf("std::numeric_limits<%s>::infinity()", typ)
+	case math.IsInf(v, -1):
+		return fmt.Sprintf("-std::numeric_limits<%s>::infinity()", typ)
+	case math.IsNaN(v):
+		return fmt.Sprintf("std::numeric_limits<%s>::quiet_NaN()", typ)
 	default:
-		return fmt.Sprint(x)
+		return strconv.FormatFloat(v, 'e', -1, bits) + suffix
 	}
 }
 
-- 
2.43.0


From a312f0daee007f34c60329e51156c57924ea497a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:24 +0000
Subject: [PATCH 35/53] fix: quote the text of C++ rules the way C++ reads it

---
 templates/cc/in.go       |  4 +--
 templates/cc/register.go | 53 ++++++++++++++++++++++++++--------------
 2 files changed, 36 insertions(+), 21 deletions(-)

diff --git a/templates/cc/in.go b/templates/cc/in.go
index 246d45f..e445455 100644
--- a/templates/cc/in.go
+++ b/templates/cc/in.go
@@ -31,7 +31,7 @@ const lookupsTpl = `{{ $ctx := . }}
 	{{ end }}{{ end }}
 
 	{{ if has .Rules "Pattern"}}{{ if .Rules.Pattern }}
-	const re2::RE2 {{ lookup . "Pattern" }}(re2::StringPiece({{ lit .Rules.GetPattern }},
-	                                        sizeof({{ lit .Rules.GetPattern }}) - 1));
+	const re2::RE2 {{ lookup . "Pattern" }}(re2::StringPiece({{ quoteLit .Rules.GetPattern }},
+	                                        sizeof({{ quoteLit .Rules.GetPattern }}) - 1));
 	{{ end }}{{ end }}
 `
diff --git a/templates/cc/register.go b/templates/cc/register.go
index 92ee65e..17ded8a 100644
--- a/templates/cc/register.go
+++ b/templates/cc/register.go
@@ -43,6 +43,7 @@ func RegisterModule(tpl *template.Template, params pgs.Parameters) {
 		"output":        fns.output,
 		"package":       fns.packageName,
 		"quote":         fns.quote,
+		"quoteLit":      quoteLit,
 		"staticVarName": fns.staticVarName,
 		"tsGt":          fns.tsGt,
 		"tsLit":         fns.tsLit,
@@ -199,8 +200,8 @@ func (fns CCFuncs) errIdxCause(ctx shared.RuleContext, idx, cause string, reason
 		output = append(output, `msg << "key for ";`)
 	}
 	output = append(output,
-		fmt.Sprintf(`msg << %q << "." << %s;`,
-			errName, fns.lit(pgsgo.PGGUpperCamelCase(f.Name()))))
+		fmt.Sprintf(`msg << %s << "." << %s;`,
+			quoteLit(errName), fns.lit(pgsgo.PGGUpperCamelCase(f.Name()))))
 
 	if idx != "" {
 		output = append(output, fmt.Sprintf(`msg << "[" << %s << "]";`, idx))
@@ -208,7 +209,7 @@ func (fns CCFuncs) errIdxCause(ctx shared.RuleContext, idx, cause string, reason
 		output = append(output, fmt.Sprintf(`msg << "[" << %s << "]";`, ctx.Index))
 	}
 
-	output = append(output, fmt.Sprintf(`msg << ": " << %q;`, fmt.Sprint(reason...)))
+	output = append(output, fmt.Sprintf(`msg << ": " << %s;`, quoteLit(fmt.Sprint(reason...))))
 
 	if cause != "nil" && cause != "" {
 		output = append(output, fmt.Sprintf(`msg << " | caused by " << %s;`, cause))
@@ -246,20 +247,14 @@ func (fns CCFuncs) lit(x interface{}) string {
 
 	switch val.Kind() {
 	case reflect.String:
-		return fmt.Sprintf("%q", x)
+		return stringLit(val.String())
 	case reflect.Uint8:
 		return fmt.Sprintf("%d", x)
 	case reflect.Slice:
-		els := make([]string, val.Len())
-		switch reflect.TypeOf(x).Elem().Kind() {
-		case reflect.Uint8:
-			for i, l := 0, val.Len(); i < l; i++ {
-				els[i] = fmt.Sprintf("\\x%x", val.Index(i).Interface())
-			}
-			return fmt.Sprintf("\"%s\"", strings.Join(els, ""))
-		default:
-			panic(fmt.Sprintf("don't know how to format literals of type %v", val.Kind()))
+		if b, ok := x.([]byte); ok {
+			return stringLit(string(b))
 		}
+		panic(fmt.Sprintf("don't know how to format literals of type %v", val.Kind()))
 	case reflect.Float32:
 		return floatLit(val.Float(), 32)
 	case reflect.Float64:
@@ -277,6 +272,31 @@ func (fns CCFuncs) lit(x interface{}) string {
 	}
 }
 
+// escapes maps what cannot stand for itself in a literal to octal escapes:
+// unlike others, these cannot absorb the characters that follow.
+var escapes = func() *strings.Replacer {
+	var pairs []string
+	for c := 0; c <= 0xff; c++ {
+		if c < ' ' || c > '~' || c == '"' || c == '\\' || c == '?' {
+			pairs = append(pairs, string([]byte{byte(c)}), fmt.Sprintf(`\%03o`, c))
+		}
+	}
+	return strings.NewReplacer(pairs...)
+}()
+
+// quoteLit returns the string literal of s.
+func quoteLit(s string) string {
+	return `"` + escapes.Replace(s) + `"`
+}
+
+// stringLit returns an expression for s, which may contain null characters.
+func stringLit(s string) string {
+	if strings.Contains(s, "\x00") {
+		return fmt.Sprintf("std::string(%s, %d)", quoteLit(s), len(s))
+	}
+	return quoteLit(s)
+}
+
 // floatLit returns a literal with exactly the value and the precision given.
 func floatLit(v float64, bits int) string {
 	typ, suffix := "double", ""
@@ -303,12 +323,7 @@ func (fns CCFuncs) isBytes(f interface {
 }
 
 func (fns CCFuncs) byteStr(x []byte) string {
-	elms := make([]string, len(x))
-	for i, b := range x {
-		elms[i] = fmt.Sprintf(`\x%X`, b)
-	}
-
-	return fmt.Sprintf(`"%s"`, strings.Join(elms, ""))
+	return stringLit(string(x))
 }
 
 func (fns CCFuncs) oneofTypeName(f pgs.Field) pgsgo.TypeName {
-- 
2.43.0


From b00484898f8348c7be4e81522ffc520cd88379a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:21 +0000
Subject: [PATCH 36/53] fix: refuse C++ addresses with text after a null
 character

---
 validate/validate.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/validate/validate.h b/validate/validate.h
index b859497..3c34051 100644
--- a/validate/validate.h
+++ b/validate/validate.h
@@ -96,12 +96,12 @@ static inline bool NotContains(const string& search_in, const string& to_find)
 
 static inline bool IsIpv4(const string& to_validate) {
 	struct sockaddr_in sa;
-	return !(inet_pton(AF_INET, to_validate.c_str(), &sa.sin_addr) < 1);
+	return to_validate.find('\0') == string::npos && !(inet_pton(AF_INET, to_validate.c_str(), &sa.sin_addr) < 1);
 }
 
 static inline bool IsIpv6(const string& to_validate) {
   struct sockaddr_in6 sa_six;
-	return !(inet_pton(AF_INET6, to_validate.c_str(), &sa_six.sin6_addr) < 1);
+	return to_validate.find('\0') == string::npos && !(inet_pton(AF_INET6, to_validate.c_str(), &sa_six.sin6_addr) < 1);
 }
 
 static inline bool IsIp(const string& to_validate) {
-- 
2.43.0


From 8c28db3b58cda208ecb991728d28842510df0d77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:21 +0000
Subject: [PATCH 37/53] fix: refuse C++ durations whose parts differ in sign

---
 templates/cc/duration.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/templates/cc/duration.go b/templates/cc/duration.go
index 52472c8..9bb5a58 100644
--- a/templates/cc/duration.go
+++ b/templates/cc/duration.go
@@ -9,9 +9,10 @@ const durationTpl = `{{ $r := .Rules }}
 			const pgv::protobuf_wkt::Duration& dur = {{ accessor . }};
 
 			if (dur.nanos() > 999999999 || dur.nanos() < -999999999 ||
+			    (dur.seconds() > 0 && dur.nanos() < 0) || (dur.seconds() < 0 && dur.nanos() > 0) ||
 			    dur.seconds() > pgv::protobuf::util::TimeUtil::kDurationMaxSeconds ||
 			    dur.seconds() < pgv::protobuf::util::TimeUtil::kDurationMinSeconds)
-				{{ errCause . "err" "value is not a valid duration" }}
+				{{ err . "value is not a valid duration" }}
 
 
 			{{  if $r.Const }}
-- 
2.43.0


From a5e15165d38fe0c40cc5db6d5dd0b383e0b59847 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:28 +0000
Subject: [PATCH 38/53] fix: let C++ messages have several fields of unique
 items

---
 templates/cc/repeated.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/templates/cc/repeated.go b/templates/cc/repeated.go
index 4c37fa6..61b0545 100644
--- a/templates/cc/repeated.go
+++ b/templates/cc/repeated.go
@@ -26,6 +26,7 @@ const repTpl = `
 	{{ end }}
 
 	{{ if $r.GetUnique }}
+	{
 	// Implement comparison for wrapped reference types
 	struct cmp {
 		bool operator() (const std::reference_wrapper<{{ $typ }}> lhs, const std::reference_wrapper<{{ $typ }}> rhs) const {
@@ -36,7 +37,7 @@ const repTpl = `
 	// Implement hashing for wrapped reference types
 	struct hash {
 		std::hash<{{ $typ }}> hash_fn;
-		bool operator() (const std::reference_wrapper<{{ $typ }}> ref) const {
+		size_t operator() (const std::reference_wrapper<{{ $typ }}> ref) const {
 			return hash_fn(ref.get());
 		}
 	};
@@ -60,6 +61,9 @@ const repTpl = `
 			{{ render (.Elem "item" "i") }}
 		}
 	{{ end }}
+	{{ if $r.GetUnique }}
+	}
+	{{ end }}
 	{{ if $r.GetIgnoreEmpty }}
 		}
 	{{ end }}
-- 
2.43.0


From 120be280d3a58c718d38a096c6e4c06f9b1498ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:28 +0000
Subject: [PATCH 39/53] fix: name C++ namespaces, classes, accessors and cases
 the way protoc does

---
 templates/cc/file.go     |  8 ++--
 templates/cc/register.go | 85 +++++++++++++++++++++++++++++++++-------
 2 files changed, 74 insertions(+), 19 deletions(-)

diff --git a/templates/cc/file.go b/templates/cc/file.go
index 416c6d3..766f666 100644
--- a/templates/cc/file.go
+++ b/templates/cc/file.go
@@ -34,7 +34,7 @@ pgv::Validator<{{ class . }}> {{ staticVarName . }}(static_cast<bool(*)(const {{
 } // namespace validate
 } // namespace pgv
 
-{{ range .Package.ProtoName.Split }}
+{{ range namespaces .Package }}
 namespace {{ . }} {
 {{- end }}
 
@@ -42,7 +42,7 @@ namespace {{ . }} {
 	{{- template "msg" . }}
 {{ end }}
 
-{{ range .Package.ProtoName.Split -}}
+{{ range namespaces .Package -}}
 } // namespace
 {{ end }}
 `
@@ -63,7 +63,7 @@ const headerFileTpl = `// Code generated by protoc-gen-validate
 #include "validate/validate.h"
 #include "{{ output .File ".h" }}"
 
-{{ range .Package.ProtoName.Split }}
+{{ range namespaces .Package }}
 namespace {{ . }} {
 {{- end }}
 
@@ -73,7 +73,7 @@ using std::string;
 	{{- template "decl" . }}
 {{ end }}
 
-{{ range .Package.ProtoName.Split -}}
+{{ range namespaces .Package -}}
 } // namespace
 {{ end }}
 
diff --git a/templates/cc/register.go b/templates/cc/register.go
index 17ded8a..aab6a30 100644
--- a/templates/cc/register.go
+++ b/templates/cc/register.go
@@ -39,6 +39,7 @@ func RegisterModule(tpl *template.Template, params pgs.Parameters) {
 		"isBytes":       fns.isBytes,
 		"lit":           fns.lit,
 		"lookup":        fns.lookup,
+		"namespaces":    fns.namespaces,
 		"oneof":         fns.oneofTypeName,
 		"output":        fns.output,
 		"package":       fns.packageName,
@@ -100,6 +101,7 @@ func RegisterHeader(tpl *template.Template, params pgs.Parameters) {
 
 	tpl.Funcs(map[string]interface{}{
 		"class":                fns.className,
+		"namespaces":           fns.namespaces,
 		"output":               fns.output,
 		"screaming_snake_case": strcase.ToScreamingSnake,
 	})
@@ -117,16 +119,56 @@ func CcFilePath(f pgs.File, ctx pgsgo.Context, tpl *template.Template) *pgs.File
 	return &out
 }
 
-func (fns CCFuncs) methodName(name interface{}) string {
-	nameStr := fmt.Sprintf("%s", name)
-	switch nameStr {
-	case "const":
-		return "const_"
-	case "inline":
-		return "inline_"
-	default:
-		return nameStr
+// keywords are the names protoc does not use as they are.
+var keywords = func() map[string]bool {
+	words := map[string]bool{}
+	for _, w := range strings.Fields(`
+		NULL alignas alignof and and_eq asm auto bitand bitor bool break case
+		catch char class compl const constexpr const_cast continue decltype
+		default delete do double dynamic_cast else enum explicit export extern
+		false float for friend goto if inline int long mutable namespace new
+		noexcept not not_eq nullptr operator or or_eq private protected public
+		register reinterpret_cast return short signed sizeof static
+		static_assert static_cast struct switch template this thread_local
+		throw true try typedef typeid typename union unsigned using virtual
+		void volatile wchar_t while xor xor_eq`) {
+		words[w] = true
+	}
+	return words
+}()
+
+func identifier(name string) string {
+	if keywords[name] {
+		return name + "_"
+	}
+	return name
+}
+
+// methodName returns the name of the accessor of a field.
+func (fns CCFuncs) methodName(name pgs.Name) string {
+	return identifier(strings.ToLower(name.String()))
+}
+
+// camelCase returns a name in the camel case protoc gives it.
+func camelCase(name pgs.Name) string {
+	var out []byte
+	up := true
+	for _, c := range []byte(name.String()) {
+		switch {
+		case c >= 'a' && c <= 'z':
+			if up {
+				c -= 'a' - 'A'
+			}
+			out, up = append(out, c), false
+		case c >= 'A' && c <= 'Z':
+			out, up = append(out, c), false
+		case c >= '0' && c <= '9':
+			out, up = append(out, c), true
+		default:
+			up = true
+		}
 	}
+	return string(out)
 }
 
 func (fns CCFuncs) accessor(ctx shared.RuleContext) string {
@@ -155,18 +197,31 @@ type childEntity interface {
 }
 
 func (fns CCFuncs) classBaseName(ent childEntity) string {
+	name := ent.Name().String()
 	if m, ok := ent.Parent().(pgs.Message); ok {
-		return fmt.Sprintf("%s_%s", fns.classBaseName(m), ent.Name().String())
+		name = fns.classBaseName(m) + "_" + name
 	}
-	return ent.Name().String()
+	return identifier(name)
 }
 
 func (fns CCFuncs) className(ent childEntity) string {
 	return fns.packageName(ent) + "::" + fns.classBaseName(ent)
 }
 
-func (fns CCFuncs) packageName(msg pgs.Entity) string {
-	return "::" + strings.Join(msg.Package().ProtoName().Split(), "::")
+// namespaces returns the names of the namespaces of a package.
+func (fns CCFuncs) namespaces(pkg pgs.Package) []string {
+	if pkg.ProtoName() == "" {
+		return nil
+	}
+	return strings.Split(pkg.ProtoName().String(), ".")
+}
+
+func (fns CCFuncs) packageName(ent pgs.Entity) string {
+	name := ""
+	for _, ns := range fns.namespaces(ent.Package()) {
+		name += "::" + ns
+	}
+	return name
 }
 
 func (fns CCFuncs) quote(s interface {
@@ -329,8 +384,8 @@ func (fns CCFuncs) byteStr(x []byte) string {
 func (fns CCFuncs) oneofTypeName(f pgs.Field) pgsgo.TypeName {
 	return pgsgo.TypeName(fmt.Sprintf("%s::%sCase::k%s",
 		fns.className(f.Message()),
-		pgsgo.PGGUpperCamelCase(f.OneOf().Name()),
-		strings.ReplaceAll(pgsgo.PGGUpperCamelCase(f.Name()).String(), "_", "")))
+		camelCase(f.OneOf().Name()),
+		camelCase(f.Name())))
 }
 
 // inType returns the type of the entries of the lookup table of a list.
-- 
2.43.0


From a666891dc660b916e05237a62f69dac4e18166c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:12:02 +0000
Subject: [PATCH 40/53] fix: quote the texts of rules in the code of the Python
 runtime

---
 python/protoc_gen_validate/validator.py | 59 ++++++++++++++-----------
 1 file changed, 33 insertions(+), 26 deletions(-)

diff --git a/python/protoc_gen_validate/validator.py b/python/protoc_gen_validate/validator.py
index bdca00b..9435ea4 100644
--- a/python/protoc_gen_validate/validator.py
+++ b/python/protoc_gen_validate/validator.py
@@ -132,10 +132,15 @@ def _has_field(message_pb, property_name):
         return property_name in all_fields
 
 
+def text(*parts):
+    """The Python literal of a text made of parts."""
+    return repr("".join(str(part) for part in parts))
+
+
 def const_template(option_value, name):
     const_tmpl = """{%- if str(o.string) and o.string.HasField('const') -%}
-    if {{ name }} != \"{{ o.string['const'] }}\":
-        raise ValidationFailed(\"{{ name }} not equal to {{ o.string['const'] }}\")
+    if {{ name }} != {{ text(o.string['const']) }}:
+        raise ValidationFailed({{ text(name, " not equal to ", o.string['const']) }})
     {%- elif str(o.bool) and o.bool['const'] != "" -%}
     if {{ name }} != {{ o.bool['const'] }}:
         raise ValidationFailed(\"{{ name }} not equal to {{ o.bool['const'] }}\")
@@ -145,28 +150,28 @@ def const_template(option_value, name):
     {%- elif str(o.bytes) and o.bytes.HasField('const') -%}
         {% if sys.version_info[0] >= 3 %}
     if {{ name }} != {{ o.bytes['const'] }}:
-        raise ValidationFailed(\"{{ name }} not equal to {{ o.bytes['const'] }}\")
+        raise ValidationFailed({{ text(name, " not equal to ", o.bytes['const']) }})
         {% else %}
     if {{ name }} != b\"{{ o.bytes['const'].encode('string_escape') }}\":
         raise ValidationFailed(\"{{ name }} not equal to {{ o.bytes['const'].encode('string_escape') }}\")
         {% endif %}
     {%- endif -%}
     """
-    return Template(const_tmpl).render(sys=sys, o=option_value, name=name, str=str)
+    return Template(const_tmpl).render(sys=sys, o=option_value, name=name, str=str, text=text)
 
 
 def in_template(value, name):
     in_tmpl = """
     {%- if value['in'] %}
     if {{ name }} not in {{ value['in'] }}:
-        raise ValidationFailed(\"{{ name }} not in {{ value['in'] }}\")
+        raise ValidationFailed({{ text(name, " not in ", value['in']) }})
     {%- endif -%}
     {%- if value['not_in'] %}
     if {{ name }} in {{ value['not_in'] }}:
-        raise ValidationFailed(\"{{ name }} in {{ value['not_in'] }}\")
+        raise ValidationFailed({{ text(name, " in ", value['not_in']) }})
     {%- endif -%}
     """
-    return Template(in_tmpl).render(value=value, name=name)
+    return Template(in_tmpl).render(value=value, name=name, text=text)
 
 
 def string_template(option_value, name):
@@ -213,24 +218,24 @@ def string_template(option_value, name):
         raise ValidationFailed(\"{{ name }} length is greater than {{ s['max_bytes'] }}\")
     {%- endif -%}
     {%- if s['pattern'] %}
-    if re.search(r\'{{ s['pattern'] }}\', {{ name }}) is None:
-        raise ValidationFailed(\"{{ name }} pattern does not match {{ s['pattern'] }}\")
+    if re.search({{ text(s['pattern']) }}, {{ name }}) is None:
+        raise ValidationFailed({{ text(name, " pattern does not match ", s['pattern']) }})
     {%- endif -%}
     {%- if s['prefix'] %}
-    if not {{ name }}.startswith(\"{{ s['prefix'] }}\"):
-        raise ValidationFailed(\"{{ name }} does not start with prefix {{ s['prefix'] }}\")
+    if not {{ name }}.startswith({{ text(s['prefix']) }}):
+        raise ValidationFailed({{ text(name, " does not start with prefix ", s['prefix']) }})
     {%- endif -%}
     {%- if s['suffix'] %}
-    if not {{ name }}.endswith(\"{{ s['suffix'] }}\"):
-        raise ValidationFailed(\"{{ name }} does not end with suffix {{ s['suffix'] }}\")
+    if not {{ name }}.endswith({{ text(s['suffix']) }}):
+        raise ValidationFailed({{ text(name, " does not end with suffix ", s['suffix']) }})
     {%- endif -%}
     {%- if s['contains'] %}
-    if not \"{{ s['contains'] }}\" in {{ name }}:
-        raise ValidationFailed(\"{{ name }} does not contain {{ s['contains'] }}\")
+    if not {{ text(s['contains']) }} in {{ name }}:
+        raise ValidationFailed({{ text(name, " does not contain ", s['contains']) }})
     {%- endif -%}
     {%- if s['not_contains'] %}
-    if \"{{ s['not_contains'] }}\" in {{ name }}:
-        raise ValidationFailed(\"{{ name }} contains {{ s['not_contains'] }}\")
+    if {{ text(s['not_contains']) }} in {{ name }}:
+        raise ValidationFailed({{ text(name, " contains ", s['not_contains']) }})
     {%- endif -%}
     {%- if s['email'] %}
     if not _validateEmail({{ name }}):
@@ -283,7 +288,8 @@ def string_template(option_value, name):
     {%- endif -%}
     {% endfilter %}
     """
-    return Template(str_templ).render(o=option_value, name=name, const_template=const_template, in_template=in_template)
+    return Template(str_templ).render(o=option_value, name=name, const_template=const_template, in_template=in_template,
+                                      text=text)
 
 
 def required_template(value, name):
@@ -682,7 +688,7 @@ def any_template(option_value, name, repeated=False):
     if _has_field(p, \"{{ name.split('.')[-1] }}\"):
     {% endif %}
         if {{ name }}.type_url not in {{ o['in'] }}:
-            raise ValidationFailed(\"{{ name }} not in {{ o['in'] }}\")
+            raise ValidationFailed({{ text(name, " not in ", o['in']) }})
     {%- endif %}
     {%- if o['not_in'] %}
     {% if repeated %}
@@ -691,11 +697,11 @@ def any_template(option_value, name, repeated=False):
     if _has_field(p, \"{{ name.split('.')[-1] }}\"):
     {% endif %}
         if {{ name }}.type_url in {{ o['not_in'] }}:
-            raise ValidationFailed(\"{{ name }} in {{ o['not_in'] }}\")
+            raise ValidationFailed({{ text(name, " in ", o['not_in']) }})
     {%- endif %}
     """
     return Template(any_tmpl).render(
-        o=option_value.any, name=name, required_template=required_template, repeated=repeated)
+        o=option_value.any, name=name, required_template=required_template, repeated=repeated, text=text)
 
 
 def bytes_template(option_value, name):
@@ -740,7 +746,7 @@ def bytes_template(option_value, name):
     {%- endif -%}
     {% if b['pattern'] %}
         {% if sys.version_info[0] >= 3%}
-    if re.search({{ b['pattern'].encode('unicode-escape') }}, {{ name }}) is None:
+    if re.search({{ b['pattern'].encode('utf-8') }}, {{ name }}) is None:
         raise ValidationFailed(\"{{ name }} pattern does not match b['pattern'].encode('unicode-escape')\")
         {% else %}
     if re.search(b\"{{ b['pattern'].encode('unicode-escape') }}\", {{ name }}) is None:
@@ -750,7 +756,7 @@ def bytes_template(option_value, name):
     {% if b['contains'] %}
         {% if sys.version_info[0] >= 3 %}
     if not {{ b['contains'] }} in {{ name }}:
-        raise ValidationFailed(\"{{ name }} does not contain {{ b['contains'] }}\")
+        raise ValidationFailed({{ text(name, " does not contain ", b['contains']) }})
         {% else %}
     if not b\"{{ b['contains'].encode('string_escape') }}\" in {{ name }}:
         raise ValidationFailed(\"{{ name }} does not contain \")
@@ -759,7 +765,7 @@ def bytes_template(option_value, name):
     {% if b['prefix'] %}
         {% if sys.version_info[0] >= 3 %}
     if not {{ name }}.startswith({{ b['prefix'] }}):
-        raise ValidationFailed(\"{{ name }} does not start with prefix {{ b['prefix'] }}\")
+        raise ValidationFailed({{ text(name, " does not start with prefix ", b['prefix']) }})
         {% else %}
     if not {{name}}.startswith(b\"{{ b['prefix'].encode('string_escape') }}\"):
         raise ValidationFailed(\"{{ name }} does not start with prefix {{ b['prefix'].encode('string_escape') }}\")
@@ -768,7 +774,7 @@ def bytes_template(option_value, name):
     {% if b['suffix'] %}
         {% if sys.version_info[0] >= 3 %}
     if not {{ name }}.endswith({{ b['suffix'] }}):
-        raise ValidationFailed(\"{{ name }} does not end with suffix {{ b['suffix'] }}\")
+        raise ValidationFailed({{ text(name, " does not end with suffix ", b['suffix']) }})
         {% else %}
     if not {{name}}.endswith(b\"{{ b['suffix'].encode('string_escape') }}\"):
         raise ValidationFailed(\"{{ name }} does not end with suffix {{ b['suffix'] }}\")
@@ -777,7 +783,8 @@ def bytes_template(option_value, name):
     {% endfilter %}
     """
     return Template(bytes_tmpl).render(sys=sys, o=option_value, name=name,
-                                       const_template=const_template, in_template=in_template, b=option_value.bytes)
+                                       const_template=const_template, in_template=in_template, b=option_value.bytes,
+                                       text=text)
 
 
 def switcher_template(accessor, name, field, map=False):
-- 
2.43.0


From 83a4e0d0b809284bf7d552ef35e08dc5f9f80455 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:12:02 +0000
Subject: [PATCH 41/53] fix: enforce Python limits and constants that are zero

---
 python/protoc_gen_validate/validator.py | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/python/protoc_gen_validate/validator.py b/python/protoc_gen_validate/validator.py
index 9435ea4..ab93ab1 100644
--- a/python/protoc_gen_validate/validator.py
+++ b/python/protoc_gen_validate/validator.py
@@ -144,7 +144,7 @@ def const_template(option_value, name):
     {%- elif str(o.bool) and o.bool['const'] != "" -%}
     if {{ name }} != {{ o.bool['const'] }}:
         raise ValidationFailed(\"{{ name }} not equal to {{ o.bool['const'] }}\")
-    {%- elif str(o.enum) and o.enum['const'] -%}
+    {%- elif str(o.enum) and o.enum.HasField('const') -%}
     if {{ name }} != {{ o.enum['const'] }}:
         raise ValidationFailed(\"{{ name }} not equal to {{ o.enum['const'] }}\")
     {%- elif str(o.bytes) and o.bytes.HasField('const') -%}
@@ -193,7 +193,7 @@ def string_template(option_value, name):
     {% filter indent(i,True) %}
     {{ const_template(o, name) -}}
     {{ in_template(o.string, name) -}}
-    {%- if s['len'] %}
+    {%- if s.HasField('len') %}
     if len({{ name }}) != {{ s['len'] }}:
         raise ValidationFailed(\"{{ name }} length does not equal {{ s['len'] }}\")
     {%- endif -%}
@@ -201,11 +201,11 @@ def string_template(option_value, name):
     if len({{ name }}) < {{ s['min_len'] }}:
         raise ValidationFailed(\"{{ name }} length is less than {{ s['min_len'] }}\")
     {%- endif -%}
-    {%- if s['max_len'] %}
+    {%- if s.HasField('max_len') %}
     if len({{ name }}) > {{ s['max_len'] }}:
         raise ValidationFailed(\"{{ name }} length is more than {{ s['max_len'] }}\")
     {%- endif -%}
-    {%- if s['len_bytes'] %}
+    {%- if s.HasField('len_bytes') %}
     if byte_len({{ name }}) != {{ s['len_bytes'] }}:
         raise ValidationFailed(\"{{ name }} length does not equal {{ s['len_bytes'] }}\")
     {%- endif -%}
@@ -213,7 +213,7 @@ def string_template(option_value, name):
     if byte_len({{ name }}) < {{ s['min_bytes'] }}:
         raise ValidationFailed(\"{{ name }} length is less than {{ s['min_bytes'] }}\")
     {%- endif -%}
-    {%- if s['max_bytes'] %}
+    {%- if s.HasField('max_bytes') %}
     if byte_len({{ name }}) > {{ s['max_bytes'] }}:
         raise ValidationFailed(\"{{ name }} length is greater than {{ s['max_bytes'] }}\")
     {%- endif -%}
@@ -714,7 +714,7 @@ def bytes_template(option_value, name):
     {% filter indent(i,True) %}
     {{ const_template(o, name) -}}
     {{ in_template(o.bytes, name) -}}
-    {%- if b['len'] %}
+    {%- if b.HasField('len') %}
     if len({{ name }}) != {{ b['len'] }}:
         raise ValidationFailed(\"{{ name }} length does not equal {{ b['len'] }}\")
     {%- endif -%}
@@ -722,7 +722,7 @@ def bytes_template(option_value, name):
     if len({{ name }}) < {{ b['min_len'] }}:
         raise ValidationFailed(\"{{ name }} length is less than {{ b['min_len'] }}\")
     {%- endif -%}
-    {%- if b['max_len'] %}
+    {%- if b.HasField('max_len') %}
     if len({{ name }}) > {{ b['max_len'] }}:
         raise ValidationFailed(\"{{ name }} length is more than {{ b['max_len'] }}\")
     {%- endif -%}
@@ -852,7 +852,7 @@ def repeated_template(option_value, name, field):
     if len({{ name }}) < {{ o.repeated['min_items'] }}:
         raise ValidationFailed(\"{{ name }} needs to contain at least {{ o.repeated['min_items'] }} items\")
     {%- endif %}
-    {%- if o and o.repeated['max_items'] %}
+    {%- if o and o.repeated.HasField('max_items') %}
     if len({{ name }}) > {{ o.repeated['max_items'] }}:
         raise ValidationFailed(\"{{ name }} needs to contain at most {{ o.repeated['max_items'] }} items\")
     {%- endif %}
@@ -901,7 +901,7 @@ def map_template(option_value, name, field):
     if len({{ name }}) < {{ o.map['min_pairs'] }}:
         raise ValidationFailed(\"{{ name }} needs to contain at least {{ o.map['min_pairs'] }} items\")
     {%- endif %}
-    {%- if o and o.map['max_pairs'] %}
+    {%- if o and o.map.HasField('max_pairs') %}
     if len({{ name }}) > {{ o.map['max_pairs'] }}:
         raise ValidationFailed(\"{{ name }} can contain at most {{ o.map['max_pairs'] }} items\")
     {%- endif %}
-- 
2.43.0


From 1a631be34f1f2c0dc48eda084a5438148e4fb15e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:12:48 +0000
Subject: [PATCH 42/53] fix: let Python rules that ignore empty values stand
 alone, in elements and set to false

---
 python/protoc_gen_validate/validator.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/python/protoc_gen_validate/validator.py b/python/protoc_gen_validate/validator.py
index ab93ab1..f280b92 100644
--- a/python/protoc_gen_validate/validator.py
+++ b/python/protoc_gen_validate/validator.py
@@ -184,10 +184,11 @@ def string_template(option_value, name):
         else:
             option_value.string.pattern = regex_map[regex_name]
     str_templ = """
-    {%- set s = o.string -%}
+    {%- set s = o.string %}
     {% set i = 0 %}
     {%- if s['ignore_empty'] -%}
     if {{ name }}:
+        pass
     {% set i = 4 %}
     {%- endif -%}
     {% filter indent(i,True) %}
@@ -332,8 +333,9 @@ def bool_template(option_value, name):
 def num_template(option_value, name, num):
     num_tmpl = """
     {% set i = 0 %}
-    {%- if num.HasField('ignore_empty') -%}
+    {%- if num['ignore_empty'] -%}
     if {{ name }}:
+        pass
     {% set i = 4 %}
     {%- endif -%}
     {% filter indent(i,True) %}
@@ -624,6 +626,7 @@ def wrapper_template(option_value, name, repeated=False):
     {% else %}
     if p.HasField(\"{{ name[2:] }}\"):
     {% endif %}
+        pass
         {%- if str(option_value.float) %}
         {{- num_template(option_value, name + ".value", option_value.float)|indent(4,True) -}}
         {% endif -%}
@@ -709,6 +712,7 @@ def bytes_template(option_value, name):
     {% set i = 0 %}
     {%- if b['ignore_empty'] -%}
     if {{ name }}:
+        pass
     {% set i = 4 %}
     {%- endif -%}
     {% filter indent(i,True) %}
@@ -845,6 +849,7 @@ def repeated_template(option_value, name, field):
     {% set i = 0 %}
     {%- if o and o.repeated['ignore_empty'] %}
     if {{ name }}:
+        pass
     {% set i = 4 %}
     {%- endif -%}
     {% filter indent(i,True) %}
@@ -894,6 +899,7 @@ def map_template(option_value, name, field):
     {% set i = 0 %}
     {%- if o and o.map['ignore_empty'] %}
     if {{ name }}:
+        pass
     {% set i = 4 %}
     {%- endif -%}
     {% filter indent(i,True) %}
-- 
2.43.0


From 499b5b1de6c98a3f4258a056e4bd797fd64f411f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:13:48 +0000
Subject: [PATCH 43/53] fix: check bytes and wrapped elements in Python

---
 python/protoc_gen_validate/validator.py | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/python/protoc_gen_validate/validator.py b/python/protoc_gen_validate/validator.py
index f280b92..573dba9 100644
--- a/python/protoc_gen_validate/validator.py
+++ b/python/protoc_gen_validate/validator.py
@@ -791,9 +791,19 @@ def bytes_template(option_value, name):
                                        text=text)
 
 
+def has_wrapper_rules(option_value):
+    return any(str(rules) for rules in (
+        option_value.float, option_value.double, option_value.int32, option_value.int64, option_value.uint32,
+        option_value.uint64, option_value.bool, option_value.string, option_value.bytes))
+
+
 def switcher_template(accessor, name, field, map=False):
+    message_type = field.message_type.fields[1].message_type if map else field.message_type
+    wrapped = message_type is not None and has_wrapper_rules(accessor)
     switcher_tmpl = """
-    {%- if str(accessor.float) %}
+    {%- if wrapped %}
+    {{- wrapper_template(accessor, name, True)|indent(4,True) -}}
+    {%- elif str(accessor.float) %}
     {{- num_template(accessor, name, accessor.float)|indent(4,True) -}}
     {%- elif str(accessor.double) %}
     {{- num_template(accessor, name, accessor.double)|indent(4,True) -}}
@@ -821,6 +831,8 @@ def switcher_template(accessor, name, field, map=False):
     {{- bool_template(accessor, name)|indent(4,True) -}}
     {%- elif str(accessor.string) %}
     {{- string_template(accessor, name)|indent(4,True) -}}
+    {%- elif str(accessor.bytes) %}
+    {{- bytes_template(accessor, name)|indent(4,True) -}}
     {%- elif str(accessor.enum) and map %}
     {{- enum_template(accessor, name, field.message_type.fields[1])|indent(4,True) -}}
     {%- elif str(accessor.enum) and not map %}
@@ -841,7 +853,9 @@ def switcher_template(accessor, name, field, map=False):
                                           bool_template=bool_template, string_template=string_template,
                                           enum_template=enum_template, duration_template=duration_template,
                                           timestamp_template=timestamp_template, any_template=any_template,
-                                          message_template=message_template, field=field, map=map)
+                                          message_template=message_template, field=field, map=map,
+                                          wrapped=wrapped, wrapper_template=wrapper_template,
+                                          bytes_template=bytes_template)
 
 
 def repeated_template(option_value, name, field):
-- 
2.43.0


From 37bd598c3a1ca936edc502d06dfaf7267e7aaaa9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:14:41 +0000
Subject: [PATCH 44/53] fix: compare Python times to the nanosecond

---
 python/protoc_gen_validate/validator.py | 103 ++++++++++++------------
 1 file changed, 53 insertions(+), 50 deletions(-)

diff --git a/python/protoc_gen_validate/validator.py b/python/protoc_gen_validate/validator.py
index 573dba9..4ba8a33 100644
--- a/python/protoc_gen_validate/validator.py
+++ b/python/protoc_gen_validate/validator.py
@@ -403,19 +403,20 @@ def num_template(option_value, name, num):
 
 
 def dur_arr(dur):
-    value = 0
-    arr = []
-    for val in dur:
-        value += val.seconds
-        value += (10**-9 * val.nanos)
-        arr.append(value)
-        value = 0
-    return arr
+    return [dur_lit(val) for val in dur]
 
 
 def dur_lit(dur):
-    value = dur.seconds + (10**-9 * dur.nanos)
-    return value
+    """Nanoseconds, which floating point seconds do not tell apart."""
+    return dur.seconds * 10**9 + dur.nanos
+
+
+def dur_text(dur):
+    return dur.seconds + (10**-9 * dur.nanos)
+
+
+def dur_texts(dur):
+    return [dur_text(val) for val in dur]
 
 
 def duration_template(option_value, name, repeated=False):
@@ -426,7 +427,7 @@ def duration_template(option_value, name, repeated=False):
     {% else %}
     if _has_field(p, \"{{ name.split('.')[-1] }}\"):
     {% endif %}
-        dur = {{ name }}.seconds + round((10**-9 * {{ name }}.nanos), 9)
+        dur = {{ name }}.seconds * 10**9 + {{ name }}.nanos
         {%- set dur = o.duration -%}
         {%- if dur.HasField('lt') %}
         lt = {{ dur_lit(dur['lt']) }}
@@ -442,68 +443,69 @@ def duration_template(option_value, name, repeated=False):
         {% endif %}
         {%- if dur.HasField('const') %}
         if dur != {{ dur_lit(dur['const']) }}:
-            raise ValidationFailed(\"{{ name }} is not equal to {{ dur_lit(dur['const']) }}\")
+            raise ValidationFailed(\"{{ name }} is not equal to {{ dur_text(dur['const']) }}\")
         {%- endif -%}
         {%- if dur['in'] %}
         if dur not in {{ dur_arr(dur['in']) }}:
-            raise ValidationFailed(\"{{ name }} is not in {{ dur_arr(dur['in']) }}\")
+            raise ValidationFailed(\"{{ name }} is not in {{ dur_texts(dur['in']) }}\")
         {%- endif -%}
         {%- if dur['not_in'] %}
         if dur in {{ dur_arr(dur['not_in']) }}:
-            raise ValidationFailed(\"{{ name }} is not in {{ dur_arr(dur['not_in']) }}\")
+            raise ValidationFailed(\"{{ name }} is not in {{ dur_texts(dur['not_in']) }}\")
         {%- endif -%}
         {%- if dur.HasField('lt') %}
             {%- if dur.HasField('gt') %}
                 {%- if dur_lit(dur['lt']) > dur_lit(dur['gt']) %}
         if dur <= gt or dur >= lt:
-            raise ValidationFailed(\"{{ name }} is not in range {{ dur_lit(dur['lt']), dur_lit(dur['gt']) }}\")
+            raise ValidationFailed(\"{{ name }} is not in range {{ dur_text(dur['lt']), dur_text(dur['gt']) }}\")
                 {%- else -%}
         if dur >= lt and dur <= gt:
-            raise ValidationFailed(\"{{ name }} is not in range {{ dur_lit(dur['gt']), dur_lit(dur['lt']) }}\")
+            raise ValidationFailed(\"{{ name }} is not in range {{ dur_text(dur['gt']), dur_text(dur['lt']) }}\")
                 {%- endif -%}
             {%- elif dur.HasField('gte') %}
                 {%- if dur_lit(dur['lt']) > dur_lit(dur['gte']) %}
         if dur < gte or dur >= lt:
-            raise ValidationFailed(\"{{ name }} is not in range {{ dur_lit(dur['lt']), dur_lit(dur['gte']) }}\")
+            raise ValidationFailed(\"{{ name }} is not in range {{ dur_text(dur['lt']), dur_text(dur['gte']) }}\")
                 {%- else -%}
         if dur >= lt and dur < gte:
-            raise ValidationFailed(\"{{ name }} is not in range {{ dur_lit(dur['gte']), dur_lit(dur['lt']) }}\")
+            raise ValidationFailed(\"{{ name }} is not in range {{ dur_text(dur['gte']), dur_text(dur['lt']) }}\")
                 {%- endif -%}
             {%- else -%}
         if dur >= lt:
-            raise ValidationFailed(\"{{ name }} is not lesser than {{ dur_lit(dur['lt']) }}\")
+            raise ValidationFailed(\"{{ name }} is not lesser than {{ dur_text(dur['lt']) }}\")
             {%- endif -%}
         {%- elif dur.HasField('lte') %}
             {%- if dur.HasField('gt') %}
                 {%- if dur_lit(dur['lte']) > dur_lit(dur['gt']) %}
         if dur <= gt or dur > lte:
-            raise ValidationFailed(\"{{ name }} is not in range {{ dur_lit(dur['lte']), dur_lit(dur['gt']) }}\")
+            raise ValidationFailed(\"{{ name }} is not in range {{ dur_text(dur['lte']), dur_text(dur['gt']) }}\")
                 {%- else -%}
         if dur > lte and dur <= gt:
-            raise ValidationFailed(\"{{ name }} is not in range {{ dur_lit(dur['gt']), dur_lit(dur['lte']) }}\")
+            raise ValidationFailed(\"{{ name }} is not in range {{ dur_text(dur['gt']), dur_text(dur['lte']) }}\")
                 {%- endif -%}
             {%- elif dur.HasField('gte') %}
                 {%- if dur_lit(dur['lte']) > dur_lit(dur['gte']) %}
         if dur < gte or dur > lte:
-            raise ValidationFailed(\"{{ name }} is not in range {{ dur_lit(dur['lte']), dur_lit(dur['gte']) }}\")
+            raise ValidationFailed(\"{{ name }} is not in range {{ dur_text(dur['lte']), dur_text(dur['gte']) }}\")
                 {%- else -%}
         if dur > lte and dur < gte:
-            raise ValidationFailed(\"{{ name }} is not in range {{ dur_lit(dur['gte']), dur_lit(dur['lte']) }}\")
+            raise ValidationFailed(\"{{ name }} is not in range {{ dur_text(dur['gte']), dur_text(dur['lte']) }}\")
                 {%- endif -%}
             {%- else -%}
         if dur > lte:
-            raise ValidationFailed(\"{{ name }} is not lesser than or equal to {{ dur_lit(dur['lte']) }}\")
+            raise ValidationFailed(\"{{ name }} is not lesser than or equal to {{ dur_text(dur['lte']) }}\")
             {%- endif -%}
         {%- elif dur.HasField('gt') %}
         if dur <= gt:
-            raise ValidationFailed(\"{{ name }} is not greater than {{ dur_lit(dur['gt']) }}\")
+            raise ValidationFailed(\"{{ name }} is not greater than {{ dur_text(dur['gt']) }}\")
         {%- elif dur.HasField('gte') %}
         if dur < gte:
-            raise ValidationFailed(\"{{ name }} is not greater than or equal to {{ dur_lit(dur['gte']) }}\")
+            raise ValidationFailed(\"{{ name }} is not greater than or equal to {{ dur_text(dur['gte']) }}\")
         {%- endif -%}
     """
     return Template(dur_tmpl).render(o=option_value, name=name, required_template=required_template,
-                                     dur_lit=dur_lit, dur_arr=dur_arr, repeated=repeated)
+                                     dur_lit=dur_lit, dur_arr=dur_arr, dur_text=dur_text,
+                                     dur_texts=dur_texts, repeated=repeated)
 
 
 def timestamp_template(option_value, name, repeated=False):
@@ -514,7 +516,7 @@ def timestamp_template(option_value, name, repeated=False):
     {% else %}
     if _has_field(p, \"{{ name.split('.')[-1] }}\"):
     {% endif %}
-        ts = {{ name }}.seconds + round((10**-9 * {{ name }}.nanos), 9)
+        ts = {{ name }}.seconds * 10**9 + {{ name }}.nanos
         {%- set ts = o.timestamp -%}
         {%- if ts.HasField('lt') %}
         lt = {{ dur_lit(ts['lt']) }}
@@ -530,93 +532,94 @@ def timestamp_template(option_value, name, repeated=False):
         {% endif -%}
         {%- if ts.HasField('const') %}
         if ts != {{ dur_lit(ts['const']) }}:
-            raise ValidationFailed(\"{{ name }} is not equal to {{ dur_lit(ts['const']) }}\")
+            raise ValidationFailed(\"{{ name }} is not equal to {{ dur_text(ts['const']) }}\")
         {% endif %}
         {%- if ts['in'] %}
         if ts not in {{ dur_arr(ts['in']) }}:
-            raise ValidationFailed(\"{{ name }} is not in {{ dur_arr(ts['in']) }}\")
+            raise ValidationFailed(\"{{ name }} is not in {{ dur_texts(ts['in']) }}\")
         {%- endif %}
         {%- if ts['not_in'] %}
         if ts in {{ dur_arr(ts['not_in']) }}:
-            raise ValidationFailed(\"{{ name }} is not in {{ dur_arr(ts['not_in']) }}\")
+            raise ValidationFailed(\"{{ name }} is not in {{ dur_texts(ts['not_in']) }}\")
         {%- endif %}
         {%- if ts.HasField('lt') %}
             {%- if ts.HasField('gt') %}
                 {%- if dur_lit(ts['lt']) > dur_lit(ts['gt']) %}
         if ts <= gt or ts >= lt:
-            raise ValidationFailed(\"{{ name }} is not in range {{ dur_lit(ts['lt']), dur_lit(ts['gt']) }}\")
+            raise ValidationFailed(\"{{ name }} is not in range {{ dur_text(ts['lt']), dur_text(ts['gt']) }}\")
                 {%- else -%}
         if ts >= lt and ts <= gt:
-            raise ValidationFailed(\"{{ name }} is not in range {{ dur_lit(ts['gt']), dur_lit(ts['lt']) }}\")
+            raise ValidationFailed(\"{{ name }} is not in range {{ dur_text(ts['gt']), dur_text(ts['lt']) }}\")
                 {%- endif -%}
             {%- elif ts.HasField('gte') %}
                 {%- if dur_lit(ts['lt']) > dur_lit(ts['gte']) %}
         if ts < gte or ts >= lt:
-            raise ValidationFailed(\"{{ name }} is not in range {{ dur_lit(ts['lt']), dur_lit(ts['gte']) }}\")
+            raise ValidationFailed(\"{{ name }} is not in range {{ dur_text(ts['lt']), dur_text(ts['gte']) }}\")
                 {%- else -%}
         if ts >= lt and ts < gte:
-            raise ValidationFailed(\"{{ name }} is not in range {{ dur_lit(ts['gte']), dur_lit(ts['lt']) }}\")
+            raise ValidationFailed(\"{{ name }} is not in range {{ dur_text(ts['gte']), dur_text(ts['lt']) }}\")
                 {%- endif -%}
             {%- else -%}
         if ts >= lt:
-            raise ValidationFailed(\"{{ name }} is not lesser than {{ dur_lit(ts['lt']) }}\")
+            raise ValidationFailed(\"{{ name }} is not lesser than {{ dur_text(ts['lt']) }}\")
             {%- endif -%}
         {%- elif ts.HasField('lte') %}
             {%- if ts.HasField('gt') %}
                 {%- if dur_lit(ts['lte']) > dur_lit(ts['gt']) %}
         if ts <= gt or ts > lte:
-            raise ValidationFailed(\"{{ name }} is not in range {{ dur_lit(ts['lte']), dur_lit(ts['gt']) }}\")
+            raise ValidationFailed(\"{{ name }} is not in range {{ dur_text(ts['lte']), dur_text(ts['gt']) }}\")
                 {%- else -%}
         if ts > lte and ts <= gt:
-            raise ValidationFailed(\"{{ name }} is not in range {{ dur_lit(ts['gt']), dur_lit(ts['lte']) }}\")
+            raise ValidationFailed(\"{{ name }} is not in range {{ dur_text(ts['gt']), dur_text(ts['lte']) }}\")
                 {%- endif -%}
             {%- elif ts.HasField('gte') %}
                 {%- if dur_lit(ts['lte']) > dur_lit(ts['gte']) %}
         if ts < gte or ts > lte:
-            raise ValidationFailed(\"{{ name }} is not in range {{ dur_lit(ts['lte']), dur_lit(ts['gte']) }}\")
+            raise ValidationFailed(\"{{ name }} is not in range {{ dur_text(ts['lte']), dur_text(ts['gte']) }}\")
                 {%- else -%}
         if ts > lte and ts < gte:
-            raise ValidationFailed(\"{{ name }} is not in range {{ dur_lit(ts['gte']), dur_lit(ts['lte']) }}\")
+            raise ValidationFailed(\"{{ name }} is not in range {{ dur_text(ts['gte']), dur_text(ts['lte']) }}\")
                 {%- endif -%}
             {%- else -%}
         if ts > lte:
-            raise ValidationFailed(\"{{ name }} is not lesser than or equal to {{ dur_lit(ts['lte']) }}\")
+            raise ValidationFailed(\"{{ name }} is not lesser than or equal to {{ dur_text(ts['lte']) }}\")
             {%- endif -%}
         {%- elif ts.HasField('gt') %}
         if ts <= gt:
-            raise ValidationFailed(\"{{ name }} is not greater than {{ dur_lit(ts['gt']) }}\")
+            raise ValidationFailed(\"{{ name }} is not greater than {{ dur_text(ts['gt']) }}\")
         {%- elif ts.HasField('gte') %}
         if ts < gte:
-            raise ValidationFailed(\"{{ name }} is not greater than or equal to {{ dur_lit(ts['gte']) }}\")
+            raise ValidationFailed(\"{{ name }} is not greater than or equal to {{ dur_text(ts['gte']) }}\")
         {%- elif ts.HasField('lt_now') %}
-        now = time.time()
+        now = int(time.time() * 10**9)
             {%- if ts.HasField('within') %}
         within = {{ dur_lit(ts['within']) }}
         if ts >= now or ts <= now - within:
-            raise ValidationFailed(\"{{ name }} is not within range {{ dur_lit(ts['within']) }}\")
+            raise ValidationFailed(\"{{ name }} is not within range {{ dur_text(ts['within']) }}\")
             {%- else %}
         if ts >= now:
             raise ValidationFailed(\"{{ name }} is not lesser than now\")
             {%- endif -%}
         {%- elif ts.HasField('gt_now') %}
-        now = time.time()
+        now = int(time.time() * 10**9)
             {%- if ts.HasField('within') %}
         within = {{ dur_lit(ts['within']) }}
         if ts <= now or ts >= now + within:
-            raise ValidationFailed(\"{{ name }} is not within range {{ dur_lit(ts['within']) }}\")
+            raise ValidationFailed(\"{{ name }} is not within range {{ dur_text(ts['within']) }}\")
             {%- else %}
         if ts <= now:
             raise ValidationFailed(\"{{ name }} is not greater than now\")
             {%- endif -%}
         {%- elif ts.HasField('within') %}
-        now = time.time()
+        now = int(time.time() * 10**9)
         within = {{ dur_lit(ts['within']) }}
         if ts >= now + within or ts <= now - within:
-             raise ValidationFailed(\"{{ name }} is not within range {{ dur_lit(ts['within']) }}\")
+             raise ValidationFailed(\"{{ name }} is not within range {{ dur_text(ts['within']) }}\")
         {%- endif -%}
     """
     return Template(timestamp_tmpl).render(o=option_value, name=name, required_template=required_template,
-                                           dur_lit=dur_lit, dur_arr=dur_arr, repeated=repeated)
+                                           dur_lit=dur_lit, dur_arr=dur_arr, dur_text=dur_text,
+                                           dur_texts=dur_texts, repeated=repeated)
 
 
 def wrapper_template(option_value, name, repeated=False):
-- 
2.43.0


From c2eb968f81d929d8d2d004e5cbbd00f71c58c379 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:16:38 +0000
Subject: [PATCH 45/53] fix: accept required elements, follow messages in
 Python lists and maps

---
 python/protoc_gen_validate/validator.py | 23 +++++++++++------------
 1 file changed, 11 insertions(+), 12 deletions(-)

diff --git a/python/protoc_gen_validate/validator.py b/python/protoc_gen_validate/validator.py
index 4ba8a33..7840abd 100644
--- a/python/protoc_gen_validate/validator.py
+++ b/python/protoc_gen_validate/validator.py
@@ -293,18 +293,18 @@ def string_template(option_value, name):
                                       text=text)
 
 
-def required_template(value, name):
-    req_tmpl = """{%- if value['required'] %}
+def required_template(value, name, repeated=False):
+    req_tmpl = """{%- if value['required'] and not repeated %}
     if not _has_field(p, \"{{ name.split('.')[-1] }}\"):
         raise ValidationFailed(\"{{ name }} is required.\")
     {%- endif -%}
     """
-    return Template(req_tmpl).render(value=value, name=name)
+    return Template(req_tmpl).render(value=value, name=name, repeated=repeated)
 
 
 def message_template(option_value, name, repeated=False):
     message_tmpl = """{%- if m.message %}
-    {{- required_template(m.message, name) }}
+    {{- required_template(m.message, name, repeated) }}
     {%- endif -%}
     {%- if m.message and m.message['skip'] %}
     # Skipping validation for {{ name }}
@@ -314,7 +314,7 @@ def message_template(option_value, name, repeated=False):
     {% else %}
     if _has_field(p, \"{{ name.split('.')[-1] }}\"):
     {% endif %}
-        embedded = validate(p.{{ name }})
+        embedded = validate({{ name if repeated else "p." + name }})
         if embedded is not None:
             return embedded
     {%- endif -%}
@@ -421,7 +421,7 @@ def dur_texts(dur):
 
 def duration_template(option_value, name, repeated=False):
     dur_tmpl = """
-    {{- required_template(o.duration, name) }}
+    {{- required_template(o.duration, name, repeated) }}
     {% if repeated %}
     if {{ name }}:
     {% else %}
@@ -510,7 +510,7 @@ def duration_template(option_value, name, repeated=False):
 
 def timestamp_template(option_value, name, repeated=False):
     timestamp_tmpl = """
-    {{- required_template(o.timestamp, name) }}
+    {{- required_template(o.timestamp, name, repeated) }}
     {% if repeated %}
     if {{ name }}:
     {% else %}
@@ -686,7 +686,7 @@ def enum_template(option_value, name, field):
 
 def any_template(option_value, name, repeated=False):
     any_tmpl = """
-    {{- required_template(o, name) }}
+    {{- required_template(o, name, repeated) }}
     {%- if o['in'] %}
     {% if repeated %}
     if {{ name }}:
@@ -961,6 +961,9 @@ def map_template(option_value, name, field):
         {%- endif %}
         {%- set values = o.map['values'] -%}
         {{ switcher_template(values, name +'[key]', field, True) }}
+        {%- if not str(values.message) and field.message_type.fields[1].message_type %}
+        validate({{ name }}[key])
+        {%- endif %}
         pass
     {%- elif field.message_type.fields[1].message_type %}
     for key in {{ name }}:
@@ -1016,8 +1019,6 @@ def rule_type(field):
                     return repeated_template(option_value, name, field)
                 elif str(option_value.map):
                     return map_template(option_value, name, field)
-                elif str(option_value.required):
-                    return required_template(option_value, name)
     if field.message_type:
         for option_descriptor, option_value in field.GetOptions().ListFields():
             if option_descriptor.full_name == "validate.rules":
@@ -1037,8 +1038,6 @@ def rule_type(field):
                     return repeated_template(option_value, name, field)
                 elif str(option_value.map):
                     return map_template(option_value, name, field)
-                elif str(option_value.required):
-                    return required_template(option_value, name)
         if field.message_type.full_name.startswith("google.protobuf"):
             return ""
         elif is_map(field):
-- 
2.43.0


From 5d5787547e1c9a60527b5d7b7a46dc27cf7ca6d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:17:17 +0000
Subject: [PATCH 46/53] fix: read fields named by Python keywords

---
 python/protoc_gen_validate/validator.py | 50 ++++++++++++++++---------
 1 file changed, 32 insertions(+), 18 deletions(-)

diff --git a/python/protoc_gen_validate/validator.py b/python/protoc_gen_validate/validator.py
index 7840abd..bdaa4c0 100644
--- a/python/protoc_gen_validate/validator.py
+++ b/python/protoc_gen_validate/validator.py
@@ -5,6 +5,7 @@ import time
 import uuid
 from functools import lru_cache
 from ipaddress import IPv4Address, IPv6Address, ip_address
+from keyword import iskeyword
 from urllib import parse as urlparse
 
 from google.protobuf.message import Message
@@ -132,6 +133,18 @@ def _has_field(message_pb, property_name):
         return property_name in all_fields
 
 
+def field_ref(field_name):
+    """The code that reads a field, whose name may be a Python keyword."""
+    if iskeyword(field_name):
+        return "getattr(p, '{}')".format(field_name)
+    return "p." + field_name
+
+
+def field_name(ref):
+    """The name of the field that a field_ref reads."""
+    return ref.split("'")[1] if ref.startswith("getattr") else ref.split(".")[-1]
+
+
 def text(*parts):
     """The Python literal of a text made of parts."""
     return repr("".join(str(part) for part in parts))
@@ -295,11 +308,11 @@ def string_template(option_value, name):
 
 def required_template(value, name, repeated=False):
     req_tmpl = """{%- if value['required'] and not repeated %}
-    if not _has_field(p, \"{{ name.split('.')[-1] }}\"):
+    if not _has_field(p, \"{{ field_name(name) }}\"):
         raise ValidationFailed(\"{{ name }} is required.\")
     {%- endif -%}
     """
-    return Template(req_tmpl).render(value=value, name=name, repeated=repeated)
+    return Template(req_tmpl).render(value=value, name=name, repeated=repeated, field_name=field_name)
 
 
 def message_template(option_value, name, repeated=False):
@@ -312,15 +325,15 @@ def message_template(option_value, name, repeated=False):
     {% if repeated %}
     if {{ name }}:
     {% else %}
-    if _has_field(p, \"{{ name.split('.')[-1] }}\"):
+    if _has_field(p, \"{{ field_name(name) }}\"):
     {% endif %}
-        embedded = validate({{ name if repeated else "p." + name }})
+        embedded = validate({{ name }})
         if embedded is not None:
             return embedded
     {%- endif -%}
     """
     return Template(message_tmpl).render(
-        m=option_value, name=name, required_template=required_template, repeated=repeated)
+        m=option_value, name=name, required_template=required_template, repeated=repeated, field_name=field_name)
 
 
 def bool_template(option_value, name):
@@ -425,7 +438,7 @@ def duration_template(option_value, name, repeated=False):
     {% if repeated %}
     if {{ name }}:
     {% else %}
-    if _has_field(p, \"{{ name.split('.')[-1] }}\"):
+    if _has_field(p, \"{{ field_name(name) }}\"):
     {% endif %}
         dur = {{ name }}.seconds * 10**9 + {{ name }}.nanos
         {%- set dur = o.duration -%}
@@ -505,7 +518,7 @@ def duration_template(option_value, name, repeated=False):
     """
     return Template(dur_tmpl).render(o=option_value, name=name, required_template=required_template,
                                      dur_lit=dur_lit, dur_arr=dur_arr, dur_text=dur_text,
-                                     dur_texts=dur_texts, repeated=repeated)
+                                     dur_texts=dur_texts, repeated=repeated, field_name=field_name)
 
 
 def timestamp_template(option_value, name, repeated=False):
@@ -514,7 +527,7 @@ def timestamp_template(option_value, name, repeated=False):
     {% if repeated %}
     if {{ name }}:
     {% else %}
-    if _has_field(p, \"{{ name.split('.')[-1] }}\"):
+    if _has_field(p, \"{{ field_name(name) }}\"):
     {% endif %}
         ts = {{ name }}.seconds * 10**9 + {{ name }}.nanos
         {%- set ts = o.timestamp -%}
@@ -619,7 +632,7 @@ def timestamp_template(option_value, name, repeated=False):
     """
     return Template(timestamp_tmpl).render(o=option_value, name=name, required_template=required_template,
                                            dur_lit=dur_lit, dur_arr=dur_arr, dur_text=dur_text,
-                                           dur_texts=dur_texts, repeated=repeated)
+                                           dur_texts=dur_texts, repeated=repeated, field_name=field_name)
 
 
 def wrapper_template(option_value, name, repeated=False):
@@ -627,7 +640,7 @@ def wrapper_template(option_value, name, repeated=False):
     {% if repeated %}
     if {{ name }}:
     {% else %}
-    if p.HasField(\"{{ name[2:] }}\"):
+    if p.HasField(\"{{ field_name(name) }}\"):
     {% endif %}
         pass
         {%- if str(option_value.float) %}
@@ -664,7 +677,7 @@ def wrapper_template(option_value, name, repeated=False):
     """
     return Template(wrapper_tmpl).render(option_value=option_value, name=name, str=str, num_template=num_template,
                                          bool_template=bool_template, string_template=string_template,
-                                         bytes_template=bytes_template, repeated=repeated)
+                                         bytes_template=bytes_template, repeated=repeated, field_name=field_name)
 
 
 def enum_values(field):
@@ -691,7 +704,7 @@ def any_template(option_value, name, repeated=False):
     {% if repeated %}
     if {{ name }}:
     {% else %}
-    if _has_field(p, \"{{ name.split('.')[-1] }}\"):
+    if _has_field(p, \"{{ field_name(name) }}\"):
     {% endif %}
         if {{ name }}.type_url not in {{ o['in'] }}:
             raise ValidationFailed({{ text(name, " not in ", o['in']) }})
@@ -700,14 +713,15 @@ def any_template(option_value, name, repeated=False):
     {% if repeated %}
     if {{ name }}:
     {% else %}
-    if _has_field(p, \"{{ name.split('.')[-1] }}\"):
+    if _has_field(p, \"{{ field_name(name) }}\"):
     {% endif %}
         if {{ name }}.type_url in {{ o['not_in'] }}:
             raise ValidationFailed({{ text(name, " in ", o['not_in']) }})
     {%- endif %}
     """
     return Template(any_tmpl).render(
-        o=option_value.any, name=name, required_template=required_template, repeated=repeated, text=text)
+        o=option_value.any, name=name, required_template=required_template, repeated=repeated, text=text,
+        field_name=field_name)
 
 
 def bytes_template(option_value, name):
@@ -977,14 +991,14 @@ def map_template(option_value, name, field):
 
 
 def rule_type(field):
-    name = "p." + field.name
+    name = field_ref(field.name)
     if has_validate(field) and field.message_type is None:
         for option_descriptor, option_value in field.GetOptions().ListFields():
             if option_descriptor.full_name == "validate.rules":
                 if str(option_value.string):
                     return string_template(option_value, name)
                 elif str(option_value.message):
-                    return message_template(option_value, field.name)
+                    return message_template(option_value, name)
                 elif str(option_value.bool):
                     return bool_template(option_value, name)
                 elif str(option_value.float):
@@ -1031,7 +1045,7 @@ def rule_type(field):
                         str(option_value.bool) or str(option_value.string) or str(option_value.bytes):
                     return wrapper_template(option_value, name)
                 elif str(option_value.message) != "":
-                    return message_template(option_value, field.name)
+                    return message_template(option_value, name)
                 elif str(option_value.any):
                     return any_template(option_value, name)
                 elif str(option_value.repeated):
@@ -1045,7 +1059,7 @@ def rule_type(field):
         elif field.label == 3:
             return repeated_template(None, name, field)
         else:
-            return message_template(None, field.name)
+            return message_template(None, name)
     return ""
 
 
-- 
2.43.0


From 6ac57ca773c68ebf20c9b5113cd0efbe59a3c937 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:21:05 +0000
Subject: [PATCH 47/53] fix: refuse Python UUIDs in other forms and addresses
 with zones

---
 python/protoc_gen_validate/validator.py | 23 +++++++++++++++++------
 1 file changed, 17 insertions(+), 6 deletions(-)

diff --git a/python/protoc_gen_validate/validator.py b/python/protoc_gen_validate/validator.py
index bdaa4c0..ccd181e 100644
--- a/python/protoc_gen_validate/validator.py
+++ b/python/protoc_gen_validate/validator.py
@@ -122,6 +122,19 @@ def _validateEmail(addr):
     return _validateHostName(parts[1])
 
 
+def _validateUuid(s):
+    try:
+        return str(uuid.UUID(s)) == s.lower()
+    except ValueError:
+        return False
+
+
+def _without_zone(address):
+    if getattr(address, "scope_id", None) is not None:
+        raise ValueError("{} has a zone".format(address))
+    return address
+
+
 def _has_field(message_pb, property_name):
     # NOTE: As of proto3, HasField() only works for message fields, not for
     #       singular (non-message) fields. First try to use HasField and
@@ -261,14 +274,14 @@ def string_template(option_value, name):
     {%- endif -%}
     {%- if s['address'] %}
     try:
-        ip_address({{ name }})
+        _without_zone(ip_address({{ name }}))
     except ValueError:
         if not _validateHostName({{ name }}):
             raise ValidationFailed(\"{{ name }} is not a valid address\")
     {%- endif -%}
     {%- if s['ip'] %}
     try:
-        ip_address({{ name }})
+        _without_zone(ip_address({{ name }}))
     except ValueError:
         raise ValidationFailed(\"{{ name }} is not a valid ip\")
     {%- endif -%}
@@ -280,7 +293,7 @@ def string_template(option_value, name):
     {%- endif -%}
     {%- if s['ipv6'] %}
     try:
-        IPv6Address({{ name }})
+        _without_zone(IPv6Address({{ name }}))
     except ValueError:
         raise ValidationFailed(\"{{ name }} is not a valid ipv6\")
     {%- endif %}
@@ -295,9 +308,7 @@ def string_template(option_value, name):
         raise ValidationFailed(\"{{ name }} is not a valid uri ref\")
     {%- endif -%}
     {%- if s['uuid'] %}
-    try:
-        uuid.UUID({{ name }})
-    except ValueError:
+    if not _validateUuid({{ name }}):
         raise ValidationFailed(\"{{ name }} is not a valid UUID\")
     {%- endif -%}
     {% endfilter %}
-- 
2.43.0


From f14fa6e5526b61b866cefaf3b5415cea1c78c95c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:22:07 +0000
Subject: [PATCH 48/53] fix: take the Python mail address from the end of the
 text

---
 python/protoc_gen_validate/validator.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/python/protoc_gen_validate/validator.py b/python/protoc_gen_validate/validator.py
index ccd181e..2174a34 100644
--- a/python/protoc_gen_validate/validator.py
+++ b/python/protoc_gen_validate/validator.py
@@ -107,8 +107,8 @@ def _validateHostName(host):
 
 
 def _validateEmail(addr):
-    if '<' in addr and '>' in addr:
-        addr = addr.split("<")[1].split(">")[0]
+    if '<' in addr and addr.endswith('>'):
+        addr = addr[addr.rindex("<") + 1:-1]
 
     if not validate_email(addr):
         return False
-- 
2.43.0


From 434931a6fa81a55522d906c3e160a55102a6bcad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:25:14 +0000
Subject: [PATCH 49/53] fix: let Python limits and constants be infinite

---
 python/protoc_gen_validate/validator.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/python/protoc_gen_validate/validator.py b/python/protoc_gen_validate/validator.py
index 2174a34..3b7b479 100644
--- a/python/protoc_gen_validate/validator.py
+++ b/python/protoc_gen_validate/validator.py
@@ -6,6 +6,7 @@ import uuid
 from functools import lru_cache
 from ipaddress import IPv4Address, IPv6Address, ip_address
 from keyword import iskeyword
+from math import inf, nan  # noqa: F401, how the limits and constants of rules are written
 from urllib import parse as urlparse
 
 from google.protobuf.message import Message
-- 
2.43.0


From 8ccc7c179dfe8e3c2401d775afbfef00d5823419 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:57:31 +0000
Subject: [PATCH 50/53] fix: decide Python URIs by the grammar of RFC 3986

---
 python/protoc_gen_validate/validator.py | 21 ++++++++++++++++-----
 1 file changed, 16 insertions(+), 5 deletions(-)

diff --git a/python/protoc_gen_validate/validator.py b/python/protoc_gen_validate/validator.py
index 3b7b479..438c2d4 100644
--- a/python/protoc_gen_validate/validator.py
+++ b/python/protoc_gen_validate/validator.py
@@ -7,7 +7,6 @@ from functools import lru_cache
 from ipaddress import IPv4Address, IPv6Address, ip_address
 from keyword import iskeyword
 from math import inf, nan  # noqa: F401, how the limits and constants of rules are written
-from urllib import parse as urlparse
 
 from google.protobuf.message import Message
 from jinja2 import Template
@@ -23,6 +22,15 @@ regex_map = {
     "HEADER_STRING": r'^[^\u0000\u000A\u000D]*$'
 }
 
+# URI references of RFC 3986, whose first group is the scheme.
+uri_char = r"(?:[A-Za-z0-9\-._~!$&'()*+,;=]|%[0-9A-Fa-f]{2})"
+uri_regex = re.compile(
+    r"(?:([A-Za-z][A-Za-z0-9+.\-]*):|(?![^/?#]*:))"
+    r"(?://(?:(?:" + uri_char + r"|:)*@)?(?:\[[0-9A-Fa-f:.]+\]|" + uri_char + r"*)(?::[0-9]*)?(?=[/?#]|\Z)|(?!//))"
+    r"(?:" + uri_char + r"|[:@/])*"
+    r"(?:\?(?:" + uri_char + r"|[:@/?])*)?"
+    r"(?:#(?:" + uri_char + r"|[:@/?])*)?")
+
 
 class ValidationFailed(Exception):
     pass
@@ -123,6 +131,11 @@ def _validateEmail(addr):
     return _validateHostName(parts[1])
 
 
+def _validateUri(s, absolute):
+    match = uri_regex.fullmatch(s)
+    return match is not None and (not absolute or match.group(1) is not None)
+
+
 def _validateUuid(s):
     try:
         return str(uuid.UUID(s)) == s.lower()
@@ -299,13 +312,11 @@ def string_template(option_value, name):
         raise ValidationFailed(\"{{ name }} is not a valid ipv6\")
     {%- endif %}
     {%- if s['uri'] %}
-    url = urlparse.urlparse({{ name }})
-    if not all([url.scheme, url.netloc, url.path]):
+    if not _validateUri({{ name }}, True):
         raise ValidationFailed(\"{{ name }} is not a valid uri\")
     {%- endif %}
     {%- if s['uri_ref'] %}
-    url = urlparse.urlparse({{ name }})
-    if not all([url.scheme, url.path]) and url.fragment:
+    if not _validateUri({{ name }}, False):
         raise ValidationFailed(\"{{ name }} is not a valid uri ref\")
     {%- endif -%}
     {%- if s['uuid'] %}
-- 
2.43.0


From dbabd66d6d0d157295df49bb8f25af7bb479ee26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:17:24 +0000
Subject: [PATCH 51/53] fix: tell Python maps from lists of messages with a key
 and a value

---
 python/protoc_gen_validate/validator.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/python/protoc_gen_validate/validator.py b/python/protoc_gen_validate/validator.py
index 438c2d4..b56328e 100644
--- a/python/protoc_gen_validate/validator.py
+++ b/python/protoc_gen_validate/validator.py
@@ -944,8 +944,7 @@ def repeated_template(option_value, name, field):
 
 
 def is_map(field):
-    return field.label == 3 and field.message_type and len(field.message_type.fields) == 2 and \
-        field.message_type.fields[0].name == "key" and field.message_type.fields[1].name == "value"
+    return field.label == 3 and field.message_type and field.message_type.GetOptions().map_entry
 
 
 def map_template(option_value, name, field):
-- 
2.43.0


From 6dc89a9be7a3ee023e02d2d0818c133efdb2e6a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:17:24 +0000
Subject: [PATCH 52/53] fix: give patterns the meaning in Python that they have
 in RE2

---
 python/protoc_gen_validate/validator.py | 33 ++++++++++++++++++++++---
 1 file changed, 29 insertions(+), 4 deletions(-)

diff --git a/python/protoc_gen_validate/validator.py b/python/protoc_gen_validate/validator.py
index b56328e..7e4d040 100644
--- a/python/protoc_gen_validate/validator.py
+++ b/python/protoc_gen_validate/validator.py
@@ -172,6 +172,31 @@ def field_name(ref):
     return ref.split("'")[1] if ref.startswith("getattr") else ref.split(".")[-1]
 
 
+def _re2(pattern):
+    """The Python pattern that means what an RE2 pattern does.
+
+    In Python $ also matches before a last newline, and classes hold more than ASCII.
+    """
+    classes = {"\\d": "0-9", "\\s": " \\t\\n\\f-\\r", "\\w": "_0-9A-Za-z"}
+    multi_line = re.search(r"\(\?[a-zA-Z]*m", pattern)
+
+    def translate(match):
+        token = match.group()
+        if token == "\\z" or token == "$" and not multi_line:
+            return "\\Z"
+        if token[0] == "[":
+            return re.sub(r"\\.", lambda m: classes.get(m.group(), m.group()), token)
+        if token in ("\\b", "\\B"):
+            return "(?a:" + token + ")"
+        if token in classes:
+            return "[" + classes[token] + "]"
+        if token.lower() in classes:
+            return "[^" + classes[token.lower()] + "]"
+        return token
+
+    return re.sub(r"\\.|\[\^?\]?(?:\\.|[^\]\\])*\]|\$", translate, pattern)
+
+
 def text(*parts):
     """The Python literal of a text made of parts."""
     return repr("".join(str(part) for part in parts))
@@ -259,7 +284,7 @@ def string_template(option_value, name):
         raise ValidationFailed(\"{{ name }} length is greater than {{ s['max_bytes'] }}\")
     {%- endif -%}
     {%- if s['pattern'] %}
-    if re.search({{ text(s['pattern']) }}, {{ name }}) is None:
+    if re.search({{ text(_re2(s['pattern'])) }}, {{ name }}) is None:
         raise ValidationFailed({{ text(name, " pattern does not match ", s['pattern']) }})
     {%- endif -%}
     {%- if s['prefix'] %}
@@ -326,7 +351,7 @@ def string_template(option_value, name):
     {% endfilter %}
     """
     return Template(str_templ).render(o=option_value, name=name, const_template=const_template, in_template=in_template,
-                                      text=text)
+                                      text=text, _re2=_re2)
 
 
 def required_template(value, name, repeated=False):
@@ -790,7 +815,7 @@ def bytes_template(option_value, name):
     {%- endif -%}
     {% if b['pattern'] %}
         {% if sys.version_info[0] >= 3%}
-    if re.search({{ b['pattern'].encode('utf-8') }}, {{ name }}) is None:
+    if re.search({{ text(_re2(b['pattern'])) }}, {{ name }}.decode('utf-8', 'surrogateescape')) is None:
         raise ValidationFailed(\"{{ name }} pattern does not match b['pattern'].encode('unicode-escape')\")
         {% else %}
     if re.search(b\"{{ b['pattern'].encode('unicode-escape') }}\", {{ name }}) is None:
@@ -828,7 +853,7 @@ def bytes_template(option_value, name):
     """
     return Template(bytes_tmpl).render(sys=sys, o=option_value, name=name,
                                        const_template=const_template, in_template=in_template, b=option_value.bytes,
-                                       text=text)
+                                       text=text, _re2=_re2)
 
 
 def has_wrapper_rules(option_value):
-- 
2.43.0


From 8fc8f39e283bbf052f10ed266606d4f147a19843 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:45:34 +0000
Subject: [PATCH 53/53] fix: C++ lookups of validators no longer add entries to
 the shared registry

CheckMessage used operator[] on the registry, so validating a message whose
field has a type without a validator inserted into a map that all threads
read: a data race when messages are validated concurrently.
---
 validate/validate.h | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/validate/validate.h b/validate/validate.h
index 3c34051..bb89b68 100644
--- a/validate/validate.h
+++ b/validate/validate.h
@@ -58,11 +58,13 @@ public:
 
   static bool CheckMessage(const T& m, ValidationMsg* err)
   {
-    auto val = static_cast<Validator<T>*>(validators()[std::type_index(typeid(T))]);
-    if (val) {
-      return val->check_(m, err);
+    // Lookups must not add entries: messages are validated concurrently.
+    const auto& all = validators();
+    const auto found = all.find(std::type_index(typeid(T)));
+    if (found == all.end()) {
+      return true;
     }
-    return true;
+    return static_cast<Validator<T>*>(found->second)->check_(m, err);
   }
 
 private:
-- 
2.43.0

