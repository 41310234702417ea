From 212d0c912f2f4b651bdd4fe48514504619879d32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:39 +0000
Subject: [PATCH 01/87] fix: fragment spread could resolve another fragment
 whose name starts with the spread name

---
 resolver.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/resolver.go b/resolver.go
index 00e1747..ec5f939 100644
--- a/resolver.go
+++ b/resolver.go
@@ -475,7 +475,8 @@ func (ctx *Ctx) resolveSpread(typeObj *obj, dept uint8, firstField *bool) bool {
 		if fragmentNameEnd >= ctxQueryResLen {
 			continue
 		}
-		if bytes.Equal(ctx.query.Res[fragmentNameStart:fragmentNameEnd], name) {
+		// Also check for the name terminator otherwise a fragment of which the name starts with this name would also match
+		if ctx.query.Res[fragmentNameEnd] == 0 && bytes.Equal(ctx.query.Res[fragmentNameStart:fragmentNameEnd], name) {
 			originalCharNr := ctx.charNr
 			ctx.charNr = fragmentNameEnd + 1
 
-- 
2.43.0


From c46a05b416bbdc66b2909f46235d4594b56f677f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:40 +0000
Subject: [PATCH 02/87] fix: query cache entries shared their fragment
 locations with the parser buffer

---
 bytecode/cache/bytecode_cache.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/bytecode/cache/bytecode_cache.go b/bytecode/cache/bytecode_cache.go
index e8520f5..b1169d5 100644
--- a/bytecode/cache/bytecode_cache.go
+++ b/bytecode/cache/bytecode_cache.go
@@ -70,10 +70,11 @@ func (c BytecodeCache) SetEntry(query, bytecode []byte, target *string, targetId
 		bytecode:         make([]byte, len(bytecode)),
 		target:           targetCopy,
 		targetIdx:        targetIdx,
-		fragmentLocation: fragmentLocation,
+		fragmentLocation: make([]int, len(fragmentLocation)),
 	}
 	copy(newCacheEntry.query, query)
 	copy(newCacheEntry.bytecode, bytecode)
+	copy(newCacheEntry.fragmentLocation, fragmentLocation)
 
 	c[queryLen] = append([]cacheEntry{newCacheEntry}, entries...)
 }
-- 
2.43.0


From 4c2f05ca0453f0206a411c84795351093ea1a770 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:09 +0000
Subject: [PATCH 03/87] fix: a fragment that spreads itself crashed the process
 with a stack overflow

---
 resolver.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/resolver.go b/resolver.go
index ec5f939..5dead83 100644
--- a/resolver.go
+++ b/resolver.go
@@ -28,6 +28,7 @@ type Ctx struct {
 	getFormFile              func(key string) (*multipart.FileHeader, error) // Get form file to support file uploading
 	operatorHasArguments     bool
 	operatorArgumentsStartAt int
+	activeFragments          []int // locations of the fragments currently being resolved, used to detect fragment cycles
 	tracingEnabled           bool
 	tracing                  *tracer
 	prefRecordingStartTime   time.Time
@@ -177,6 +178,7 @@ func (s *Schema) Resolve(query []byte, opts ResolveOptions) []error {
 		charNr:                 0,
 		context:                nil,
 		path:                   ctx.path[:0],
+		activeFragments:        ctx.activeFragments[:0],
 		getFormFile:            opts.GetFormFile,
 		rawVariables:           opts.Variables,
 		variablesParsed:        false,
@@ -495,7 +497,15 @@ func (ctx *Ctx) resolveSpread(typeObj *obj, dept uint8, firstField *bool) bool {
 				return false
 			}
 
+			for _, activeFragment := range ctx.activeFragments {
+				if activeFragment == location {
+					return ctx.err("fragment " + b2s(name) + " cannot spread itself")
+				}
+			}
+
+			ctx.activeFragments = append(ctx.activeFragments, location)
 			criticalErr := ctx.resolveSelectionSet(typeObj, dept, firstField)
+			ctx.activeFragments = ctx.activeFragments[:len(ctx.activeFragments)-1]
 			ctx.charNr = originalCharNr
 			return criticalErr
 		}
-- 
2.43.0


From cc58b7d2d3c97b4eb94f83bf3e1ad1e51d82af94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:31 +0000
Subject: [PATCH 04/87] fix: interface fields counted twice towards the max
 depth and could step over it

---
 resolver.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/resolver.go b/resolver.go
index 5dead83..09878f4 100644
--- a/resolver.go
+++ b/resolver.go
@@ -912,7 +912,7 @@ func (ctx *Ctx) resolveFieldDataValue(typeObj *obj, dept uint8, hasSubSelection
 		// TODO improve performance of the below
 		for _, implementation := range typeObj.implementations {
 			if implementation.goTypeName == goValueName && implementation.goPkgPath == goValuePkgPath {
-				criticalErr := ctx.resolveFieldDataValue(implementation, dept+1, hasSubSelection)
+				criticalErr := ctx.resolveFieldDataValue(implementation, dept, hasSubSelection)
 				ctx.currentReflectValueIdx--
 				return criticalErr
 			}
-- 
2.43.0


From 1c90f09d59f254241042a2f9f7b30277613d0e5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:33 +0000
Subject: [PATCH 05/87] fix: deeply nested values wrapped around the value
 stack

---
 copy_schema.go |  2 +-
 resolver.go    | 10 +++++++---
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/copy_schema.go b/copy_schema.go
index 680d957..3c753b7 100644
--- a/copy_schema.go
+++ b/copy_schema.go
@@ -75,7 +75,7 @@ func (ctx *Ctx) copy(schema *Schema) *Ctx {
 		variablesParsed:          false,
 		variablesJSONParser:      &fastjson.Parser{},
 		variables:                nil,
-		reflectValues:            [256]reflect.Value{},
+		reflectValues:            make([]reflect.Value, 256),
 		currentReflectValueIdx:   0,
 		funcInputs:               []reflect.Value{},
 		values:                   nil,
diff --git a/resolver.go b/resolver.go
index 09878f4..aa49c78 100644
--- a/resolver.go
+++ b/resolver.go
@@ -39,8 +39,8 @@ type Ctx struct {
 	variables           *fastjson.Value  // Parsed variables, only use this if variablesParsed == true
 
 	// Zero alloc values
-	reflectValues          [256]reflect.Value
-	currentReflectValueIdx uint8
+	reflectValues          []reflect.Value
+	currentReflectValueIdx int
 	funcInputs             []reflect.Value
 	ctxReflection          reflect.Value // ptr to the value
 
@@ -53,7 +53,7 @@ func newCtx(s *Schema) *Ctx {
 		schema:                 s,
 		query:                  *bytecode.NewParserCtx(),
 		charNr:                 0,
-		reflectValues:          [256]reflect.Value{},
+		reflectValues:          make([]reflect.Value, 256),
 		currentReflectValueIdx: 0,
 		variablesJSONParser:    &fastjson.Parser{},
 		tracing:                newTracer(),
@@ -72,6 +72,10 @@ func (ctx *Ctx) setNextGoValue(value reflect.Value) {
 }
 
 func (ctx *Ctx) setGoValue(value reflect.Value) {
+	if ctx.currentReflectValueIdx >= len(ctx.reflectValues) {
+		// lists, objects and interfaces can all be nested in each other so there can be more values than the max depth
+		ctx.reflectValues = append(ctx.reflectValues, make([]reflect.Value, ctx.currentReflectValueIdx+1)...)
+	}
 	ctx.reflectValues[ctx.currentReflectValueIdx] = value
 }
 
-- 
2.43.0


From 79d506be25933a4f925f7e8a31cfb427a184effe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:54 +0000
Subject: [PATCH 06/87] fix: a field with invalid arguments wrote no value
 resulting in a invalid json response

---
 resolver.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/resolver.go b/resolver.go
index aa49c78..c7ca066 100644
--- a/resolver.go
+++ b/resolver.go
@@ -816,6 +816,7 @@ func (ctx *Ctx) resolveFieldDataValue(typeObj *obj, dept uint8, hasSubSelection
 
 		outs, criticalErr := ctx.callQlMethod(method, &goValue, ctx.seekInst() == 'v')
 		if criticalErr {
+			ctx.writeNull()
 			return criticalErr
 		}
 
-- 
2.43.0


From 0cd99e41ffce097ff6aae018c91db0081234b7af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:56 +0000
Subject: [PATCH 07/87] fix: __typename with a selection set wrote no value
 resulting in a invalid json response

---
 resolver.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/resolver.go b/resolver.go
index c7ca066..241f652 100644
--- a/resolver.go
+++ b/resolver.go
@@ -587,6 +587,7 @@ func (ctx *Ctx) resolveField(typeObj *obj, dept uint8, addCommaBefore bool) (ski
 		name := b2s(ctx.query.Res[startOfName:endOfName])
 		if name == "__typename" {
 			if fieldHasSelection {
+				ctx.writeNull()
 				criticalErr = ctx.err("cannot have a selection set on this field")
 			} else {
 				ctx.writeQuoted(typeObj.typeNameBytes)
-- 
2.43.0


From dd693c5c3f3cc245e285bba8353c159cd75bc6ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:57 +0000
Subject: [PATCH 08/87] fix: arguments after a list argument were dropped or
 caused errors

---
 resolver.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/resolver.go b/resolver.go
index 241f652..6418d91 100644
--- a/resolver.go
+++ b/resolver.go
@@ -1610,6 +1610,7 @@ func (ctx *Ctx) bindInputToGoValue(goValue *reflect.Value, valueStructure *input
 			}
 			arr = reflect.Append(arr, arrayEntry)
 		}
+		ctx.skipInst(2) // read ActionEnd and NULL
 
 		goValue.Set(arr)
 	case bytecode.ValueObject:
-- 
2.43.0


From b37e349d527ca7b432432dc16ed92b02d12ef92e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:34 +0000
Subject: [PATCH 09/87] fix: a null inside a list of nullable values broke
 reading the remaining arguments

---
 resolver.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/resolver.go b/resolver.go
index 6418d91..9c70722 100644
--- a/resolver.go
+++ b/resolver.go
@@ -1420,7 +1420,8 @@ func (ctx *Ctx) bindInputToGoValue(goValue *reflect.Value, valueStructure *input
 	isPtr, valueSet, criticalErr = ctx.checkInputIsPtr(goValue, valueStructure, func(goValue *reflect.Value, input *input) (valueSet bool, criticalErr bool) {
 		if ctx.query.Res[ctx.charNr+1] == bytecode.ValueNull {
 			// keep goValue at it's default
-			ctx.skipInst(6)
+			// read ActionValue, value kind, length of value and NULL
+			ctx.skipInst(7)
 			return false, false
 		}
 		return ctx.bindInputToGoValue(goValue, input, variablesAllowed)
-- 
2.43.0


From a76f95b2578385d0e5b9fa1460aaa6b2a560ce33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:36 +0000
Subject: [PATCH 10/87] fix: an object argument was dropped when its last
 property was null

---
 resolver.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/resolver.go b/resolver.go
index 9c70722..cdbea74 100644
--- a/resolver.go
+++ b/resolver.go
@@ -1633,7 +1633,7 @@ func (ctx *Ctx) bindInputToGoValue(goValue *reflect.Value, valueStructure *input
 			}
 
 			field := goValue.Field(structFieldValueStructure.goFieldIdx)
-			valueSet, criticalErr = ctx.bindInputToGoValue(&field, &structFieldValueStructure, variablesAllowed)
+			_, criticalErr := ctx.bindInputToGoValue(&field, &structFieldValueStructure, variablesAllowed)
 			return criticalErr
 		})
 		if criticalErr {
-- 
2.43.0


From c187acc0788c62ef85a9cc84c4d33169d2729e1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:37 +0000
Subject: [PATCH 11/87] fix: unsigned integer variables were not checked for
 overflow

---
 resolver.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/resolver.go b/resolver.go
index cdbea74..638143b 100644
--- a/resolver.go
+++ b/resolver.go
@@ -1285,15 +1285,15 @@ func (ctx *Ctx) bindJSONToValue(goValue *reflect.Value, valueStructure *input, j
 				uintVal := uint64(intVal)
 
 				switch goValue.Kind() {
-				case reflect.Int8:
+				case reflect.Uint8:
 					if uint64(uint8(uintVal)) != uintVal {
 						return false, ctx.errf("cannot assign %d to a 8bit unsigned integer", uintVal)
 					}
-				case reflect.Int16:
+				case reflect.Uint16:
 					if uint64(uint16(uintVal)) != uintVal {
 						return false, ctx.errf("cannot assign %d to a 16bit unsigned integer", uintVal)
 					}
-				case reflect.Int32:
+				case reflect.Uint32:
 					if uint64(uint32(uintVal)) != uintVal {
 						return false, ctx.errf("cannot assign %d to a 32bit unsigned integer", uintVal)
 					}
-- 
2.43.0


From d1c2b80e742048a5e6abddf54945efc7ae14e18e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:17 +0000
Subject: [PATCH 12/87] fix: unsigned 64bit variables above the max int64 value
 were rejected

---
 resolver.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/resolver.go b/resolver.go
index 638143b..8368ada 100644
--- a/resolver.go
+++ b/resolver.go
@@ -1257,6 +1257,14 @@ func (ctx *Ctx) bindJSONToValue(goValue *reflect.Value, valueStructure *input, j
 		} else {
 			intVal, err := jsonData.Int64()
 			if err != nil {
+				if goValueKind == reflect.Uint || goValueKind == reflect.Uint64 {
+					// The number might be to large for a int64 though fit in a uint64
+					uintVal, uintErr := jsonData.Uint64()
+					if uintErr == nil && !goValue.OverflowUint(uintVal) {
+						goValue.SetUint(uintVal)
+						return true, false
+					}
+				}
 				return false, ctx.err(err.Error())
 			}
 			switch goValueKind {
-- 
2.43.0


From 84c722c16386c40677dcf521ce91722b4abe808e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:18 +0000
Subject: [PATCH 13/87] fix: numeric id arguments were silently truncated when
 they did not fit the Go type

---
 resolver.go | 30 ++++++++++--------------------
 1 file changed, 10 insertions(+), 20 deletions(-)

diff --git a/resolver.go b/resolver.go
index 8368ada..a8a4bd9 100644
--- a/resolver.go
+++ b/resolver.go
@@ -1145,23 +1145,18 @@ func (ctx *Ctx) bindJSONToValue(goValue *reflect.Value, valueStructure *input, j
 				valueSet = true
 				goValue.SetString(stringValue)
 			case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
-				intValue, err := strconv.Atoi(stringValue)
+				intValue, err := strconv.ParseInt(stringValue, 10, goValue.Type().Bits())
 				if err != nil {
 					return false, ctx.err("id argument must match a number type")
 				}
-				// TODO check if the int value can be assigned to int8 - int32
-				goValue.SetInt(int64(intValue))
+				goValue.SetInt(intValue)
 				valueSet = true
 			case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
-				intValue, err := strconv.Atoi(stringValue)
+				uintValue, err := strconv.ParseUint(stringValue, 10, goValue.Type().Bits())
 				if err != nil {
-					return false, ctx.err("id argument must match a number type")
-				}
-				if intValue < 0 {
-					return false, ctx.err("id argument must match a number above 0")
+					return false, ctx.err("id argument must match a positive number type")
 				}
-				// TODO check if the int value can be assigned to uint8 - uint32
-				goValue.SetUint(uint64(intValue))
+				goValue.SetUint(uintValue)
 				valueSet = true
 			default:
 				return false, ctx.err("internal error: cannot assign to this ID field")
@@ -1361,22 +1356,17 @@ func (ctx *Ctx) assignStringToValue(goValue *reflect.Value, valueStructure *inpu
 		case reflect.String:
 			goValue.SetString(stringValue)
 		case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
-			intValue, err := strconv.Atoi(stringValue)
+			intValue, err := strconv.ParseInt(stringValue, 10, goValue.Type().Bits())
 			if err != nil {
 				return ctx.err("id argument must match a number type")
 			}
-			// TODO check if the int value can be assigned to int8 - int32
-			goValue.SetInt(int64(intValue))
+			goValue.SetInt(intValue)
 		case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
-			intValue, err := strconv.Atoi(stringValue)
+			uintValue, err := strconv.ParseUint(stringValue, 10, goValue.Type().Bits())
 			if err != nil {
-				return ctx.err("id argument must match a number type")
-			}
-			if intValue < 0 {
-				return ctx.err("id argument must match a number above 0")
+				return ctx.err("id argument must match a positive number type")
 			}
-			// TODO check if the int value can be assigned to uint8 - uint32
-			goValue.SetUint(uint64(intValue))
+			goValue.SetUint(uintValue)
 		default:
 			return ctx.err("internal error: cannot assign to this ID field")
 		}
-- 
2.43.0


From 9fdc386d3c71b16e41c48539c4ce143880eb56f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:20 +0000
Subject: [PATCH 14/87] fix: file variables caused a panic when GetFormFile was
 not set

---
 resolver.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/resolver.go b/resolver.go
index a8a4bd9..3df05bd 100644
--- a/resolver.go
+++ b/resolver.go
@@ -1166,6 +1166,9 @@ func (ctx *Ctx) bindJSONToValue(goValue *reflect.Value, valueStructure *input, j
 				return false, ctx.err("cannot assign " + jsonDataType.String() + " to Time value")
 			}
 
+			if ctx.getFormFile == nil {
+				return false, ctx.err("form files are not supported")
+			}
 			file, err := ctx.getFormFile(stringValue)
 			if err != nil {
 				return false, ctx.err(err.Error())
-- 
2.43.0


From 60145de8c2f7887f73c63a3c6c48d1cebb571f66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:43 +0000
Subject: [PATCH 15/87] fix: string arguments kept by a resolver changed when
 the next request was resolved

---
 resolver.go | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/resolver.go b/resolver.go
index 3df05bd..af84fc8 100644
--- a/resolver.go
+++ b/resolver.go
@@ -1110,7 +1110,8 @@ func (ctx *Ctx) bindJSONToValue(goValue *reflect.Value, valueStructure *input, j
 				return false, ctx.err("cannot assign " + jsonDataType.String() + " to this field's value")
 			}
 		}
-		stringValue := b2s(jsonData.GetStringBytes())
+		// Copy the bytes as the json parser its buffer is reused for the next request
+		stringValue := string(jsonData.GetStringBytes())
 
 		if valueStructure.isEnum {
 			if jsonDataType != fastjson.TypeString {
@@ -1243,7 +1244,7 @@ func (ctx *Ctx) bindJSONToValue(goValue *reflect.Value, valueStructure *input, j
 		valueSet = true
 	case fastjson.TypeString:
 		valueSet = true
-		criticalErr := ctx.assignStringToValue(goValue, valueStructure, b2s(jsonData.GetStringBytes()))
+		criticalErr := ctx.assignStringToValue(goValue, valueStructure, string(jsonData.GetStringBytes()))
 		if criticalErr {
 			return valueSet, criticalErr
 		}
@@ -1549,7 +1550,8 @@ func (ctx *Ctx) bindInputToGoValue(goValue *reflect.Value, valueStructure *input
 		}
 	case bytecode.ValueString:
 		startString, endString := getValue()
-		stringValue := b2s(ctx.query.Res[startString:endString])
+		// Copy the bytes as the bytecode buffer is reused for the next request
+		stringValue := string(ctx.query.Res[startString:endString])
 		criticalErr := ctx.assignStringToValue(goValue, valueStructure, stringValue)
 		if criticalErr {
 			return false, criticalErr
-- 
2.43.0


From 34654142ab55fca1528fccc8afd4e5ef8b0790c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:44 +0000
Subject: [PATCH 16/87] fix: (*Ctx).SetContext panicked when the request had no
 context

---
 resolver.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/resolver.go b/resolver.go
index af84fc8..a4088a1 100644
--- a/resolver.go
+++ b/resolver.go
@@ -119,7 +119,7 @@ func (ctx *Ctx) GetContext() context.Context {
 func (ctx *Ctx) SetContext(newContext context.Context) {
 	if newContext == nil {
 		ctx.context = nil
-	} else if ctx == nil {
+	} else if ctx.context == nil {
 		ctx.context = &newContext
 	} else {
 		*ctx.context = newContext
-- 
2.43.0


From c7e809aec23d548cd2b9799495bd7ab963ab8b5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:01 +0000
Subject: [PATCH 17/87] fix: introspecting the mutation fields overwrote the
 query fields

---
 inject_schema.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/inject_schema.go b/inject_schema.go
index 56ee03e..55230c9 100644
--- a/inject_schema.go
+++ b/inject_schema.go
@@ -93,7 +93,7 @@ func (s *Schema) getQLSchema() qlSchema {
 				}
 				sort.Slice(res, func(a int, b int) bool { return res[a].Name < res[b].Name })
 
-				s.graphqlObjFields[s.rootQuery.typeName] = res
+				s.graphqlObjFields[s.rootMethod.typeName] = res
 				return res
 			},
 			Interfaces: []qlType{},
-- 
2.43.0


From fe7dc2e02d132d56eb79efd23b651c4e7ae2e806 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:44 +0000
Subject: [PATCH 18/87] fix: a copied schema listed the introspection fields as
 fields of the query type

---
 copy_schema.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/copy_schema.go b/copy_schema.go
index 3c753b7..23ad4e7 100644
--- a/copy_schema.go
+++ b/copy_schema.go
@@ -174,6 +174,7 @@ func (o *obj) copy() *obj {
 		goTypeName:     o.goTypeName,
 		goPkgPath:      o.goPkgPath,
 		qlFieldName:    o.qlFieldName[:],
+		hidden:         o.hidden,
 		customObjValue: o.customObjValue, // maybe TODO
 		structFieldIdx: o.structFieldIdx,
 		dataValueType:  o.dataValueType,
-- 
2.43.0


From f925dcc02b4e51158fc1ea66883596c3a34aa36a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:46 +0000
Subject: [PATCH 19/87] fix: a copied schema lost the descriptions of its enums

---
 copy_schema.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/copy_schema.go b/copy_schema.go
index 23ad4e7..80c5177 100644
--- a/copy_schema.go
+++ b/copy_schema.go
@@ -133,8 +133,8 @@ func (m *qlType) copy() *qlType {
 		*res.Name = *m.Name
 	}
 	if m.Description != nil {
-		res.Name = helpers.StrPtr("")
-		*res.Name = *m.Name
+		res.Description = helpers.StrPtr("")
+		*res.Description = *m.Description
 	}
 	if m.Interfaces != nil {
 		res.Interfaces = make([]qlType, len(m.Interfaces))
-- 
2.43.0


From 6d5cf2ea787392a12cae11e58834b6c8a0402d57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:47 +0000
Subject: [PATCH 20/87] fix: introspecting a copied schema read and wrote the
 original schema

---
 copy_schema.go | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/copy_schema.go b/copy_schema.go
index 80c5177..e0295a6 100644
--- a/copy_schema.go
+++ b/copy_schema.go
@@ -39,9 +39,7 @@ func (s *Schema) Copy() *Schema {
 		inTypes:    *s.inTypes.copy(),
 		interfaces: *interfaces,
 
-		rootQuery:         s.rootQuery.copy(),
 		rootQueryValue:    s.rootQueryValue,
-		rootMethod:        s.rootMethod.copy(),
 		rootMethodValue:   s.rootMethodValue,
 		MaxDepth:          s.MaxDepth,
 		definedEnums:      enums,
@@ -53,6 +51,17 @@ func (s *Schema) Copy() *Schema {
 		graphqlObjFields: map[string][]qlField{},
 	}
 
+	// The roots must be the same objects as the ones in types, as in the original schema
+	res.rootQuery = res.types[s.rootQuery.typeName]
+	res.rootMethod = res.types[s.rootMethod.typeName]
+
+	// The __schema value contains methods bound to the schema, these should not refer to the original schema
+	schemaField, ok := res.rootQuery.objContents[getObjKey([]byte("__schema"))]
+	if ok && schemaField.customObjValue != nil {
+		contents := reflect.ValueOf(res.getQLSchema())
+		schemaField.customObjValue = &contents
+	}
+
 	res.ctx = s.ctx.copy(res)
 
 	return res
-- 
2.43.0


From 58fc5e8ef135c0fc90ba5136c18a4cdb9403294e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:49 +0000
Subject: [PATCH 21/87] fix: a copied schema shared its tracer with the
 original schema

---
 copy_schema.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/copy_schema.go b/copy_schema.go
index e0295a6..0fab9b7 100644
--- a/copy_schema.go
+++ b/copy_schema.go
@@ -78,7 +78,7 @@ func (ctx *Ctx) copy(schema *Schema) *Ctx {
 		operatorHasArguments:     ctx.operatorHasArguments,
 		operatorArgumentsStartAt: ctx.operatorArgumentsStartAt,
 		tracingEnabled:           ctx.tracingEnabled,
-		tracing:                  ctx.tracing,
+		tracing:                  newTracer(),
 		prefRecordingStartTime:   ctx.prefRecordingStartTime,
 		rawVariables:             ctx.rawVariables,
 		variablesParsed:          false,
-- 
2.43.0


From db499e4064d85132fc58cd36e0d573b71cbef827 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:51 +0000
Subject: [PATCH 22/87] fix: a copied schema ignored the cache rules of the
 original schema

---
 copy_schema.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/copy_schema.go b/copy_schema.go
index 0fab9b7..8d7268d 100644
--- a/copy_schema.go
+++ b/copy_schema.go
@@ -89,6 +89,7 @@ func (ctx *Ctx) copy(schema *Schema) *Ctx {
 		funcInputs:               []reflect.Value{},
 		values:                   nil,
 	}
+	res.query.CacheableQueryMinLen = ctx.query.CacheableQueryMinLen
 	res.ctxReflection = reflect.ValueOf(res)
 	return res
 }
-- 
2.43.0


From b98d62db9490a9bacbe0376aa08d4b36c2e408d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:35 +0000
Subject: [PATCH 23/87] fix: enum arguments were introspected as the scalar
 they are based on

---
 inject_schema.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/inject_schema.go b/inject_schema.go
index 55230c9..96bf4f3 100644
--- a/inject_schema.go
+++ b/inject_schema.go
@@ -221,6 +221,9 @@ func (s *Schema) inputToQLType(in *input) (res *qlType, isNonNull bool) {
 	} else if in.isFile {
 		res = &scalarFile
 		return
+	} else if in.isEnum {
+		enumType := s.definedEnums[in.enumTypeIndex].qlType
+		return &enumType, true
 	}
 
 	switch in.kind {
-- 
2.43.0


From 851bf6202913c16ea5bb552938c5db07d90dc30d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:37 +0000
Subject: [PATCH 24/87] fix: input objects referred to by an argument or field
 were introspected without fields

---
 inject_schema.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/inject_schema.go b/inject_schema.go
index 96bf4f3..5259326 100644
--- a/inject_schema.go
+++ b/inject_schema.go
@@ -235,6 +235,11 @@ func (s *Schema) inputToQLType(in *input) (res *qlType, isNonNull bool) {
 			Name:        h.StrPtr(in.structName),
 			Description: h.PtrToEmptyStr,
 			InputFields: func() []qlInputValue {
+				if in.isStructPointers {
+					// in only refers to the input type, the fields are on the type itself
+					in = s.inTypes[in.structName]
+				}
+
 				res := make([]qlInputValue, len(in.structContent))
 				i := 0
 				for key, item := range in.structContent {
-- 
2.43.0


From 63e090d0866aeedd0fc1717180a93d6b30534d14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:15 +0000
Subject: [PATCH 25/87] fix: setting an unexported input struct field using an
 argument caused a panic

---
 parse.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/parse.go b/parse.go
index da6d644..95b9031 100644
--- a/parse.go
+++ b/parse.go
@@ -605,8 +605,8 @@ func (c *parseCtx) checkFunctionInputStruct(field *reflect.StructField, idx int)
 		return fmt.Errorf("%s, struct field: %s", err.Error(), field.Name)
 	}
 
-	if field.Anonymous {
-		// skip field
+	if field.Anonymous || field.PkgPath != "" {
+		// skip embedded and unexported fields
 		return res, true, nil
 	}
 
-- 
2.43.0


From beaffcceb2cf32d27b5466413b7206f0bb738f87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:11 +0000
Subject: [PATCH 26/87] fix: times outside the UTC timezone were written as if
 they were UTC

---
 helpers/time.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/helpers/time.go b/helpers/time.go
index 9cb0594..81e719a 100644
--- a/helpers/time.go
+++ b/helpers/time.go
@@ -20,5 +20,5 @@ func ParseIso8601String(val string) (time.Time, error) {
 // TimeToIso8601String converts a time.Time to a string in the ISO 8601 format
 // The value is appended to the target
 func TimeToIso8601String(target *[]byte, t time.Time) {
-	*target = t.AppendFormat(*target, timeISO8601Layout)
+	*target = t.UTC().AppendFormat(*target, timeISO8601Layout)
 }
-- 
2.43.0


From 74194976552031ae275bd719609a319f5c645633 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:12 +0000
Subject: [PATCH 27/87] fix: a \u0000 escape in a string argument broke reading
 the arguments

---
 resolver.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/resolver.go b/resolver.go
index a4088a1..975cf6b 100644
--- a/resolver.go
+++ b/resolver.go
@@ -1443,7 +1443,8 @@ func (ctx *Ctx) bindInputToGoValue(goValue *reflect.Value, valueStructure *input
 
 	ctx.skipInst(1)             // read ActionValue
 	valueKind := ctx.readInst() // read value kind
-	ctx.skipInst(4)             // read length of value
+	valueLen := int(ctx.readUint32(ctx.charNr))
+	ctx.skipInst(4) // read length of value
 
 	// TODO if field is: isTime, isFile, is.. and the value provided is different than the expected we'll get wired errors
 
@@ -1549,7 +1550,9 @@ func (ctx *Ctx) bindInputToGoValue(goValue *reflect.Value, valueStructure *input
 			return false, ctx.err("cannot assign float to " + goValue.String())
 		}
 	case bytecode.ValueString:
-		startString, endString := getValue()
+		// A string can contain NULL bytes so we cannot look for the next NULL byte here
+		startString, endString := ctx.charNr, ctx.charNr+valueLen
+		ctx.skipInst(valueLen + 1)
 		// Copy the bytes as the bytecode buffer is reused for the next request
 		stringValue := string(ctx.query.Res[startString:endString])
 		criticalErr := ctx.assignStringToValue(goValue, valueStructure, stringValue)
-- 
2.43.0


From 1f95d3031fd2deda62e2e1ed7ef671c8cf77c03b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:12 +0000
Subject: [PATCH 28/87] fix: directives after the arguments of a field were
 rejected

---
 bytecode/bytecode.go | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/bytecode/bytecode.go b/bytecode/bytecode.go
index 844a1c2..ad86e99 100644
--- a/bytecode/bytecode.go
+++ b/bytecode/bytecode.go
@@ -590,6 +590,7 @@ func (ctx *ParserCtx) parseSelectionSet() bool {
 		}
 
 		if c == '(' {
+			argumentsStart := len(ctx.Res)
 			ctx.charNr++
 			_, eof = ctx.mightIgnoreNextTokens()
 			if eof {
@@ -605,6 +606,25 @@ func (ctx *ParserCtx) parseSelectionSet() bool {
 			if eof {
 				return ctx.unexpectedEOF()
 			}
+
+			if c == '@' {
+				// Directives should be placed after the arguments though in the bytecode they are placed before the arguments
+				directivesStart := len(ctx.Res)
+				amount, criticalErr := ctx.parseDirectives()
+				if criticalErr {
+					return criticalErr
+				}
+				if int(amount)+int(ctx.Res[directivesCountLocation]) > 255 {
+					return ctx.err(`cannot have more than 255 directives`)
+				}
+				ctx.Res[directivesCountLocation] += amount
+
+				arguments := append([]byte{}, ctx.Res[argumentsStart:directivesStart]...)
+				directivesLen := copy(ctx.Res[argumentsStart:], ctx.Res[directivesStart:])
+				copy(ctx.Res[argumentsStart+directivesLen:], arguments)
+
+				c = ctx.currentC()
+			}
 		}
 
 		if c == '{' {
-- 
2.43.0


From 77030d43ca80f7b6241e6804a1736b1b0ee6c50b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:13 +0000
Subject: [PATCH 29/87] fix: a null variable was rejected for optional enums,
 ids, times and files

---
 resolver.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/resolver.go b/resolver.go
index 975cf6b..adfa798 100644
--- a/resolver.go
+++ b/resolver.go
@@ -1087,6 +1087,11 @@ func (ctx *Ctx) bindExternalVariableValue(goValue *reflect.Value, valueStructure
 }
 
 func (ctx *Ctx) bindJSONToValue(goValue *reflect.Value, valueStructure *input, jsonData *fastjson.Value) (valueSet bool, criticalErr bool) {
+	if valueStructure.kind == reflect.Ptr && jsonData.Type() == fastjson.TypeNull {
+		// keep goValue at it's default
+		return false, false
+	}
+
 	var isPtr bool
 	isPtr, valueSet, criticalErr = ctx.checkInputIsPtr(goValue, valueStructure, func(goValue *reflect.Value, input *input) (valueSet bool, criticalErr bool) {
 		return ctx.bindJSONToValue(goValue, input, jsonData)
-- 
2.43.0


From 2fbe7adac46990b54bd8c1fe1d4aa75c9b68ef95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:14 +0000
Subject: [PATCH 30/87] fix: an unknown field with the same name hash as a
 known field returned the known field

---
 resolver.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/resolver.go b/resolver.go
index adfa798..27160f6 100644
--- a/resolver.go
+++ b/resolver.go
@@ -583,6 +583,10 @@ func (ctx *Ctx) resolveField(typeObj *obj, dept uint8, addCommaBefore bool) (ski
 	fieldHasSelection := ctx.seekInst() != 'e'
 
 	typeObjField, ok := typeObj.objContents[nameKey]
+	if ok && !bytes.Equal(typeObjField.qlFieldName, ctx.query.Res[startOfName:endOfName]) {
+		// Another name with the same hash
+		ok = false
+	}
 	if !ok {
 		name := b2s(ctx.query.Res[startOfName:endOfName])
 		if name == "__typename" {
-- 
2.43.0


From 10428bd427010457fd22c1375bc34c23fa405186 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:15 +0000
Subject: [PATCH 31/87] fix: the errors returned by Resolve changed when the
 next request was resolved

---
 resolver.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/resolver.go b/resolver.go
index 27160f6..c9e1dfe 100644
--- a/resolver.go
+++ b/resolver.go
@@ -300,7 +300,10 @@ func (s *Schema) Resolve(query []byte, opts ResolveOptions) []error {
 		}
 	}
 
-	return ctx.query.Errors
+	// Copy the errors as the errors slice is reused for the next request
+	errs := make([]error, len(ctx.query.Errors))
+	copy(errs, ctx.query.Errors)
+	return errs
 }
 
 // readInst reads the current instruction and increments the charNr
-- 
2.43.0


From 6058cbca6d8f664620a59a8baccdb360037b65bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:41 +0000
Subject: [PATCH 32/87] fix: variables could not be used for list arguments
 with optional entries

---
 resolver.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/resolver.go b/resolver.go
index c9e1dfe..e50371f 100644
--- a/resolver.go
+++ b/resolver.go
@@ -987,6 +987,10 @@ func (ctx *Ctx) bindOperatorArgumentTo(goValue *reflect.Value, valueStructure *i
 			return false, ctx.err("variable $" + argumentName + " cannot be bind to " + resolvedValueStructure.kind.String())
 		}
 		resolvedValueStructure = resolvedValueStructure.elem
+		for resolvedValueStructure.kind == reflect.Ptr && !resolvedValueStructure.isFile {
+			// list with optional entries
+			resolvedValueStructure = resolvedValueStructure.elem
+		}
 		c = ctx.readInst()
 	}
 	if c == 'n' || c == 'N' {
-- 
2.43.0


From 010faa7f18de6c58c15b6f9f8f055fee6ba094eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:41 +0000
Subject: [PATCH 33/87] fix: fragments on an interface were never applied to
 the types implementing that interface

---
 resolver.go | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/resolver.go b/resolver.go
index e50371f..c01a7cc 100644
--- a/resolver.go
+++ b/resolver.go
@@ -466,7 +466,7 @@ func (ctx *Ctx) resolveSpread(typeObj *obj, dept uint8, firstField *bool) bool {
 	}
 
 	if isInline {
-		if !bytes.Equal(typeObj.typeNameBytes, name) {
+		if !fragmentAppliesTo(typeObj, name) {
 			ctx.charNr = nameStart + int(lenOfDirective) + 1
 			return false
 		}
@@ -499,7 +499,7 @@ func (ctx *Ctx) resolveSpread(typeObj *obj, dept uint8, firstField *bool) bool {
 				}
 			}
 
-			if !bytes.Equal(typeObj.typeNameBytes, ctx.query.Res[typeNameStart:typeNameEnd]) {
+			if !fragmentAppliesTo(typeObj, ctx.query.Res[typeNameStart:typeNameEnd]) {
 				ctx.charNr = nameStart + int(lenOfDirective) + 1
 				return false
 			}
@@ -521,6 +521,20 @@ func (ctx *Ctx) resolveSpread(typeObj *obj, dept uint8, firstField *bool) bool {
 	return ctx.err("fragment " + b2s(name) + " not defined")
 }
 
+// fragmentAppliesTo returns true if a fragment with the type condition should be applied to typeObj
+// This is the case if the type condition is the name of the type or the name of a interface the type implements
+func fragmentAppliesTo(typeObj *obj, typeCondition []byte) bool {
+	if bytes.Equal(typeObj.typeNameBytes, typeCondition) {
+		return true
+	}
+	for _, implementation := range typeObj.implementations {
+		if bytes.Equal(implementation.typeNameBytes, typeCondition) {
+			return true
+		}
+	}
+	return false
+}
+
 func (ctx *Ctx) resolveField(typeObj *obj, dept uint8, addCommaBefore bool) (skipped bool, criticalErr bool) {
 	ctx.startTrace()
 
-- 
2.43.0


From e1a01dc434f71f34dbd02823e99bae42bd931855 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:42 +0000
Subject: [PATCH 34/87] fix: commas were not handled as insignificant and thus
 rejected on most places

---
 bytecode/bytecode.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bytecode/bytecode.go b/bytecode/bytecode.go
index ad86e99..2e12612 100644
--- a/bytecode/bytecode.go
+++ b/bytecode/bytecode.go
@@ -1156,7 +1156,7 @@ func isPunctuator(c byte) bool {
 // https://spec.graphql.org/October2021/#sec-Language.Source-Text.Ignored-Tokens
 func (ctx *ParserCtx) isIgnoredToken(c byte) bool {
 	// TODO this doesn't support unicode bomb
-	return c == ' ' || c == '\t' || ctx.isLineTerminator() || ctx.isComment(true) || c == 0
+	return c == ' ' || c == '\t' || c == ',' || ctx.isLineTerminator() || ctx.isComment(true) || c == 0
 }
 
 // https://spec.graphql.org/October2021/#sec-Line-Terminators
-- 
2.43.0


From 6430d91ba8e347695d59e399a7a025853e875bb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:43 +0000
Subject: [PATCH 35/87] fix: the trace of a field with a selection reported the
 start time of its last inner field

---
 resolver.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/resolver.go b/resolver.go
index c01a7cc..8a4f1bd 100644
--- a/resolver.go
+++ b/resolver.go
@@ -537,6 +537,7 @@ func fragmentAppliesTo(typeObj *obj, typeCondition []byte) bool {
 
 func (ctx *Ctx) resolveField(typeObj *obj, dept uint8, addCommaBefore bool) (skipped bool, criticalErr bool) {
 	ctx.startTrace()
+	traceStartTime := ctx.prefRecordingStartTime
 
 	directivesCount := ctx.readInst()
 
@@ -633,6 +634,8 @@ func (ctx *Ctx) resolveField(typeObj *obj, dept uint8, addCommaBefore bool) (ski
 		if ctx.tracingEnabled {
 			name := b2s(ctx.query.Res[startOfName:endOfName])
 
+			// The fields inside this field also recorded their start time
+			ctx.prefRecordingStartTime = traceStartTime
 			ctx.finishTrace(func(offset, duration int64) {
 				returnType := bytes.NewBuffer(nil)
 				ctx.schema.objToQlTypeName(typeObjField, returnType)
-- 
2.43.0


From 346ed04339b574aae6e63ea7ad90be8899e8700e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:44 +0000
Subject: [PATCH 36/87] fix: the trace of a list field reported the wrong
 nullability in its return type

---
 parse.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/parse.go b/parse.go
index 95b9031..1f9cc19 100644
--- a/parse.go
+++ b/parse.go
@@ -964,8 +964,9 @@ func (s *Schema) objToQlTypeName(item *obj, target *bytes.Buffer) {
 			} else {
 				target.Write([]byte("Unknown"))
 			}
-			if len(suffix) > 0 {
-				target.Write(suffix)
+			// The suffixes were added from the outer to the inner type
+			for i := len(suffix) - 1; i >= 0; i-- {
+				target.WriteByte(suffix[i])
 			}
 			return
 		}
-- 
2.43.0


From 41042a6c06a6a28c122334cf324f8b9ea40d9e9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:44 +0000
Subject: [PATCH 37/87] fix: Parse panicked on types with a method named
 Resolve

---
 parse.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parse.go b/parse.go
index 1f9cc19..b25f866 100644
--- a/parse.go
+++ b/parse.go
@@ -739,7 +739,7 @@ func (c *parseCtx) checkFunction(name string, t reflect.Type, isTypeMethod bool,
 	trimmedName := name
 
 	if strings.HasPrefix(name, "Resolve") {
-		if len(name) > 0 {
+		if len(name) > len("Resolve") {
 			trimmedName = strings.TrimPrefix(name, "Resolve")
 			if isTypeMethod && strings.ToUpper(string(trimmedName[0]))[0] != trimmedName[0] {
 				// Resolve name must start with a uppercase letter
-- 
2.43.0


From a35ea6cbd35c6184c55307aa0144c064124cd3f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:08 +0000
Subject: [PATCH 38/87] fix: whitespace and comments were rejected after "$",
 "@" and the "]" of a list type

---
 bytecode/bytecode.go | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/bytecode/bytecode.go b/bytecode/bytecode.go
index 2e12612..bb17ff3 100644
--- a/bytecode/bytecode.go
+++ b/bytecode/bytecode.go
@@ -274,6 +274,10 @@ func (ctx *ParserCtx) parseOperatorArgument() bool {
 	argLengthLocation := ctx.instructionNewOperationArg()
 
 	// Parse `some_name` of `query a($some_var: String = "a") {`
+	_, eof := ctx.mightIgnoreNextTokens()
+	if eof {
+		return ctx.unexpectedEOF()
+	}
 	nameLen, criticalErr := ctx.parseAndWriteName()
 	if criticalErr {
 		return criticalErr
@@ -351,6 +355,10 @@ func (ctx *ParserCtx) parseDirectives() (directivesAmount uint8, criticalErr boo
 		ctx.charNr++
 		ctx.instructionNewDirective()
 		hasArgsFlag := len(ctx.Res) - 1
+		_, eof = ctx.mightIgnoreNextTokens()
+		if eof {
+			return directivesAmount, ctx.unexpectedEOF()
+		}
 		nameLen, criticalErr := ctx.parseAndWriteName()
 		if criticalErr {
 			return directivesAmount, criticalErr
@@ -402,7 +410,7 @@ func (ctx *ParserCtx) parseGraphqlTypeName(c byte) bool {
 			return ctx.err(`expected list closure ("]") but got "` + string(c) + `"`)
 		}
 		ctx.charNr++
-		c, eof = ctx.checkC(ctx.charNr)
+		c, eof = ctx.mightIgnoreNextTokens()
 		if eof {
 			return ctx.unexpectedEOF()
 		}
@@ -734,6 +742,11 @@ func (ctx *ParserCtx) parseInputValue() bool {
 		ctx.instructionNewValueVariable()
 		startOfVariable := len(ctx.Res)
 
+		_, eof = ctx.mightIgnoreNextTokens()
+		if eof {
+			return ctx.unexpectedEOF()
+		}
+
 		nameLen, criticalErr := ctx.parseAndWriteName()
 		if criticalErr {
 			return criticalErr
-- 
2.43.0


From 314480d8826c85463a78bb65c5ba625fdf84f6b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:09 +0000
Subject: [PATCH 39/87] fix: floats that do not fit a 32bit float argument
 became infinite

---
 resolver.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/resolver.go b/resolver.go
index 8a4f1bd..2d092ea 100644
--- a/resolver.go
+++ b/resolver.go
@@ -1285,7 +1285,11 @@ func (ctx *Ctx) bindJSONToValue(goValue *reflect.Value, valueStructure *input, j
 		goValueKind := goValue.Kind()
 		if goValueKind == reflect.Float64 || goValueKind == reflect.Float32 {
 			valueSet = true
-			goValue.SetFloat(jsonData.GetFloat64())
+			floatVal := jsonData.GetFloat64()
+			if goValue.OverflowFloat(floatVal) {
+				return false, ctx.errf("cannot assign %s to a 32bit float", jsonData.String())
+			}
+			goValue.SetFloat(floatVal)
 		} else {
 			intVal, err := jsonData.Int64()
 			if err != nil {
@@ -1578,6 +1582,9 @@ func (ctx *Ctx) bindInputToGoValue(goValue *reflect.Value, valueStructure *input
 				return false, ctx.err(err.Error())
 			}
 
+			if goValue.OverflowFloat(floatValue) {
+				return false, ctx.errf("cannot assign %v to a 32bit float", floatValue)
+			}
 			goValue.SetFloat(floatValue)
 		default:
 			return false, ctx.err("cannot assign float to " + goValue.String())
-- 
2.43.0


From 686bbc0616e24796bd290d8a112f7fe1e45d905a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:56 +0000
Subject: [PATCH 40/87] fix: check the declared type of variables given to
 boolean arguments

---
 resolver.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/resolver.go b/resolver.go
index 2d092ea..ec26154 100644
--- a/resolver.go
+++ b/resolver.go
@@ -1044,6 +1044,9 @@ func (ctx *Ctx) bindOperatorArgumentTo(goValue *reflect.Value, valueStructure *i
 		} else {
 			switch resolvedValueStructure.kind {
 			case reflect.Bool:
+				if typeName != "Boolean" {
+					return false, ctx.err("expected variable type Boolean but got " + typeName)
+				}
 			case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64, reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
 				if typeName != "Int" {
 					return false, ctx.err("expected variable type Int but got " + typeName)
-- 
2.43.0


From d89072dbde8b8a9b188f527d56083f04277ae370 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:19 +0000
Subject: [PATCH 41/87] fix: refuse int literals for enum arguments and object
 literals for time arguments

---
 resolver.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/resolver.go b/resolver.go
index ec26154..bfb3285 100644
--- a/resolver.go
+++ b/resolver.go
@@ -1510,6 +1510,10 @@ func (ctx *Ctx) bindInputToGoValue(goValue *reflect.Value, valueStructure *input
 			return valueSet, criticalErr
 		}
 	case bytecode.ValueInt:
+		if valueStructure.isEnum {
+			return false, ctx.err("cannot assign int to Enum value")
+		}
+
 		startInt, endInt := getValue()
 		intValue := b2s(ctx.query.Res[startInt:endInt])
 
@@ -1664,7 +1668,7 @@ func (ctx *Ctx) bindInputToGoValue(goValue *reflect.Value, valueStructure *input
 
 		goValue.Set(arr)
 	case bytecode.ValueObject:
-		if goValue.Kind() != reflect.Struct {
+		if goValue.Kind() != reflect.Struct || valueStructure.isTime {
 			return false, ctx.err("cannot assign object to " + goValue.String())
 		}
 
-- 
2.43.0


From b68fba0b0d1c10c9606f2741aa9e8cd853cb0c14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:35 +0000
Subject: [PATCH 42/87] fix: round float variables correctly and refuse the
 ones that overflow

---
 resolver.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/resolver.go b/resolver.go
index bfb3285..1b1d48f 100644
--- a/resolver.go
+++ b/resolver.go
@@ -1288,9 +1288,10 @@ func (ctx *Ctx) bindJSONToValue(goValue *reflect.Value, valueStructure *input, j
 		goValueKind := goValue.Kind()
 		if goValueKind == reflect.Float64 || goValueKind == reflect.Float32 {
 			valueSet = true
-			floatVal := jsonData.GetFloat64()
-			if goValue.OverflowFloat(floatVal) {
-				return false, ctx.errf("cannot assign %s to a 32bit float", jsonData.String())
+			// fastjson's own float parser rounds numbers with an exponent and ignores overflows
+			floatVal, err := strconv.ParseFloat(jsonData.String(), goValue.Type().Bits())
+			if err != nil {
+				return false, ctx.errf("cannot assign %s to a %dbit float", jsonData.String(), goValue.Type().Bits())
 			}
 			goValue.SetFloat(floatVal)
 		} else {
-- 
2.43.0


From ef98301f0bcd576cdb1bd5aa558f53cfdcf303a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:50 +0000
Subject: [PATCH 43/87] fix: a null variable was rejected for optional enum, id
 and time arguments

---
 resolver.go | 28 +++++++++++++++++-----------
 1 file changed, 17 insertions(+), 11 deletions(-)

diff --git a/resolver.go b/resolver.go
index 1b1d48f..2d3a7eb 100644
--- a/resolver.go
+++ b/resolver.go
@@ -995,6 +995,9 @@ func (ctx *Ctx) bindOperatorArgumentTo(goValue *reflect.Value, valueStructure *i
 	// TODO the error messages in this function are garbage
 
 	resolvedValueStructure := valueStructure
+	for resolvedValueStructure.kind == reflect.Ptr && !resolvedValueStructure.isFile {
+		resolvedValueStructure = resolvedValueStructure.elem
+	}
 	c := ctx.readInst()
 	for {
 		if c != 'L' && c != 'l' {
@@ -1459,18 +1462,21 @@ func (ctx *Ctx) checkInputIsPtr(goValue *reflect.Value, input *input, whenPtr fu
 func (ctx *Ctx) bindInputToGoValue(goValue *reflect.Value, valueStructure *input, variablesAllowed bool) (valueSet bool, criticalErr bool) {
 	// TODO convert to go value kind to graphql value kind in errors
 
-	var isPtr bool
-	isPtr, valueSet, criticalErr = ctx.checkInputIsPtr(goValue, valueStructure, func(goValue *reflect.Value, input *input) (valueSet bool, criticalErr bool) {
-		if ctx.query.Res[ctx.charNr+1] == bytecode.ValueNull {
-			// keep goValue at it's default
-			// read ActionValue, value kind, length of value and NULL
-			ctx.skipInst(7)
-			return false, false
+	// A variable is bound to the pointer itself as its value might be null
+	if ctx.query.Res[ctx.charNr+1] != bytecode.ValueVariable {
+		var isPtr bool
+		isPtr, valueSet, criticalErr = ctx.checkInputIsPtr(goValue, valueStructure, func(goValue *reflect.Value, input *input) (valueSet bool, criticalErr bool) {
+			if ctx.query.Res[ctx.charNr+1] == bytecode.ValueNull {
+				// keep goValue at it's default
+				// read ActionValue, value kind, length of value and NULL
+				ctx.skipInst(7)
+				return false, false
+			}
+			return ctx.bindInputToGoValue(goValue, input, variablesAllowed)
+		})
+		if isPtr {
+			return valueSet, criticalErr
 		}
-		return ctx.bindInputToGoValue(goValue, input, variablesAllowed)
-	})
-	if isPtr {
-		return valueSet, criticalErr
 	}
 
 	getValue := func() (start int, end int) {
-- 
2.43.0


From e4963514c5979d808980ac011063a4f0417b354c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:38 +0000
Subject: [PATCH 44/87] fix: inline fragments without a type condition were
 rejected

---
 bytecode/bytecode.go | 10 ++++++----
 resolver.go          |  3 ++-
 2 files changed, 8 insertions(+), 5 deletions(-)

diff --git a/bytecode/bytecode.go b/bytecode/bytecode.go
index bb17ff3..84ebef1 100644
--- a/bytecode/bytecode.go
+++ b/bytecode/bytecode.go
@@ -473,13 +473,15 @@ func (ctx *ParserCtx) parseSelectionSet() bool {
 
 			if ctx.matches("...") == 0 {
 				// Is pointer to fragment or inline fragment
-				_, eof := ctx.mightIgnoreNextTokens()
+				c, eof := ctx.mightIgnoreNextTokens()
 				if eof {
 					return ctx.unexpectedEOF()
 				}
 
-				isInline := ctx.matchesWord("on") == 0
-				if isInline {
+				// The type condition of a inline fragment might be omitted
+				hasTypeCondition := ctx.matchesWord("on") == 0
+				isInline := hasTypeCondition || c == '{' || c == '@'
+				if hasTypeCondition {
 					_, eof := ctx.mightIgnoreNextTokens()
 					if eof {
 						return ctx.unexpectedEOF()
@@ -499,7 +501,7 @@ func (ctx *ParserCtx) parseSelectionSet() bool {
 					return ctx.unexpectedEOF()
 				}
 
-				if nameLen == 0 {
+				if nameLen == 0 && (hasTypeCondition || !isInline) {
 					if isInline {
 						return ctx.err(`expected fragment type name but got char: "` + string(c) + `"`)
 					}
diff --git a/resolver.go b/resolver.go
index 2d3a7eb..1cb6765 100644
--- a/resolver.go
+++ b/resolver.go
@@ -466,7 +466,8 @@ func (ctx *Ctx) resolveSpread(typeObj *obj, dept uint8, firstField *bool) bool {
 	}
 
 	if isInline {
-		if !fragmentAppliesTo(typeObj, name) {
+		// A inline fragment without a type condition always applies
+		if nameLen != 0 && !fragmentAppliesTo(typeObj, name) {
 			ctx.charNr = nameStart + int(lenOfDirective) + 1
 			return false
 		}
-- 
2.43.0


From aeb86199e603fe2bbd4118bb4bb994e9e290d1e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:48 +0000
Subject: [PATCH 45/87] fix: parsing continued after an error inside a inline
 fragment

---
 bytecode/bytecode.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/bytecode/bytecode.go b/bytecode/bytecode.go
index 84ebef1..0b2562e 100644
--- a/bytecode/bytecode.go
+++ b/bytecode/bytecode.go
@@ -523,7 +523,10 @@ func (ctx *ParserCtx) parseSelectionSet() bool {
 						return ctx.err(`expected selection set open ("{") on inline fragment but got "` + string(c) + `"`)
 					}
 					ctx.charNr++
-					ctx.parseSelectionSet()
+					criticalErr := ctx.parseSelectionSet()
+					if criticalErr {
+						return criticalErr
+					}
 					ctx.instructionEnd()
 					c, eof = ctx.mightIgnoreNextTokens()
 					if eof {
-- 
2.43.0


From a2236f36ceb74ffcacbdf08ec3556eed6c845035 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:49 +0000
Subject: [PATCH 46/87] fix: keywords were recognised as prefix of a longer
 name

---
 bytecode/bytecode.go | 15 +++------------
 1 file changed, 3 insertions(+), 12 deletions(-)

diff --git a/bytecode/bytecode.go b/bytecode/bytecode.go
index 0b2562e..27884bc 100644
--- a/bytecode/bytecode.go
+++ b/bytecode/bytecode.go
@@ -98,7 +98,7 @@ func (ctx *ParserCtx) parseOperatorOrFragment() (stop bool) {
 			ctx.TargetIdx = operationStartsAt
 		}
 		ctx.instructionNewOperation(OperatorQuery)
-	} else if matches := ctx.matches("query", "mutation", "subscription"); matches != -1 {
+	} else if matches := ctx.matchesWord("query", "mutation", "subscription"); matches != -1 {
 		// Set the operation kind
 		if !ctx.hasTarget {
 			ctx.TargetIdx = operationStartsAt
@@ -163,7 +163,7 @@ func (ctx *ParserCtx) parseOperatorOrFragment() (stop bool) {
 		if c != '{' {
 			return ctx.err(`expected selection set opener ("{") but got "` + string(c) + `"`)
 		}
-	} else if matches := ctx.matches("fragment"); matches != -1 {
+	} else if matches := ctx.matchesWord("fragment"); matches != -1 {
 		ctx.FragmentLocations = append(ctx.FragmentLocations, len(ctx.Res)+1)
 		ctx.instructionNewFragment()
 
@@ -185,18 +185,9 @@ func (ctx *ParserCtx) parseOperatorOrFragment() (stop bool) {
 		if eof {
 			return ctx.unexpectedEOF()
 		}
-		if c != 'o' {
+		if ctx.matchesWord("on") == -1 {
 			return ctx.err(`expected "on" keyword but got "` + string(c) + `"`)
 		}
-		ctx.charNr++
-		c, eof = ctx.checkC(ctx.charNr)
-		if eof {
-			return ctx.unexpectedEOF()
-		}
-		if c != 'n' {
-			return ctx.err(`expected "on" keyword but got "` + string(c) + `"`)
-		}
-		ctx.charNr++
 
 		// Parse fragment target type name
 		_, eof = ctx.mightIgnoreNextTokens()
-- 
2.43.0


From 34784bdc93b05300bba125dec2a33b53f65b4718 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:09 +0000
Subject: [PATCH 47/87] fix: surrogate pairs of unicode escapes were not
 decoded

---
 bytecode/bytecode.go | 77 +++++++++++++++++++++++++++-----------------
 1 file changed, 48 insertions(+), 29 deletions(-)

diff --git a/bytecode/bytecode.go b/bytecode/bytecode.go
index 27884bc..f212972 100644
--- a/bytecode/bytecode.go
+++ b/bytecode/bytecode.go
@@ -1074,39 +1074,34 @@ mainLoop:
 			case 't':
 				ctx.Res = append(ctx.Res, '\t')
 			case 'u':
-				ctx.charNr++
-				c1, _ := ctx.checkC(ctx.charNr)
-				ctx.charNr++
-				c2, _ := ctx.checkC(ctx.charNr)
-				ctx.charNr++
-				c3, _ := ctx.checkC(ctx.charNr)
-				ctx.charNr++
-				c4, eof := ctx.checkC(ctx.charNr)
-				if eof {
-					return ctx.unexpectedEOF()
+				unit, criticalErr := ctx.parseUnicodeEscape()
+				if criticalErr {
+					return criticalErr
 				}
 
-				// we need this 2 times where the largest buffer is required to be 4 bytes
-				res := make([]byte, 4)
-
-				_, err := hex.Decode(res, []byte{c1, c2, c3, c4})
-				if err != nil {
-					return ctx.err(err.Error())
+				r := rune(unit)
+				if utf16.IsSurrogate(r) {
+					// Characters outside of the basic multilingual plane are written as 2 escapes
+					r = utf8.RuneError
+					next, _ := ctx.checkC(ctx.charNr + 1)
+					afterNext, _ := ctx.checkC(ctx.charNr + 2)
+					if next == '\\' && afterNext == 'u' {
+						startOfUnit := ctx.charNr
+						ctx.charNr += 2
+						secondUnit, criticalErr := ctx.parseUnicodeEscape()
+						if criticalErr {
+							return criticalErr
+						}
+						r = utf16.DecodeRune(rune(unit), rune(secondUnit))
+						if r == utf8.RuneError {
+							// Not a pair, the second escape stands on its own
+							ctx.charNr = startOfUnit
+						}
+					}
 				}
-				// if res[0] != 0 {
-				// 	ctx.res = append(ctx.res, res[0])
-				// }
-				// if res[1] != 0 {
-				// 	ctx.res = append(ctx.res, res[1])
-				// }
-
-				r := utf16.Decode([]uint16{uint16(res[1]) | (uint16(res[0]) << 8)})[0]
-
-				// hex.Decode above only writes to the first and second byte
-				res[0] = 0
-				res[1] = 0
-				l := utf8.EncodeRune(res, r)
 
+				res := make([]byte, utf8.UTFMax)
+				l := utf8.EncodeRune(res, r)
 				ctx.Res = append(ctx.Res, res[:l]...)
 			default:
 				// TODO support unicode
@@ -1119,6 +1114,30 @@ mainLoop:
 	}
 }
 
+// parseUnicodeEscape parses the 4 hex digits of a \u escape
+// should be called with the current char being the u and leaves the current char at the last digit
+func (ctx *ParserCtx) parseUnicodeEscape() (unit uint16, criticalErr bool) {
+	ctx.charNr++
+	c1, _ := ctx.checkC(ctx.charNr)
+	ctx.charNr++
+	c2, _ := ctx.checkC(ctx.charNr)
+	ctx.charNr++
+	c3, _ := ctx.checkC(ctx.charNr)
+	ctx.charNr++
+	c4, eof := ctx.checkC(ctx.charNr)
+	if eof {
+		return 0, ctx.unexpectedEOF()
+	}
+
+	res := make([]byte, 2)
+	_, err := hex.Decode(res, []byte{c1, c2, c3, c4})
+	if err != nil {
+		return 0, ctx.err(err.Error())
+	}
+
+	return uint16(res[1]) | (uint16(res[0]) << 8), false
+}
+
 //
 // ITERATOR HELPERS
 //
-- 
2.43.0


From 4e43e25c6afa8d13fb0005ee3e090ff9a14bf14b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:17 +0000
Subject: [PATCH 48/87] fix: unknown escape sequences in strings were accepted

---
 bytecode/bytecode.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/bytecode/bytecode.go b/bytecode/bytecode.go
index f212972..3f061c4 100644
--- a/bytecode/bytecode.go
+++ b/bytecode/bytecode.go
@@ -1103,9 +1103,10 @@ mainLoop:
 				res := make([]byte, utf8.UTFMax)
 				l := utf8.EncodeRune(res, r)
 				ctx.Res = append(ctx.Res, res[:l]...)
-			default:
-				// TODO support unicode
+			case '"', '\\', '/':
 				ctx.Res = append(ctx.Res, c)
+			default:
+				return ctx.err(`unknown escape sequence "\` + string(c) + `"`)
 			}
 			continue
 		}
-- 
2.43.0


From d26db85786dd0af359b99cd619fc32e871b119a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:41 +0000
Subject: [PATCH 49/87] fix: numbers without digits were accepted

---
 bytecode/bytecode.go | 22 ++++++++++++++--------
 1 file changed, 14 insertions(+), 8 deletions(-)

diff --git a/bytecode/bytecode.go b/bytecode/bytecode.go
index 3f061c4..acf4a1e 100644
--- a/bytecode/bytecode.go
+++ b/bytecode/bytecode.go
@@ -862,14 +862,16 @@ func (ctx *ParserCtx) parseNumberInputValue() bool {
 	}
 
 	// Parse the first set of numbers (the 123 of +123.456e78)
+	hasDigits := false
 	for {
 		if c >= '0' && c <= '9' {
+			hasDigits = true
 			ctx.Res = append(ctx.Res, c)
-		} else if c == '.' || c == 'e' || c == 'E' {
+		} else if c == '.' || hasDigits && (c == 'e' || c == 'E') {
 			break
-		} else if c == '_' {
+		} else if hasDigits && c == '_' {
 			// Ignore this char
-		} else if isPunctuator(c) || ctx.isIgnoredToken(c) || c == ',' {
+		} else if hasDigits && (isPunctuator(c) || ctx.isIgnoredToken(c) || c == ',') {
 			// End of number
 			ctx.writeUint32(uint32(len(ctx.Res)-startOfInt), startOfInt-4)
 			return false
@@ -888,6 +890,7 @@ func (ctx *ParserCtx) parseNumberInputValue() bool {
 	if c == '.' {
 		ctx.Res[valueTypeAt] = ValueFloat
 		ctx.Res = append(ctx.Res, '.')
+		hasDigits = false
 		for {
 			ctx.charNr++
 			c, eof = ctx.checkC(ctx.charNr)
@@ -896,15 +899,16 @@ func (ctx *ParserCtx) parseNumberInputValue() bool {
 			}
 
 			if c >= '0' && c <= '9' {
+				hasDigits = true
 				ctx.Res = append(ctx.Res, c)
-			} else if c == 'e' || c == 'E' {
+			} else if hasDigits && (c == 'e' || c == 'E') {
 				break
-			} else if c == '_' {
+			} else if hasDigits && c == '_' {
 				// Ignore this char
 			} else if c == '.' {
 				// isPunctuator(c) returns . on this char but from here those are not allowed
 				return ctx.err(`unexpected character in float value, char: "` + string(c) + `"`)
-			} else if isPunctuator(c) || ctx.isIgnoredToken(c) || c == ',' {
+			} else if hasDigits && (isPunctuator(c) || ctx.isIgnoredToken(c) || c == ',') {
 				// End of number
 				ctx.writeUint32(uint32(len(ctx.Res)-startOfInt), startOfInt-4)
 				return false
@@ -935,16 +939,18 @@ func (ctx *ParserCtx) parseNumberInputValue() bool {
 			}
 		}
 
+		hasDigits = false
 		for {
 			if c >= '0' && c <= '9' {
+				hasDigits = true
 				ctx.Res = append(ctx.Res, c)
 			} else if c == 'e' || c == 'E' || c == '.' {
 				// isPunctuator(c) returns . on this char but from here those are not allowed
 				// e and E are also not allowed from here
 				return ctx.err(`unexpected character in float value, char: "` + string(c) + `"`)
-			} else if c == '_' {
+			} else if hasDigits && c == '_' {
 				// Ignore this char
-			} else if isPunctuator(c) || ctx.isIgnoredToken(c) || c == ',' {
+			} else if hasDigits && (isPunctuator(c) || ctx.isIgnoredToken(c) || c == ',') {
 				// End of number
 				break
 			} else {
-- 
2.43.0


From 4915909e79879a4580de3276d9a8f1b0a7869510 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:07:07 +0000
Subject: [PATCH 50/87] fix: string directly after a number was rejected

---
 bytecode/bytecode.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/bytecode/bytecode.go b/bytecode/bytecode.go
index acf4a1e..6dd33a5 100644
--- a/bytecode/bytecode.go
+++ b/bytecode/bytecode.go
@@ -871,7 +871,7 @@ func (ctx *ParserCtx) parseNumberInputValue() bool {
 			break
 		} else if hasDigits && c == '_' {
 			// Ignore this char
-		} else if hasDigits && (isPunctuator(c) || ctx.isIgnoredToken(c) || c == ',') {
+		} else if hasDigits && (isPunctuator(c) || ctx.isIgnoredToken(c) || c == ',' || c == '"') {
 			// End of number
 			ctx.writeUint32(uint32(len(ctx.Res)-startOfInt), startOfInt-4)
 			return false
@@ -908,7 +908,7 @@ func (ctx *ParserCtx) parseNumberInputValue() bool {
 			} else if c == '.' {
 				// isPunctuator(c) returns . on this char but from here those are not allowed
 				return ctx.err(`unexpected character in float value, char: "` + string(c) + `"`)
-			} else if hasDigits && (isPunctuator(c) || ctx.isIgnoredToken(c) || c == ',') {
+			} else if hasDigits && (isPunctuator(c) || ctx.isIgnoredToken(c) || c == ',' || c == '"') {
 				// End of number
 				ctx.writeUint32(uint32(len(ctx.Res)-startOfInt), startOfInt-4)
 				return false
@@ -950,7 +950,7 @@ func (ctx *ParserCtx) parseNumberInputValue() bool {
 				return ctx.err(`unexpected character in float value, char: "` + string(c) + `"`)
 			} else if hasDigits && c == '_' {
 				// Ignore this char
-			} else if hasDigits && (isPunctuator(c) || ctx.isIgnoredToken(c) || c == ',') {
+			} else if hasDigits && (isPunctuator(c) || ctx.isIgnoredToken(c) || c == ',' || c == '"') {
 				// End of number
 				break
 			} else {
-- 
2.43.0


From 1034f3e62f0b1f8c3c6d5f38c739632ef898078f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:43 +0000
Subject: [PATCH 51/87] fix: a fragment could be named "on" although it can
 never be spread

---
 bytecode/bytecode.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/bytecode/bytecode.go b/bytecode/bytecode.go
index 6dd33a5..f290b4f 100644
--- a/bytecode/bytecode.go
+++ b/bytecode/bytecode.go
@@ -172,6 +172,10 @@ func (ctx *ParserCtx) parseOperatorOrFragment() (stop bool) {
 		if eof {
 			return ctx.unexpectedEOF()
 		}
+		if ctx.matchesWord("on") != -1 {
+			ctx.charNr -= len("on")
+			return ctx.err(`expected fragment name but got the "on" keyword`)
+		}
 		nameLen, criticalErr := ctx.parseAndWriteName()
 		if criticalErr {
 			return criticalErr
-- 
2.43.0


From 76d8af272c2728cb2159a11f86ebc99c32f3f783 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:39 +0000
Subject: [PATCH 52/87] fix: introspection lists the arguments of directives

---
 parse.go | 23 ++++++++++++-----------
 1 file changed, 12 insertions(+), 11 deletions(-)

diff --git a/parse.go b/parse.go
index b25f866..c8ac013 100644
--- a/parse.go
+++ b/parse.go
@@ -326,17 +326,7 @@ func (s *Schema) Parse(queries interface{}, methods interface{}, options *Schema
 		}
 	}
 
-	if options == nil || !options.SkipGraphqlTypesInjection {
-		s.injectQLTypes(ctx)
-	}
-
-	for _, method := range ctx.parsedMethods {
-		err = ctx.checkFunctionIns(method)
-		if err != nil {
-			return err
-		}
-	}
-
+	// The directives are part of the injected __schema value, so their inputs must be known first
 	for _, directiveLocation := range ctx.schema.definedDirectives {
 		for _, directive := range directiveLocation {
 			if directive.parsedMethod.checkedIns {
@@ -350,6 +340,17 @@ func (s *Schema) Parse(queries interface{}, methods interface{}, options *Schema
 		}
 	}
 
+	if options == nil || !options.SkipGraphqlTypesInjection {
+		s.injectQLTypes(ctx)
+	}
+
+	for _, method := range ctx.parsedMethods {
+		err = ctx.checkFunctionIns(method)
+		if err != nil {
+			return err
+		}
+	}
+
 	s.ctx = newCtx(s)
 	s.parsed = true
 
-- 
2.43.0


From 4adae5def8c1c53c8f58fc4e878095441626cfab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:27 +0000
Subject: [PATCH 53/87] fix: registering something else than a map or a map
 with a custom key type as enum doesn't panic

---
 enums.go | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/enums.go b/enums.go
index f609252..5e2fb75 100644
--- a/enums.go
+++ b/enums.go
@@ -72,16 +72,12 @@ func registerEnumCheck(enumMap interface{}) (*enum, error) {
 	mapReflection := reflect.ValueOf(enumMap)
 	invalidTypeMsg := fmt.Errorf("RegisterEnum input must be of type map[string]CustomType(int..|uint..|string) as input, %+v given", enumMap)
 
-	if enumMap == nil || mapReflection.IsZero() || mapReflection.IsNil() {
+	if enumMap == nil || mapReflection.Kind() != reflect.Map || mapReflection.IsNil() {
+		// Tye input type must be a map
 		return nil, invalidTypeMsg
 	}
 
 	mapType := mapReflection.Type()
-
-	if mapType.Kind() != reflect.Map {
-		// Tye input type must be a map
-		return nil, invalidTypeMsg
-	}
 	if mapType.Key().Kind() != reflect.String {
 		// The map key must be a string
 		return nil, invalidTypeMsg
@@ -108,7 +104,7 @@ func registerEnumCheck(enumMap interface{}) (*enum, error) {
 	i := 0
 	for iter.Next() {
 		k := iter.Key()
-		keyStr := k.Interface().(string)
+		keyStr := k.String()
 		if keyStr == "" {
 			return nil, errors.New("RegisterEnum input map cannot contain empty keys")
 		}
-- 
2.43.0


From 3460b65e43405b65a7c6b98e94cf74f6822442e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:29 +0000
Subject: [PATCH 54/87] fix: registering a directive of which the method isn't
 a function doesn't panic

---
 directives.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/directives.go b/directives.go
index cd3cadf..6444484 100644
--- a/directives.go
+++ b/directives.go
@@ -125,12 +125,12 @@ func checkDirective(directive *Directive) error {
 		return errors.New("method must be defined")
 	}
 	directive.methodReflection = reflect.ValueOf(directive.Method)
-	if directive.methodReflection.IsNil() {
-		return errors.New("method must be defined")
-	}
 	if directive.methodReflection.Kind() != reflect.Func {
 		return errors.New("method is not a function")
 	}
+	if directive.methodReflection.IsNil() {
+		return errors.New("method must be defined")
+	}
 	methodType := directive.methodReflection.Type()
 	switch methodType.NumOut() {
 	case 0:
-- 
2.43.0


From 5e6fe925f09a15fc4b3217f7cc98c5027b82e4c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:46 +0000
Subject: [PATCH 55/87] fix: a type is only an enum when that type was
 registered, not one with the same name

---
 enums.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/enums.go b/enums.go
index 5e2fb75..6df6424 100644
--- a/enums.go
+++ b/enums.go
@@ -29,7 +29,7 @@ func (s *Schema) getEnum(t reflect.Type) (int, *enum) {
 	}
 
 	for i, enum := range s.definedEnums {
-		if enum.typeName == t.Name() {
+		if enum.contentType == t {
 			return i, &enum
 		}
 	}
-- 
2.43.0


From a3c1922b69e3b26ba39bb59d89560fe1f5996863 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:48 +0000
Subject: [PATCH 56/87] fix: registering an enum twice is an error

---
 enums.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/enums.go b/enums.go
index 6df6424..9644b81 100644
--- a/enums.go
+++ b/enums.go
@@ -64,6 +64,12 @@ func (s *Schema) RegisterEnum(enumMap interface{}) (added bool, err error) {
 		return false, err
 	}
 
+	for _, definedEnum := range s.definedEnums {
+		if definedEnum.typeName == enum.typeName {
+			return false, errors.New("cannot have 2 enums with same type name: " + enum.typeName)
+		}
+	}
+
 	s.definedEnums = append(s.definedEnums, *enum)
 	return true, nil
 }
-- 
2.43.0


From fde03a0adbabd35148e17c30c2148a28a1747397 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:50 +0000
Subject: [PATCH 57/87] fix: parsing a nil query or mutation is an error
 instead of a panic

---
 parse.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/parse.go b/parse.go
index c8ac013..0674ef6 100644
--- a/parse.go
+++ b/parse.go
@@ -292,6 +292,10 @@ func (s *Schema) SetCacheRules(
 
 // Parse parses your queries and methods
 func (s *Schema) Parse(queries interface{}, methods interface{}, options *SchemaOptions) error {
+	if queries == nil || methods == nil {
+		return errors.New("queries and methods must be structs")
+	}
+
 	s.rootQueryValue = reflect.ValueOf(queries)
 	s.rootMethodValue = reflect.ValueOf(methods)
 
-- 
2.43.0


From d8b66f4bf78d7956314995ed7a80e1f44b690d88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:52 +0000
Subject: [PATCH 58/87] fix: the arguments of interface methods are checked and
 listed by introspection

---
 copy_schema.go | 1 +
 parse.go       | 4 +++-
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/copy_schema.go b/copy_schema.go
index 8d7268d..ba7a462 100644
--- a/copy_schema.go
+++ b/copy_schema.go
@@ -219,6 +219,7 @@ func (o *obj) copy() *obj {
 func (m *objMethod) copy() *objMethod {
 	res := objMethod{
 		isTypeMethod:   m.isTypeMethod,
+		isInterface:    m.isInterface,
 		goFunctionName: m.goFunctionName,
 		goType:         m.goType,
 		checkedIns:     m.checkedIns,
diff --git a/parse.go b/parse.go
index 0674ef6..1a23998 100644
--- a/parse.go
+++ b/parse.go
@@ -152,6 +152,7 @@ type objMethod struct {
 	// true = func (*someStruct) ResolveFooBar() string {}
 	// false = ResolveFooBar func() string
 	isTypeMethod   bool
+	isInterface    bool // is this a method of an interface, its goType has no receiver
 	goFunctionName string
 	goType         reflect.Type
 
@@ -536,6 +537,7 @@ func (c *parseCtx) check(t reflect.Type, hasIDTag bool) (*obj, error) {
 			} else if methodObj == nil {
 				continue
 			}
+			methodObj.isInterface = res.valueType == valueTypeInterface
 
 			qlFieldName := []byte(name)
 			res.objContents[getObjKey(qlFieldName)] = &obj{
@@ -827,7 +829,7 @@ func (c *parseCtx) checkFunctionIns(method *objMethod) error {
 	totalInputs := method.goType.NumIn()
 	for i := 0; i < totalInputs; i++ {
 		iInList := i
-		if method.isTypeMethod {
+		if method.isTypeMethod && !method.isInterface {
 			if i == 0 {
 				// First argument can be skipped if type method
 				continue
-- 
2.43.0


From d7bad9f3236d60f8b5db9e7b5d8a8d470bb4f467 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:14 +0000
Subject: [PATCH 59/87] fix: fields that cannot be selected because of their
 name or the hash of their name are refused

---
 parse.go | 41 +++++++++++++++++++++++++++++++++++++++--
 1 file changed, 39 insertions(+), 2 deletions(-)

diff --git a/parse.go b/parse.go
index 1a23998..78e8223 100644
--- a/parse.go
+++ b/parse.go
@@ -118,6 +118,34 @@ type obj struct {
 	implementations []*obj
 }
 
+// setContent adds a field to the object
+// The field must have a name that can be used in a query
+func (o *obj) setContent(name []byte, content *obj) error {
+	if !isQueryableName(name) {
+		return fmt.Errorf("%s on %s is not a valid graphql field name", name, o.typeName)
+	}
+
+	key := getObjKey(name)
+	existing, ok := o.objContents[key]
+	if ok && !bytes.Equal(existing.qlFieldName, name) {
+		return fmt.Errorf("the field names %s and %s on %s cannot be used together as they have the same hash", existing.qlFieldName, name, o.typeName)
+	}
+
+	o.objContents[key] = content
+	return nil
+}
+
+func isQueryableName(name []byte) bool {
+	for i, char := range name {
+		isLetter := char >= 'A' && char <= 'Z' || char >= 'a' && char <= 'z' || char == '_'
+		isDigit := char >= '0' && char <= '9'
+		if !isLetter && (!isDigit || i == 0) {
+			return false
+		}
+	}
+	return len(name) > 0
+}
+
 func getObjKey(key []byte) uint32 {
 	hasher := fnv.New32()
 	hasher.Write(key)
@@ -431,7 +459,10 @@ func (c *parseCtx) check(t reflect.Type, hasIDTag bool) (*obj, error) {
 				}
 				obj.qlFieldName = []byte(name)
 
-				res.objContents[getObjKey(obj.qlFieldName)] = obj
+				err = res.setContent(obj.qlFieldName, obj)
+				if err != nil {
+					return nil, err
+				}
 			}
 		}
 	case reflect.Array, reflect.Slice, reflect.Ptr:
@@ -540,7 +571,7 @@ func (c *parseCtx) check(t reflect.Type, hasIDTag bool) (*obj, error) {
 			methodObj.isInterface = res.valueType == valueTypeInterface
 
 			qlFieldName := []byte(name)
-			res.objContents[getObjKey(qlFieldName)] = &obj{
+			err = res.setContent(qlFieldName, &obj{
 				qlFieldName:    qlFieldName,
 				valueType:      valueTypeMethod,
 				goPkgPath:      method.PkgPath,
@@ -548,6 +579,9 @@ func (c *parseCtx) check(t reflect.Type, hasIDTag bool) (*obj, error) {
 				structFieldIdx: i,
 				method:         methodObj,
 				isID:           isID,
+			})
+			if err != nil {
+				return nil, err
 			}
 		}
 
@@ -630,6 +664,9 @@ func (c *parseCtx) checkFunctionInputStruct(field *reflect.StructField, idx int)
 	if newName != nil {
 		qlFieldName = *newName
 	}
+	if !isQueryableName([]byte(qlFieldName)) {
+		return res, false, wrapErr(errors.New("not a valid graphql name: " + qlFieldName))
+	}
 
 	res, err = c.checkFunctionInput(field.Type, isID)
 	if err != nil {
-- 
2.43.0


From 46a2c2c8a99470f8e73b65910abe885198f4af39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:47 +0000
Subject: [PATCH 60/87] fix: a type rename only applies to the renamed type,
 not to all types with the same name

---
 parse.go       | 6 +++---
 type_rename.go | 4 ++--
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/parse.go b/parse.go
index 78e8223..4512aa2 100644
--- a/parse.go
+++ b/parse.go
@@ -409,7 +409,7 @@ func (c *parseCtx) check(t reflect.Type, hasIDTag bool) (*obj, error) {
 			return nil, errors.New("structs cannot have ID attribute")
 		}
 		if res.typeName != "" {
-			newName, ok := renamedTypes[res.typeName]
+			newName, ok := renamedTypes[t]
 			if ok {
 				res.typeName = newName
 				res.typeNameBytes = []byte(newName)
@@ -486,7 +486,7 @@ func (c *parseCtx) check(t reflect.Type, hasIDTag bool) (*obj, error) {
 			return nil, errors.New("inline interfaces not allowed")
 		}
 
-		newName, ok := renamedTypes[res.typeName]
+		newName, ok := renamedTypes[t]
 		if ok {
 			res.typeName = newName
 			res.typeNameBytes = []byte(newName)
@@ -730,7 +730,7 @@ func (c *parseCtx) checkFunctionInput(t reflect.Type, hasIDTag bool) (input, err
 			c.unknownInputsCount++
 			structName = "__UnknownInput" + strconv.Itoa(c.unknownInputsCount)
 		} else {
-			newStructName, ok := renamedTypes[structName]
+			newStructName, ok := renamedTypes[t]
 			if ok {
 				structName = newStructName
 			}
diff --git a/type_rename.go b/type_rename.go
index 0fce280..0eb6bd0 100644
--- a/type_rename.go
+++ b/type_rename.go
@@ -6,7 +6,7 @@ import (
 	"strings"
 )
 
-var renamedTypes = map[string]string{}
+var renamedTypes = map[reflect.Type]string{}
 
 // TypeRename renames the graphql type of the input type
 // By default the typename of the struct is used but you might want to change this form time to time and with this you can
@@ -33,7 +33,7 @@ func TypeRename(goType interface{}, newName string, force ...bool) string {
 		}
 	}
 
-	renamedTypes[originalName] = newName
+	renamedTypes[t] = newName
 
 	return newName
 }
-- 
2.43.0


From 30286cc75b4365d748081f55b4023e89bad61628 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:49 +0000
Subject: [PATCH 61/87] fix: implementations are registered for the interface
 and struct given, not for all with the same name

---
 interfaces.go | 12 ++++++------
 parse.go      |  4 ++--
 2 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/interfaces.go b/interfaces.go
index 4a9aa96..644c9ac 100644
--- a/interfaces.go
+++ b/interfaces.go
@@ -4,11 +4,11 @@ import (
 	"reflect"
 )
 
-// implementationMap is a map of interface names and the types that implement them
-var implementationMap = map[string][]reflect.Type{}
+// implementationMap is a map of interfaces and the types that implement them
+var implementationMap = map[reflect.Type][]reflect.Type{}
 
 // structImplementsMap is list of all structs and their interfaces that they implement
-var structImplementsMap = map[string][]reflect.Type{}
+var structImplementsMap = map[reflect.Type][]reflect.Type{}
 
 // Implements registers a new type that implementation an interface
 // The interfaceValue should be a pointer to the interface type like: (*InterfaceType)(nil)
@@ -53,7 +53,7 @@ func Implements(interfaceValue interface{}, typeValue interface{}) bool {
 		panic(typePath + "." + typePath + " does not implement " + interfacePath + "." + interfaceName)
 	}
 
-	typesThatImplementInterf, ok := implementationMap[interfaceName]
+	typesThatImplementInterf, ok := implementationMap[interfaceType]
 	if !ok {
 		typesThatImplementInterf = []reflect.Type{}
 	} else {
@@ -65,9 +65,9 @@ func Implements(interfaceValue interface{}, typeValue interface{}) bool {
 		}
 	}
 	typesThatImplementInterf = append(typesThatImplementInterf, typeType)
-	implementationMap[interfaceName] = typesThatImplementInterf
+	implementationMap[interfaceType] = typesThatImplementInterf
 
-	structImplementsMap[typeName] = append(structImplementsMap[typeName], interfaceType)
+	structImplementsMap[typeType] = append(structImplementsMap[typeType], interfaceType)
 
 	return true
 }
diff --git a/parse.go b/parse.go
index 4512aa2..ef4cfe2 100644
--- a/parse.go
+++ b/parse.go
@@ -425,7 +425,7 @@ func (c *parseCtx) check(t reflect.Type, hasIDTag bool) (*obj, error) {
 				return &res, nil
 			}
 
-			implementations := structImplementsMap[t.Name()]
+			implementations := structImplementsMap[t]
 			for _, implementation := range implementations {
 				impl, err := c.check(implementation, false)
 				if err != nil {
@@ -516,7 +516,7 @@ func (c *parseCtx) check(t reflect.Type, hasIDTag bool) (*obj, error) {
 			methodPkgName = "inline interface"
 		}
 
-		typesThatImplementInterface, ok := implementationMap[t.Name()]
+		typesThatImplementInterface, ok := implementationMap[t]
 		if !ok {
 			return nil, errors.New("cannot register a interface without explicit implementations")
 		}
-- 
2.43.0


From b5045e3d063df6edb004fbd7ff01c231f3d7b124 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:09 +0000
Subject: [PATCH 62/87] fix: a struct renamed to the name of another struct is
 refused instead of replaced by the other

---
 parse.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parse.go b/parse.go
index ef4cfe2..406c267 100644
--- a/parse.go
+++ b/parse.go
@@ -417,7 +417,7 @@ func (c *parseCtx) check(t reflect.Type, hasIDTag bool) (*obj, error) {
 
 			v, ok := c.schema.types.Get(res.typeName)
 			if ok {
-				if v.goPkgPath != res.goPkgPath {
+				if v.goPkgPath != res.goPkgPath || v.goTypeName != res.goTypeName {
 					return nil, fmt.Errorf("cannot have 2 structs with same type name: %s(%s) != %s(%s)", v.goPkgPath, res.goTypeName, res.goPkgPath, res.goTypeName)
 				}
 
-- 
2.43.0


From 0233af67a2b2b52f09b3a15600048ed3220c9d3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:12 +0000
Subject: [PATCH 63/87] fix: two different input structs with the same name are
 refused instead of merged

---
 copy_schema.go | 1 +
 parse.go       | 7 ++++++-
 2 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/copy_schema.go b/copy_schema.go
index ba7a462..1df18dd 100644
--- a/copy_schema.go
+++ b/copy_schema.go
@@ -284,6 +284,7 @@ func (m *input) copy() *input {
 		elem:             elem,
 		isStructPointers: m.isStructPointers,
 		structName:       m.structName,
+		structType:       m.structType,
 		structContent:    structContent,
 	}
 }
diff --git a/parse.go b/parse.go
index 406c267..f379aed 100644
--- a/parse.go
+++ b/parse.go
@@ -219,6 +219,7 @@ type input struct {
 	// kind == struct
 	isStructPointers bool
 	structName       string
+	structType       reflect.Type
 	structContent    map[string]input
 }
 
@@ -742,12 +743,16 @@ func (c *parseCtx) checkFunctionInput(t reflect.Type, hasIDTag bool) (input, err
 			}
 		}
 
-		_, ok := c.schema.inTypes[structName]
+		existing, ok := c.schema.inTypes[structName]
+		if ok && existing.structType != t {
+			return res, fmt.Errorf("cannot have 2 input structs with same type name: %s", structName)
+		}
 		if !ok {
 			// Make sure the input types entry is set before looping over it's fields to fix the n+1 problem
 			c.schema.inTypes[structName] = &res
 
 			res.structName = structName
+			res.structType = t
 			res.structContent = map[string]input{}
 			for i := 0; i < t.NumField(); i++ {
 				field := t.Field(i)
-- 
2.43.0


From d98c2e5167ceac4dfaeee1fdf9afc66c7a4a84c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:14 +0000
Subject: [PATCH 64/87] fix: different kinds of types with the same name are
 refused

---
 parse.go | 43 +++++++++++++++++++++++++++++++++++++++++++
 1 file changed, 43 insertions(+)

diff --git a/parse.go b/parse.go
index f379aed..ef349bd 100644
--- a/parse.go
+++ b/parse.go
@@ -385,12 +385,55 @@ func (s *Schema) Parse(queries interface{}, methods interface{}, options *Schema
 		}
 	}
 
+	err = s.checkTypeNames()
+	if err != nil {
+		return err
+	}
+
 	s.ctx = newCtx(s)
 	s.parsed = true
 
 	return nil
 }
 
+// checkTypeNames checks that there are no types of different kinds with the same name
+func (s *Schema) checkTypeNames() error {
+	names := map[string]bool{}
+	for name := range scalars {
+		names[name] = true
+	}
+
+	add := func(name string) error {
+		if names[name] {
+			return fmt.Errorf("cannot have 2 types with the name %s", name)
+		}
+		names[name] = true
+		return nil
+	}
+
+	for name := range s.types {
+		if err := add(name); err != nil {
+			return err
+		}
+	}
+	for name := range s.interfaces {
+		if err := add(name); err != nil {
+			return err
+		}
+	}
+	for name := range s.inTypes {
+		if err := add(name); err != nil {
+			return err
+		}
+	}
+	for _, enum := range s.definedEnums {
+		if err := add(enum.typeName); err != nil {
+			return err
+		}
+	}
+	return nil
+}
+
 func (c *parseCtx) check(t reflect.Type, hasIDTag bool) (*obj, error) {
 	res := obj{
 		typeNameBytes: []byte(t.Name()),
-- 
2.43.0


From eba6c1e84330b96f787a419e3c27cf36d664dbe6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:08 +0000
Subject: [PATCH 65/87] fix: introspection told the fields of another
 argument's input type

---
 inject_schema.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/inject_schema.go b/inject_schema.go
index 5259326..d685dde 100644
--- a/inject_schema.go
+++ b/inject_schema.go
@@ -243,6 +243,7 @@ func (s *Schema) inputToQLType(in *input) (res *qlType, isNonNull bool) {
 				res := make([]qlInputValue, len(in.structContent))
 				i := 0
 				for key, item := range in.structContent {
+					item := item // is used after this iteration
 					res[i] = qlInputValue{
 						Name:         key,
 						Description:  h.PtrToEmptyStr,
@@ -300,6 +301,7 @@ func (s *Schema) getObjectArgs(item *obj) []qlInputValue {
 func (s *Schema) getMethodArgs(inputs map[string]referToInput) []qlInputValue {
 	res := []qlInputValue{}
 	for key, value := range inputs {
+		value := value // is used after this iteration
 		res = append(res, qlInputValue{
 			Name:         key,
 			Description:  h.PtrToEmptyStr,
-- 
2.43.0


From 2b3b9efce334590ab2a285ba0a94f8a744e5798d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:49 +0000
Subject: [PATCH 66/87] fix: structs that implement an interface were added
 twice, leaving unused inline types behind

---
 parse.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/parse.go b/parse.go
index ef349bd..34fbb08 100644
--- a/parse.go
+++ b/parse.go
@@ -477,6 +477,13 @@ func (c *parseCtx) check(t reflect.Type, hasIDTag bool) (*obj, error) {
 				}
 				res.implementations = append(res.implementations, impl)
 			}
+
+			// An interface leads to its implementations, thus this struct might be known by now
+			v, ok = c.schema.types.Get(res.typeName)
+			if ok && len(implementations) != 0 {
+				res = v.getRef()
+				return &res, nil
+			}
 		} else {
 			c.unknownTypesCount++
 			res.typeName = "__UnknownType" + strconv.Itoa(c.unknownTypesCount)
-- 
2.43.0


From 9f342f474fd24229ea02105e2a0741593ee0d0ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:05 +0000
Subject: [PATCH 67/87] fix: a refused directive was registered for the
 locations before the refused one

---
 directives.go | 28 +++++++++++++++-------------
 1 file changed, 15 insertions(+), 13 deletions(-)

diff --git a/directives.go b/directives.go
index 6444484..341df6c 100644
--- a/directives.go
+++ b/directives.go
@@ -85,21 +85,23 @@ func (s *Schema) RegisterDirective(directive Directive) error {
 		return err
 	}
 
-	ptrToDirective := &directive
-	for _, location := range directive.Where {
-		directivesForLocation, ok := s.definedDirectives[location]
-		if !ok {
-			directivesForLocation = []*Directive{}
-		} else {
-			// Check for already defined directives with the same name
-			for _, alreadyDefinedDirective := range directivesForLocation {
-				if directive.Name == alreadyDefinedDirective.Name {
-					return errors.New("you cannot have duplicated directive names in " + location.String() + " with name " + directive.Name)
-				}
+	// Check all locations before registering the directive on any of them
+	for idx, location := range directive.Where {
+		for _, otherLocation := range directive.Where[:idx] {
+			if location == otherLocation {
+				return errors.New("you cannot have duplicated locations for the directive " + directive.Name)
+			}
+		}
+		for _, alreadyDefinedDirective := range s.definedDirectives[location] {
+			if directive.Name == alreadyDefinedDirective.Name {
+				return errors.New("you cannot have duplicated directive names in " + location.String() + " with name " + directive.Name)
 			}
 		}
-		directivesForLocation = append(directivesForLocation, ptrToDirective)
-		s.definedDirectives[location] = directivesForLocation
+	}
+
+	ptrToDirective := &directive
+	for _, location := range directive.Where {
+		s.definedDirectives[location] = append(s.definedDirectives[location], ptrToDirective)
 	}
 
 	return nil
-- 
2.43.0


From 80045656608c126df70f6afc0e70f34bbceea0f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:06 +0000
Subject: [PATCH 68/87] fix: directive names that cannot be written in a query
 were accepted

---
 directives.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/directives.go b/directives.go
index 341df6c..c0457f6 100644
--- a/directives.go
+++ b/directives.go
@@ -111,6 +111,9 @@ func checkDirective(directive *Directive) error {
 	if len(directive.Name) == 0 {
 		return errors.New("cannot register directive with empty name")
 	}
+	if directive.Name[0] >= '0' && directive.Name[0] <= '9' {
+		return errors.New(directive.Name + " is not allowed as directive name, names cannot start with a number")
+	}
 	for _, char := range directive.Name {
 		if char >= '0' && char <= '9' || char >= 'A' && char <= 'Z' || char >= 'a' && char <= 'z' || char == '_' {
 			continue
-- 
2.43.0


From d8ce62bc33dacd92d974b96d9d229efc9f001f81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:08 +0000
Subject: [PATCH 69/87] fix: enum members named true, false or null were
 accepted but cannot be used

---
 enums.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/enums.go b/enums.go
index 9644b81..1d91486 100644
--- a/enums.go
+++ b/enums.go
@@ -120,6 +120,10 @@ func registerEnumCheck(enumMap interface{}) (*enum, error) {
 			return nil, errors.New(`RegisterEnum map key must start with an alphabetic character (lower or upper) followed by the same or a "_", key given: ` + keyStr)
 		}
 
+		if keyStr == "true" || keyStr == "false" || keyStr == "null" {
+			return nil, errors.New("RegisterEnum map key cannot be true, false or null as those are other values in a query")
+		}
+
 		entries[i] = enumEntry{
 			keyBytes: []byte(keyStr),
 			key:      keyStr,
-- 
2.43.0


From ebb5dd4d8bf13dc5195b89dc1a6ef58e57311a96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:25 +0000
Subject: [PATCH 70/87] fix: limit how deep a query can be nested

A document of a few megabytes with deeply nested selection sets or input
objects made the recursive parser overflow the stack, which ends the process.
---
 bytecode/bytecode.go | 29 +++++++++++++++++++++++++++++
 1 file changed, 29 insertions(+)

diff --git a/bytecode/bytecode.go b/bytecode/bytecode.go
index f290b4f..a037001 100644
--- a/bytecode/bytecode.go
+++ b/bytecode/bytecode.go
@@ -21,6 +21,7 @@ type ParserCtx struct {
 	Errors               []error
 	target               *string
 	hasTarget            bool
+	depth                int // how deep the parser currently is inside of selection sets, input values and list types
 	TargetIdx            int // -1 = no matching target was found, >= 0 = res index of target
 	Hasher               hash.Hash32
 	cache                *cache.BytecodeCache
@@ -379,8 +380,26 @@ func (ctx *ParserCtx) parseDirectives() (directivesAmount uint8, criticalErr boo
 	}
 }
 
+// maxParseDepth limits how deep selection sets, input values and list types can be nested,
+// the parser is recursive and without a limit a large enough query overflows the stack, which can't be recovered
+const maxParseDepth = 10000
+
+// enterDepth must be called before parsing something that can contain itself, afterwards ctx.depth must be decremented
+func (ctx *ParserCtx) enterDepth() bool {
+	ctx.depth++
+	if ctx.depth > maxParseDepth {
+		return ctx.err("query is nested too deep")
+	}
+	return false
+}
+
 func (ctx *ParserCtx) parseGraphqlTypeName(c byte) bool {
 	var eof bool
+	if criticalErr := ctx.enterDepth(); criticalErr {
+		return criticalErr
+	}
+	defer func() { ctx.depth-- }()
+
 	operationLocation := len(ctx.Res)
 
 	if c == '[' {
@@ -440,6 +459,11 @@ func (ctx *ParserCtx) parseGraphqlTypeName(c byte) bool {
 }
 
 func (ctx *ParserCtx) parseSelectionSet() bool {
+	if criticalErr := ctx.enterDepth(); criticalErr {
+		return criticalErr
+	}
+	defer func() { ctx.depth-- }()
+
 	c, eof := ctx.mightIgnoreNextTokens()
 	if eof {
 		return ctx.unexpectedEOF()
@@ -732,6 +756,11 @@ func (ctx *ParserCtx) parseAssignmentSet(closure byte) bool {
 }
 
 func (ctx *ParserCtx) parseInputValue() bool {
+	if criticalErr := ctx.enterDepth(); criticalErr {
+		return criticalErr
+	}
+	defer func() { ctx.depth-- }()
+
 	c, eof := ctx.mightIgnoreNextTokens()
 	if eof {
 		return ctx.unexpectedEOF()
-- 
2.43.0


From 4af9551d53bea7b5a50572f3e6f95fb5d1cab61c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:11 +0000
Subject: [PATCH 71/87] fix: enums of a generic type were accepted with a name
 that cannot be written in a query

---
 enums.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/enums.go b/enums.go
index 1d91486..b623c4d 100644
--- a/enums.go
+++ b/enums.go
@@ -96,6 +96,10 @@ func registerEnumCheck(enumMap interface{}) (*enum, error) {
 	if contentType.PkgPath() == "" || contentType.Name() == "" {
 		return nil, errors.New("RegisterEnum input map value must have a global custom type value (type Animals string) or (type Rules uint64)")
 	}
+	if !isQueryableName([]byte(contentType.Name())) {
+		// For example the type name of a generic type
+		return nil, errors.New("RegisterEnum input map value type name is not a valid graphql name: " + contentType.Name())
+	}
 
 	inputLen := mapReflection.Len()
 	if inputLen == 0 {
-- 
2.43.0


From 3b3c97a192bcd3a1ca6e8683b8a8da66257856eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:13 +0000
Subject: [PATCH 72/87] fix: directives without locations or with unknown ones
 were accepted

---
 directives.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/directives.go b/directives.go
index c0457f6..03bff3e 100644
--- a/directives.go
+++ b/directives.go
@@ -120,9 +120,17 @@ func checkDirective(directive *Directive) error {
 		}
 		return errors.New(string(char) + " in " + directive.Name + " is not allowed as directive name")
 	}
-	if directive.Where == nil {
+	if len(directive.Where) == 0 {
 		return errors.New("where must be defined")
 	}
+	for _, location := range directive.Where {
+		switch location {
+		case DirectiveLocationField, DirectiveLocationFragment, DirectiveLocationFragmentInline:
+			// OK
+		default:
+			return errors.New("directive " + directive.Name + " has a unknown location")
+		}
+	}
 	if directive.Method == nil {
 		return errors.New("method must be defined")
 	}
-- 
2.43.0


From e1436389614a7949d3e2d21a80e084b88a71d00a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:14 +0000
Subject: [PATCH 73/87] fix: a type with the name of an introspection type
 ended the program

---
 inject_schema.go | 9 +++++----
 parse.go         | 5 ++++-
 2 files changed, 9 insertions(+), 5 deletions(-)

diff --git a/inject_schema.go b/inject_schema.go
index d685dde..0d67d1c 100644
--- a/inject_schema.go
+++ b/inject_schema.go
@@ -1,18 +1,17 @@
 package yarql
 
 import (
-	"log"
 	"reflect"
 	"sort"
 
 	h "github.com/mjarkk/yarql/helpers"
 )
 
-func (s *Schema) injectQLTypes(ctx *parseCtx) {
+func (s *Schema) injectQLTypes(ctx *parseCtx) error {
 	// Inject __Schema
 	ref, err := ctx.check(reflect.TypeOf(qlSchema{}), false)
 	if err != nil {
-		log.Fatal(err)
+		return err
 	}
 
 	contents := reflect.ValueOf(s.getQLSchema())
@@ -29,13 +28,15 @@ func (s *Schema) injectQLTypes(ctx *parseCtx) {
 	typeResolverReflection := reflect.ValueOf(typeResolver)
 	functionObj, err := ctx.checkStructFieldFunc("__type", typeResolverReflection.Type(), false, -1)
 	if err != nil {
-		log.Fatal(err)
+		return err
 	}
 
 	functionObj.customObjValue = &typeResolverReflection
 	functionObj.qlFieldName = []byte("__type")
 	functionObj.hidden = true
 	s.rootQuery.objContents[getObjKey(functionObj.qlFieldName)] = functionObj
+
+	return nil
 }
 
 func (s *Schema) getQLSchema() qlSchema {
diff --git a/parse.go b/parse.go
index 34fbb08..82663dd 100644
--- a/parse.go
+++ b/parse.go
@@ -375,7 +375,10 @@ func (s *Schema) Parse(queries interface{}, methods interface{}, options *Schema
 	}
 
 	if options == nil || !options.SkipGraphqlTypesInjection {
-		s.injectQLTypes(ctx)
+		err = s.injectQLTypes(ctx)
+		if err != nil {
+			return err
+		}
 	}
 
 	for _, method := range ctx.parsedMethods {
-- 
2.43.0


From b0cc22c432061d48fb601ad2d899edcfd3a79698 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:29 +0000
Subject: [PATCH 74/87] fix: a definition that was refused was accepted half
 when given again

---
 parse.go | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/parse.go b/parse.go
index 82663dd..8ea1937 100644
--- a/parse.go
+++ b/parse.go
@@ -326,6 +326,18 @@ func (s *Schema) Parse(queries interface{}, methods interface{}, options *Schema
 		return errors.New("queries and methods must be structs")
 	}
 
+	// Forget what an earlier call that failed left behind
+	s.types = types{}
+	s.inTypes = inputMap{}
+	s.interfaces = types{}
+	for _, directives := range s.definedDirectives {
+		for _, directive := range directives {
+			directive.parsedMethod.ins = []baseInput{}
+			directive.parsedMethod.inFields = map[string]referToInput{}
+			directive.parsedMethod.checkedIns = false
+		}
+	}
+
 	s.rootQueryValue = reflect.ValueOf(queries)
 	s.rootMethodValue = reflect.ValueOf(methods)
 
-- 
2.43.0


From e1183b02d9f9d1d44d41bf47dcf54467650b183e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:30 +0000
Subject: [PATCH 75/87] fix: a request on a schema that is not parsed was
 answered with zero bytes

---
 resolver.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/resolver.go b/resolver.go
index 1cb6765..08f6a3d 100644
--- a/resolver.go
+++ b/resolver.go
@@ -170,6 +170,7 @@ type ResolveOptions struct {
 func (s *Schema) Resolve(query []byte, opts ResolveOptions) []error {
 	if !s.parsed {
 		fmt.Println("CALL (*yarql.Schema).Parse() before resolve")
+		s.Result = append(s.Result[:0], []byte(`{"data":{},"errors":[{"message":"invalid setup"}],"extensions":{}}`)...)
 		return []error{errors.New("invalid setup")}
 	}
 
-- 
2.43.0


From ebcbe736734c0e6569013ae4b64a945c15993993 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:42 +0000
Subject: [PATCH 76/87] fix: setting the cache rules before parsing the schema
 panicked

---
 parse.go | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/parse.go b/parse.go
index 8ea1937..9f61661 100644
--- a/parse.go
+++ b/parse.go
@@ -56,6 +56,7 @@ type Schema struct {
 	definedEnums      []enum
 	definedDirectives map[DirectiveLocation][]*Directive
 	ctx               *Ctx
+	cacheQueryFromLen *int // Set if the cache rules are set before the schema is parsed
 
 	// Zero alloc variables
 	Result           []byte
@@ -315,9 +316,16 @@ func NewSchema() *Schema {
 func (s *Schema) SetCacheRules(
 	cacheQueryFromLen *int, // default = 300
 ) {
-	if cacheQueryFromLen != nil {
-		s.ctx.query.CacheableQueryMinLen = *cacheQueryFromLen
+	if cacheQueryFromLen == nil {
+		return
+	}
+	if s.ctx == nil {
+		// Not parsed yet, (*Schema).Parse sets the rules
+		minLen := *cacheQueryFromLen
+		s.cacheQueryFromLen = &minLen
+		return
 	}
+	s.ctx.query.CacheableQueryMinLen = *cacheQueryFromLen
 }
 
 // Parse parses your queries and methods
@@ -406,6 +414,7 @@ func (s *Schema) Parse(queries interface{}, methods interface{}, options *Schema
 	}
 
 	s.ctx = newCtx(s)
+	s.SetCacheRules(s.cacheQueryFromLen)
 	s.parsed = true
 
 	return nil
-- 
2.43.0


From 27198f665662be49164a72b21e02d3491dc99e30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:57 +0000
Subject: [PATCH 77/87] fix: parsing a schema again left it with the types of
 before

---
 parse.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/parse.go b/parse.go
index 9f61661..44e160b 100644
--- a/parse.go
+++ b/parse.go
@@ -334,10 +334,14 @@ func (s *Schema) Parse(queries interface{}, methods interface{}, options *Schema
 		return errors.New("queries and methods must be structs")
 	}
 
-	// Forget what an earlier call that failed left behind
+	// Forget what an earlier call left behind
+	s.parsed = false
 	s.types = types{}
 	s.inTypes = inputMap{}
 	s.interfaces = types{}
+	s.graphqlTypesMap = nil
+	s.graphqlTypesList = nil
+	s.graphqlObjFields = map[string][]qlField{}
 	for _, directives := range s.definedDirectives {
 		for _, directive := range directives {
 			directive.parsedMethod.ins = []baseInput{}
-- 
2.43.0


From a758f82aa5b9dcd5324ad8b099fbaa9ffc943b26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:35 +0000
Subject: [PATCH 78/87] fix: a large Int literal was refused for a Float
 argument, or rounded twice

---
 resolver.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/resolver.go b/resolver.go
index 08f6a3d..c191518 100644
--- a/resolver.go
+++ b/resolver.go
@@ -1572,12 +1572,12 @@ func (ctx *Ctx) bindInputToGoValue(goValue *reflect.Value, valueStructure *input
 
 			goValue.SetUint(value)
 		case reflect.Float32, reflect.Float64:
-			value, err := strconv.ParseInt(intValue, 10, 64)
+			value, err := strconv.ParseFloat(intValue, goValue.Type().Bits())
 			if err != nil {
-				return false, ctx.err(err.Error())
+				return false, ctx.errf("cannot assign %s to a %dbit float", intValue, goValue.Type().Bits())
 			}
 
-			goValue.SetFloat(float64(value))
+			goValue.SetFloat(value)
 		case reflect.Bool:
 			value, err := strconv.ParseInt(intValue, 10, 64)
 			if err != nil {
-- 
2.43.0


From b7f10a7159fe7a41f72a4df55d476d76a07dd099 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:36 +0000
Subject: [PATCH 79/87] fix: a Float literal given to a float32 argument was
 rounded twice

---
 resolver.go | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/resolver.go b/resolver.go
index c191518..262114c 100644
--- a/resolver.go
+++ b/resolver.go
@@ -1593,14 +1593,13 @@ func (ctx *Ctx) bindInputToGoValue(goValue *reflect.Value, valueStructure *input
 		switch goValue.Kind() {
 		case reflect.Float32, reflect.Float64:
 			startFloat, endFloat := getValue()
-			floatValue, err := strconv.ParseFloat(b2s(ctx.query.Res[startFloat:endFloat]), 64)
+			// Parse with the size of the value, converting the result to a float32 afterwards would round it twice
+			floatText := b2s(ctx.query.Res[startFloat:endFloat])
+			floatValue, err := strconv.ParseFloat(floatText, goValue.Type().Bits())
 			if err != nil {
-				return false, ctx.err(err.Error())
+				return false, ctx.errf("cannot assign %s to a %dbit float", floatText, goValue.Type().Bits())
 			}
 
-			if goValue.OverflowFloat(floatValue) {
-				return false, ctx.errf("cannot assign %v to a 32bit float", floatValue)
-			}
 			goValue.SetFloat(floatValue)
 		default:
 			return false, ctx.err("cannot assign float to " + goValue.String())
-- 
2.43.0


From 8a5c1669d717a73f6dd07b24ec058368ca02c373 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:52:45 +0000
Subject: [PATCH 80/87] fix: variables that cannot be read were an error at
 their first use only

---
 resolver.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/resolver.go b/resolver.go
index 262114c..7f4898e 100644
--- a/resolver.go
+++ b/resolver.go
@@ -1102,7 +1102,6 @@ func (ctx *Ctx) bindExternalVariableValue(goValue *reflect.Value, valueStructure
 			return false, false, false
 		}
 
-		ctx.variablesParsed = true
 		var err error
 		ctx.variables, err = ctx.variablesJSONParser.Parse(ctx.rawVariables)
 		if err != nil {
@@ -1111,6 +1110,7 @@ func (ctx *Ctx) bindExternalVariableValue(goValue *reflect.Value, valueStructure
 		if ctx.variables.Type() != fastjson.TypeObject {
 			return false, false, ctx.err("variables provided must be of type object")
 		}
+		ctx.variablesParsed = true
 	}
 
 	variable := ctx.variables.Get(argumentName)
-- 
2.43.0


From 4ea750cc888465f7c6bc7630da0d4787043ef759 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:44 +0000
Subject: [PATCH 81/87] fix: a selection set on an enum or time field was
 ignored

---
 resolver.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/resolver.go b/resolver.go
index 7f4898e..f7cc2db 100644
--- a/resolver.go
+++ b/resolver.go
@@ -875,6 +875,11 @@ func (ctx *Ctx) resolveFieldDataValue(typeObj *obj, dept uint8, hasSubSelection
 		criticalErr = ctx.resolveFieldDataValue(&method.outType, dept, hasSubSelection)
 		return criticalErr
 	case valueTypeEnum:
+		if hasSubSelection {
+			ctx.writeNull()
+			return ctx.err("cannot have a selection set on this field")
+		}
+
 		enum := ctx.schema.definedEnums[typeObj.enumTypeIndex]
 		switch enum.contentKind {
 		case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
@@ -904,6 +909,11 @@ func (ctx *Ctx) resolveFieldDataValue(typeObj *obj, dept uint8, hasSubSelection
 		}
 		ctx.writeNull()
 	case valueTypeTime:
+		if hasSubSelection {
+			ctx.writeNull()
+			return ctx.err("cannot have a selection set on this field")
+		}
+
 		timeValue, ok := goValue.Interface().(time.Time)
 		if ok {
 			ctx.writeByte('"')
-- 
2.43.0


From 9d1d8415def4ab679cffd8094cd4e2430a60e317 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:10 +0000
Subject: [PATCH 82/87] fix: types of the same name and package were taken for
 the same type

---
 copy_schema.go | 1 +
 parse.go       | 8 ++++++--
 resolver.go    | 4 +---
 3 files changed, 8 insertions(+), 5 deletions(-)

diff --git a/copy_schema.go b/copy_schema.go
index 1df18dd..4c62a27 100644
--- a/copy_schema.go
+++ b/copy_schema.go
@@ -183,6 +183,7 @@ func (o *obj) copy() *obj {
 		typeNameBytes:  o.typeNameBytes[:],
 		goTypeName:     o.goTypeName,
 		goPkgPath:      o.goPkgPath,
+		goType:         o.goType,
 		qlFieldName:    o.qlFieldName[:],
 		hidden:         o.hidden,
 		customObjValue: o.customObjValue, // maybe TODO
diff --git a/parse.go b/parse.go
index 44e160b..eb2bcb0 100644
--- a/parse.go
+++ b/parse.go
@@ -90,6 +90,7 @@ type obj struct {
 	typeNameBytes []byte
 	goTypeName    string
 	goPkgPath     string
+	goType        reflect.Type
 	qlFieldName   []byte
 	hidden        bool
 	isID          bool
@@ -161,6 +162,7 @@ func (o *obj) getRef() obj {
 			typeName:      o.typeName,
 			goTypeName:    o.goTypeName,
 			goPkgPath:     o.goPkgPath,
+			goType:        o.goType,
 			typeNameBytes: []byte(o.typeName),
 		}
 	case valueTypeInterface:
@@ -169,6 +171,7 @@ func (o *obj) getRef() obj {
 			typeName:      o.typeName,
 			goTypeName:    o.goTypeName,
 			goPkgPath:     o.goPkgPath,
+			goType:        o.goType,
 			typeNameBytes: []byte(o.typeName),
 		}
 	default:
@@ -468,6 +471,7 @@ func (c *parseCtx) check(t reflect.Type, hasIDTag bool) (*obj, error) {
 		typeName:      t.Name(),
 		goPkgPath:     t.PkgPath(),
 		goTypeName:    t.Name(),
+		goType:        t,
 	}
 
 	if res.goPkgPath == "time" && res.goTypeName == "Time" {
@@ -489,7 +493,7 @@ func (c *parseCtx) check(t reflect.Type, hasIDTag bool) (*obj, error) {
 
 			v, ok := c.schema.types.Get(res.typeName)
 			if ok {
-				if v.goPkgPath != res.goPkgPath || v.goTypeName != res.goTypeName {
+				if v.goType != res.goType {
 					return nil, fmt.Errorf("cannot have 2 structs with same type name: %s(%s) != %s(%s)", v.goPkgPath, res.goTypeName, res.goPkgPath, res.goTypeName)
 				}
 
@@ -573,7 +577,7 @@ func (c *parseCtx) check(t reflect.Type, hasIDTag bool) (*obj, error) {
 
 		v, ok := c.schema.interfaces.Get(res.typeName)
 		if ok {
-			if v.goPkgPath != res.goPkgPath {
+			if v.goType != res.goType {
 				return nil, fmt.Errorf("cannot have 2 interfaces with same type name: %s(%s) != %s(%s)", v.goPkgPath, res.goTypeName, res.goPkgPath, res.goTypeName)
 			}
 
diff --git a/resolver.go b/resolver.go
index f7cc2db..51b403c 100644
--- a/resolver.go
+++ b/resolver.go
@@ -948,12 +948,10 @@ func (ctx *Ctx) resolveFieldDataValue(typeObj *obj, dept uint8, hasSubSelection
 		}
 
 		goValueType := goValue.Type()
-		goValueName := goValueType.Name()
-		goValuePkgPath := goValueType.PkgPath()
 
 		// TODO improve performance of the below
 		for _, implementation := range typeObj.implementations {
-			if implementation.goTypeName == goValueName && implementation.goPkgPath == goValuePkgPath {
+			if implementation.goType == goValueType {
 				criticalErr := ctx.resolveFieldDataValue(implementation, dept, hasSubSelection)
 				ctx.currentReflectValueIdx--
 				return criticalErr
-- 
2.43.0


From 4553690c290d307801d73ce1827f756d6971c7ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:14 +0000
Subject: [PATCH 83/87] fix: types whose Go name is no GraphQL name were
 accepted

---
 parse.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/parse.go b/parse.go
index eb2bcb0..f942be1 100644
--- a/parse.go
+++ b/parse.go
@@ -148,6 +148,10 @@ func isQueryableName(name []byte) bool {
 	return len(name) > 0
 }
 
+func invalidTypeNameErr(t reflect.Type) error {
+	return fmt.Errorf("the name of type %s is not a valid graphql type name, use TypeRename to give it another name", t.String())
+}
+
 func getObjKey(key []byte) uint32 {
 	hasher := fnv.New32()
 	hasher.Write(key)
@@ -489,6 +493,8 @@ func (c *parseCtx) check(t reflect.Type, hasIDTag bool) (*obj, error) {
 			if ok {
 				res.typeName = newName
 				res.typeNameBytes = []byte(newName)
+			} else if !isQueryableName(res.typeNameBytes) {
+				return nil, invalidTypeNameErr(t)
 			}
 
 			v, ok := c.schema.types.Get(res.typeName)
@@ -573,6 +579,8 @@ func (c *parseCtx) check(t reflect.Type, hasIDTag bool) (*obj, error) {
 		if ok {
 			res.typeName = newName
 			res.typeNameBytes = []byte(newName)
+		} else if !isQueryableName(res.typeNameBytes) {
+			return nil, invalidTypeNameErr(t)
 		}
 
 		v, ok := c.schema.interfaces.Get(res.typeName)
@@ -816,6 +824,8 @@ func (c *parseCtx) checkFunctionInput(t reflect.Type, hasIDTag bool) (input, err
 			newStructName, ok := renamedTypes[t]
 			if ok {
 				structName = newStructName
+			} else if !isQueryableName([]byte(structName)) {
+				return res, invalidTypeNameErr(t)
 			}
 			_, equalTypeExist := c.schema.types[structName]
 			if equalTypeExist {
-- 
2.43.0


From 8319863c1b65f05bc2d0f0c7986cacf16042a88d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:16 +0000
Subject: [PATCH 84/87] fix: an anonymous struct took the place of a type named
 as it is

---
 parse.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/parse.go b/parse.go
index f942be1..fc80ce2 100644
--- a/parse.go
+++ b/parse.go
@@ -526,6 +526,10 @@ func (c *parseCtx) check(t reflect.Type, hasIDTag bool) (*obj, error) {
 			c.unknownTypesCount++
 			res.typeName = "__UnknownType" + strconv.Itoa(c.unknownTypesCount)
 			res.typeNameBytes = []byte(res.typeName)
+
+			if _, ok := c.schema.types.Get(res.typeName); ok {
+				return nil, fmt.Errorf("cannot have 2 types with the name %s", res.typeName)
+			}
 		}
 
 		res.valueType = valueTypeObj
-- 
2.43.0


From 3b8d7f02c22e6a54e705ac26a263903e9dbe8a18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:51 +0000
Subject: [PATCH 85/87] fix: of two types with one name only one could
 implement an interface

---
 interfaces.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/interfaces.go b/interfaces.go
index 644c9ac..ab0b186 100644
--- a/interfaces.go
+++ b/interfaces.go
@@ -58,7 +58,7 @@ func Implements(interfaceValue interface{}, typeValue interface{}) bool {
 		typesThatImplementInterf = []reflect.Type{}
 	} else {
 		for _, t := range typesThatImplementInterf {
-			if t.Name() == typeName && t.PkgPath() == typePath {
+			if t == typeType {
 				// already registered
 				return true
 			}
-- 
2.43.0


From 0ae56740eea85b5fbb86d7566121c32cf2834820 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:28:01 +0000
Subject: [PATCH 86/87] fix: setting a request value panicked when the values
 map given to Resolve was nil

---
 resolver.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/resolver.go b/resolver.go
index 51b403c..4def2af 100644
--- a/resolver.go
+++ b/resolver.go
@@ -102,6 +102,10 @@ func (ctx *Ctx) SetValue(key string, value interface{}) {
 		ctx.values = &map[string]interface{}{
 			key: value,
 		}
+	} else if *ctx.values == nil {
+		*ctx.values = map[string]interface{}{
+			key: value,
+		}
 	} else {
 		(*ctx.values)[key] = value
 	}
-- 
2.43.0


From 3aaff77d13e2acd2a22cf6c4fdc0ae516c27f378 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:15:38 +0000
Subject: [PATCH 87/87] fix: a list, pointer or function type that refers to
 itself overflowed the stack while parsing

---
 parse.go | 46 ++++++++++++++++++++++++++++++++++++++++++++++
 1 file changed, 46 insertions(+)

diff --git a/parse.go b/parse.go
index fc80ce2..20958c3 100644
--- a/parse.go
+++ b/parse.go
@@ -249,6 +249,34 @@ type parseCtx struct {
 	unknownTypesCount  int
 	unknownInputsCount int
 	parsedMethods      []*objMethod
+
+	// The named lists, pointers and functions that lead to the type being checked without a named struct in between
+	activeTypes []reflect.Type
+}
+
+// enterType returns an error if t is found inside itself without a named struct or interface in between
+// Such types cannot be represented as they have no end, leave must be called after t is checked
+func (c *parseCtx) enterType(t reflect.Type) (leave func(), err error) {
+	prevActiveTypes := c.activeTypes
+	leave = func() { c.activeTypes = prevActiveTypes }
+
+	if t.Name() == "" {
+		return leave, nil
+	}
+
+	switch t.Kind() {
+	case reflect.Struct, reflect.Interface:
+		// Can be referred to by its name
+		c.activeTypes = nil
+	case reflect.Array, reflect.Slice, reflect.Ptr, reflect.Func:
+		for _, activeType := range prevActiveTypes {
+			if activeType == t {
+				return leave, fmt.Errorf("type %s refers to itself without a named struct in between", t.String())
+			}
+		}
+		c.activeTypes = append(prevActiveTypes[:len(prevActiveTypes):len(prevActiveTypes)], t)
+	}
+	return leave, nil
 }
 
 // NewSchema creates a new schema wherevia you can define the graphql types and make queries
@@ -470,6 +498,12 @@ func (s *Schema) checkTypeNames() error {
 }
 
 func (c *parseCtx) check(t reflect.Type, hasIDTag bool) (*obj, error) {
+	leave, err := c.enterType(t)
+	if err != nil {
+		return nil, err
+	}
+	defer leave()
+
 	res := obj{
 		typeNameBytes: []byte(t.Name()),
 		typeName:      t.Name(),
@@ -715,6 +749,12 @@ func (c *parseCtx) checkStructField(field reflect.StructField, idx int) (customN
 }
 
 func (c *parseCtx) checkStructFieldFunc(fieldName string, goType reflect.Type, hasIDTag bool, idx int) (*obj, error) {
+	leave, err := c.enterType(goType)
+	if err != nil {
+		return nil, err
+	}
+	defer leave()
+
 	methodObj, _, isID, err := c.checkFunction(fieldName, goType, false, hasIDTag)
 	if err != nil {
 		return nil, err
@@ -775,6 +815,12 @@ func (c *parseCtx) checkFunctionInputStruct(field *reflect.StructField, idx int)
 }
 
 func (c *parseCtx) checkFunctionInput(t reflect.Type, hasIDTag bool) (input, error) {
+	leave, err := c.enterType(t)
+	if err != nil {
+		return input{}, err
+	}
+	defer leave()
+
 	kind := t.Kind()
 	res := input{
 		kind: kind,
-- 
2.43.0

