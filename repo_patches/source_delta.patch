From 5ebf66dd617786bb29f8b1a9921a10fbee267c04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:00:10 +0000
Subject: [PATCH 01/19] fix: keep vx_core repeat and index lookups within
 bounds

A negative repeat count, an index below one, and the inverted length test of
the varlist lookup made these helpers panic.
---
 src/vxlisp/vx/core/core.go | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/vxlisp/vx/core/core.go b/src/vxlisp/vx/core/core.go
index ff66479..96d12f4 100644
--- a/src/vxlisp/vx/core/core.go
+++ b/src/vxlisp/vx/core/core.go
@@ -844,7 +844,10 @@ func V_stringn_from_stringn_findn_replacen(
 func V_stringn_from_stringn_repeatn(
 	stringn string,
 	repeatn int) string {
-	var output string = strings.Repeat(stringn, repeatn)
+	var output string = ""
+	if repeatn > 0 {
+		output = strings.Repeat(stringn, repeatn)
+	}
 	return output
 }
 
@@ -1270,7 +1273,7 @@ func V_anylist_any_from_anylist_indexn(
 	indexn int) *Type_any {
 	var output *Type_any = E_any
 	var listvalue []*Type_any = type_anylist.P_listany
-	if len(listvalue) >= indexn {
+	if indexn > 0 && len(listvalue) >= indexn {
 		output = listvalue[indexn-1]
 	}
 	return output
@@ -2882,7 +2885,7 @@ func V_stringlist_string_from_stringlist_indexn(
 	indexn int) *Type_string {
 	var output *Type_string = E_string
 	var listvalue []*Type_string = type_stringlist.P_liststring
-	if len(listvalue) >= indexn {
+	if indexn > 0 && len(listvalue) >= indexn {
 		output = listvalue[indexn-1]
 	}
 	return output
@@ -3683,7 +3686,7 @@ func V_typelist_type_from_typelist_indexn(
 	indexn int) *Type_type {
 	var output *Type_type = E_type
 	var listvalue []*Type_type = type_typelist.P_listtype
-	if len(listvalue) >= indexn {
+	if indexn > 0 && len(listvalue) >= indexn {
 		output = listvalue[indexn-1]
 	}
 	return output
@@ -4504,7 +4507,7 @@ func V_varlist_var_from_varlist_indexn(
 	indexn int) *Type_var {
 	var output *Type_var = E_var
 	var listvalue []*Type_var = type_varlist.P_listvar
-	if len(listvalue) <= indexn {
+	if indexn > 0 && len(listvalue) >= indexn {
 		var value *Type_var = listvalue[indexn-1]
 		output = value
 	}
-- 
2.43.0


From 33af72e0fbc9d3e7adba3d271032a79dc0994ce1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:00:10 +0000
Subject: [PATCH 02/19] fix: quote stripping and from/to cutting panicked on
 short or reordered text

A text made of a single quote character was treated as a quoted string, and a
'to' marker in front of the 'from' marker gave a negative range.
---
 src/vxlisp/primative.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/vxlisp/primative.go b/src/vxlisp/primative.go
index f378cc9..e7289aa 100644
--- a/src/vxlisp/primative.go
+++ b/src/vxlisp/primative.go
@@ -20,7 +20,7 @@ func BooleanFromStringEquals(str string, equals string) bool {
 }
 
 func BooleanFromStringStartsEnds(str string, starts string, ends string) bool {
-	return strings.HasPrefix(str, starts) && strings.HasSuffix(str, ends)
+	return len(str) >= len(starts)+len(ends) && strings.HasPrefix(str, starts) && strings.HasSuffix(str, ends)
 }
 
 func BooleanIsIntFromString(str string) bool {
@@ -210,7 +210,7 @@ func StringFromStringFromTo(text string, from string, to string) string {
 			}
 		}
 		if to != "" {
-			ito = vx_core.V_intn_from_stringn_findn(text, to)
+			ito = IntFromStringFindStart(text, to, ifrom)
 			if ito < 0 {
 				ito = len(text)
 			}
@@ -244,9 +244,9 @@ func StringOutdentLines(str string, indent string) string {
 
 func StringRemoveQuotes(str string) string {
 	var output = ""
-	if strings.HasPrefix(str, "`") && strings.HasSuffix(str, "`") {
+	if BooleanFromStringStartsEnds(str, "`", "`") {
 		output = str[1 : len(str)-1]
-	} else if strings.HasPrefix(str, "\"") && strings.HasSuffix(str, "\"") {
+	} else if BooleanFromStringStartsEnds(str, "\"", "\"") {
 		output = str[1 : len(str)-1]
 		output = vx_core.V_stringn_from_stringn_findn_replacen(output, "\\\"", "\"")
 	} else {
-- 
2.43.0


From 2312c46892d7276ba64fe0e66ef396e4b1d9ca56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:00:10 +0000
Subject: [PATCH 03/19] fix: report log and directory errors instead of
 panicking

An unwritable build.log and an unreadable path below the project directory
both ended the compiler with a stack trace.
---
 src/vxlisp/file.go | 3 +++
 src/vxlisp/msg.go  | 3 ++-
 2 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/vxlisp/file.go b/src/vxlisp/file.go
index caf3933..f97d845 100644
--- a/src/vxlisp/file.go
+++ b/src/vxlisp/file.go
@@ -145,6 +145,9 @@ func ListStringReadFromPathExtension(
 		err := filepath.Walk(
 			path,
 			func(path string, info os.FileInfo, err error) error {
+				if err != nil {
+					return err
+				}
 				if info.IsDir() {
 				} else if extension != "" && !BooleanFromStringEnds(path, extension) {
 				} else {
diff --git a/src/vxlisp/msg.go b/src/vxlisp/msg.go
index acc0a05..dd1f060 100644
--- a/src/vxlisp/msg.go
+++ b/src/vxlisp/msg.go
@@ -133,7 +133,8 @@ func MsgStartLog() {
 	var err error
 	outputFile, err = os.Create("build.log")
 	if err != nil {
-		panic(err)
+		MsgPrint(err)
+		return
 	}
 	outputWriter = bufio.NewWriter(outputFile)
 	outputlog = true
-- 
2.43.0


From bf9f8918da203548d5891a23a560f489f48c73cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:00:10 +0000
Subject: [PATCH 04/19] fix: read numeric and boolean values with the type they
 are stored as

Numbers are stored as their source text and booleans as a bool, but the
readers asserted other types and panicked.
---
 src/vxlisp/value.go | 18 +++++++-----------
 1 file changed, 7 insertions(+), 11 deletions(-)

diff --git a/src/vxlisp/value.go b/src/vxlisp/value.go
index eeac384..5848427 100644
--- a/src/vxlisp/value.go
+++ b/src/vxlisp/value.go
@@ -117,11 +117,7 @@ func ConstFromValue(value vxvalue) *vxconst {
 func FloatFromValue(value vxvalue) float64 {
 	var output float64 = 0
 	switch value.code {
-	case "float", "number":
-		output = value.native.(float64)
-	case "int":
-		output = FloatFromInt(value.native.(int))
-	case "string":
+	case "decimal", "int", "number", "string":
 		output = FloatFromString(value.native.(string))
 	}
 	return output
@@ -139,11 +135,9 @@ func FuncFromValue(value vxvalue) *vxfunc {
 func IntFromValue(value vxvalue) int {
 	var output int = 0
 	switch value.code {
-	case "int":
-		output = value.native.(int)
-	case "float", "number":
-		output = IntFromFloat(value.native.(float64))
-	case "string":
+	case "decimal", "number":
+		output = IntFromFloat(FloatFromString(value.native.(string)))
+	case "int", "string":
 		output = IntFromString(value.native.(string))
 	}
 	return output
@@ -277,7 +271,9 @@ func StringFromValueIndent(value vxvalue, indent int) string {
 func StringValueFromValue(value vxvalue) string {
 	var output = ""
 	switch value.code {
-	case "boolean", "decimal", "int", "number", "string":
+	case "boolean":
+		output = StringFromBoolean(value.native.(bool))
+	case "decimal", "int", "number", "string":
 		output = value.native.(string)
 	}
 	return output
-- 
2.43.0


From bbe81c84171fbc24bc72dcff374a1b83e4490563 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:00:10 +0000
Subject: [PATCH 05/19] fix: do not crash on calls with missing arguments

Calls such as (fn), (let), (copy) and (any<-struct x) without the expected
arguments, empty signatures and custom lines without a brace indexed past the
end of a list or string.
---
 src/vxlisp/func.go        |  6 ++++++
 src/vxlisp/lang-cpp.go    |  3 +++
 src/vxlisp/lang-func.go   |  8 +++++++-
 src/vxlisp/lang-native.go | 13 +++++++++----
 src/vxlisp/package.go     |  2 +-
 src/vxlisp/project.go     |  2 +-
 src/vxlisp/signature.go   |  2 +-
 src/vxlisp/value.go       |  9 +++++++--
 8 files changed, 35 insertions(+), 10 deletions(-)

diff --git a/src/vxlisp/func.go b/src/vxlisp/func.go
index d013427..7244955 100644
--- a/src/vxlisp/func.go
+++ b/src/vxlisp/func.go
@@ -389,6 +389,9 @@ func FuncFnGetArgList(fnc *vxfunc) []vxarg {
 	var output []vxarg
 	switch NameFromFunc(fnc) {
 	case "vx/core/fn", "vx/core/let":
+		if len(fnc.listarg) == 0 {
+			break
+		}
 		arg0 := fnc.listarg[0]
 		output = ListArgFromValue(arg0.value)
 	}
@@ -398,6 +401,9 @@ func FuncFnGetArgList(fnc *vxfunc) []vxarg {
 func FuncFnSetListArg(fnc *vxfunc, listarg []vxarg) *vxfunc {
 	switch NameFromFunc(fnc) {
 	case "vx/core/fn", "vx/core/let":
+		if len(fnc.listarg) == 0 {
+			break
+		}
 		arg0 := fnc.listarg[0]
 		arg0.value = ValueSetListArg(arg0.value, listarg)
 		fnc.listarg[0] = arg0
diff --git a/src/vxlisp/lang-cpp.go b/src/vxlisp/lang-cpp.go
index f581a86..cd85011 100644
--- a/src/vxlisp/lang-cpp.go
+++ b/src/vxlisp/lang-cpp.go
@@ -2648,6 +2648,9 @@ func CppFromValue(
 			multiflag := false
 			switch funcname {
 			case "vx/core/any<-struct":
+				if len(funcargs) < 2 {
+					break
+				}
 				targetvalue := funcargs[0].value
 				switch targetvalue.code {
 				case ":arg":
diff --git a/src/vxlisp/lang-func.go b/src/vxlisp/lang-func.go
index 8f13fc0..26a0154 100644
--- a/src/vxlisp/lang-func.go
+++ b/src/vxlisp/lang-func.go
@@ -801,6 +801,9 @@ func LangFuncValue(
 		funcprefix := ""
 		switch funcname {
 		case "vx/core/any<-struct":
+			if len(funcargs) < 2 {
+				break
+			}
 			propvalue := funcargs[1].value
 			switch propvalue.code {
 			case "string":
@@ -974,7 +977,10 @@ func LangFuncValueArgIndex(
 				}
 				slambdaargs := vx_core.V_stringn_from_liststringn_joinn(lambdaargs, ", ")
 				slambdavars := vx_core.V_stringn_from_liststringn_joinn(lambdavars, "")
-				argfn := argfunc.listarg[1]
+				argfn := NewArg("")
+				if len(argfunc.listarg) > 1 {
+					argfn = argfunc.listarg[1]
+				}
 				argfnvalue := argfn.value
 				if argfunc.async {
 					workvalue, msgs := LangFromValue(lang, indent,
diff --git a/src/vxlisp/lang-native.go b/src/vxlisp/lang-native.go
index c741ed9..4735d82 100644
--- a/src/vxlisp/lang-native.go
+++ b/src/vxlisp/lang-native.go
@@ -681,7 +681,7 @@ func LangFuncCall(
 	}
 	switch fnc {
 	case func_copy:
-		if lang.genericcount != 1 {
+		if lang.genericcount != 1 && len(params) > 0 {
 			params = params[1:]
 		}
 	}
@@ -748,7 +748,7 @@ func LangFuncCallVariadic(
 	}
 	switch fnc {
 	case func_copy:
-		if lang.genericcount != 1 {
+		if lang.genericcount != 1 && len(lead) > 0 {
 			lead = lead[1:]
 		}
 	}
@@ -3359,7 +3359,10 @@ func LangTypeInterfaceCustom(
 	}
 	ipos2 := vx_core.V_intn_from_stringn_findlastn(
 		customline, "{")
-	output := customline[ipos1:ipos2-1] + lang.lineend
+	output := ""
+	if ipos2 > ipos1 {
+		output = customline[ipos1:ipos2-1] + lang.lineend
+	}
 	return output
 }
 
@@ -3756,7 +3759,9 @@ func LangTypeNameSimple(
 				if vx_core.V_booleann_from_stringn_startsn(alias, "generic-") {
 					alias = vx_core.V_stringn_from_stringn_findn_replacen(alias, "generic-", "")
 					ipos := vx_core.V_intn_from_stringn_findlastn(alias, "-")
-					alias = alias[0:ipos]
+					if ipos > 0 {
+						alias = alias[0:ipos]
+					}
 				}
 			} else {
 				alias = LangGenericFromType(lang, typ)
diff --git a/src/vxlisp/package.go b/src/vxlisp/package.go
index 7355a02..aa33357 100644
--- a/src/vxlisp/package.go
+++ b/src/vxlisp/package.go
@@ -64,7 +64,7 @@ func FuncFromPackage(
 	listfunc, funcfound := mapfunc[funcname]
 	if funcfound {
 		len := len(listfunc)
-		if funcidx < len {
+		if funcidx >= 0 && funcidx < len {
 			found = true
 			output = listfunc[funcidx]
 		}
diff --git a/src/vxlisp/project.go b/src/vxlisp/project.go
index 0295eec..e7cbaa8 100644
--- a/src/vxlisp/project.go
+++ b/src/vxlisp/project.go
@@ -141,7 +141,7 @@ func FuncFromProjectFuncname(
 			pkg, ok := PackageFromProjectName(project, packagename)
 			if ok {
 				fncs, ok := pkg.mapfunc[fncname]
-				if ok {
+				if ok && len(fncs) > 0 {
 					output = fncs[0]
 				}
 			}
diff --git a/src/vxlisp/signature.go b/src/vxlisp/signature.go
index ca8ea83..99a75f3 100644
--- a/src/vxlisp/signature.go
+++ b/src/vxlisp/signature.go
@@ -36,7 +36,7 @@ func IsSignatureMatch(
 	templatetype := template.vxtype
 	actualtype := actual.vxtype
 	if template == emptysignature {
-	} else if templatetype.isfunc {
+	} else if templatetype.isfunc && (templatelen > 0 || actuallen == 0) {
 		var templatesignature *vxsignature
 		for i, actualsignature := range actual.listsignature {
 			if i >= templatelen {
diff --git a/src/vxlisp/value.go b/src/vxlisp/value.go
index 5848427..dd1aaa3 100644
--- a/src/vxlisp/value.go
+++ b/src/vxlisp/value.go
@@ -679,6 +679,9 @@ func ValueLink(
 		}
 		switch fnc.name {
 		case "fn", "let":
+			if len(fnc.listarg) == 0 {
+				break
+			}
 			arglet := fnc.listarg[0]
 			listarglet := ListArgFromValue(arglet.value)
 			listarglet, msgs := ListArgLinkType(listarglet, listscope, textblock, subpath)
@@ -1024,8 +1027,10 @@ func ValueValidate(
 				if fnc.vxtype.isgeneric {
 					switch NameFromFunc(fnc) {
 					case "vx/core/copy":
-						arg := fnc.listarg[0]
-						fnc.vxtype = arg.vxtype
+						if len(fnc.listarg) > 0 {
+							arg := fnc.listarg[0]
+							fnc.vxtype = arg.vxtype
+						}
 					default:
 						if fnc.vxtype.isgeneric && expectedtype.name != "" {
 							fnc.vxtype = expectedtype
-- 
2.43.0


From ba9ed706e65c469337fc4edc7835a616f36825ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:23:14 +0000
Subject: [PATCH 06/19] fix: report a form or comment block left open at the
 end of a source file

The last open delimiter was not part of the checked stack, so a file ending
inside a form was accepted and the form silently dropped.
---
 src/vxlisp/textblock.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/vxlisp/textblock.go b/src/vxlisp/textblock.go
index eb3bf14..5d7da81 100644
--- a/src/vxlisp/textblock.go
+++ b/src/vxlisp/textblock.go
@@ -385,7 +385,12 @@ func TextblockParse(textblock *vxtextblock) (*vxtextblock, *vxmsgblock) {
 		}
 		lastchar = char
 	}
-	for _, stateblock := range blockstack {
+	if state == BLOCKTYPE_COMMENTBLOCK {
+		msg := NewMsgFromTextblock(
+			textblock, linenum, charnum, "Mismatched Delimiter", "Comment Block")
+		msgblock = MsgblockAddError(msgblock, msg)
+	}
+	for _, stateblock := range append(blockstack, phrase) {
 		state = stateblock.blocktype
 		switch state {
 		case BLOCKTYPE_UNDEFINED:
@@ -395,7 +400,7 @@ func TextblockParse(textblock *vxtextblock) (*vxtextblock, *vxmsgblock) {
 			case BLOCKTYPE_CLYBRACKETS:
 				delim = "Curly Brackets"
 			case BLOCKTYPE_PARENS:
-				delim = "Quotes"
+				delim = "Parentheses"
 			case BLOCKTYPE_QUOTE:
 				delim = "Quotes"
 			case BLOCKTYPE_QUOTEBLOCK:
-- 
2.43.0


From daccd5df8259aae77098c8746ede7a6268c15442 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:29:27 +0000
Subject: [PATCH 07/19] fix: accept commands after the path argument

Every argument after --path replaced the path, so 'vxlisp --path p cmd' looked
for a project in 'cmd' and ran nothing.
---
 src/vxlisp/project.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/vxlisp/project.go b/src/vxlisp/project.go
index e7cbaa8..1b74230 100644
--- a/src/vxlisp/project.go
+++ b/src/vxlisp/project.go
@@ -96,6 +96,7 @@ func ExecuteProjectFromArgs(
 				switch lastarg {
 				case "--path", ":path":
 					projectpath = arg
+					lastarg = ""
 				default:
 					switch arg {
 					case "--path", ":path":
-- 
2.43.0


From 4171d02e78538a6e50eb4d46cfb158c86b60f29c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:29:29 +0000
Subject: [PATCH 08/19] fix: report a failing path lookup and a failing folder
 creation

Both errors were thrown away, so the command went on without the folder.
---
 src/vxlisp/file.go    | 3 +--
 src/vxlisp/project.go | 3 ++-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/vxlisp/file.go b/src/vxlisp/file.go
index f97d845..8ef8864 100644
--- a/src/vxlisp/file.go
+++ b/src/vxlisp/file.go
@@ -51,8 +51,7 @@ func FolderCopyFromSourceTarget(
 		outpath := filepath.Join(targetpath, suffix)
 
 		if info.IsDir() {
-			os.MkdirAll(outpath, info.Mode())
-			return nil // means recursive
+			return os.MkdirAll(outpath, info.Mode()) // nil means recursive
 		}
 
 		// handle irregular files
diff --git a/src/vxlisp/project.go b/src/vxlisp/project.go
index 1b74230..1215359 100644
--- a/src/vxlisp/project.go
+++ b/src/vxlisp/project.go
@@ -107,7 +107,8 @@ func ExecuteProjectFromArgs(
 				}
 			}
 		}
-		projectpath, _ = PathAbsoluteFromPath(projectpath)
+		projectpath, err := PathAbsoluteFromPath(projectpath)
+		msgblock = MsgblockAddException(msgblock, err)
 		projectpath = vx_core.V_stringn_from_stringn_findn_replacen(
 			projectpath, "\\", "/")
 		project, msgs := ProjectReadFromPath(projectpath)
-- 
2.43.0


From 3aa34f9bf1ecb88e8d22ad670cda703163588d2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:25:49 +0000
Subject: [PATCH 09/19] fix: number intermediate variables from one in every
 command

---
 src/vxlisp/lang-native.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/vxlisp/lang-native.go b/src/vxlisp/lang-native.go
index 4735d82..28b20c7 100644
--- a/src/vxlisp/lang-native.go
+++ b/src/vxlisp/lang-native.go
@@ -4755,6 +4755,7 @@ func LangWriteFromProjectCmdNative(
 	project *vxproject,
 	command *vxcommand) *vxmsgblock {
 	var msgs *vxmsgblock
+	g_ifuncdepth = 0
 	switch command.lang {
 	case langcpp:
 		msgs = CppWriteFromProjectCmd(command.lang, project, command)
-- 
2.43.0


From ad3488a8c9bb8a632acf35252a6d04ba0a66698b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:25:49 +0000
Subject: [PATCH 10/19] fix: generating Swift source crashed on every constant

---
 src/vxlisp/code.go         | 1 +
 src/vxlisp/vx/core/core.go | 2 +-
 2 files changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/vxlisp/code.go b/src/vxlisp/code.go
index 6e14438..006353a 100644
--- a/src/vxlisp/code.go
+++ b/src/vxlisp/code.go
@@ -2071,6 +2071,7 @@ func const_from_vxconst(
 		path = pkgname + "/" + name
 	}
 	output.P_name = path
+	output.P_const_type = type_from_vxtype(type_vxconst.vxtype)
 	return output
 }
 
diff --git a/src/vxlisp/vx/core/core.go b/src/vxlisp/vx/core/core.go
index 96d12f4..5264627 100644
--- a/src/vxlisp/vx/core/core.go
+++ b/src/vxlisp/vx/core/core.go
@@ -1634,7 +1634,7 @@ func V_const_initialize(
 // V_const_create
 func V_const_create() *Type_const {
 	var output = V_const_constructor()
-	V_const_initialize(E_const)
+	V_const_initialize(output)
 	return output
 }
 
-- 
2.43.0


From d7ac75c3ccb368c33482d387f6be30579be59f95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:45:03 +0000
Subject: [PATCH 11/19] fix: the message for an invalid property listed memory
 addresses

---
 src/vxlisp/type.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/vxlisp/type.go b/src/vxlisp/type.go
index dbb4640..a66a7fd 100644
--- a/src/vxlisp/type.go
+++ b/src/vxlisp/type.go
@@ -1223,7 +1223,7 @@ func TypeFromTextblock(
 								default:
 									if vx_core.V_booleann_from_stringn_startsn(property, ":") {
 										msg := NewMsgFromTextblock(
-											textblock, 0, 0, "", "Invalid Property", property, typ.properties)
+											textblock, 0, 0, "", "Invalid Property", property, StringFromListArg(typ.properties))
 										msgblock = MsgblockAddError(msgblock, msg)
 									} else {
 										if arg.name != "" {
-- 
2.43.0


From 16f9a45ed0da229f65e0b75cc6a21aaf56361a9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:33:35 +0000
Subject: [PATCH 12/19] fix: describe a value that has no generic type without
 crashing

---
 src/vxlisp/value.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/vxlisp/value.go b/src/vxlisp/value.go
index dd1aaa3..28c9136 100644
--- a/src/vxlisp/value.go
+++ b/src/vxlisp/value.go
@@ -239,7 +239,8 @@ func StringFromValueIndent(value vxvalue, indent int) string {
 	} else if value.vxtype.name != "" {
 		output += lineindent + " :type  " + NameFromType(value.vxtype)
 	}
-	if value.generictype.name != "" {
+	if value.generictype == nil {
+	} else if value.generictype.name != "" {
 		output += lineindent + " :generictype " + NameFromType(value.generictype)
 	}
 	if value.multi {
-- 
2.43.0


From 30f67cc10461d22c07176b68cf0d7be99221e8e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:33:35 +0000
Subject: [PATCH 13/19] fix: report a project without vx/core instead of
 crashing

---
 src/vxlisp/package.go | 1 +
 src/vxlisp/project.go | 7 +++++--
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/vxlisp/package.go b/src/vxlisp/package.go
index aa33357..29c8c74 100644
--- a/src/vxlisp/package.go
+++ b/src/vxlisp/package.go
@@ -29,6 +29,7 @@ func NewPackage(
 	pkgname string) *vxpackage {
 	output := new(vxpackage)
 	output.name = pkgname
+	output.project = emptyproject
 	output.listlib = emptylistlibrary
 	output.textblock = emptytextblock
 	return output
diff --git a/src/vxlisp/project.go b/src/vxlisp/project.go
index 1215359..bba2c20 100644
--- a/src/vxlisp/project.go
+++ b/src/vxlisp/project.go
@@ -193,8 +193,11 @@ func PackageFromProjectName(
 
 func PackageCoreFromProject(
 	project *vxproject) *vxpackage {
-	output, ok := PackageFromProjectName(project, "vx/core")
-	if !ok {
+	output := packageempty
+	pkg, ok := PackageFromProjectName(project, "vx/core")
+	if ok {
+		output = pkg
+	} else {
 		MsgLog(
 			"Error: vx/core package not found")
 	}
-- 
2.43.0


From 1280238b25d8f5740742ec0dd9a2ae7a341ba233 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:33:35 +0000
Subject: [PATCH 14/19] fix: skip a special type that the package does not
 declare

---
 src/vxlisp/lang-cpp.go | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/vxlisp/lang-cpp.go b/src/vxlisp/lang-cpp.go
index cd85011..ddd09ed 100644
--- a/src/vxlisp/lang-cpp.go
+++ b/src/vxlisp/lang-cpp.go
@@ -1347,12 +1347,12 @@ func CppFromPackage(
 				typebodys += typebody
 				typebodyfooters += typebodyfooter
 				specialheader += typeheader
+				packageheader += "" +
+					"\n  " + LangNameTypeFullFromType(lang, typ) + " e_" + LangNameFromType(lang, typ) + " = NULL;" +
+					"\n  " + LangNameTypeFullFromType(lang, typ) + " t_" + LangNameFromType(lang, typ) + " = NULL;"
+				packagestatic += "" +
+					"\n      maptype[\"" + typ.name + "\"] = " + LangTypeT(lang, typ) + ";"
 			}
-			packageheader += "" +
-				"\n  " + LangNameTypeFullFromType(lang, typ) + " e_" + LangNameFromType(lang, typ) + " = NULL;" +
-				"\n  " + LangNameTypeFullFromType(lang, typ) + " t_" + LangNameFromType(lang, typ) + " = NULL;"
-			packagestatic += "" +
-				"\n      maptype[\"" + typ.name + "\"] = " + LangTypeT(lang, typ) + ";"
 		}
 	}
 	remainingkeys := ListStringFromListStringNotMatch(typkeys, specialtypeorder)
-- 
2.43.0


From 9898d5e601b4c01a206b6d338b1a6eef720793fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:33:35 +0000
Subject: [PATCH 15/19] fix: print messages when build.log cannot be created

---
 src/vxlisp/msg.go | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/src/vxlisp/msg.go b/src/vxlisp/msg.go
index dd1f060..e157c2b 100644
--- a/src/vxlisp/msg.go
+++ b/src/vxlisp/msg.go
@@ -212,11 +212,7 @@ func MsgblockAddWarning(
 func MsgblockLog(
 	msgblock *vxmsgblock) {
 	text := StringFromMsgblock(msgblock)
-	fmt.Println(text)
-	_, err := fmt.Fprintln(outputWriter, text)
-	if err != nil {
-		fmt.Println(err)
-	}
+	MsgLog(text)
 }
 
 func StringFromMsgblock(
-- 
2.43.0


From 53d88415ba2ce063abd93926198d8dd4ee0fcdfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:33:35 +0000
Subject: [PATCH 16/19] fix: report a command with an unknown language instead
 of crashing

---
 src/vxlisp/lang-native.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/vxlisp/lang-native.go b/src/vxlisp/lang-native.go
index 28b20c7..a06a678 100644
--- a/src/vxlisp/lang-native.go
+++ b/src/vxlisp/lang-native.go
@@ -4757,6 +4757,9 @@ func LangWriteFromProjectCmdNative(
 	var msgs *vxmsgblock
 	g_ifuncdepth = 0
 	switch command.lang {
+	case nil:
+		msg := NewMsg("Language Not Found: (cmd " + command.name + " :lang " + command.langcode + ")")
+		msgs = MsgblockAddError(NewMsgBlock("LangWriteFromProjectCmdNative"), msg)
 	case langcpp:
 		msgs = CppWriteFromProjectCmd(command.lang, project, command)
 	case langjs:
-- 
2.43.0


From 2c9589a63a7125b1a0575ef68e1f31df8fe23b40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:33:35 +0000
Subject: [PATCH 17/19] fix: set the generic type of the generic argument of
 vx_any_from_any

---
 src/vxlisp/lang-native.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/vxlisp/lang-native.go b/src/vxlisp/lang-native.go
index a06a678..b54a306 100644
--- a/src/vxlisp/lang-native.go
+++ b/src/vxlisp/lang-native.go
@@ -1609,6 +1609,7 @@ func LangFuncVxAnyFromAny(
 	listargsfuncvxanyfromany := NewListArg()
 	argvxanyfromanyvalue := NewArg("value")
 	argvxanyfromanyvalue.isgeneric = true
+	argvxanyfromanyvalue.generictype = anytype2
 	argvxanyfromanyvalue.vxtype = anytype2
 	listargsfuncvxanyfromany = append(listargsfuncvxanyfromany, argvxanyfromanyvalue)
 	funcvxanyfromany.listarg = listargsfuncvxanyfromany
-- 
2.43.0


From a729e30034a8befb678b9c38cc75183a2467fb50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:07:26 +0000
Subject: [PATCH 18/19] fix: rewrite an output file whose old content cannot be
 read

WriteListFile compared the new text with an empty text when reading the
existing file failed. An empty new text was then not written.
---
 src/vxlisp/file.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/vxlisp/file.go b/src/vxlisp/file.go
index 8ef8864..9cd3b7b 100644
--- a/src/vxlisp/file.go
+++ b/src/vxlisp/file.go
@@ -291,8 +291,8 @@ func WriteListFile(
 		}
 		filepath := path + "/" + name
 		if BooleanExistsFromPath(filepath) {
-			readtext, _ := StringFromReadTextFile(filepath)
-			if readtext != writetext {
+			readtext, msgs := StringFromReadTextFile(filepath)
+			if IsErrorFromMsgblock(msgs) || readtext != writetext {
 				_, err := WriteFileFromFilenameText(filepath, writetext)
 				if err != nil {
 					msgblock = MsgblockAddException(msgblock, err)
-- 
2.43.0


From a62f86d99b3612b89ac2c7b42c430421c2851315 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:07:50 +0000
Subject: [PATCH 19/19] fix: close the body of p_shutdown in the generated
 Swift base class

The closing brace sat inside the commented-out block that follows it, so
Core.swift had an opening brace without a closing one.
---
 src/vxlisp/code.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/vxlisp/code.go b/src/vxlisp/code.go
index 006353a..5a0300e 100644
--- a/src/vxlisp/code.go
+++ b/src/vxlisp/code.go
@@ -335,8 +335,8 @@ func code_type_generic(
 				lineindent + "  public func p_shutdown(" +
 				lineindent + "    _ type_any : " + vx_core.V_code_type_typename(type_scope, vx_core.T_any) +
 				lineindent + "  ) {" +
+				lineindent + "  }" +
 				/*
-					lineindent + "  }" +
 					lineindent + "  // p_type_list" +
 					lineindent + "  public func p_type_list(" +
 					lineindent + "    _ type_any : " + vx_core.V_lang_type_typename(type_lang, vx_core.T_any) +
-- 
2.43.0

