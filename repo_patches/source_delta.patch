From 16cf8e28b9470dba2f890d4a79a765d7f98bb67b Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:50 +0000
Subject: [PATCH 01/17] fix: Append keeps every argument and never writes into
 shared storage

Append returned after joining the first non-nil argument, dropping the rest,
and could overwrite content held in the spare capacity of a Sequence that a
plugin returned more than once.
---
 append.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/append.go b/append.go
index bfe65bf..6cc9bdd 100644
--- a/append.go
+++ b/append.go
@@ -16,9 +16,11 @@ func Append(first Content, rest ...Content) Content {
 		case nil:
 			appended = content
 		case Sequence:
-			return Sequence(append(v, content))
+			// cap the sequence so that its storage is never written to, as it may
+			// be shared with other content
+			appended = Sequence(append(v[:len(v):len(v)], content))
 		default:
-			return Sequence([]Content{appended, content})
+			appended = Sequence([]Content{appended, content})
 		}
 	}
 
-- 
2.43.0


From 0b7e98aabbd1d9f40a5c2e066c4212d3e57b7900 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:50 +0000
Subject: [PATCH 02/17] fix: StripAux tolerates absent content

A title containing a reference without display content, or a target without
content, crashed with a nil pointer dereference.
---
 aux_.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/aux_.go b/aux_.go
index a480908..b37440b 100644
--- a/aux_.go
+++ b/aux_.go
@@ -13,6 +13,10 @@ type Aux struct {
 // StripAux recurses through Content and removes any Aux content from any
 // nested sequences.
 func StripAux(content Content) Content {
+	if content == nil {
+		return nil
+	}
+
 	visitor := &stripAuxVisitor{}
 
 	_ = content.Visit(visitor)
-- 
2.43.0


From 6b3b3c20fcad144e293bd93bdb22265a7f2c1574 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:50 +0000
Subject: [PATCH 03/17] fix: arguments which evaluate to nothing are passed as
 empty content

An argument such as {{}} or {\split-sections} evaluates to no content, which
panicked when passed to a plugin method.
---
 stages/evaluate.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/stages/evaluate.go b/stages/evaluate.go
index ac0f986..6f85b64 100644
--- a/stages/evaluate.go
+++ b/stages/evaluate.go
@@ -327,5 +327,9 @@ func (eval Evaluate) evalArg(node ast.Node) (booklit.Content, error) {
 		return nil, err
 	}
 
+	if subEval.Result == nil {
+		return booklit.Empty, nil
+	}
+
 	return subEval.Result, nil
 }
-- 
2.43.0


From 87f43dd697ae67c44878f04d43d71f22fdb33b6d Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:50 +0000
Subject: [PATCH 04/17] fix: plugin methods may return nil content

Returning a nil Content, with or without an error result, panicked.
---
 stages/evaluate.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/stages/evaluate.go b/stages/evaluate.go
index 6f85b64..630940a 100644
--- a/stages/evaluate.go
+++ b/stages/evaluate.go
@@ -249,7 +249,9 @@ func (eval *Evaluate) VisitInvoke(invoke ast.Invoke) error {
 				}
 			}
 		case *booklit.Content:
-			eval.Result = booklit.Append(eval.Result, val.(booklit.Content))
+			if val != nil {
+				eval.Result = booklit.Append(eval.Result, val.(booklit.Content))
+			}
 		default:
 			return fmt.Errorf("unknown return type: %s", valType)
 		}
@@ -277,7 +279,9 @@ func (eval *Evaluate) VisitInvoke(invoke ast.Invoke) error {
 		firstType := methodType.Out(0)
 		switch reflect.New(firstType).Interface().(type) {
 		case *booklit.Content:
-			eval.Result = booklit.Append(eval.Result, first.(booklit.Content))
+			if first != nil {
+				eval.Result = booklit.Append(eval.Result, first.(booklit.Content))
+			}
 		default:
 			return fmt.Errorf("unknown first return type: %s", firstType)
 		}
-- 
2.43.0


From 0907c55e8756a48c428009473f94eaa1c23683db Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:50 +0000
Subject: [PATCH 05/17] fix: calls nested in arguments do not override the
 location of the outer call

The invoke location was assigned before evaluating the arguments, so e.g. an
unknown tag in \reference{tag}{\italic{text}} was reported at \italic.
---
 stages/evaluate.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/stages/evaluate.go b/stages/evaluate.go
index 630940a..0664406 100644
--- a/stages/evaluate.go
+++ b/stages/evaluate.go
@@ -136,8 +136,6 @@ var complainL = new(sync.Mutex)
 //
 // If a booklit.Content is returned, it will be appended to Result.
 func (eval *Evaluate) VisitInvoke(invoke ast.Invoke) error {
-	eval.Section.InvokeLocation = invoke.Location
-
 	methodName := invoke.Method()
 
 	var method reflect.Value
@@ -226,6 +224,9 @@ func (eval *Evaluate) VisitInvoke(invoke ast.Invoke) error {
 		}
 	}
 
+	// set after evaluating the arguments, as they may invoke functions too
+	eval.Section.InvokeLocation = invoke.Location
+
 	result := method.Call(argv)
 
 	switch methodType.NumOut() {
-- 
2.43.0


From 001515f18c327265f024b5dbb2121af00c541e75 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:50 +0000
Subject: [PATCH 06/17] fix: skip nil section partials when collecting tags

---
 stages/collect.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/stages/collect.go b/stages/collect.go
index 05708e2..0dbdb38 100644
--- a/stages/collect.go
+++ b/stages/collect.go
@@ -68,6 +68,10 @@ func (collect *Collect) VisitSection(con *booklit.Section) error {
 	}
 
 	for _, p := range con.Partials {
+		if p == nil {
+			continue
+		}
+
 		err = p.Visit(collect)
 		if err != nil {
 			return err
-- 
2.43.0


From 5dbc9b48c316cf1b46b2d2139de1849c4c91db50 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:28 +0000
Subject: [PATCH 07/17] fix: template reloading notices every change and
 retries after failures

Modification times were recorded before the templates were parsed, so after one
failed reload the next one was skipped and pages rendered with a partial set of
templates. Removed templates and templates replaced by an older file were not
noticed at all.
---
 render/html.go | 13 ++++++++++---
 render/text.go | 13 ++++++++++---
 2 files changed, 20 insertions(+), 6 deletions(-)

diff --git a/render/html.go b/render/html.go
index 8c83a19..c47cc7a 100644
--- a/render/html.go
+++ b/render/html.go
@@ -112,7 +112,9 @@ func (engine *HTMLEngine) LoadTemplates(templatesDir string) error {
 		return err
 	}
 
-	var shouldReload bool
+	modTimes := map[string]time.Time{}
+
+	shouldReload := engine.tmplModTimes == nil || len(templates) != len(engine.tmplModTimes)
 	for _, path := range templates {
 		info, err := os.Stat(path)
 		if err != nil {
@@ -122,11 +124,11 @@ func (engine *HTMLEngine) LoadTemplates(templatesDir string) error {
 		modTime := info.ModTime()
 
 		lastModTime, found := engine.tmplModTimes[path]
-		if !found || modTime.After(lastModTime) {
+		if !found || !modTime.Equal(lastModTime) {
 			shouldReload = true
 		}
 
-		engine.tmplModTimes[path] = modTime
+		modTimes[path] = modTime
 	}
 
 	if !shouldReload {
@@ -134,6 +136,7 @@ func (engine *HTMLEngine) LoadTemplates(templatesDir string) error {
 	}
 
 	engine.resetTmpl()
+	engine.tmplModTimes = nil
 
 	for _, path := range templates {
 		content, err := ioutil.ReadFile(path)
@@ -149,6 +152,10 @@ func (engine *HTMLEngine) LoadTemplates(templatesDir string) error {
 		}
 	}
 
+	// only remember the templates once they have all loaded, so that a failure
+	// does not leave the engine with a partial set of templates
+	engine.tmplModTimes = modTimes
+
 	return nil
 }
 
diff --git a/render/text.go b/render/text.go
index 04a1f0c..8dfd2f8 100644
--- a/render/text.go
+++ b/render/text.go
@@ -104,7 +104,9 @@ func (engine *TextEngine) LoadTemplates(templatesDir string) error {
 		return err
 	}
 
-	var shouldReload bool
+	modTimes := map[string]time.Time{}
+
+	shouldReload := engine.tmplModTimes == nil || len(templates) != len(engine.tmplModTimes)
 	for _, path := range templates {
 		info, err := os.Stat(path)
 		if err != nil {
@@ -114,11 +116,11 @@ func (engine *TextEngine) LoadTemplates(templatesDir string) error {
 		modTime := info.ModTime()
 
 		lastModTime, found := engine.tmplModTimes[path]
-		if !found || modTime.After(lastModTime) {
+		if !found || !modTime.Equal(lastModTime) {
 			shouldReload = true
 		}
 
-		engine.tmplModTimes[path] = modTime
+		modTimes[path] = modTime
 	}
 
 	if !shouldReload {
@@ -126,6 +128,7 @@ func (engine *TextEngine) LoadTemplates(templatesDir string) error {
 	}
 
 	engine.resetTmpl()
+	engine.tmplModTimes = nil
 
 	for _, path := range templates {
 		content, err := ioutil.ReadFile(path)
@@ -141,6 +144,10 @@ func (engine *TextEngine) LoadTemplates(templatesDir string) error {
 		}
 	}
 
+	// only remember the templates once they have all loaded, so that a failure
+	// does not leave the engine with a partial set of templates
+	engine.tmplModTimes = modTimes
+
 	return nil
 }
 
-- 
2.43.0


From 892db86adf35228223064a3ce756b6a02210220f Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:28 +0000
Subject: [PATCH 08/17] fix: reparse a document whenever its modification time
 differs

A document replaced by a file with an older modification time (e.g. restored
from a backup or moved into place) was served from the cache indefinitely.
---
 load/processor.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/load/processor.go b/load/processor.go
index 315da94..4d1411e 100644
--- a/load/processor.go
+++ b/load/processor.go
@@ -76,7 +76,7 @@ func (processor *Processor) EvaluateFile(parent *booklit.Section, path string, p
 	})
 
 	var node ast.Node
-	if found && !modTime.After(parsed.ModTime) {
+	if found && modTime.Equal(parsed.ModTime) {
 		log.Debug("already parsed section")
 		node = parsed.Node
 	} else {
-- 
2.43.0


From 5515491d14c61c063398e8b609b12768c16b31c1 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:28 +0000
Subject: [PATCH 09/17] fix: close files when parsing or encoding fails

In server mode every request for a document with a syntax error leaked a file
descriptor.
---
 load/processor.go | 2 ++
 render/writer.go  | 1 +
 2 files changed, 3 insertions(+)

diff --git a/load/processor.go b/load/processor.go
index 4d1411e..d331ce9 100644
--- a/load/processor.go
+++ b/load/processor.go
@@ -89,6 +89,8 @@ func (processor *Processor) EvaluateFile(parent *booklit.Section, path string, p
 
 		result, err := ast.ParseReader(path, file)
 		if err != nil {
+			_ = file.Close()
+
 			astErr, ok := ast.UnpackError(err)
 			if !ok {
 				return nil, err
diff --git a/render/writer.go b/render/writer.go
index db1b627..9cb3f7f 100644
--- a/render/writer.go
+++ b/render/writer.go
@@ -82,6 +82,7 @@ func (writer Writer) WriteSearchIndex(section *booklit.Section, path string) err
 
 	err = json.NewEncoder(indexFile).Encode(index)
 	if err != nil {
+		_ = indexFile.Close()
 		return err
 	}
 
-- 
2.43.0


From bb3faccc6eb2234e6ae678863b16dc5976460fd4 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:28 +0000
Subject: [PATCH 10/17] fix: text pages of styled sections fall back to
 page.tmpl

As documented, and as the HTML engine does, (style)-page.tmpl is only used if it
exists.
---
 render/text.go | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/render/text.go b/render/text.go
index 8dfd2f8..7453c7c 100644
--- a/render/text.go
+++ b/render/text.go
@@ -167,14 +167,23 @@ func (engine *TextEngine) URL(tag booklit.Tag) string {
 // If the section has Style set and a template named (Style)-page.tmpl exists
 // it will be used instead.
 func (engine *TextEngine) RenderSection(out io.Writer, con *booklit.Section) error {
-	tmpl := "page"
+	engine.data = con
+
+	try := []string{}
+
 	if con.Style != "" {
-		tmpl = con.Style + "-page"
+		try = append(try, con.Style+"-page")
 	}
 
-	engine.data = con
+	try = append(try, "page")
 
-	err := engine.setTmpl(tmpl)
+	var err error
+	for _, tmpl := range try {
+		err = engine.setTmpl(tmpl)
+		if err == nil {
+			break
+		}
+	}
 	if err != nil {
 		return err
 	}
-- 
2.43.0


From 1bcdede3c2d0f7af1d573011837f35203d33b01e Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:28 +0000
Subject: [PATCH 11/17] fix: \single-page overrules any prior \split-sections

It only took effect for \split-sections calls made after it, even though it is
documented to overrule them for the section and all of its children.
---
 baselit/plugin.go | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/baselit/plugin.go b/baselit/plugin.go
index d78d873..25a5f4c 100644
--- a/baselit/plugin.go
+++ b/baselit/plugin.go
@@ -94,6 +94,17 @@ func (plugin Plugin) IncludeSection(path string) error {
 
 func (plugin Plugin) SinglePage() {
 	plugin.section.PreventSplitSections = true
+	joinSections(plugin.section)
+}
+
+// joinSections undoes SplitSections for the section and its children, for when
+// it was set prior to splitting being prevented.
+func joinSections(section *booklit.Section) {
+	section.SplitSections = false
+
+	for _, child := range section.Children {
+		joinSections(child)
+	}
 }
 
 func (plugin Plugin) SplitSections() {
-- 
2.43.0


From 4e1f0a222210a1acd3b49ce28dc95ffde899b6bc Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:41 +0000
Subject: [PATCH 12/17] fix: error pages annotate locations at line ends and
 past multi-byte characters

A parse error at a linebreak has column 0, which sliced out of bounds and broke
the whole error page. Columns count characters, not bytes, so anything after a
multi-byte character was annotated in the wrong place. Lines were left out
entirely when the annotation did not fit.
---
 errors.go | 25 +++++++++++++++++++++++--
 1 file changed, 23 insertions(+), 2 deletions(-)

diff --git a/errors.go b/errors.go
index 1dd3bb0..45e605f 100644
--- a/errors.go
+++ b/errors.go
@@ -382,16 +382,37 @@ func (loc ErrorLocation) AnnotatedHTML(out io.Writer) error {
 		data.EOF = true
 	}
 
-	offset := loc.NodeLocation.Col - 1
-	if len(line) >= offset+loc.Length {
+	offset := columnOffset(line, loc.NodeLocation.Col)
+	if offset >= 0 && len(line) >= offset+loc.Length {
 		data.Prefix = line[0:offset]
 		data.Annotated = line[offset : offset+loc.Length]
 		data.Suffix = line[offset+loc.Length:]
+	} else {
+		data.Prefix = line
 	}
 
 	return errorTmpl.Lookup("annotated-line.tmpl").Execute(out, data)
 }
 
+// columnOffset returns the byte offset of the given column, which is a 1-based
+// count of characters, or -1 if there is no such column in the line.
+func columnOffset(line string, col int) int {
+	column := 1
+	for offset := range line {
+		if column == col {
+			return offset
+		}
+
+		column++
+	}
+
+	if column == col {
+		return len(line)
+	}
+
+	return -1
+}
+
 func (loc ErrorLocation) lineInQuestion() (string, error) {
 	file, err := os.Open(loc.FilePath)
 	if err != nil {
-- 
2.43.0


From 259563f992da7ca2b639c008178cd9a81d8bb87b Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:41 +0000
Subject: [PATCH 13/17] fix: show the right line for errors following lines of
 over 4096 bytes

bufio.Reader.ReadLine returns long lines in pieces, each of which was counted as
a line.
---
 errors.go | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/errors.go b/errors.go
index 45e605f..c8ffe6a 100644
--- a/errors.go
+++ b/errors.go
@@ -424,13 +424,13 @@ func (loc ErrorLocation) lineInQuestion() (string, error) {
 	buf := bufio.NewReader(file)
 
 	for i := 0; i < loc.NodeLocation.Line-1; i++ {
-		_, _, err := buf.ReadLine()
+		_, err := readLine(buf)
 		if err != nil {
 			return "", err
 		}
 	}
 
-	lineInQuestion, _, err := buf.ReadLine()
+	line, err := readLine(buf)
 	if err != nil {
 		if err == io.EOF {
 			return "", nil
@@ -439,5 +439,15 @@ func (loc ErrorLocation) lineInQuestion() (string, error) {
 		return "", err
 	}
 
-	return string(lineInQuestion), nil
+	return line, nil
+}
+
+// readLine reads a line of any length, without its line ending.
+func readLine(buf *bufio.Reader) (string, error) {
+	line, err := buf.ReadString('\n')
+	if err != nil && (err != io.EOF || line == "") {
+		return "", err
+	}
+
+	return strings.TrimSuffix(strings.TrimSuffix(line, "\n"), "\r"), nil
 }
-- 
2.43.0


From 9d8e546a9c31565be82bd5b3481a4e7931c9c7e3 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:41 +0000
Subject: [PATCH 14/17] fix: optional references without content do not crash
 when unresolved

---
 reference.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/reference.go b/reference.go
index b026c3e..c84f5ec 100644
--- a/reference.go
+++ b/reference.go
@@ -52,6 +52,10 @@ func (con *Reference) String() string {
 		return fmt.Sprintf("{broken reference: %s: %s}", con.TagName, err)
 	}
 
+	if tag == nil {
+		return ""
+	}
+
 	return tag.Title.String()
 }
 
@@ -72,6 +76,10 @@ func (con *Reference) Display() (Content, error) {
 		return nil, err
 	}
 
+	if tag == nil {
+		return nil, nil
+	}
+
 	return tag.Title, nil
 }
 
-- 
2.43.0


From 1cf1a15471f0f5af443a4a5e9339e4506af004a7 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:37 +0000
Subject: [PATCH 15/17] fix: indentation of nested blocks does not leak between
 them

---
 ast/booklit.peg    |  23 ++----
 ast/booklit.peg.go | 183 +++++++++++++++++++++------------------------
 ast/indent.go      |  24 ++++++
 3 files changed, 114 insertions(+), 116 deletions(-)
 create mode 100644 ast/indent.go

diff --git a/ast/booklit.peg b/ast/booklit.peg
index dc0c4dc..17b625d 100644
--- a/ast/booklit.peg
+++ b/ast/booklit.peg
@@ -87,8 +87,8 @@ PreformattedBlockLine <- indent:Indent words:Word* LineBreak {
 }
 
 PreformattedBlock <- LineBreak lines:PreformattedBlockLine* [ \t]* {
-  delete(c.globalStore, "indent-skip")
-  return Preformatted(ifaceSequences(lines)), nil
+  sequences := ifaceSequences(lines)
+  return Preformatted(skipIndent(sequences)), nil
 }
 
 VerbatimLine <- words:VerbatimString* {
@@ -102,8 +102,8 @@ VerbatimBlockLine <- indent:Indent words:VerbatimString* LineBreak {
 }
 
 VerbatimBlock <- LineBreak lines:VerbatimBlockLine* [ \t]* {
-  delete(c.globalStore, "indent-skip")
-  return Preformatted(ifaceSequences(lines)), nil
+  sequences := ifaceSequences(lines)
+  return Preformatted(skipIndent(sequences)), nil
 }
 
 Invoke <- '\\' name:([a-z-]+) args:(Argument*) {
@@ -144,18 +144,5 @@ ParaArg <- paras:Paragraphs [ \t]* {
 Argument <- VerbatimArg / PreformattedArg / Arg
 
 Indent <- [ \t]* {
-  skip := len(c.text)
-
-  i, found := c.globalStore["indent-skip"]
-  if found {
-    skip = i.(int)
-  } else {
-    c.globalStore["indent-skip"] = skip
-  }
-
-  if skip <= len(c.text) {
-    return string(c.text[skip:]), nil
-  } else {
-    return "", nil
-  }
+  return string(c.text), nil
 }
diff --git a/ast/booklit.peg.go b/ast/booklit.peg.go
index d2bd5be..6955895 100644
--- a/ast/booklit.peg.go
+++ b/ast/booklit.peg.go
@@ -624,17 +624,17 @@ var g = &grammar{
 		},
 		{
 			name: "VerbatimLine",
-			pos:  position{line: 94, col: 1, offset: 2079},
+			pos:  position{line: 94, col: 1, offset: 2077},
 			expr: &actionExpr{
-				pos: position{line: 94, col: 17, offset: 2095},
+				pos: position{line: 94, col: 17, offset: 2093},
 				run: (*parser).callonVerbatimLine1,
 				expr: &labeledExpr{
-					pos:   position{line: 94, col: 17, offset: 2095},
+					pos:   position{line: 94, col: 17, offset: 2093},
 					label: "words",
 					expr: &zeroOrMoreExpr{
-						pos: position{line: 94, col: 23, offset: 2101},
+						pos: position{line: 94, col: 23, offset: 2099},
 						expr: &ruleRefExpr{
-							pos:  position{line: 94, col: 23, offset: 2101},
+							pos:  position{line: 94, col: 23, offset: 2099},
 							name: "VerbatimString",
 						},
 					},
@@ -643,34 +643,34 @@ var g = &grammar{
 		},
 		{
 			name: "VerbatimBlockLine",
-			pos:  position{line: 98, col: 1, offset: 2164},
+			pos:  position{line: 98, col: 1, offset: 2162},
 			expr: &actionExpr{
-				pos: position{line: 98, col: 22, offset: 2185},
+				pos: position{line: 98, col: 22, offset: 2183},
 				run: (*parser).callonVerbatimBlockLine1,
 				expr: &seqExpr{
-					pos: position{line: 98, col: 22, offset: 2185},
+					pos: position{line: 98, col: 22, offset: 2183},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 98, col: 22, offset: 2185},
+							pos:   position{line: 98, col: 22, offset: 2183},
 							label: "indent",
 							expr: &ruleRefExpr{
-								pos:  position{line: 98, col: 29, offset: 2192},
+								pos:  position{line: 98, col: 29, offset: 2190},
 								name: "Indent",
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 98, col: 36, offset: 2199},
+							pos:   position{line: 98, col: 36, offset: 2197},
 							label: "words",
 							expr: &zeroOrMoreExpr{
-								pos: position{line: 98, col: 42, offset: 2205},
+								pos: position{line: 98, col: 42, offset: 2203},
 								expr: &ruleRefExpr{
-									pos:  position{line: 98, col: 42, offset: 2205},
+									pos:  position{line: 98, col: 42, offset: 2203},
 									name: "VerbatimString",
 								},
 							},
 						},
 						&ruleRefExpr{
-							pos:  position{line: 98, col: 58, offset: 2221},
+							pos:  position{line: 98, col: 58, offset: 2219},
 							name: "LineBreak",
 						},
 					},
@@ -679,32 +679,32 @@ var g = &grammar{
 		},
 		{
 			name: "VerbatimBlock",
-			pos:  position{line: 104, col: 1, offset: 2351},
+			pos:  position{line: 104, col: 1, offset: 2349},
 			expr: &actionExpr{
-				pos: position{line: 104, col: 18, offset: 2368},
+				pos: position{line: 104, col: 18, offset: 2366},
 				run: (*parser).callonVerbatimBlock1,
 				expr: &seqExpr{
-					pos: position{line: 104, col: 18, offset: 2368},
+					pos: position{line: 104, col: 18, offset: 2366},
 					exprs: []interface{}{
 						&ruleRefExpr{
-							pos:  position{line: 104, col: 18, offset: 2368},
+							pos:  position{line: 104, col: 18, offset: 2366},
 							name: "LineBreak",
 						},
 						&labeledExpr{
-							pos:   position{line: 104, col: 28, offset: 2378},
+							pos:   position{line: 104, col: 28, offset: 2376},
 							label: "lines",
 							expr: &zeroOrMoreExpr{
-								pos: position{line: 104, col: 34, offset: 2384},
+								pos: position{line: 104, col: 34, offset: 2382},
 								expr: &ruleRefExpr{
-									pos:  position{line: 104, col: 34, offset: 2384},
+									pos:  position{line: 104, col: 34, offset: 2382},
 									name: "VerbatimBlockLine",
 								},
 							},
 						},
 						&zeroOrMoreExpr{
-							pos: position{line: 104, col: 53, offset: 2403},
+							pos: position{line: 104, col: 53, offset: 2401},
 							expr: &charClassMatcher{
-								pos:        position{line: 104, col: 53, offset: 2403},
+								pos:        position{line: 104, col: 53, offset: 2401},
 								val:        "[ \\t]",
 								chars:      []rune{' ', '\t'},
 								ignoreCase: false,
@@ -717,26 +717,26 @@ var g = &grammar{
 		},
 		{
 			name: "Invoke",
-			pos:  position{line: 109, col: 1, offset: 2504},
+			pos:  position{line: 109, col: 1, offset: 2500},
 			expr: &actionExpr{
-				pos: position{line: 109, col: 11, offset: 2514},
+				pos: position{line: 109, col: 11, offset: 2510},
 				run: (*parser).callonInvoke1,
 				expr: &seqExpr{
-					pos: position{line: 109, col: 11, offset: 2514},
+					pos: position{line: 109, col: 11, offset: 2510},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 109, col: 11, offset: 2514},
+							pos:        position{line: 109, col: 11, offset: 2510},
 							val:        "\\",
 							ignoreCase: false,
 							want:       "\"\\\\\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 109, col: 16, offset: 2519},
+							pos:   position{line: 109, col: 16, offset: 2515},
 							label: "name",
 							expr: &oneOrMoreExpr{
-								pos: position{line: 109, col: 22, offset: 2525},
+								pos: position{line: 109, col: 22, offset: 2521},
 								expr: &charClassMatcher{
-									pos:        position{line: 109, col: 22, offset: 2525},
+									pos:        position{line: 109, col: 22, offset: 2521},
 									val:        "[a-z-]",
 									chars:      []rune{'-'},
 									ranges:     []rune{'a', 'z'},
@@ -746,12 +746,12 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 109, col: 31, offset: 2534},
+							pos:   position{line: 109, col: 31, offset: 2530},
 							label: "args",
 							expr: &zeroOrMoreExpr{
-								pos: position{line: 109, col: 37, offset: 2540},
+								pos: position{line: 109, col: 37, offset: 2536},
 								expr: &ruleRefExpr{
-									pos:  position{line: 109, col: 37, offset: 2540},
+									pos:  position{line: 109, col: 37, offset: 2536},
 									name: "Argument",
 								},
 							},
@@ -762,38 +762,38 @@ var g = &grammar{
 		},
 		{
 			name: "VerbatimArg",
-			pos:  position{line: 122, col: 1, offset: 2756},
+			pos:  position{line: 122, col: 1, offset: 2752},
 			expr: &actionExpr{
-				pos: position{line: 122, col: 16, offset: 2771},
+				pos: position{line: 122, col: 16, offset: 2767},
 				run: (*parser).callonVerbatimArg1,
 				expr: &seqExpr{
-					pos: position{line: 122, col: 16, offset: 2771},
+					pos: position{line: 122, col: 16, offset: 2767},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 122, col: 16, offset: 2771},
+							pos:        position{line: 122, col: 16, offset: 2767},
 							val:        "{{{",
 							ignoreCase: false,
 							want:       "\"{{{\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 122, col: 22, offset: 2777},
+							pos:   position{line: 122, col: 22, offset: 2773},
 							label: "node",
 							expr: &choiceExpr{
-								pos: position{line: 122, col: 28, offset: 2783},
+								pos: position{line: 122, col: 28, offset: 2779},
 								alternatives: []interface{}{
 									&ruleRefExpr{
-										pos:  position{line: 122, col: 28, offset: 2783},
+										pos:  position{line: 122, col: 28, offset: 2779},
 										name: "VerbatimBlock",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 122, col: 44, offset: 2799},
+										pos:  position{line: 122, col: 44, offset: 2795},
 										name: "VerbatimLine",
 									},
 								},
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 122, col: 58, offset: 2813},
+							pos:        position{line: 122, col: 58, offset: 2809},
 							val:        "}}}",
 							ignoreCase: false,
 							want:       "\"}}}\"",
@@ -804,29 +804,29 @@ var g = &grammar{
 		},
 		{
 			name: "PreformattedArg",
-			pos:  position{line: 126, col: 1, offset: 2843},
+			pos:  position{line: 126, col: 1, offset: 2839},
 			expr: &actionExpr{
-				pos: position{line: 126, col: 20, offset: 2862},
+				pos: position{line: 126, col: 20, offset: 2858},
 				run: (*parser).callonPreformattedArg1,
 				expr: &seqExpr{
-					pos: position{line: 126, col: 20, offset: 2862},
+					pos: position{line: 126, col: 20, offset: 2858},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 126, col: 20, offset: 2862},
+							pos:        position{line: 126, col: 20, offset: 2858},
 							val:        "{{",
 							ignoreCase: false,
 							want:       "\"{{\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 126, col: 25, offset: 2867},
+							pos:   position{line: 126, col: 25, offset: 2863},
 							label: "node",
 							expr: &ruleRefExpr{
-								pos:  position{line: 126, col: 30, offset: 2872},
+								pos:  position{line: 126, col: 30, offset: 2868},
 								name: "PreformattedBlock",
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 126, col: 48, offset: 2890},
+							pos:        position{line: 126, col: 48, offset: 2886},
 							val:        "}}",
 							ignoreCase: false,
 							want:       "\"}}\"",
@@ -837,14 +837,14 @@ var g = &grammar{
 		},
 		{
 			name: "EmptyArg",
-			pos:  position{line: 130, col: 1, offset: 2919},
+			pos:  position{line: 130, col: 1, offset: 2915},
 			expr: &actionExpr{
-				pos: position{line: 130, col: 13, offset: 2931},
+				pos: position{line: 130, col: 13, offset: 2927},
 				run: (*parser).callonEmptyArg1,
 				expr: &zeroOrMoreExpr{
-					pos: position{line: 130, col: 13, offset: 2931},
+					pos: position{line: 130, col: 13, offset: 2927},
 					expr: &ruleRefExpr{
-						pos:  position{line: 130, col: 13, offset: 2931},
+						pos:  position{line: 130, col: 13, offset: 2927},
 						name: "CommentSpacing",
 					},
 				},
@@ -852,37 +852,37 @@ var g = &grammar{
 		},
 		{
 			name: "Arg",
-			pos:  position{line: 132, col: 1, offset: 2968},
+			pos:  position{line: 132, col: 1, offset: 2964},
 			expr: &actionExpr{
-				pos: position{line: 132, col: 8, offset: 2975},
+				pos: position{line: 132, col: 8, offset: 2971},
 				run: (*parser).callonArg1,
 				expr: &seqExpr{
-					pos: position{line: 132, col: 8, offset: 2975},
+					pos: position{line: 132, col: 8, offset: 2971},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 132, col: 8, offset: 2975},
+							pos:        position{line: 132, col: 8, offset: 2971},
 							val:        "{",
 							ignoreCase: false,
 							want:       "\"{\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 132, col: 12, offset: 2979},
+							pos:   position{line: 132, col: 12, offset: 2975},
 							label: "node",
 							expr: &zeroOrOneExpr{
-								pos: position{line: 132, col: 17, offset: 2984},
+								pos: position{line: 132, col: 17, offset: 2980},
 								expr: &choiceExpr{
-									pos: position{line: 132, col: 18, offset: 2985},
+									pos: position{line: 132, col: 18, offset: 2981},
 									alternatives: []interface{}{
 										&ruleRefExpr{
-											pos:  position{line: 132, col: 18, offset: 2985},
+											pos:  position{line: 132, col: 18, offset: 2981},
 											name: "WrappedLine",
 										},
 										&ruleRefExpr{
-											pos:  position{line: 132, col: 32, offset: 2999},
+											pos:  position{line: 132, col: 32, offset: 2995},
 											name: "ParaArg",
 										},
 										&ruleRefExpr{
-											pos:  position{line: 132, col: 42, offset: 3009},
+											pos:  position{line: 132, col: 42, offset: 3005},
 											name: "EmptyArg",
 										},
 									},
@@ -890,7 +890,7 @@ var g = &grammar{
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 132, col: 53, offset: 3020},
+							pos:        position{line: 132, col: 53, offset: 3016},
 							val:        "}",
 							ignoreCase: false,
 							want:       "\"}\"",
@@ -901,25 +901,25 @@ var g = &grammar{
 		},
 		{
 			name: "ParaArg",
-			pos:  position{line: 140, col: 1, offset: 3111},
+			pos:  position{line: 140, col: 1, offset: 3107},
 			expr: &actionExpr{
-				pos: position{line: 140, col: 12, offset: 3122},
+				pos: position{line: 140, col: 12, offset: 3118},
 				run: (*parser).callonParaArg1,
 				expr: &seqExpr{
-					pos: position{line: 140, col: 12, offset: 3122},
+					pos: position{line: 140, col: 12, offset: 3118},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 140, col: 12, offset: 3122},
+							pos:   position{line: 140, col: 12, offset: 3118},
 							label: "paras",
 							expr: &ruleRefExpr{
-								pos:  position{line: 140, col: 18, offset: 3128},
+								pos:  position{line: 140, col: 18, offset: 3124},
 								name: "Paragraphs",
 							},
 						},
 						&zeroOrMoreExpr{
-							pos: position{line: 140, col: 29, offset: 3139},
+							pos: position{line: 140, col: 29, offset: 3135},
 							expr: &charClassMatcher{
-								pos:        position{line: 140, col: 29, offset: 3139},
+								pos:        position{line: 140, col: 29, offset: 3135},
 								val:        "[ \\t]",
 								chars:      []rune{' ', '\t'},
 								ignoreCase: false,
@@ -932,20 +932,20 @@ var g = &grammar{
 		},
 		{
 			name: "Argument",
-			pos:  position{line: 144, col: 1, offset: 3171},
+			pos:  position{line: 144, col: 1, offset: 3167},
 			expr: &choiceExpr{
-				pos: position{line: 144, col: 13, offset: 3183},
+				pos: position{line: 144, col: 13, offset: 3179},
 				alternatives: []interface{}{
 					&ruleRefExpr{
-						pos:  position{line: 144, col: 13, offset: 3183},
+						pos:  position{line: 144, col: 13, offset: 3179},
 						name: "VerbatimArg",
 					},
 					&ruleRefExpr{
-						pos:  position{line: 144, col: 27, offset: 3197},
+						pos:  position{line: 144, col: 27, offset: 3193},
 						name: "PreformattedArg",
 					},
 					&ruleRefExpr{
-						pos:  position{line: 144, col: 45, offset: 3215},
+						pos:  position{line: 144, col: 45, offset: 3211},
 						name: "Arg",
 					},
 				},
@@ -953,14 +953,14 @@ var g = &grammar{
 		},
 		{
 			name: "Indent",
-			pos:  position{line: 146, col: 1, offset: 3220},
+			pos:  position{line: 146, col: 1, offset: 3216},
 			expr: &actionExpr{
-				pos: position{line: 146, col: 11, offset: 3230},
+				pos: position{line: 146, col: 11, offset: 3226},
 				run: (*parser).callonIndent1,
 				expr: &zeroOrMoreExpr{
-					pos: position{line: 146, col: 11, offset: 3230},
+					pos: position{line: 146, col: 11, offset: 3226},
 					expr: &charClassMatcher{
-						pos:        position{line: 146, col: 11, offset: 3230},
+						pos:        position{line: 146, col: 11, offset: 3226},
 						val:        "[ \\t]",
 						chars:      []rune{' ', '\t'},
 						ignoreCase: false,
@@ -1130,8 +1130,8 @@ func (p *parser) callonPreformattedBlockLine1() (interface{}, error) {
 }
 
 func (c *current) onPreformattedBlock1(lines interface{}) (interface{}, error) {
-	delete(c.globalStore, "indent-skip")
-	return Preformatted(ifaceSequences(lines)), nil
+	sequences := ifaceSequences(lines)
+	return Preformatted(skipIndent(sequences)), nil
 }
 
 func (p *parser) callonPreformattedBlock1() (interface{}, error) {
@@ -1163,8 +1163,8 @@ func (p *parser) callonVerbatimBlockLine1() (interface{}, error) {
 }
 
 func (c *current) onVerbatimBlock1(lines interface{}) (interface{}, error) {
-	delete(c.globalStore, "indent-skip")
-	return Preformatted(ifaceSequences(lines)), nil
+	sequences := ifaceSequences(lines)
+	return Preformatted(skipIndent(sequences)), nil
 }
 
 func (p *parser) callonVerbatimBlock1() (interface{}, error) {
@@ -1247,20 +1247,7 @@ func (p *parser) callonParaArg1() (interface{}, error) {
 }
 
 func (c *current) onIndent1() (interface{}, error) {
-	skip := len(c.text)
-
-	i, found := c.globalStore["indent-skip"]
-	if found {
-		skip = i.(int)
-	} else {
-		c.globalStore["indent-skip"] = skip
-	}
-
-	if skip <= len(c.text) {
-		return string(c.text[skip:]), nil
-	} else {
-		return "", nil
-	}
+	return string(c.text), nil
 }
 
 func (p *parser) callonIndent1() (interface{}, error) {
diff --git a/ast/indent.go b/ast/indent.go
new file mode 100644
index 0000000..19a4a77
--- /dev/null
+++ b/ast/indent.go
@@ -0,0 +1,24 @@
+package ast
+
+// skipIndent removes the first line's indentation from every line. Each line
+// starts with its own indentation.
+func skipIndent(lines []Sequence) []Sequence {
+	skipped := []Sequence{}
+	skip := 0
+	for i, line := range lines {
+		indent := line[0].(String)
+		if i == 0 {
+			skip = len(indent)
+		}
+
+		if len(indent) >= skip {
+			indent = indent[skip:]
+		} else {
+			indent = ""
+		}
+
+		skipped = append(skipped, append(Sequence{indent}, line[1:]...))
+	}
+
+	return skipped
+}
-- 
2.43.0


From 886a6aabc2d0ecfd94752bb7763dba6ba54585f9 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:17 +0000
Subject: [PATCH 16/17] fix: deferred content may evaluate to nothing when
 rendered

Rendering a Lazy whose function returns neither content nor an error
dereferenced the absent content.
---
 render/html.go | 4 ++++
 render/text.go | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/render/html.go b/render/html.go
index c47cc7a..554b00d 100644
--- a/render/html.go
+++ b/render/html.go
@@ -297,6 +297,10 @@ func (engine *HTMLEngine) VisitLazy(con *booklit.Lazy) error {
 		return fmt.Errorf("lazy render: %w", err)
 	}
 
+	if content == nil {
+		content = booklit.Empty
+	}
+
 	return content.Visit(engine)
 }
 
diff --git a/render/text.go b/render/text.go
index 7453c7c..3c6345d 100644
--- a/render/text.go
+++ b/render/text.go
@@ -290,6 +290,10 @@ func (engine *TextEngine) VisitLazy(con *booklit.Lazy) error {
 		return fmt.Errorf("lazy render: %w", err)
 	}
 
+	if content == nil {
+		content = booklit.Empty
+	}
+
 	return content.Visit(engine)
 }
 
-- 
2.43.0


From ecd898ff25cb158bd5cde22134ee32c5afe2bc21 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:42:10 +0000
Subject: [PATCH 17/17] fix: error pages do not fail when the source line is
 unavailable

---
 errors.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/errors.go b/errors.go
index c8ffe6a..9cc6b73 100644
--- a/errors.go
+++ b/errors.go
@@ -370,6 +370,8 @@ func (loc ErrorLocation) AnnotatedHTML(out io.Writer) error {
 
 	line, err := loc.lineInQuestion()
 	if err != nil {
+		// show why there is no snippet, as AnnotateLocation does
+		_, err = fmt.Fprintf(out, "<pre class=\"raw-error\">%s</pre>\n", template.HTMLEscapeString(err.Error()))
 		return err
 	}
 
-- 
2.43.0

