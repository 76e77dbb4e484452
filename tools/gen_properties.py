#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as code so that it stays valid JSON)."""
import json, os
P=[]
def p(id,title,statement,over,text,why,files,mech,state=(),observe=()):
    P.append(dict(id=id,title=title,statement=statement,
      quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,
        state=[dict(name=a,meaning=b,where=c) for a,b,c in state],
        mechanism=[dict(name=a,where=b) for a,b in mech],
        observe_at=list(observe),hook_needed=None)))
S="samples"
p("C01","Evaluating a document preserves its text and its order",
 "Evaluating a document yields exactly the content written in it, each piece once and in document order, with functions called in the order they are written; lines which produce nothing vanish, a paragraph which consists of a single block is that block, and every other paragraph or preformatted block keeps its lines in order. Evaluating an argument or a nested section never disturbs what was already evaluated around it.",
 ["inputs","programs"],"every document (syntax tree), every set of plugins and every content they return",
 "The suite compares the rendering of a few dozen documents; trees of other shapes, widths and nestings, and functions returning nothing or blocks in the middle of a paragraph, are not sampled.",
 ["stages/evaluate.go","append.go","load/processor.go"],
 [("per-node evaluation accumulating a result","stages/evaluate.go: VisitString, VisitSequence, VisitParagraph, VisitPreformatted"),("joining","append.go: Append"),("evaluating a section body","load/processor.go: evaluateSection")],
 [("Evaluate.Result","content evaluated so far","stages/evaluate.go")],["content of the loaded section's body"])
p("C02","Joining content loses nothing and never alters existing content",
 "Joining any number of pieces of content yields content that consists of all of them, once each and in order, absent pieces aside. No content that existed beforehand, including what was joined, changes as a result, no matter how often and in which combinations it is joined again.",
 ["inputs","histories"],"every piece of content, every number of arguments, every history of joins sharing a common prefix",
 "Append is only exercised through documents, always with two pieces and never with the same prefix extended twice.",
 ["append.go","sequence.go"],[("Append","append.go")],(),["Append's result and its arguments after the call"])
p("C03","A function call runs the right method with the right arguments",
 "A call \\foo-bar in a document invokes the method named FooBar of the first plugin in the section's plugin order that has one, with the arguments converted to the parameter types and evaluated left to right, and adds the content it returns at the place of the call. A call with no such method, too few or too many arguments, an unsupported parameter or an unsupported result type, or whose method or argument fails, is reported as an error and never silently dropped; failures are reported with the location of the call itself.",
 ["inputs","programs"],"every plugin list, every method signature, every argument list, every result",
 "Tests use one or two plugins with a handful of signatures; arity edge cases, variadic methods, method shadowing between plugins and failing nested calls are not enumerated.",
 ["stages/evaluate.go","ast/node.go"],[("VisitInvoke","stages/evaluate.go"),("convert, evalArg","stages/evaluate.go"),("Method","ast/node.go")],
 [("Section.Plugins","plugins in the order they were used","section.go"),("Section.InvokeLocation","location of the call in progress","section.go")],["method calls, result content, returned error"])
p("C04","Sections nest as written and inherit the right plugins and paths",
 "Every inline or included section becomes a child of the section that contains it, in document order, with that section as its parent, its own body and no content of its own left in the parent. An inline section starts with the plugins of its parent in order, an included file only with the base plugin; include paths are resolved relative to the file that contains the include, and using a plugin makes exactly the plugin registered last under that name available, or fails if there is none.",
 ["inputs","histories"],"every nesting of sections and includes, every sequence of plugin registrations and uses",
 "Tests nest two or three levels deep and include from the same directory mostly.",
 ["baselit/plugin.go","load/processor.go","section.go","plugin.go"],[("Section, IncludeSection, UsePlugin","baselit/plugin.go"),("EvaluateFile, EvaluateNode, evaluateSection","load/processor.go"),("FilePath, UsePlugin","section.go"),("RegisterPlugin, LookupPlugin","plugin.go")],
 [("Section.Children, Section.Parent","the section tree","section.go"),("plugins","registered factories by name","plugin.go")],["the section tree returned by loading"])
p("C05","A title is set once and defines the section's tags",
 "Setting a section's title records the title, its location and one tag per given name in the given order, the first being the primary tag; without given names the only tag is derived from the title's text, without auxiliary parts, lowercased, with \" & \" read as \"and\", runs of whitespace as a dash and any other special characters dropped. Setting a title on a section that has one is an error locating both places, and leaves the section as it was.",
 ["inputs","histories"],"every title content, tag list and sequence of calls",
 "A few literal titles are tested; the derived tag is a function over all strings.",
 ["section.go","baselit/plugin.go"],[("SetTitle, SetTag, SetTagAnchored, defaultTag","section.go"),("Title","baselit/plugin.go")],
 [("Section.Tags, Section.PrimaryTag","the tags of a section","section.go")],["tags and title of the section; returned error"])
p("C06","Every target in the content becomes a tag of its section",
 "After loading, the tags of every section are those it was given by its title followed by one anchored tag for every target in its title, body and partials, however deeply they are nested in other content (the text shown for references and targets and deferred content aside), in document order (different partials in any order), each with the target's name, title, content and location. Targets of one section never become tags of another.",
 ["inputs"],"every section tree and every nesting of content types",
 "Targets are tested inside paragraphs only; lists, tables, definitions, links, styled content and partials each have their own traversal.",
 ["stages/collect.go","section.go"],[("Collect visitor","stages/collect.go"),("SetTagAnchored","section.go")],
 [("Section.Tags","tags of a section","section.go")],["tags of each section after loading"])
p("C07","References resolve to the one tag of that name in the whole tree",
 "A reference finds a tag wherever in the whole section tree it is defined, and each such tag exactly once. With exactly one match it links to that tag; with none or several it is an error naming the tag with the location of the reference (and those of all the definitions), never an arbitrary choice, unless broken references are allowed, when it yields a placeholder; an optional reference with no match is shown as its own content.",
 ["inputs"],"every section tree, position of the referencing section, tag name, multiplicity",
 "Tests reference one or two tags in trees of depth two.",
 ["section.go","reference.go"],[("filterTags, FindTag","section.go"),("Tag, resolve, Display","reference.go")],
 [("Reference.tag","cached resolution","reference.go")],["tag or error of a reference"])
p("C08","Section numbers, depths and neighbours follow the tree",
 "A section's number consists of its 1-based positions from below the root downwards, joined by dots, so that different sections of a tree have different numbers; its depth is the number of its ancestors, and its depth in the page restarts wherever a section has its children split off. Moving to the previous or next section yields the adjacent sibling as given by the children's order, and otherwise moves up (or, on a split section, down) the tree, and membership queries agree with the tree.",
 ["inputs"],"every section tree and every section in it",
 "Numbering is tested on one document.",
 ["section.go"],[("Number, Depth, PageDepth, Prev, Next, NextSibling, Top, Contains, IsOrHasChild, HasAnchors, AnchorTags","section.go")],(),["results of the navigation methods"])
p("C09","Every link leads to a page that is written",
 "Each section is rendered on exactly one page: its own if it is the root or its parent is split, and otherwise its parent's page; rendering writes exactly those pages, named after the primary tag of the section that starts the page. The URL of any tag names the page its section is rendered on, with the tag's anchor, or the section's primary tag where the section is in the middle of a page; where single-page was requested, no section below is split off, whatever is requested before or after.",
 ["inputs","configurations"],"every section tree, every placement of split and single-page markers, every tag",
 "Tests check URLs on a few fixed trees and never check them against the files written.",
 ["render/common.go","render/writer.go","baselit/plugin.go","section.go"],[("sectionPageOwner, sectionURL","render/common.go"),("WriteSection, writeSingleSection","render/writer.go"),("SplitSections, SinglePage","baselit/plugin.go"),("SplitSectionsPrevented","section.go")],
 [("Section.SplitSections","children are on their own pages","section.go")],["files written, URLs rendered"])
p("C10","The search index lists every tag correctly",
 "The search index written to the output directory has an entry for the name of every tag of every section in the tree and no others. Each entry holds that tag's URL, title, text (its own, or its section's body where it has none), depth and the primary tag of its section.",
 ["inputs"],"every section tree and its tags",
 "Tests index three fixed documents.",
 ["render/writer.go"],[("WriteSearchIndex, loadTags","render/writer.go")],(),["search_index.json"])
p("C11","Stripping auxiliary content removes exactly that",
 "Stripping content yields the same content without the auxiliary pieces nested in its sequences, paragraphs, preformatted text, lists, tables, definitions, links, styled text, targets and references, in the same order and with everything else about it unchanged. The original content is left as it was.",
 ["inputs"],"every content tree",
 "Tests strip auxiliary text directly within a title only.",
 ["aux_.go"],[("StripAux and its visitor","aux_.go")],(),["StripAux's result and argument"])
p("C12","Loading a document always reflects the file as it is",
 "Loading a file yields the section tree of that file's current content, however often and in whatever order files were loaded by the same process before: a cached parse is used only for the same path with the same modification time, and the cache never holds anything that was not parsed from that path at that time. A file that cannot be read or parsed is reported, and the next load tries again.",
 ["histories","inputs"],"every history of loads, edits and failures over several files",
 "Tests load every document once.",
 ["load/processor.go"],[("EvaluateFile","load/processor.go")],
 [("Processor.parsed","cache of parsed documents by path","load/processor.go")],["sections returned by successive loads"])
p("C13","Rendering always uses the templates as they are in the directory",
 "After successfully loading templates from a directory, the engine renders with exactly the built-in templates overridden by the directory's current templates, however often they were changed, added or removed before. If loading fails, the error is reported and the next load tries again rather than continuing with a partial set.",
 ["histories","fault_sequences"],"every history of template changes, additions, removals and failures, for both engines",
 "No test loads templates twice.",
 ["render/html.go","render/text.go"],[("LoadTemplates, resetTmpl","render/html.go, render/text.go")],
 [("tmplModTimes","modification times of the templates in use","render/html.go, render/text.go")],["rendered pages after reloads"])
p("C14","The server answers with the whole page, an error page or the static file",
 "A request for the page of a known tag is answered with that section's complete rendering; if loading, templates or rendering fail the answer is a status 500 error page describing the error, with nothing of the failed page before it. Any other request, and only such, is passed unchanged to the static file server, the root path being that of the index page.",
 ["inputs","fault_sequences"],"every request path, every document and template state, every failing step",
 "There are no tests of the server.",
 ["booklitcmd/server.go"],[("ServeHTTP, loadRequestedSection","booklitcmd/server.go")],(),["HTTP status and body"])
p("C15","Errors point at the exact place in the source",
 "Error messages and pages name the file and line of the faulty construct and show that very line of the file, marked from the reported column on for the given length, whatever the line's length, position and characters; without a location they show none. Explaining an error never itself fails or crashes because of the location.",
 ["inputs"],"every file content and every location in or beyond it",
 "Tests check two errors on short ASCII lines.",
 ["errors.go","ast/errors.go","stages/evaluate.go","baselit/plugin.go"],[("Annotate, AnnotateLocation, AnnotatedHTML, lineInQuestion","errors.go"),("UnpackError","ast/errors.go"),("InvokeLocation","stages/evaluate.go")],(),["text and HTML error output"])
p("C16","Each kind of content is rendered by its own template",
 "Every kind of content is rendered with the template named after its kind (styled content and styled sections with the one named after their style), given that content, and pages with the page template of the section's style if there is one and the plain page template otherwise. A missing template is an error, nested content is rendered with the same set of templates, and text is escaped for HTML exactly once.",
 ["inputs"],"every content tree, style name and template set, for both engines",
 "Tests cover the default templates with a handful of contents.",
 ["render/html.go","render/text.go"],[("Visit methods, setTmpl, render, subRender, RenderSection","render/html.go, render/text.go")],(),["rendered output"])
p("C17","Syntax highlighting with transformers keeps the text",
 "Transforming highlighted code replaces every match of each transformer's pattern by its transformation and leaves all other text in place, in order, exactly once; what has been transformed into anything but plain text is not touched by later transformers, and plain text is output as raw HTML. The result is a block or flow according to the code given and carries the language.",
 ["inputs"],"every text, pattern and list of transformers",
 "There are no tests of the chroma plugin.",
 ["chroma/plugin.go"],[("TransformAll, SyntaxTransform, Syntax","chroma/plugin.go")],(),["content returned by the plugin"])
p("C18","The base functions produce the content they document",
 "Each function of the base plugin produces the documented kind of content from exactly the arguments given, in order, attached to the calling section and, where it has one, with the location of the call: styles, links, references, targets, images, lists, tables, definitions, partials and flags. Tables and definitions given anything other than the rows or pairs they need are errors, and calling a function changes nothing of the section that it does not document.",
 ["inputs"],"every argument list of every base function",
 "Tests call each function once or twice with typical arguments.",
 ["baselit/plugin.go","section.go"],[("the Plugin methods","baselit/plugin.go")],(),["returned content; the section afterwards"])
p("C19","Every file that is opened is closed",
 "Every file opened while loading documents, explaining errors, writing pages or writing the search index is closed exactly once before the operation returns, on success and on every failure.",
 ["inputs","fault_sequences"],"every path through the operations, including failures of each system call",
 "Tests do not observe file handles, nor make operations fail.",
 ["load/processor.go","errors.go","render/writer.go","booklitcmd/command.go"],[("EvaluateFile","load/processor.go"),("lineInQuestion","errors.go"),("writeSingleSection, WriteSearchIndex","render/writer.go"),("Execute","booklitcmd/command.go")],(),["open file handles after each operation"])
p("C20","No document makes the processor crash",
 "Evaluating, collecting, resolving, stripping, writing and explaining errors never crash on an absent value, an out-of-range index or an unexpected kind of value, for any document and any well-behaved plugin; problems are reported as errors. (Plugins may return absent content; sections that include themselves are excluded.)",
 ["inputs","programs"],"every document and every plugin returning well-formed or absent content",
 "Tests only use documents whose functions return present content.",
 ["stages/evaluate.go","stages/collect.go","aux_.go","section.go","reference.go","errors.go","render/writer.go","render/common.go","baselit/plugin.go","load/processor.go"],[("nil checks, bounds, type switches","all of the core packages")],(),["process exit, recovered panics"])
p("C21","Parsing keeps every character of the document's text",
 "Parsing a document yields its text, function calls and arguments in order, once each, with escapes resolved and comments removed and nothing else lost: text in verbatim arguments is kept literally, preformatted and verbatim blocks keep their lines and lose only the first line's indentation, independently of blocks nested in them or around them, and LF and CRLF documents parse alike. Text that is not a well-formed document is a parse error.",
 ["inputs"],"every document text",
 "Tests parse some dozens of fixed documents.",
 ["ast/booklit.peg","ast/booklit.peg.go","ast/indent.go"],[("grammar and its actions","ast/booklit.peg"),("skipIndent","ast/indent.go")],(),["syntax tree returned by the parser"])
p("C22","Deferred content is computed at most once",
 "Deferred content is computed only when it is needed, at most once however often and from however many places it is used, and every use yields the same content or the same error. Whether it is a block or flow is known, and never changes, without computing it.",
 ["inputs","schedules","histories"],"every computation and every sequence or interleaving of uses",
 "There are no tests of lazy content.",
 ["lazy.go","render/html.go","render/text.go"],[("Force, LazyFlow, LazyBlock","lazy.go"),("VisitLazy","render/html.go, render/text.go")],
 [("Lazy.once","guards the computation","lazy.go")],["calls of the deferred function; results of Force"])
p("C23","A build writes what was asked for, with the engine asked for",
 "A build renders the section asked for (by tag, by path with the main document as its parent, or the main document itself) with the text engine if a text file extension is configured and the HTML engine otherwise, using the templates configured for that engine, to standard output if no output directory is given and into that directory otherwise. The search index is written exactly if requested and always covers the whole document; any failure is returned and nothing is written before the document and templates were loaded.",
 ["configurations","fault_sequences"],"every combination of options and every failing step",
 "Tests never run the command.",
 ["booklitcmd/command.go"],[("Build","booklitcmd/command.go")],(),["files and output written, returned error"])
p("C24","Concurrent requests never race on shared state",
 "State shared between concurrent requests to the server (the parsed documents, the engine with its templates) is only accessed by one request at a time. Locks taken are always released, and never taken twice by the same request.",
 ["schedules"],"every interleaving of requests",
 "Tests are sequential and do not cover the server.",
 ["booklitcmd/server.go","load/processor.go","stages/evaluate.go"],[("buildLock","booklitcmd/server.go"),("parsedL","load/processor.go"),("complainL","stages/evaluate.go")],
 [("Processor.parsed","guarded by parsedL","load/processor.go"),("Server.Engine","guarded by buildLock","booklitcmd/server.go")],["lock discipline; race detector"])
out=os.path.join(os.path.dirname(os.path.abspath(__file__)),"..","properties.jsonl")
with open(out,"w") as f:
    for x in P:
        assert len(x["title"])<=80,x["title"]
        f.write(json.dumps(x,ensure_ascii=False)+"\n")
