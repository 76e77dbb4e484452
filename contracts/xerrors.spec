// contracts on errors and what they show of the source (C15, C19)

// ---- lines of files ----

// the lines of a file with their endings, of which only the last may have none
uninterp rawLines(fs FS, path string) []string
// whether a file can be opened and read
uninterp readable(fs FS, path string) bool

// how many lines were read
ghost $at arr[int]int
uninterp sourceOf(b *bufio.Reader) io.Reader

extern bufio.NewReader(r io.Reader) (b *bufio.Reader)
  flags noalloc
  modifies $at
  ensures b != nil && sourceOf(b) == r && $at == old($at)[b := 0]

spec func linesOf(fs FS, b *bufio.Reader) []string = rawLines(fs, pathOf(sourceOf(b) as *os.File))
  flags macro=1

extern bufio.(*Reader).ReadString(b *bufio.Reader, delim byte) (line string, err error)
  flags noalloc
  modifies $at at b
  ensures sourceOf(b) is *os.File && delim == 10 && old($at[b]) < len(linesOf($fs, b)) && (err == nil || err == io.EOF) ==> line == linesOf($fs, b)[old($at[b])] && line != "" && $at[b] == old($at[b]) + 1
  ensures sourceOf(b) is *os.File && delim == 10 && old($at[b]) >= len(linesOf($fs, b)) ==> line == "" && err != nil && $at[b] == old($at[b])
  ensures io.EOF != nil
  ensures sourceOf(b) is *os.File && readable($fs, pathOf(sourceOf(b) as *os.File)) ==> err == nil || err == io.EOF

spec func bare(s string) string = strings.TrimSuffix(strings.TrimSuffix(s, "\n"), "\r")

// line n of a file, counted from 1; past the end there is an empty one
spec func lineAt(fs FS, path string, n int) string = if n - 1 < len(rawLines(fs, path)) then bare(rawLines(fs, path)[n-1]) else ""

func booklit.readLine(buf *bufio.Reader) (result string, err error)
  requires buf != nil && sourceOf(buf) is *os.File
  modifies $at at buf
  ensures [C15] line: err == nil ==> old($at[buf]) < len(linesOf($fs, buf)) && result == bare(linesOf($fs, buf)[old($at[buf])]) && $at[buf] == old($at[buf]) + 1
  ensures [C15] end: err == io.EOF ==> old($at[buf]) >= len(linesOf($fs, buf))
  ensures [C15] readable: readable($fs, pathOf(sourceOf(buf) as *os.File)) ==> err == nil || err == io.EOF

func booklit.(ErrorLocation).lineInQuestion(loc booklit.ErrorLocation) (line string, err error)
  modifies $at
  props C19
  ensures [C15] line: err == nil && loc.NodeLocation.Line >= 1 ==> line == lineAt($fs, loc.FilePath, loc.NodeLocation.Line)
  ensures [C15] readable: readable($fs, loc.FilePath) && loc.NodeLocation.Line >= 1 && loc.NodeLocation.Line <= len(rawLines($fs, loc.FilePath)) + 1 ==> err == nil
  inv ($c *bufio.Reader, $p int) $at[$c] == $p && $p >= 0 && (loc.NodeLocation.Line >= 1 ==> $p <= loc.NodeLocation.Line - 1)

// ---- columns ----

// the offset of a column, counted in characters from 1
spec func columnAt(line string, col int) int =
    if col >= 1 && col <= runes(line) then runeoff(line, col-1) else if col == runes(line) + 1 then len(line) else 0-1

func booklit.columnOffset(line string, col int) (result int)
  ensures [C15] offset: result == columnAt(line, col)
  inv ($i int, $p int) $p == $i + 1 && 0 <= $i && ($i == 0 || $i <= runes(line)) && (col < 1 || col >= $p)

// what an error says
iface error.Error(e error) (result string)

// ---- snippets ----

uninterp printed(o Out, w io.Writer, text string) Out

extern fmt.Fprintf(w io.Writer, format string, args []any) (n int, err error)
  flags noalloc
  modifies $out, $text
  ensures onlyTo(old($out), $out, w)
  ensures takes(w) ==> err == nil && $out == printed(old($out), w, sprintf(format, args))

uninterp plain_line(args []any) string
extern fmt.Fprintln(w io.Writer, args []any) (n int, err error)
  flags noalloc
  modifies $out, $text
  ensures onlyTo(old($out), $out, w)
  ensures takes(w) ==> err == nil && $out == printed(old($out), w, plain_line(args))

spec func lineno(loc booklit.ErrorLocation) string = sprintf("% 4d", []any{loc.NodeLocation.Line})
  flags macro=1

// what is shown of the source if it can be read
spec func snippet(o Out, w io.Writer, fs FS, loc booklit.ErrorLocation) Out =
    if loc.NodeLocation.Line == 0 then o
    else printed(printed(o, w, lineno(loc) ++ "| " ++ lineAt(fs, loc.FilePath, loc.NodeLocation.Line) ++ "\n"), w, strings.Repeat(" ", len(lineno(loc)) + 2 + loc.NodeLocation.Col - 1) ++ "\x1b[31m" ++ strings.Repeat("^", loc.Length) ++ "\x1b[0m\n")

spec func there(fs FS, loc booklit.ErrorLocation) bool =
    loc.NodeLocation.Line == 0 || readable(fs, loc.FilePath) && loc.NodeLocation.Line <= len(rawLines(fs, loc.FilePath)) + 1

spec func sane(loc booklit.ErrorLocation) bool = loc.NodeLocation.Line >= 0 && loc.NodeLocation.Col >= 0 && loc.Length >= 0

spec func located(loc booklit.ErrorLocation, msg string) string =
    if loc.NodeLocation.Line == 0 then loc.FilePath ++ ": " ++ msg else loc.FilePath ++ ":" ++ itoa(loc.NodeLocation.Line) ++ ": " ++ msg

func booklit.(ErrorLocation).Annotate(loc booklit.ErrorLocation, msg string, args []any) (result string)
  flags noalloc
  ensures [C15] located: result == located(loc, sprintf(msg, args))

func booklit.(ErrorLocation).AnnotateLocation(loc booklit.ErrorLocation, out io.Writer) ()
  requires out != nil
  requires [C15,C20] sane: sane(loc)
  modifies $out, $text, $at
  props C19
  ensures [C15] nowhere: loc.NodeLocation.Line == 0 ==> $out == old($out)
  ensures [C15] shown: takes(out) && there($fs, loc) ==> $out == snippet(old($out), out, $fs, loc)

func booklit.(ErrorLocation).AnnotatedHTML(loc booklit.ErrorLocation, out io.Writer) (err error)
  requires out != nil
  requires [C15,C20] sane: sane(loc)
  modifies $out, $text, $at, $lastTemplate, $lastData, $lastOut, booklit.Reference.tag, booklit.Lazy.result, booklit.Lazy.err, $once, $forced
  props C19
  ensures [C15] nowhere: loc.NodeLocation.Line == 0 ==> $out == old($out) && err == nil
  ensures [C15] template: err == nil && loc.NodeLocation.Line != 0 && there($fs, loc) ==> $out == executed(old($out), out, lookup(booklit.errorTmpl, $set[booklit.errorTmpl], "annotated-line.tmpl"), $lastData) && $lastData is booklit.annotationData
  ensures [C15] place: err == nil && loc.NodeLocation.Line != 0 && there($fs, loc) ==> ($lastData as booklit.annotationData).FilePath == loc.FilePath && ($lastData as booklit.annotationData).Lineno == lineno(loc)
  ensures [C15] line: err == nil && loc.NodeLocation.Line != 0 && there($fs, loc) ==> ($lastData as booklit.annotationData).Prefix ++ ($lastData as booklit.annotationData).Annotated ++ ($lastData as booklit.annotationData).Suffix == lineAt($fs, loc.FilePath, loc.NodeLocation.Line)
  ensures [C15] end: err == nil && loc.NodeLocation.Line != 0 && there($fs, loc) ==> ($lastData as booklit.annotationData).EOF == (lineAt($fs, loc.FilePath, loc.NodeLocation.Line) == "")
  ensures [C15] marked: err == nil && loc.NodeLocation.Line != 0 && there($fs, loc) && columnAt(lineAt($fs, loc.FilePath, loc.NodeLocation.Line), loc.NodeLocation.Col) >= 0 && columnAt(lineAt($fs, loc.FilePath, loc.NodeLocation.Line), loc.NodeLocation.Col) + loc.Length <= len(lineAt($fs, loc.FilePath, loc.NodeLocation.Line)) ==> len(($lastData as booklit.annotationData).Prefix) == columnAt(lineAt($fs, loc.FilePath, loc.NodeLocation.Line), loc.NodeLocation.Col) && len(($lastData as booklit.annotationData).Annotated) == loc.Length
  ensures [C15] never_fails: takes(out) && works(lookup(booklit.errorTmpl, $set[booklit.errorTmpl], "annotated-line.tmpl"), $lastData) ==> err == nil

// ---- errors ----

spec func line1(text string) string = plain_line([]any{text})
  flags macro=1
// an error and its place, an empty line, and the snippet
spec func report(o Out, w io.Writer, fs FS, loc booklit.ErrorLocation, msg string) Out =
    snippet(printed(printed(o, w, plain_line([]any{located(loc, msg)})), w, plain_line([]any{})), w, fs, loc)

func booklit.(ParseError).PrettyPrint(err booklit.ParseError, out io.Writer) ()
  requires out != nil
  requires [C15,C20] sane: sane(err.ErrorLocation)
  modifies $out, $text, $at
  props C19
  ensures [C15] report: takes(out) && there($fs, err.ErrorLocation) ==> $out == report(old($out), out, $fs, err.ErrorLocation, sprintf("%s", []any{err}))

func booklit.(ParseError).PrettyHTML(err booklit.ParseError, out io.Writer) (result error)
  requires out != nil
  modifies $out, $text, $lastTemplate, $lastData, $lastOut, booklit.Reference.tag, booklit.Lazy.result, booklit.Lazy.err, $once, $forced
  ensures [C15] template: result == nil ==> $out == executed(old($out), out, lookup(booklit.errorTmpl, $set[booklit.errorTmpl], "parse-error.tmpl"), err)

func booklit.(UndefinedFunctionError).PrettyPrint(err booklit.UndefinedFunctionError, out io.Writer) ()
  requires out != nil
  requires [C15,C20] sane: sane(err.ErrorLocation)
  modifies $out, $text, $at
  props C19
  ensures [C15] report: takes(out) && there($fs, err.ErrorLocation) ==> $out == report(old($out), out, $fs, err.ErrorLocation, sprintf("%s", []any{err}))

func booklit.(UndefinedFunctionError).PrettyHTML(err booklit.UndefinedFunctionError, out io.Writer) (result error)
  requires out != nil
  modifies $out, $text, $lastTemplate, $lastData, $lastOut, booklit.Reference.tag, booklit.Lazy.result, booklit.Lazy.err, $once, $forced
  ensures [C15] template: result == nil ==> $out == executed(old($out), out, lookup(booklit.errorTmpl, $set[booklit.errorTmpl], "undefined-function.tmpl"), err)

func booklit.(TitleTwiceError).PrettyPrint(err booklit.TitleTwiceError, out io.Writer) ()
  requires out != nil
  requires [C15,C20] sane: sane(err.ErrorLocation) && sane(err.TitleLocation)
  modifies $out, $text, $at
  props C19
  ensures [C15] report: takes(out) && there($fs, err.ErrorLocation) && there($fs, err.TitleLocation) ==> $out == printed(snippet(printed(report(old($out), out, $fs, err.ErrorLocation, sprintf("%s", []any{err})), out, "The section's title was first set here:\n\n"), out, $fs, err.TitleLocation), out, plain_line([]any{"Maybe the second \\title should be in a \\section{...}?"}))

func booklit.(TitleTwiceError).PrettyHTML(err booklit.TitleTwiceError, out io.Writer) (result error)
  requires out != nil
  modifies $out, $text, $lastTemplate, $lastData, $lastOut, booklit.Reference.tag, booklit.Lazy.result, booklit.Lazy.err, $once, $forced
  ensures [C15] template: result == nil ==> $out == executed(old($out), out, lookup(booklit.errorTmpl, $set[booklit.errorTmpl], "title-twice-error.tmpl"), err)

func booklit.(UnknownTagError).PrettyPrint(err booklit.UnknownTagError, out io.Writer) ()
  requires out != nil
  requires [C15,C20] sane: sane(err.ErrorLocation)
  modifies $out, $text, $at
  props C19
  ensures [C15] report: takes(out) && there($fs, err.ErrorLocation) && len(err.SimilarTags) == 0 ==> $out == printed(report(old($out), out, $fs, err.ErrorLocation, sprintf("%s", []any{err})), out, "I couldn't find any similar tags. :(\n")

func booklit.(UnknownTagError).PrettyHTML(err booklit.UnknownTagError, out io.Writer) (result error)
  requires out != nil
  modifies $out, $text, $lastTemplate, $lastData, $lastOut, booklit.Reference.tag, booklit.Lazy.result, booklit.Lazy.err, $once, $forced
  ensures [C15] template: result == nil ==> $out == executed(old($out), out, lookup(booklit.errorTmpl, $set[booklit.errorTmpl], "unknown-tag.tmpl"), err)

func booklit.(AmbiguousReferenceError).PrettyHTML(err booklit.AmbiguousReferenceError, out io.Writer) (result error)
  requires out != nil
  modifies $out, $text, $lastTemplate, $lastData, $lastOut, booklit.Reference.tag, booklit.Lazy.result, booklit.Lazy.err, $once, $forced
  ensures [C15] template: result == nil ==> $out == executed(old($out), out, lookup(booklit.errorTmpl, $set[booklit.errorTmpl], "ambiguous-reference.tmpl"), err)

func booklit.(FailedFunctionError).PrettyHTML(err booklit.FailedFunctionError, out io.Writer) (result error)
  requires out != nil
  modifies $out, $text, $lastTemplate, $lastData, $lastOut, booklit.Reference.tag, booklit.Lazy.result, booklit.Lazy.err, $once, $forced
  ensures [C15] template: result == nil ==> $out == executed(old($out), out, lookup(booklit.errorTmpl, $set[booklit.errorTmpl], "function-error.tmpl"), err)

func booklitcmd.(*Command).Execute(cmd *booklitcmd.Command, args []string) (err error)
  requires cmd != nil && valid(render.initHTMLTmpl) && valid(render.initTextTmpl)
  requires coupled: coupled()
  requires [C24] unlocked: unlocked()
  modifies *, $out, $set, $shared, render.HTMLEngine.tmpl, render.HTMLEngine.tmplModTimes, render.TextEngine.tmpl, render.TextEngine.tmplModTimes
  props C19

extern os.Environ() (result []string)
  flags own-result
