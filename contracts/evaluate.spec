// contracts on the evaluation of syntax trees (C01) and of calls (C03)
//
// The state of the program as plugins can see it is one value, $w. A call
// changes it as callW says; which plugins a section has is a part of it.

immutable stages.Evaluate.Section, stages.Evaluate.SlowInvokeThreshold
immutable booklit.Section.Parent, booklit.Section.Path, booklit.Section.Processor

// no lock is held which evaluating takes
spec func unlocked() bool = !$held[stages.complainL] && (forall p *load.Processor :: !$held[&p.parsedL])
  flags opaque=1

sort World
ghost $w World
typed booklit.Section.Plugins, booklit.Section.PluginFactories, booklit.Section.Children, stages.Evaluate.Result

// ---- joining ----

spec func app(a booklit.Content, c booklit.Content) booklit.Content =
    if c == nil then a else match a {
      case nil: c;
      case booklit.Sequence(s): booklit.Sequence(s ++ []booklit.Content{c});
      default: booklit.Sequence([]booklit.Content{a, c}) }
  flags fuel=3 eager=1

spec func appN(a booklit.Content, s []booklit.Content, n int) booklit.Content =
    if n <= 0 then a else app(appN(a, s, n - 1), s[n - 1])
  flags fuel=2

// ---- blocks and flow ----

spec func isFlow(c booklit.Content) bool = match c {
    case booklit.String: true;
    case booklit.Image: true;
    case *booklit.Reference: true;
    case booklit.Target: true;
    case *booklit.Target: true;
    case *booklit.Lazy(l): !l.Block;
    case booklit.Sequence(s): isFlowN(s, len(s));
    case booklit.Link(l): isFlow(l.Content);
    case booklit.Styled(s): !s.Block && isFlow(s.Content);
    case booklit.Aux(a): isFlow(a.Content);
    case booklit.Paragraph: false;
    case booklit.Preformatted: false;
    case booklit.List: false;
    case booklit.Table: false;
    case booklit.Definitions: false;
    case booklit.TableOfContents: false;
    case *booklit.Section: false;
    default: otherFlow(c) }
  flags fuel=2

uninterp otherFlow(c booklit.Content) bool

spec func isFlowN(s []booklit.Content, n int) bool = if n <= 0 then true else isFlowN(s, n-1) && isFlow(s[n-1])
  flags fuel=2

lemma isFlowN_elem(s []booklit.Content, i int, n int)
  requires 0 <= i && i < n && !isFlow(s[i])
  ensures !isFlowN(s, n)
  decreases n
  use isFlowN_elem(s, i, n-1)
  trigger isFlow(s[i]), isFlowN(s, n)

iface booklit.Content.IsFlow(c booklit.Content) (result bool)
  flags noalloc
  ensures [C01] flow: result == isFlow(c)
  inv ($i int, $c []booklit.Content) isFlowN($c, $i)

// ---- plugins and calls ----

// the plugins of a section in the order they were used
uninterp pluginsAt(w World, s *booklit.Section) []booklit.Plugin
// and what made them
uninterp factoriesAt(w World, s *booklit.Section) []booklit.PluginFactory

// the section a plugin was made for
uninterp owner(p booklit.Plugin) *booklit.Section
uninterp ownerM(m reflect.Value) *booklit.Section

axiom owners(w World, s *booklit.Section, i int)
  requires 0 <= i && i < len(pluginsAt(w, s))
  ensures owner(pluginsAt(w, s)[i]) == s
  trigger pluginsAt(w, s)[i]

axiom method_owner(p booklit.Plugin, name string)
  ensures ownerM(reflect.ValueOf(p).MethodByName(name)) == owner(p)
  trigger reflect.ValueOf(p).MethodByName(name)

spec func coupled() bool = (forall s *booklit.Section :: s != nil && allocated(s) ==> s.Plugins == pluginsAt($w, s) && s.PluginFactories == factoriesAt($w, s)) && (forall s *booklit.Section :: !allocated(s) ==> pluginsAt($w, s) == []booklit.Plugin{} && factoriesAt($w, s) == []booklit.PluginFactory{})
  flags opaque=1

uninterp callW(w World, m reflect.Value, args []reflect.Value, loc ast.Location) World
uninterp callR(w World, m reflect.Value, args []reflect.Value, loc ast.Location) []reflect.Value

// a function of a plugin may do anything, but it has no access to the
// evaluation in progress, and it adds children only to its own section and to
// sections it makes
extern reflect.(Value).Call(m reflect.Value, args []reflect.Value) (results []reflect.Value)
  requires coupled: coupled()
  requires [C24] unlocked: unlocked()
  modifies *
  ensures $w == callW(old($w), m, args, old(ownerM(m).InvokeLocation))
  ensures results == callR(old($w), m, args, old(ownerM(m).InvokeLocation))
  ensures len(results) == m.Type().NumOut()
  ensures coupled()
  ensures forall e *stages.Evaluate :: old(allocated(e)) ==> e.Result == old(e.Result)
  ensures forall s *booklit.Section :: old(allocated(s)) && s != ownerM(m) ==> s.Children == old(s.Children)

extern time.AfterFunc(d time.Duration, f func) (timer *time.Timer)
  flags noalloc
  ensures timer != nil

axiom no_value(v reflect.Value)
  requires v == reflect.Value{}
  ensures !v.IsValid()
  trigger v.IsValid()

// the method of that name of the first plugin which has one
spec func methodN(ps []booklit.Plugin, name string, n int) reflect.Value =
    if n <= 0 then reflect.Value{}
    else if methodN(ps, name, n-1).IsValid() then methodN(ps, name, n-1)
    else reflect.ValueOf(ps[n-1]).MethodByName(name)
  flags fuel=1

lemma methodN_first(ps []booklit.Plugin, name string, i int, n int)
  flags seed
  requires 0 <= i && i <= n && methodN(ps, name, i).IsValid()
  ensures methodN(ps, name, n) == methodN(ps, name, i)
  decreases n
  use methodN_first(ps, name, i, n-1)
  trigger methodN(ps, name, i), methodN(ps, name, n)

lemma methodN_at(ps []booklit.Plugin, name string, i int, n int)
  flags seed
  requires 0 <= i && i < n && !methodN(ps, name, i).IsValid() && reflect.ValueOf(ps[i]).MethodByName(name).IsValid()
  ensures methodN(ps, name, n) == reflect.ValueOf(ps[i]).MethodByName(name)
  decreases n
  use methodN_at(ps, name, i, n-1)
  trigger methodN(ps, name, i), methodN(ps, name, n)

lemma methodN_owner(w World, s *booklit.Section, name string, n int)
  flags seed
  requires 0 <= n && n <= len(pluginsAt(w, s)) && methodN(pluginsAt(w, s), name, n).IsValid()
  ensures ownerM(methodN(pluginsAt(w, s), name, n)) == s
  decreases n
  use methodN_owner(w, s, name, n-1)
  trigger methodN(pluginsAt(w, s), name, n)

uninterp english() cases.Caser

extern cases.Title(t language.Tag, opts []cases.Option) (c cases.Caser)
  flags noalloc
  ensures len(opts) == 0 ==> c == english()

// the name of the method: each word of the name in title case
spec func titledN(words []string, n int) string =
    if n <= 0 then "" else titledN(words, n-1) + english().String(words[n-1])
  flags fuel=2

spec func methodName(i ast.Invoke) string = titledN(strings.Split(i.Function, "-"), len(strings.Split(i.Function, "-")))
  flags opaque=1

func ast.(Invoke).Method(i ast.Invoke) (result string)
  flags noalloc
  ensures [C03] name: result == methodName(i)
  inv ($i int, $s string) $s == titledN(strings.Split(i.Function, "-"), $i)

spec func method(ps []booklit.Plugin, i ast.Invoke) reflect.Value = methodN(ps, methodName(i), len(ps))
  flags macro=1
spec func isDefined(ps []booklit.Plugin, i ast.Invoke) bool = method(ps, i).IsValid()
  flags macro=1

spec func arity(m reflect.Value) int = if m.Type().IsVariadic() then m.Type().NumIn() - 1 else m.Type().NumIn()
  flags macro=1
spec func fits(m reflect.Value, n int) bool = if m.Type().IsVariadic() then n >= arity(m) else n == arity(m)
  flags macro=1
spec func param(m reflect.Value, i int) reflect.Type = if i < arity(m) then m.Type().In(i) else m.Type().In(arity(m)).Elem()
  flags macro=1
spec func isText(t reflect.Type) bool = reflect.New(t).Interface() is *string
  flags macro=1
spec func isContent(t reflect.Type) bool = reflect.New(t).Interface() is *booklit.Content
  flags macro=1
spec func isNode(t reflect.Type) bool = reflect.New(t).Interface() is *ast.Node
  flags macro=1
spec func isError(t reflect.Type) bool = reflect.New(t).Interface() is *error
  flags macro=1

// ---- evaluation ----

// the state after evaluating n for section s
spec func evW(w World, n ast.Node, s *booklit.Section) World = match n {
    case ast.Invoke(i): invW(w, i, s);
    case ast.Sequence(q): seqW(w, q, s, len(q));
    case ast.Paragraph(p): linesW(w, p, s, len(p));
    case ast.Preformatted(p): linesW(w, p, s, len(p));
    case ast.String: w;
    default: otherW(w, n, s) }
  flags fuel=2

// whether it succeeds
spec func evOK(w World, n ast.Node, s *booklit.Section) bool = match n {
    case ast.Invoke(i): invOK(w, i, s);
    case ast.Sequence(q): seqOK(w, q, s, len(q));
    case ast.Paragraph(p): linesOK(w, p, s, len(p));
    case ast.Preformatted(p): linesOK(w, p, s, len(p));
    case ast.String: true;
    default: otherOK(w, n, s) }
  flags fuel=2

// the content after adding that of n to acc
spec func evR(w World, n ast.Node, s *booklit.Section, acc booklit.Content) booklit.Content = match n {
    case ast.Invoke(i): invR(w, i, s, acc);
    case ast.Sequence(q): seqR(w, q, s, acc, len(q));
    case ast.Paragraph(p): paraR(acc, lines(w, p, s, len(p)));
    case ast.Preformatted(p): app(acc, booklit.Preformatted(lines(w, p, s, len(p))));
    case ast.String(t): app(acc, booklit.String(t));
    default: otherR(w, n, s, acc) }
  flags fuel=2

uninterp otherW(w World, n ast.Node, s *booklit.Section) World
uninterp otherOK(w World, n ast.Node, s *booklit.Section) bool
uninterp otherR(w World, n ast.Node, s *booklit.Section, acc booklit.Content) booklit.Content

spec func seqW(w World, q []ast.Node, s *booklit.Section, n int) World =
    if n <= 0 then w else evW(seqW(w, q, s, n-1), q[n-1], s)
  flags fuel=2
spec func seqOK(w World, q []ast.Node, s *booklit.Section, n int) bool =
    if n <= 0 then true else seqOK(w, q, s, n-1) && evOK(seqW(w, q, s, n-1), q[n-1], s)
  flags fuel=2
spec func seqR(w World, q []ast.Node, s *booklit.Section, acc booklit.Content, n int) booklit.Content =
    if n <= 0 then acc else evR(seqW(w, q, s, n-1), q[n-1], s, seqR(w, q, s, acc, n-1))
  flags fuel=2

spec func linesW(w World, ls []ast.Sequence, s *booklit.Section, n int) World =
    if n <= 0 then w else evW(linesW(w, ls, s, n-1), ls[n-1], s)
  flags fuel=2
spec func linesOK(w World, ls []ast.Sequence, s *booklit.Section, n int) bool =
    if n <= 0 then true else linesOK(w, ls, s, n-1) && evOK(linesW(w, ls, s, n-1), ls[n-1], s)
  flags fuel=2
spec func lineR(w World, ls []ast.Sequence, s *booklit.Section, i int) booklit.Content = evR(linesW(w, ls, s, i), ls[i], s, nil)
  flags macro=1
// the content of the lines which have any
spec func lines(w World, ls []ast.Sequence, s *booklit.Section, n int) []booklit.Content =
    if n <= 0 then []booklit.Content{}
    else if lineR(w, ls, s, n-1) == nil then lines(w, ls, s, n-1)
    else lines(w, ls, s, n-1) ++ []booklit.Content{lineR(w, ls, s, n-1)}
  flags fuel=2

spec func paraR(acc booklit.Content, cs []booklit.Content) booklit.Content =
    if len(cs) == 0 then acc
    else if len(cs) == 1 && !isFlow(cs[0]) then app(acc, cs[0])
    else app(acc, booklit.Paragraph(cs))
  flags fuel=2

// an argument which has no content is empty text
spec func argR(w World, n ast.Node, s *booklit.Section) booklit.Content = if evR(w, n, s, nil) == nil then booklit.Empty else evR(w, n, s, nil)
  flags macro=1

spec func argsW(w World, m reflect.Value, as []ast.Node, s *booklit.Section, n int) World =
    if n <= 0 then w
    else if isText(param(m, n-1)) || isContent(param(m, n-1)) then evW(argsW(w, m, as, s, n-1), as[n-1], s)
    else argsW(w, m, as, s, n-1)
  flags fuel=2
spec func argsOK(w World, m reflect.Value, as []ast.Node, s *booklit.Section, n int) bool =
    if n <= 0 then true
    else argsOK(w, m, as, s, n-1) && (if isText(param(m, n-1)) || isContent(param(m, n-1)) then evOK(argsW(w, m, as, s, n-1), as[n-1], s) else isNode(param(m, n-1)))
  flags fuel=2
spec func argV(w World, m reflect.Value, as []ast.Node, s *booklit.Section, i int) reflect.Value =
    if isText(param(m, i)) then reflect.ValueOf(textOf(argR(argsW(w, m, as, s, i), as[i], s)))
    else if isContent(param(m, i)) then reflect.ValueOf(argR(argsW(w, m, as, s, i), as[i], s))
    else reflect.ValueOf(as[i])
  flags macro=1
spec func argVs(w World, m reflect.Value, as []ast.Node, s *booklit.Section, n int) []reflect.Value =
    if n <= 0 then []reflect.Value{} else argVs(w, m, as, s, n-1) ++ []reflect.Value{argV(w, m, as, s, n-1)}
  flags fuel=2

// the call itself, once the method is known
spec func theW(w World, m reflect.Value, i ast.Invoke, s *booklit.Section) World =
    callW(argsW(w, m, i.Arguments, s, len(i.Arguments)), m, argVs(w, m, i.Arguments, s, len(i.Arguments)), i.Location)
  flags macro=1
spec func theR(w World, m reflect.Value, i ast.Invoke, s *booklit.Section) []reflect.Value =
    callR(argsW(w, m, i.Arguments, s, len(i.Arguments)), m, argVs(w, m, i.Arguments, s, len(i.Arguments)), i.Location)
  flags macro=1

spec func resOK(m reflect.Value, r []reflect.Value) bool =
    if m.Type().NumOut() == 0 then true
    else if m.Type().NumOut() == 1 then (if isError(m.Type().Out(0)) then r[0].Interface() == nil else isContent(m.Type().Out(0)))
    else m.Type().NumOut() == 2 && isError(m.Type().Out(1)) && r[1].Interface() == nil && isContent(m.Type().Out(0))
  flags macro=1

spec func invW(w World, i ast.Invoke, s *booklit.Section) World = theW(w, method(pluginsAt(w, s), i), i, s)
  flags fuel=2
spec func invOK(w World, i ast.Invoke, s *booklit.Section) bool =
    isDefined(pluginsAt(w, s), i) && fits(method(pluginsAt(w, s), i), len(i.Arguments)) && argsOK(w, method(pluginsAt(w, s), i), i.Arguments, s, len(i.Arguments)) && resOK(method(pluginsAt(w, s), i), theR(w, method(pluginsAt(w, s), i), i, s))
  flags fuel=2
spec func invR(w World, i ast.Invoke, s *booklit.Section, acc booklit.Content) booklit.Content =
    if method(pluginsAt(w, s), i).Type().NumOut() == 0 || isError(method(pluginsAt(w, s), i).Type().Out(0)) then acc
    else app(acc, theR(w, method(pluginsAt(w, s), i), i, s)[0].Interface())
  flags fuel=2


// the error a method returned
spec func failure(m reflect.Value, r []reflect.Value) any =
    if m.Type().NumOut() == 1 && isError(m.Type().Out(0)) then r[0].Interface()
    else if m.Type().NumOut() == 2 && isError(m.Type().Out(1)) then r[1].Interface()
    else nil
  flags macro=1

spec func callLoc(s *booklit.Section, i ast.Invoke) booklit.ErrorLocation =
    booklit.ErrorLocation{FilePath: filePath(s), NodeLocation: i.Location, Length: len("\\" + i.Function)}
  flags macro=1

// how a call reports the error which its method returned
spec func wrapped(f any, err error, s *booklit.Section, i ast.Invoke) bool =
    if f == nil then true
    else if f is booklit.PrettyError then err == f
    else err == booklit.FailedFunctionError{Function: i.Function, Err: f as error, ErrorLocation: callLoc(s, i)}
  flags macro=1

lemma seqOK_down(w World, q []ast.Node, s *booklit.Section, k int, n int)
  flags seed
  requires 0 <= k && k < n && !evOK(seqW(w, q, s, k), q[k], s)
  ensures !seqOK(w, q, s, n)
  decreases n
  use seqOK_down(w, q, s, k, n-1)
  trigger seqW(w, q, s, k), seqOK(w, q, s, n)

lemma linesOK_down(w World, q []ast.Sequence, s *booklit.Section, k int, n int)
  flags seed
  requires 0 <= k && k < n && !evOK(linesW(w, q, s, k), q[k], s)
  ensures !linesOK(w, q, s, n)
  decreases n
  use linesOK_down(w, q, s, k, n-1)
  trigger linesW(w, q, s, k), linesOK(w, q, s, n)

lemma argsOK_down(w World, m reflect.Value, as []ast.Node, s *booklit.Section, k int, n int)
  flags seed
  requires 0 <= k && k < n && !(if isText(param(m, k)) || isContent(param(m, k)) then evOK(argsW(w, m, as, s, k), as[k], s) else isNode(param(m, k)))
  ensures !argsOK(w, m, as, s, n)
  decreases n
  use argsOK_down(w, m, as, s, k, n-1)
  trigger argsW(w, m, as, s, k), argsOK(w, m, as, s, n)

// what evaluating for section s with evaluator v leaves alone
spec func ready(s *booklit.Section) bool = s != nil && coupled()
  flags macro=1

iface ast.Node.Visit(n ast.Node, visitor ast.Visitor) (err error)
  when visitor is *stages.Evaluate
  requires (visitor as *stages.Evaluate) != nil && (visitor as *stages.Evaluate).Section != nil
  requires coupled: coupled()
  requires [C24] unlocked: unlocked()
  modifies *
  ensures [C01,C03,C04] ok: err == nil <==> evOK(old($w), n, (visitor as *stages.Evaluate).Section)
  ensures [C01,C03,C04] state: err == nil ==> $w == evW(old($w), n, (visitor as *stages.Evaluate).Section)
  ensures [C01,C03,C04] content: err == nil ==> (visitor as *stages.Evaluate).Result == evR(old($w), n, (visitor as *stages.Evaluate).Section, old((visitor as *stages.Evaluate).Result))
  ensures [C01,C03,C04] coupled: coupled()
  ensures [C01] undisturbed: forall e *stages.Evaluate :: old(allocated(e)) && e != (visitor as *stages.Evaluate) ==> e.Result == old(e.Result)
  ensures [C04] others: forall s *booklit.Section :: old(allocated(s)) && s != (visitor as *stages.Evaluate).Section ==> s.Children == old(s.Children)

func stages.(*Evaluate).VisitString(eval *stages.Evaluate, str ast.String) (err error)
  requires eval != nil && eval.Section != nil
  requires coupled: coupled()
  requires [C24] unlocked: unlocked()
  modifies *
  ensures [C01,C03,C04] content: err == nil && $w == old($w) && eval.Result == app(old(eval.Result), booklit.String(str))
  ensures [C01,C03,C04] coupled: coupled()
  ensures [C01] undisturbed: forall e *stages.Evaluate :: old(allocated(e)) && e != eval ==> e.Result == old(e.Result)
  ensures [C04] others: forall s *booklit.Section :: old(allocated(s)) && s != eval.Section ==> s.Children == old(s.Children)

func stages.(*Evaluate).VisitParagraph(eval *stages.Evaluate, node ast.Paragraph) (err error)
  requires eval != nil && eval.Section != nil
  requires coupled: coupled()
  requires [C24] unlocked: unlocked()
  modifies *
  ensures [C01,C03,C04] ok: err == nil <==> linesOK(old($w), node, eval.Section, len(node))
  ensures [C01,C03,C04] state: err == nil ==> $w == linesW(old($w), node, eval.Section, len(node))
  ensures [C01,C03,C04] content: err == nil ==> eval.Result == paraR(old(eval.Result), lines(old($w), node, eval.Section, len(node)))
  ensures [C01,C03,C04] coupled: coupled()
  ensures [C01] undisturbed: forall e *stages.Evaluate :: old(allocated(e)) && e != eval ==> e.Result == old(e.Result)
  ensures [C04] others: forall s *booklit.Section :: old(allocated(s)) && s != eval.Section ==> s.Children == old(s.Children)
  inv ($i int, $p booklit.Paragraph) linesOK(old($w), node, eval.Section, $i) && $w == linesW(old($w), node, eval.Section, $i) && $p == lines(old($w), node, eval.Section, $i)
  inv ($i int) coupled()
  inv ($i int) forall e *stages.Evaluate :: old(allocated(e)) && e != eval ==> e.Result == old(e.Result)
  inv ($i int) forall s *booklit.Section :: old(allocated(s)) && s != eval.Section ==> s.Children == old(s.Children)

func stages.(*Evaluate).VisitSequence(eval *stages.Evaluate, node ast.Sequence) (err error)
  requires eval != nil && eval.Section != nil
  requires coupled: coupled()
  requires [C24] unlocked: unlocked()
  modifies *
  ensures [C01,C03,C04] ok: err == nil <==> seqOK(old($w), node, eval.Section, len(node))
  ensures [C01,C03,C04] state: err == nil ==> $w == seqW(old($w), node, eval.Section, len(node))
  ensures [C01,C03,C04] content: err == nil ==> eval.Result == seqR(old($w), node, eval.Section, old(eval.Result), len(node))
  ensures [C01,C03,C04] coupled: coupled()
  ensures [C01] undisturbed: forall e *stages.Evaluate :: old(allocated(e)) && e != eval ==> e.Result == old(e.Result)
  ensures [C04] others: forall s *booklit.Section :: old(allocated(s)) && s != eval.Section ==> s.Children == old(s.Children)
  inv ($i int) seqOK(old($w), node, eval.Section, $i) && $w == seqW(old($w), node, eval.Section, $i) && eval.Result == seqR(old($w), node, eval.Section, old(eval.Result), $i)
  inv ($i int) coupled()
  inv ($i int) forall e *stages.Evaluate :: old(allocated(e)) && e != eval ==> e.Result == old(e.Result)
  inv ($i int) forall s *booklit.Section :: old(allocated(s)) && s != eval.Section ==> s.Children == old(s.Children)

func stages.(*Evaluate).VisitPreformatted(eval *stages.Evaluate, node ast.Preformatted) (err error)
  requires eval != nil && eval.Section != nil
  requires coupled: coupled()
  requires [C24] unlocked: unlocked()
  modifies *
  ensures [C01,C03,C04] ok: err == nil <==> linesOK(old($w), node, eval.Section, len(node))
  ensures [C01,C03,C04] state: err == nil ==> $w == linesW(old($w), node, eval.Section, len(node))
  ensures [C01,C03,C04] content: err == nil ==> eval.Result == app(old(eval.Result), booklit.Preformatted(lines(old($w), node, eval.Section, len(node))))
  ensures [C01,C03,C04] coupled: coupled()
  ensures [C01] undisturbed: forall e *stages.Evaluate :: old(allocated(e)) && e != eval ==> e.Result == old(e.Result)
  ensures [C04] others: forall s *booklit.Section :: old(allocated(s)) && s != eval.Section ==> s.Children == old(s.Children)
  inv ($i int, $p booklit.Preformatted) linesOK(old($w), node, eval.Section, $i) && $w == linesW(old($w), node, eval.Section, $i) && $p == lines(old($w), node, eval.Section, $i)
  inv ($i int) coupled()
  inv ($i int) forall e *stages.Evaluate :: old(allocated(e)) && e != eval ==> e.Result == old(e.Result)
  inv ($i int) forall s *booklit.Section :: old(allocated(s)) && s != eval.Section ==> s.Children == old(s.Children)

func stages.(Evaluate).evalArg(eval stages.Evaluate, node ast.Node) (result booklit.Content, err error)
  requires eval.Section != nil
  requires coupled: coupled()
  requires [C24] unlocked: unlocked()
  modifies *
  ensures [C01,C03,C04] ok: err == nil <==> evOK(old($w), node, eval.Section)
  ensures [C01,C03,C04] state: err == nil ==> $w == evW(old($w), node, eval.Section)
  ensures [C01,C03,C04] content: err == nil ==> result == argR(old($w), node, eval.Section)
  ensures [C01,C03,C04] coupled: coupled()
  ensures [C01] undisturbed: forall e *stages.Evaluate :: old(allocated(e)) ==> e.Result == old(e.Result)
  ensures [C04] others: forall s *booklit.Section :: old(allocated(s)) && s != eval.Section ==> s.Children == old(s.Children)

func stages.(Evaluate).convert(eval stages.Evaluate, to reflect.Type, node ast.Node) (result reflect.Value, err error)
  requires eval.Section != nil
  requires coupled: coupled()
  requires [C24] unlocked: unlocked()
  modifies *
  ensures [C01,C03,C04] ok: err == nil <==> (if isText(to) || isContent(to) then evOK(old($w), node, eval.Section) else isNode(to))
  ensures [C01,C03,C04] state: err == nil ==> $w == (if isText(to) || isContent(to) then evW(old($w), node, eval.Section) else old($w))
  ensures [C01,C03,C04] content: err == nil ==> result == (if isText(to) then reflect.ValueOf(textOf(argR(old($w), node, eval.Section))) else if isContent(to) then reflect.ValueOf(argR(old($w), node, eval.Section)) else reflect.ValueOf(node))
  ensures [C01,C03,C04] coupled: coupled()
  ensures [C01] undisturbed: forall e *stages.Evaluate :: old(allocated(e)) ==> e.Result == old(e.Result)
  ensures [C04] others: forall s *booklit.Section :: old(allocated(s)) && s != eval.Section ==> s.Children == old(s.Children)

func stages.(*Evaluate).VisitInvoke(eval *stages.Evaluate, invoke ast.Invoke) (err error)
  requires eval != nil && eval.Section != nil
  requires coupled: coupled()
  requires [C24] unlocked: unlocked()
  modifies *
  ensures [C01,C03,C04] ok: err == nil <==> invOK(old($w), invoke, eval.Section)
  ensures [C01,C03,C04] state: err == nil ==> $w == invW(old($w), invoke, eval.Section)
  ensures [C01,C03,C04] content: err == nil ==> eval.Result == invR(old($w), invoke, eval.Section, old(eval.Result))
  ensures [C01,C03,C04] coupled: coupled()
  ensures [C01] undisturbed: forall e *stages.Evaluate :: old(allocated(e)) && e != eval ==> e.Result == old(e.Result)
  ensures [C04] others: forall s *booklit.Section :: old(allocated(s)) && s != eval.Section ==> s.Children == old(s.Children)
  ensures [C03,C15] undefined: !isDefined(pluginsAt(old($w), eval.Section), invoke) ==> err == booklit.UndefinedFunctionError{Function: invoke.Function, ErrorLocation: callLoc(eval.Section, invoke)}
  ensures [C03,C15] wraps: err != nil && isDefined(pluginsAt(old($w), eval.Section), invoke) && fits(method(pluginsAt(old($w), eval.Section), invoke), len(invoke.Arguments)) && argsOK(old($w), method(pluginsAt(old($w), eval.Section), invoke), invoke.Arguments, eval.Section, len(invoke.Arguments)) ==> wrapped(failure(method(pluginsAt(old($w), eval.Section), invoke), theR(old($w), method(pluginsAt(old($w), eval.Section), invoke), invoke, eval.Section)), err, eval.Section, invoke)
  inv ($i int, $c []booklit.Plugin, $m reflect.Value) $c == pluginsAt(old($w), eval.Section) && $m == methodN(pluginsAt(old($w), eval.Section), methodName(invoke), $i)
  inv ($m reflect.Value) !$m.IsValid()
  fold ($m reflect.Value) method(pluginsAt(old($w), eval.Section), invoke)
  inv ($i int, $r []reflect.Value) argsOK(old($w), method(pluginsAt(old($w), eval.Section), invoke), invoke.Arguments, eval.Section, $i) && $w == argsW(old($w), method(pluginsAt(old($w), eval.Section), invoke), invoke.Arguments, eval.Section, $i)
  inv ($i int, $r []reflect.Value) $r[:$i] == argVs(old($w), method(pluginsAt(old($w), eval.Section), invoke), invoke.Arguments, eval.Section, $i) && len($r) == arity(method(pluginsAt(old($w), eval.Section), invoke))
  inv ($i int, $p []reflect.Value) len($p) == arity(method(pluginsAt(old($w), eval.Section), invoke)) + $i
  inv ($p []reflect.Value) argsOK(old($w), method(pluginsAt(old($w), eval.Section), invoke), invoke.Arguments, eval.Section, len($p)) && $w == argsW(old($w), method(pluginsAt(old($w), eval.Section), invoke), invoke.Arguments, eval.Section, len($p))
  inv ($p []reflect.Value) $p == argVs(old($w), method(pluginsAt(old($w), eval.Section), invoke), invoke.Arguments, eval.Section, len($p))
  inv ($i int) coupled()
  inv ($i int) forall e *stages.Evaluate :: old(allocated(e)) ==> e.Result == old(e.Result)
  inv ($i int) forall s *booklit.Section :: old(allocated(s)) && s != eval.Section ==> s.Children == old(s.Children)
