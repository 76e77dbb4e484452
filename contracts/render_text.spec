// contracts on the TextEngine engine (C16, C13); the same as those on the other engine

func render.(*TextEngine).setTmpl(engine *render.TextEngine, name string) (err error)
  requires engine != nil
  modifies render.TextEngine.template at engine
  ensures [C16] found: lookup(engine.tmpl, $set[engine.tmpl], name ++ ".tmpl") != nil ==> err == nil && engine.template == lookup(engine.tmpl, $set[engine.tmpl], name ++ ".tmpl")
  ensures [C16] missing: lookup(engine.tmpl, $set[engine.tmpl], name ++ ".tmpl") == nil ==> err != nil && engine.template == old(engine.template)

iface booklit.Content.Visit(c booklit.Content, visitor booklit.Visitor) (err error)
  when visitor is *render.TextEngine
  requires visitor as *render.TextEngine != nil && ownGuards()
  requires [C20] present: c != nil && (c is *booklit.Lazy ==> c as *booklit.Lazy != nil)
  modifies *
  ensures [C16] template: shown((visitor as *render.TextEngine).tmpl, $set[(visitor as *render.TextEngine).tmpl], c, (visitor as *render.TextEngine).template, (visitor as *render.TextEngine).data, err)
  ensures [C16] set: !(c is *booklit.Lazy) && !(c is booklit.Aux) ==> (visitor as *render.TextEngine).tmpl == old((visitor as *render.TextEngine).tmpl)
  ensures guards: ownGuards()
  ensures buffers: forall b *bytes.Buffer :: old(allocated(b)) ==> $text[b] == old($text[b])
  ensures settled: forall l *booklit.Lazy :: l != nil && old($once[l.once]) ==> $once[l.once] && l.result == old(l.result) && l.err == old(l.err)

func render.(*TextEngine).render(engine *render.TextEngine, out io.Writer) (err error)
  requires engine != nil
  modifies $out, $text, $lastTemplate, $lastData, $lastOut, booklit.Reference.tag, booklit.Lazy.result, booklit.Lazy.err, $once, $forced
  ensures [C14] only: $out == old($out) || onlyTo(old($out), $out, out)
  ensures [C16] template: err == nil ==> engine.template != nil && $out == executed(old($out), out, engine.template, engine.data) && $lastTemplate == engine.template && $lastData == engine.data && $lastOut == old($out)
  ensures [C16] text: err == nil && out is *bytes.Buffer ==> $text[out as *bytes.Buffer] == old($text[out as *bytes.Buffer]) ++ rendering(old($out), engine.template, engine.data)

func render.(*TextEngine).RenderSection(engine *render.TextEngine, out io.Writer, con *booklit.Section) (err error)
  requires engine != nil && con != nil
  modifies render.TextEngine.template at engine, render.TextEngine.data at engine, $out, $text, $lastTemplate, $lastData, $lastOut, booklit.Reference.tag, booklit.Lazy.result, booklit.Lazy.err, $once, $forced
  ensures [C14] only: $out == old($out) || onlyTo(old($out), $out, out)
  ensures [C14] last: err == nil ==> $lastTemplate == pageTmpl(engine.tmpl, $set[engine.tmpl], con) && $lastData == con && $lastOut == old($out)
  ensures [C16,C09] page: err == nil ==> pageTmpl(engine.tmpl, $set[engine.tmpl], con) != nil && $out == executed(old($out), out, pageTmpl(engine.tmpl, $set[engine.tmpl], con), con)
  ensures [C16,C14] text: err == nil && out is *bytes.Buffer ==> $text[out as *bytes.Buffer] == old($text[out as *bytes.Buffer]) ++ rendering(old($out), pageTmpl(engine.tmpl, $set[engine.tmpl], con), con)
  inv ($i int, $err error) $i == 0 || $err != nil
  inv ($i int, $c []string) $i >= 1 ==> lookup(engine.tmpl, $set[engine.tmpl], $c[$i-1] ++ ".tmpl") == nil

func render.(*TextEngine).subRender(engine *render.TextEngine, content booklit.Content) (result string, err error)
  requires engine != nil && ownGuards()
  requires [C20] present: content != nil && (content is *booklit.Lazy ==> content as *booklit.Lazy != nil)
  modifies *, $out
  ensures [C16] text: err == nil ==> result == rendering($lastOut, $lastTemplate, $lastData)
  ensures [C16] template: err == nil && !(content is *booklit.Lazy) && !(content is booklit.Aux) ==> shown(old(engine.tmpl), $set[old(engine.tmpl)], content, $lastTemplate, $lastData, nil)
