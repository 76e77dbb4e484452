// contracts on loading (C04, C12)

valuemap map[string]load.parsedNode
valuemap map[string]booklit.PluginFactory

// ---- plugins ----

// making a plugin for a section: what it is, and the state afterwards
uninterp made(w World, pf booklit.PluginFactory, s *booklit.Section) booklit.Plugin
uninterp used(w World, pf booklit.PluginFactory, s *booklit.Section) World

axiom used_own(w World, pf booklit.PluginFactory, s *booklit.Section)
  ensures pluginsAt(used(w, pf, s), s) == pluginsAt(w, s) ++ []booklit.Plugin{made(w, pf, s)} && factoriesAt(used(w, pf, s), s) == factoriesAt(w, s) ++ []booklit.PluginFactory{pf}
  trigger used(w, pf, s)

axiom used_other(w World, pf booklit.PluginFactory, s *booklit.Section, x *booklit.Section)
  ensures x != s ==> pluginsAt(used(w, pf, s), x) == pluginsAt(w, x)
  trigger pluginsAt(used(w, pf, s), x)

axiom used_other_factories(w World, pf booklit.PluginFactory, s *booklit.Section, x *booklit.Section)
  ensures x != s ==> factoriesAt(used(w, pf, s), x) == factoriesAt(w, x)
  trigger factoriesAt(used(w, pf, s), x)

// a factory makes a plugin and changes nothing that exists
functype booklit.PluginFactory(pf booklit.PluginFactory, s *booklit.Section) (p booklit.Plugin)
  flags noalloc
  modifies $w
  ensures p == made(old($w), pf, s) && $w == used(old($w), pf, s)

// the state after using the first n factories
spec func usedN(w World, pfs []booklit.PluginFactory, s *booklit.Section, n int) World =
    if n <= 0 then w else used(usedN(w, pfs, s, n-1), pfs[n-1], s)
  flags fuel=2

func booklit.(*Section).UsePlugin(con *booklit.Section, pf booklit.PluginFactory) ()
  requires con != nil
  requires coupled: coupled()
  requires [C24] unlocked: unlocked()
  modifies $w, booklit.Section.Plugins at con, booklit.Section.PluginFactories at con
  ensures [C04] plugin: con.Plugins == old(con.Plugins) ++ []booklit.Plugin{made(old($w), pf, con)}
  ensures [C04] factory: con.PluginFactories == old(con.PluginFactories) ++ []booklit.PluginFactory{pf}
  ensures [C04] state: $w == used(old($w), pf, con)
  ensures [C04] coupled: coupled()

func booklit.RegisterPlugin(name string, factory booklit.PluginFactory) ()
  modifies booklit.plugins
  ensures [C04] registered: booklit.plugins == old(booklit.plugins)[name := factory]

func booklit.LookupPlugin(name string) (pf booklit.PluginFactory, found bool)
  flags noalloc
  ensures [C04] found: found == has(booklit.plugins, name)
  ensures [C04] which: found ==> pf == booklit.plugins[name]

func baselit.(Plugin).UsePlugin(plugin baselit.Plugin, name string) (err error)
  requires plugin.section != nil
  requires coupled: coupled()
  requires [C24] unlocked: unlocked()
  modifies $w, booklit.Section.Plugins at plugin.section, booklit.Section.PluginFactories at plugin.section
  ensures [C04] known: err == nil <==> has(booklit.plugins, name)
  ensures [C04] used: err == nil ==> plugin.section.Plugins == old(plugin.section.Plugins) ++ []booklit.Plugin{made(old($w), booklit.plugins[name], plugin.section)} && plugin.section.PluginFactories == old(plugin.section.PluginFactories) ++ []booklit.PluginFactory{booklit.plugins[name]}
  ensures [C04] failed: err != nil ==> plugin.section.Plugins == old(plugin.section.Plugins) && plugin.section.PluginFactories == old(plugin.section.PluginFactories) && $w == old($w)
  ensures [C04] coupled: coupled()

func baselit.NewPlugin(section *booklit.Section) (result booklit.Plugin)
  ensures [C04] plugin: result == booklit.Plugin(baselit.Plugin{section: section})

// ---- parsing ----

// what a file parses to, with the content it has at a given modification time
uninterp parsedAt(path string, at int) ast.Node

spec func goodCache(m map[string]load.parsedNode) bool = forall p string :: has(m, p) ==> m[p].Node == parsedAt(p, instant(m[p].ModTime))
  flags opaque=1
lemma goodCache_empty(m map[string]load.parsedNode)
  requires len(m) == 0
  ensures goodCache(m)
  trigger goodCache(m)
fieldinv load.Processor.parsed by goodCache [C12]

extern os.Open(name string) (file *os.File, err error)
  flags noalloc
  modifies $h
  ensures err == nil ==> file != nil && pathOf(file) == name && $h == opened(old($h), file)
  ensures readable($fs, name) ==> err == nil
  ensures err != nil ==> file == nil && $h == old($h)

// a file is closed even if that is reported to have failed
extern os.(*File).Close(f *os.File) (err error)
  flags noalloc
  modifies $h
  ensures $h == closed(old($h), f)

// trusted: reads all of the file and parses it (C21)
extern ast.ParseReader(filename string, r io.Reader, opts []ast.Option) (result any, err error)
  flags noalloc
  ensures err == nil && r is *os.File && len(opts) == 0 ==> result is ast.Node && (result as ast.Node) == parsedAt(pathOf(r as *os.File), instant(modTime($fs, pathOf(r as *os.File))))

extern ast.UnpackError(err error) (result *ast.Error, ok bool)
  flags noalloc
  ensures ok ==> result != nil

// ---- evaluating ----

// w is the state in which section s is evaluated
spec func inheritsW(w World, pfs []booklit.PluginFactory, s *booklit.Section) World = usedN(w, pfs, s, len(pfs))
  flags macro=1

func load.(*Processor).evaluateSection(processor *load.Processor, section *booklit.Section, node ast.Node, pluginFactories []booklit.PluginFactory) (err error)
  requires processor != nil && section != nil
  requires [C20] present: node != nil
  requires coupled: coupled()
  requires [C24] unlocked: unlocked()
  requires [C04] new: section.Body == booklit.Empty
  modifies *
  ensures [C04] ok: err == nil <==> evOK(inheritsW(old($w), pluginFactories, section), node, section)
  ensures [C04] state: err == nil ==> $w == evW(inheritsW(old($w), pluginFactories, section), node, section)
  ensures [C04] body: err == nil && evR(inheritsW(old($w), pluginFactories, section), node, section, nil) != nil ==> section.Body == evR(inheritsW(old($w), pluginFactories, section), node, section, nil)
  ensures [C04] coupled: coupled()
  ensures [C04] others: forall s *booklit.Section :: old(allocated(s)) && s != section ==> s.Children == old(s.Children)
  inv ($i int, $c []booklit.PluginFactory) $c == pluginFactories && $w == usedN(old($w), pluginFactories, section, $i)
  inv coupled()
  inv forall s *booklit.Section :: old(allocated(s)) ==> s.Children == old(s.Children)

// a section made by evaluating node in state w for a parent, with these plugins
spec func evaluated(w World, w2 World, s *booklit.Section, parent *booklit.Section, path string, node ast.Node, pfs []booklit.PluginFactory) bool =
    s.Parent == parent && s.Path == path && evOK(inheritsW(w, pfs, s), node, s) && w2 == evW(inheritsW(w, pfs, s), node, s) && (evR(inheritsW(w, pfs, s), node, s, nil) != nil ==> s.Body == evR(inheritsW(w, pfs, s), node, s, nil))
  flags macro=1

iface booklit.SectionProcessor.EvaluateNode(processor booklit.SectionProcessor, parent *booklit.Section, node ast.Node, pluginFactories []booklit.PluginFactory) (result *booklit.Section, err error)
  requires processor is *load.Processor ==> (processor as *load.Processor) != nil
  requires coupled: coupled()
  requires [C24] unlocked: unlocked()
  requires [C20] present: node != nil
  modifies *
  ensures [C04] section: err == nil ==> fresh(result) && evaluated(old($w), $w, result, parent, "", node, pluginFactories)
  ensures [C04] coupled: err == nil ==> coupled()
  ensures [C04] others: forall s *booklit.Section :: old(allocated(s)) ==> s.Children == old(s.Children)

iface booklit.SectionProcessor.EvaluateFile(processor booklit.SectionProcessor, parent *booklit.Section, path string, pluginFactories []booklit.PluginFactory) (result *booklit.Section, err error)
  requires processor is *load.Processor ==> (processor as *load.Processor) != nil
  requires coupled: coupled()
  requires [C24] unlocked: unlocked()
  modifies *
  ensures [C04,C12] section: err == nil ==> fresh(result) && evaluated(old($w), $w, result, parent, path, parsedAt(path, instant(modTime(old($fs), path))), pluginFactories)
  ensures [C04] coupled: err == nil ==> coupled()
  ensures [C04] others: forall s *booklit.Section :: old(allocated(s)) ==> s.Children == old(s.Children)

func load.(*Processor).EvaluateNode(processor *load.Processor, parent *booklit.Section, node ast.Node, pluginFactories []booklit.PluginFactory) (result *booklit.Section, err error)
  requires processor != nil
  requires coupled: coupled()
  requires [C24] unlocked: unlocked()
  requires [C20] present: node != nil
  modifies *
  ensures [C04] section: err == nil ==> fresh(result) && evaluated(old($w), $w, result, parent, "", node, pluginFactories)
  ensures [C04] processor: err == nil ==> result.Processor == booklit.SectionProcessor(processor)
  ensures [C04] coupled: err == nil ==> coupled()
  ensures [C04] others: forall s *booklit.Section :: old(allocated(s)) ==> s.Children == old(s.Children)

func load.(*Processor).EvaluateFile(processor *load.Processor, parent *booklit.Section, path string, pluginFactories []booklit.PluginFactory) (result *booklit.Section, err error)
  requires processor != nil
  requires coupled: coupled()
  requires [C24] unlocked: unlocked()
  modifies *
  ensures [C04,C12] section: err == nil ==> fresh(result) && evaluated(old($w), $w, result, parent, path, parsedAt(path, instant(modTime(old($fs), path))), pluginFactories)
  ensures [C04] processor: err == nil ==> result.Processor == booklit.SectionProcessor(processor)
  ensures [C04] coupled: err == nil ==> coupled()
  ensures [C04] others: forall s *booklit.Section :: old(allocated(s)) ==> s.Children == old(s.Children)

// that what has been evaluated is a finite tree of sections is assumed
func load.(*Processor).runStages(processor *load.Processor, section *booklit.Section) (result *booklit.Section, err error)
  requires section != nil
  requires [C06] tree: once(section) && plainSection(section) && (forall x *booklit.Section :: occurs(x, section.Children, len(section.Children)) >= 1 ==> x != nil && plainSection(x))
  modifies booklit.Section.Tags
  ensures [C23] coupled: old(coupled()) ==> coupled()
  ensures [C04,C12] same: err == nil ==> result == section
  ensures [C06] collected: err == nil && section.Tags == old(section.Tags) ++ ownTargets(section)

func load.(*Processor).LoadFileIn(processor *load.Processor, parent *booklit.Section, path string, pluginFactories []booklit.PluginFactory) (result *booklit.Section, err error)
  requires processor != nil
  requires coupled: coupled()
  requires [C24] unlocked: unlocked()
  props C04, C12, C14, C23, C24
  modifies *
  ensures [C23] coupled: err == nil ==> coupled()
  ensures [C04,C12] section: err == nil ==> fresh(result) && evaluated(old($w), $w, result, parent, path, parsedAt(path, instant(modTime(old($fs), path))), pluginFactories)

func load.(*Processor).LoadFile(processor *load.Processor, path string, pluginFactories []booklit.PluginFactory) (result *booklit.Section, err error)
  requires processor != nil
  requires coupled: coupled()
  requires [C24] unlocked: unlocked()
  modifies *
  ensures [C23] coupled: err == nil ==> coupled()
  ensures [C04,C12] section: err == nil ==> fresh(result) && evaluated(old($w), $w, result, nil, path, parsedAt(path, instant(modTime(old($fs), path))), pluginFactories)

// ---- sections of the base plugin ----

func baselit.(Plugin).Section(plugin baselit.Plugin, node ast.Node) (err error)
  requires plugin.section != nil && allocated(plugin.section) && plugin.section.Processor != nil && (plugin.section.Processor is *load.Processor ==> (plugin.section.Processor as *load.Processor) != nil)
  requires coupled: coupled()
  requires [C24] unlocked: unlocked()
  requires [C20] present: node != nil
  modifies *
  ensures [C04] child: err == nil ==> len(plugin.section.Children) == len(old(plugin.section.Children)) + 1 && plugin.section.Children[:len(old(plugin.section.Children))] == old(plugin.section.Children)
  ensures [C04] section: err == nil ==> fresh(plugin.section.Children[len(plugin.section.Children)-1]) && evaluated(old($w), $w, plugin.section.Children[len(plugin.section.Children)-1], plugin.section, "", node, old(plugin.section.PluginFactories))
  ensures [C04] none: err != nil ==> plugin.section.Children == old(plugin.section.Children)
  ensures [C04] others: forall s *booklit.Section :: old(allocated(s)) && s != plugin.section ==> s.Children == old(s.Children)

func baselit.(Plugin).IncludeSection(plugin baselit.Plugin, path string) (err error)
  requires plugin.section != nil && allocated(plugin.section) && plugin.section.Processor != nil && (plugin.section.Processor is *load.Processor ==> (plugin.section.Processor as *load.Processor) != nil)
  requires coupled: coupled()
  requires [C24] unlocked: unlocked()
  modifies *
  ensures [C04] child: err == nil ==> len(plugin.section.Children) == len(old(plugin.section.Children)) + 1 && plugin.section.Children[:len(old(plugin.section.Children))] == old(plugin.section.Children)
  ensures [C04] section: err == nil ==> fresh(plugin.section.Children[len(plugin.section.Children)-1]) && evaluated(old($w), $w, plugin.section.Children[len(plugin.section.Children)-1], plugin.section, includedPath(plugin.section, path), parsedAt(includedPath(plugin.section, path), instant(modTime(old($fs), includedPath(plugin.section, path)))), []booklit.PluginFactory{baselit.NewPlugin})
  ensures [C04] none: err != nil ==> plugin.section.Children == old(plugin.section.Children)
  ensures [C04] others: forall s *booklit.Section :: old(allocated(s)) && s != plugin.section ==> s.Children == old(s.Children)

// relative to the file which contains the include
spec func includedPath(s *booklit.Section, path string) string = filepath.Join([]string{filepath.Dir(filePath(s)), path})
  flags macro=1

// ---- sharing ----

guard load.Processor.parsed by load.Processor.parsedL
