NA = {
 "C20": "safety obligations are generated for every function under contract, but 121 of 2522 are not discharged: that content nested in other content is never absent is not an invariant this code establishes (plugins build the values), and no contract within reach expresses it for values made outside the module; see DESIGN.md",
 "C21": "the parser is a generated, table-driven PEG interpreter whose behaviour is in the grammar data: contracts on its functions cannot state the property short of formalising PEG semantics, and contracts on the semantic actions alone would not decide it",
}
claim("C02", CT, "proof", TRUST + "Append is proved for all content, argument lists and histories; that joined slices are not written to later is an ownership obligation in every function under contract.")
claim("C08", CT, "proof", TRUST + "All navigation methods of Section are proved for all trees (children non-nil is a checked field invariant; parent chains acyclic).")
claim("C11", CT, "proof", TRUST + "StripAux and all visitor methods are proved for all acyclic content; fields of references are immutable after construction (checked in functions under contract); content implemented outside the module is unchanged by stripping.")
claim("C05", CT, "proof", TRUST + "SetTitle, SetTag, SetTagAnchored, the derived tag and the Title function are proved; the text of content (String) is an uninterpreted function of the content, and the regular expression replacements are uninterpreted library calls whose patterns are fixed in the contract.")
claim("C07", CT, "proof", TRUST + "FindTag, resolve, Tag and Display are proved for every tree in which each section on the way up is once among the children of its parent (the harness checks that for loaded documents).")
claim("C22", CT, "proof", TRUST + "Force, LazyFlow, LazyBlock, IsFlow, String and the visitors which must not compute (Collect, StripAux) are proved; that sync.Once runs its function exactly once under concurrent calls is its documented contract, assumed; interleavings of uses are only sampled by the harness.")
claim("C18", CT, "proof", TRUST + "Every function of the base plugin but UsePlugin, Title, Section and IncludeSection (C04, C05) is proved, frame included.")
claim("C01", CT, "proof", TRUST + "The evaluator (text, sequences, paragraphs, preformatted blocks, calls, conversion of arguments) is proved against a recursive definition of what a syntax tree evaluates to; what plugins return is an uninterpreted function of the state and the arguments.")
claim("C03", CT, "proof", TRUST + "VisitInvoke, convert, evalArg and Method are proved for all plugin lists, signatures and arguments; reflection is modelled by its documented meaning (trusted externs).")
claim("C06", CT, "proof", TRUST + "All methods of Collect are proved for all content and all finite section trees in which each section is once; sections used as content, the display text of references and deferred content are not collected by design.")
claim("C09", CT, "proof", TRUST + "The page a section is on, its URL, the files the writer opens and renders into and the splitting functions of the base plugin are proved for all finite trees; that documents call those functions in every order is by the evaluator's contract (C01), sampled end to end by the harness.")
claim("C10", CT, "proof", TRUST + "The index handed to the JSON encoder is proved to have exactly the tags of the tree with their fields; encoding itself is library code, sampled by the harness.")
claim("C13", CT, "proof", TRUST + "LoadTemplates of both engines is proved against an abstract file system in which a file has one content at a given modification time; the result of Clone, New and Parse is modelled by the documented meaning of the template libraries.")
claim("C16", CT, "proof", TRUST + "Every visitor method, page rendering and nested rendering of both engines is proved; what templates do when executed, and HTML escaping, are library code, sampled by the harness.")
claim("C04", CT, "proof", TRUST + "LoadFile, EvaluateFile, EvaluateNode, Section, IncludeSection, UsePlugin and the lookup of plugins are proved; that including sections terminates is not (sections which include themselves are excluded); that what is evaluated is a finite tree is assumed.")
claim("C12", CT, "proof", TRUST + "The cache of parsed files is proved to be what is in the files for every history of loads and changes, given that a file has one content at a given modification time and does not change while it is being loaded.")
claim("C14", CT, "proof", TRUST + "ServeHTTP and all it calls in the module are proved for every request and state; what templates, the file server and http.ResponseWriter do is modelled (the error page's claim is under the condition that its template executes and the client takes what it is sent). Status codes and bodies are compared end to end by the harness.")
claim("C23", CT, "proof", TRUST + "Build is proved for every configuration: which engine, templates and section, where to, the index and the failures. Parsing the command line and re-executing with plugins are not under contract.")
claim("C24", CT, "proof", TRUST + "Guarded-by obligations: every access to the parse cache and to the engine of a server is made with its lock held, locks are released on every path and never taken twice; the handling of a request is otherwise confined to what it allocated. Interleavings themselves are reduced to this lock discipline (mutexes give mutual exclusion, sync.Once runs once); the goroutine of a slow-call warning is not under contract. The harness runs concurrent requests under the race detector.")
claim("C19", CT, "proof", TRUST + "Every function of the module under contract is proved to leave the set of open files as it was on every path (ghost state changed by os.Open, os.OpenFile, os.Create and Close only), explaining errors and the command's profile included. Libraries and plugins are assumed to close what they open; the generated ast.ParseFile, which nothing calls, is not under contract.")

claim("C15", CT, "proof", TRUST + "The lines shown, their marks, the messages and the locations put into errors are proved for every file, line, column and length, with bufio modelled line by line; PrettyPrint of ambiguous references and failed functions and the locations of parse errors are sampled by the harness, as is what the error templates print.")
claim("C17", CT, "proof", TRUST + "TransformAll, SyntaxTransform and Syntax are proved for every text, pattern and list of transformers; lexers, formatters and regular expressions are library code (their results are functions of their arguments), and transforms are functions of the text.")
