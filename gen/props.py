import json
P=[]
def p(id,title,statement,over,qtext,why,files,mech,observe,state=None):
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":qtext},"why_tests_cant":why,
      "anchors":{"files":files,"state":state or [],"mechanism":[{"name":a,"where":b} for a,b in mech],"observe_at":observe,"hook_needed":None}})
p("C01","Parsing any input ends in a tree or an error, never a panic or a silent cut",
"For every byte stream, including one whose reads fail at any point, and every combination of parse options, parsing returns either a tree and no error or no tree and an error; it never panics. An unclosed or mismatched delimiter, an unterminated string, a reader prefix without its form, an unreadable dispatch form, an unrecognized token and a read failure are each reported as an error instead of yielding a tree.",
["inputs","fault_sequences","configurations"],"all byte streams, all points at which the reader may fail, all 8 option sets (nesting depth bounded only by the Go stack)",
"TestAll and friends parse about 45 short snippets; the lexer/parser hand-off has 'should not happen' panics whose unreachability depends on every token sequence the lexer can emit, and no test injects a read failure.",
["parse/lex.go","parse/parse.go"],[("lexer states and their token protocol","parse/lex.go lexOuter, lexDispatch, ..."),("parser error panics recovered at the top","parse/parse.go parse, recover"),("read failures turned into an error token","parse/lex.go next, run")],["parse.Reader","parse.File"])
p("C02","Every token keeps its exact source text and position",
"In the tree of an accepted valid-UTF-8 input, every node's position (byte offset, line, and byte column) is that of the first byte of its source text, and the text of every symbol, keyword, number, character, string, regex, tag, var quote and comment is exactly the source text it was read from. Only whitespace and commas lie outside tokens, and tokens extend as far as the documented character classes allow.",
["inputs"],"all valid UTF-8 inputs, every token in them",
"No test looks at offsets, lines or columns at all, and token text is compared only for the TestAll snippets, one token each.",
["parse/lex.go"],[("position bookkeeping per rune","parse/lex.go next, back"),("token start and text","parse/lex.go emit, skip, synth"),("maximal scanning","parse/lex.go scanWhile, scanUntil, isSymbolChar")],["Node.Position()","Val/Text fields of parsed nodes","error positions"])
p("C03","The parse tree mirrors the nesting and order of the source",
"For every accepted input parsed with non-semantic nodes included and nothing ignored, walking the tree in order yields every token of the source exactly once and in source order: each delimited form holds precisely the items between its own matching delimiters and has the node type its opening delimiter denotes, and each reader prefix holds the next form. The only tokens that may be left out are newlines and comments standing between a reader prefix and its form.",
["inputs"],"all accepted inputs, all nesting depths and combinations of forms",
"Tests check the kind of a single root or a short flattened list; a dropped or reordered child, or a wrong pairing in a combination of forms that no snippet contains, goes unseen.",
["parse/parse.go"],[("recursive descent with one token of lookahead","parse/parse.go parseNext, parseList, parseMap, parseVector, parseSet, parseFnLiteral"),("dispatch forms","parse/parse.go parseDispatch and its callees")],["parse.Reader result"])
p("C04","Parse options drop exactly what they name, everywhere in the tree",
"Without the non-semantic option no newline or comment node occurs anywhere in the tree; with the reader-discard option no discarded form occurs as an element of the roots or of any delimited form; with the comment-form option no list headed by the symbol comment occurs there. Every other element of every form is kept, in order.",
["inputs","configurations"],"all inputs, all 8 option sets, every element position (roots, list, vector, map, set, fn literal, reader conditional)",
"Seven option cases are tested, all at the root or in a vector; lists, maps, sets, fn literals, reader conditionals and option combinations are not.",
["parse/parse.go"],[("element filter","parse/parse.go includeNode"),("element loops","parse/parse.go parse, parseList, parseMap, parseVector, parseSet, parseFnLiteral")],["parse.Reader result"])
p("C05","Parent and child links always agree",
"In every parsed tree each root has no parent and every other node's parent is the node that lists it as a child. Replacing a node's children makes each new child's parent that node, leaves each removed child without a parent, changes the links of no other node, and is refused (panic) for node kinds that cannot have that many children.",
["inputs","histories"],"all trees, all child lists passed to SetChildren (including lists sharing nodes with the old children), all 27 node types",
"TestParentPointers checks four snippets; SetChildren is never tested directly and has 17 separate implementations.",
["parse/node.go","parse/parse.go"],[("SetChildren/setParent per type","parse/node.go"),("linkParents after each root","parse/parse.go parse")],["Node.Parent()","Node.Children()","Node.SetChildren()"])
p("C06","Character literals decode to the character Clojure reads",
"A character literal's value is the single character after the backslash, the character named by newline, space, tab, formfeed, backspace or return, the code point of exactly four hexadecimal digits after u, or the value of one to three octal digits (at most 377) after o. Every other spelling of more than one character is rejected with an error at the literal's position, and the literal's text is kept unchanged.",
["inputs"],"all character-literal spellings",
"TestAll contains one character literal (\\s); names, octal, unicode, signs and wrong lengths are never exercised.",
["parse/parse.go"],[("character literal decoding","parse/parse.go parseCharLiteral")],["CharacterNode.Val","parse.Reader error"])
p("C07","Printing a parsed tree preserves every form, comment and line break",
"For every valid UTF-8 input parsed with non-semantic nodes and printed with all transforms off, printing succeeds without panicking and re-parsing the output yields the same forms in the same order with the same literal texts, the same comments and the same line breaks; the whitespace of multi-line docstrings is the only text that may change, and a line break is added only after a comment that had none. In particular two adjacent tokens are never fused or split, and a comment never swallows what follows it.",
["inputs","configurations"],"all accepted inputs, all indent override maps, indent characters space or tab",
"The fixtures are about 45 well-formed files compared byte for byte; unusual adjacent tokens (~ followed by @, # followed by a tag beginning with a dispatch character, comments ended by a carriage return, prefixes across lines) never occur in them.",
["format/format.go"],[("node printing","format/format.go printNode"),("separators between children","format/format.go printSequence")],["format.Printer.PrintTree output"])
p("C08","Layout transforms move only line breaks",
"The transforms that remove trailing newlines, remove extra blank lines, fix defn arglist newlines, fix defmethod dispatch-value newlines and make if newlines consistent never add, drop, duplicate, reorder or alter any form or comment of any node: only line breaks are inserted, removed or moved. They never reduce a run of line breaks between two elements to none except by moving that break next to the element it is documented to move past.",
["inputs","configurations"],"all trees, all nodes in them, every subset of these transforms",
"A handful of before/after fixtures exercise each transform on the shapes its author thought of; an element lost by in-place slice editing in another shape is invisible to them.",
["format/transform.go"],[("trailing newlines","format/transform.go removeTrailingNewlines"),("blank lines","format/transform.go removeExtraBlankLines, removeExtraBlankLinesRec"),("defn/defmethod","format/transform.go fixDefnArglist, fixDefmethodDispatchVal"),("if arms","format/transform.go enforceConsistentIfNewlines")],["format.Printer.PrintTree output with transforms"])
p("C09","Sorting ns clauses permutes whole entries and loses nothing",
"Sorting a :require, :require-macros or :import clause yields the same entries and the same comments, each exactly once; entries named by a symbol come first in ascending byte order of that symbol, everything else follows, and ties keep their source order. Comments above or beside an entry and metadata or tags in front of it stay with that entry.",
["inputs"],"all clauses: any number and order of entries, comments, newlines, discards, metadata, tags, strings and reader conditionals",
"Three fixtures sort a few plain clauses; ordering laws over mixed entries and comment attachment in unusual positions are not sampled.",
["format/transform.go"],[("collect, sort, rebuild","format/transform.go sortNS, sortImportRequire"),("order","format/transform.go importRequireList.Less, getImportRequireSortKey")],["ns form in PrintTree output"])
p("C10","ns style enforcement keeps what every clause names",
"Enforcing ns style changes, inside an ns form, only the clause head from a symbol to the keyword of the same name, a vector or list wrapper to the documented one, a plain required symbol to a one-element vector, a plain imported dotted symbol to a package/class list whose parts joined by a dot are that symbol, and one line break after the head. All other elements, in every clause, stay identical and in order, and clauses or elements of other kinds are untouched.",
["inputs"],"all ns forms: every clause kind, symbol or keyword heads, vector or list wrappers, every element kind",
"One before/after fixture covers the rule list; elements that are neither symbols, lists nor vectors and unusual clause shapes are not covered.",
["format/transform.go"],[("clause rewriting","format/transform.go enforceNSStyle, enforceRequireStyle, enforceImportStyle")],["ns form in PrintTree output"])
p("C11","Require rewriting never loses a needed namespace, alias or referred name",
"use-to-require merges :require and :use entries so that every namespace, alias, referred name, refer-all and referred macro named before is still named after, in an entry for the same namespace, and entries it does not understand are kept as they were. remove-unused-requires drops an alias only if no symbol, var quote, auto-resolved keyword or auto-resolved namespaced map outside ns uses it as a namespace, drops a referred name only if it occurs nowhere outside ns as a plain symbol, and drops a whole entry only if nothing else it names is used or imported; a one-element vector entry is always kept by that removal. (A :use entry with only :as names that alias.)",
["inputs"],"all ns forms and all bodies; all merge sequences of entries for one namespace",
"Three fixtures cover hand-picked combinations; merges of several entries of different kinds for one namespace, and every place an alias can be used, are not enumerated.",
["format/require.go","format/transform.go","format/unused.go"],[("merge and render","format/require.go requireList.merge, referList.merge, render"),("use analysis","format/unused.go findSymbols, unused, removeUnused")],["ns form in PrintTree output with these transforms"])
p("C12","Formatting is deterministic",
"For a given input, configuration and set of transforms, formatting produces the same bytes on every run; the order in which hash maps are iterated never shows in the output.",
["inputs","histories","configurations"],"all inputs, all transform sets, all map iteration orders",
"Go randomizes map iteration per run; a fixture passes by luck whenever the entries it contains happen not to interact.",
["format/require.go","format/format.go","format/transform.go","format/unused.go"],[("every loop over a map is order-insensitive or sorts","format/require.go render, sortStringSet, merge; format/format.go PrintTree")],["format.Printer.PrintTree output, repeated runs"])
p("C13","Indent style lookup follows the documented precedence",
"For a form headed by a symbol, the indent style is the override or default for: the aliased or referring namespace's qualified name, then the unqualified name when the symbol is written with a namespace, then the name exactly as written (the name part is what follows the last slash); user overrides win over defaults for the same name, and a namespace-qualified rule never applies to a symbol that does not resolve to that namespace through a require alias, a refer or its literal spelling. When no rule exists, names beginning with def, let, with- or when- use the list-body style and all others the list style; threading shifts the paired style of a threaded form by one.",
["inputs","configurations"],"all symbols, all override maps, all require/refer tables",
"TestCustomIndent uses one file with six overrides.",
["format/format.go","format/require.go","format/threadfirst.go"],[("lookup","format/format.go indentStyleForSymbol, chooseListIndent, chooseIndent"),("alias tables","format/require.go markRequires, parseRequireSeq"),("merge of defaults and overrides","format/format.go PrintTree")],["indentation in PrintTree output"])
p("C14","cljfmt touches files only as asked and only after success",
"cljfmt writes a file only with -w, only when the formatted bytes differ from the file's bytes, only after the whole file was read, parsed and formatted without error, and then writes exactly the formatted bytes to that same path with its permission bits; on an error in a file that file is not written and the error is reported. With -l it prints exactly the names of files whose formatting differs, and with neither flag it writes the formatted bytes to standard output and reports a failure to do so; directories are walked for exactly the non-hidden files with a configured extension.",
["inputs","fault_sequences","configurations"],"all files, all flag sets, every system call failing or not",
"cljfmt has no tests.",
["cljfmt/cljfmt.go"],[("file processing","cljfmt/cljfmt.go processFile"),("walk filter","cljfmt/cljfmt.go walkDir")],["file contents and permissions, stdout, exit status"])
p("C15","cljfmt configuration and flags mean what the README says, or are rejected",
"For every configuration text, loading either reports an error or sets exactly the documented settings: :extensions to the listed strings, and :indent-overrides and :thread-first-overrides to the pairs listed, each name or name sequence mapped to the style its keyword denotes, later pairs winning. Malformed values (odd counts, wrong node kinds, unknown keyword keys, unknown style keywords in effect for a name, more than one root) are always errors, never panics; each documented transform flag toggles exactly the transform of that name, unknown names are rejected, and the config path comes from -c, else CLJFMT_CONFIG_PATH, else $HOME/.cljfmt.",
["inputs","configurations"],"all config texts, all flag values, all environments",
"cljfmt has no tests.",
["cljfmt/config.go","cljfmt/cljfmt.go"],[("config parsing","cljfmt/config.go parseDotConfig, parseOverrides, sequence, stringNode"),("flags","cljfmt/cljfmt.go transformFlag.Set, defaultConfigPath, pathFlag.Set")],["cljfmt exit status and output under a given config"])
p("C16","A failing writer is always reported",
"If any write to the destination fails at any point while a tree is printed, printing returns a non-nil error; when it returns nil, the destination has accepted every byte of the formatted output, in order and exactly once. A write failure never escapes as a panic.",
["fault_sequences","inputs"],"all trees, all write-failure points",
"No test uses a failing writer; errors travel by panic and recover and a final flush.",
["format/format.go"],[("error panic in the write helpers","format/format.go writeString, writeByte"),("recover and flush","format/format.go PrintTree")],["format.Printer.PrintTree result with a failing io.Writer"])
p("C17","Only docstrings are re-aligned, and only at line edges",
"A string literal's text is printed byte for byte unless it is the docstring (the string right after the name, with a further form behind it) of a top-level ns, def, defn, defmacro or defmulti form. In a docstring the number of lines, the first line, and the text of every further line apart from its leading and trailing whitespace are unchanged.",
["inputs"],"all forms, all string contents, all indentation columns",
"Two fixtures contain docstrings; strings in look-alike positions and strings with unusual whitespace or escapes are not sampled.",
["format/docstring.go","format/format.go"],[("docstring detection","format/docstring.go markDocstrings"),("re-alignment","format/docstring.go alignDocstring")],["string literals in PrintTree output"])
p("C18","Each indent style places every line in its documented column",
"In the printed output every line that begins with an element of a sequence is indented to the column its style documents: the column of the first element for normal sequences; one further for list-body, let, letfn, for and deftype forms; the column of the second element, or list-body when the head is alone on its line, for lists and the cond style without leading arguments; one further, like list-body, for the cond styles with leading arguments; with the second element of each pair two further for binding vectors, maps and cond bodies after the style's 0, 1, 2 or 4 leading arguments. Columns count bytes from the start of the line the enclosing form began on (a multi-line literal counts its full length). Elements on one line are separated by exactly one space and no line ends in whitespace the printer added between elements.",
["inputs","configurations"],"all sequences: every style, every interleaving of elements, comments and line breaks, every column",
"The fixtures sample a few shapes per style; the column depends on a state machine over arbitrary element sequences.",
["format/format.go"],[("column state machine","format/format.go printSequence"),("special binding vectors","format/format.go applySpecial*")],["leading whitespace of each line of PrintTree output"])
p("C19","Formatting is idempotent",
"Formatting the output of the formatter with the same settings produces the same bytes again.",
["inputs","configurations"],"all inputs and settings","Fixtures whose before and after are equal check it for about 35 files only.",
["format/format.go","format/transform.go"],[("every transform and the printer reach a fixed point","format/transform.go, format/format.go")],["PrintTree applied twice"])
p("C20","Parsing leaves no goroutine behind",
"After parsing returns, with a tree or with an error, no goroutine started by it keeps running or stays blocked.",
["schedules","inputs"],"all inputs, all schedules of the lexing goroutine","Tests never count goroutines, and a leak has no visible effect on a test's result.",
["parse/lex.go","parse/parse.go"],[("lexing goroutine and token channel","parse/lex.go lex, run")],["runtime.NumGoroutine after parse.Reader"])
with open('/verif/properties.jsonl','w') as f:
    for x in P:
        assert len(x["title"])<=80,x["id"]
        f.write(json.dumps(x)+"\n")
