NOTES = {
 'C06': 'parseCharLiteral is proved against the table of spellings for every token text (strings as sequences; strconv.ParseUint, utf8 and unicode contracts assumed). That the lexer hands it the whole literal is C02.',
 'C16': 'Every function that can reach the writer is proved to leave no write error unreported; bufio.Writer is an assumed contract (sticky errors, Flush reports them), functions that cannot write are treated as arbitrary.',
    'C01': 'Proved for every input: the lexer goroutine never panics, reports the end only at the end of the input, reports a failed read as an error and sends the token shapes the parser relies on; for every token stream: no panic escapes Reader, a tree or an error, a tree only after the end token, nothing read past it. Termination and the exact set of rejected inputs are covered by the bounded oracle only.',
    'C02': 'Lexer proved for every rune sequence: each token sent carries exactly the source text of its span and the position of its first rune, only blanks lie between tokens, each token type has its shape and extends as far as it can; nodes keep the text and position of their tokens. bufio.Reader is an assumed contract (runes in order, UnreadRune after a successful read).',
    'C03': 'Proved for every token stream: each node is the form of its token span, children tile the tokens between matching delimiters in order, prefixes hold the next form, roots tile the whole stream. Tokens arrive in the order sent (channel) and stream_facts are the lexer side.',
    'C04': 'Proved: option bits are decoded as documented and every element of every form and of the roots is one the options keep; with C03 (gap = dropped forms only) every other element is kept in order.',
    'C05': 'Proved: Reader links every node reachable from the roots to the node that lists it and nothing else; SetChildren of all node types relinks exactly the old and new children and refuses wrong counts.',
    'C13': 'Proved for every name, table and form: the precedence of the lookup, the fallback on prefixes, overrides over defaults, the style each form is printed in, the marking of threaded elements. Assumed: nodes form a tree. That the alias tables hold what the ns form says (markRequires) is decided by the bounded oracle.',
    'C14': 'Proved for every outcome of every system call: processFile writes, lists and prints exactly as asked, reports every failure, writes nothing after one; the walk and main reach exactly the right files. The file system, io.Copy, bytes.Buffer, filepath.Walk and the flag package are assumed contracts; the parser and PrintTree appear as may-fail operations (C01, C16).',
    'C15': 'Proved for every tree of a configuration text: malformed values are errors and nothing else is, each setting is the documented map with later pairs winning; the style tables, the transform flags, the default path and the registration of the flags in main. The text-to-tree step is C01-C06; flag parsing itself is the assumed flag package.',
    'C07': 'Proved for every tree and style: printNode/printSequence/PrintTree write exactly the tokens of each form, each element once and in order, line breaks at newline nodes, one space or indentation between elements, a line break after every comment; no panic; with all transforms off the roots are written unchanged. Assumed: nodes are non-nil and of the known kinds (the parser, C03), alignDocstring is named (C17). That the text so described re-parses to the same tree (round trip of the two proved descriptions) is covered by the bounded oracle only.',
    'C17': 'Proved for every tree and text: only the docstring of a top-level form is marked, marks only disappear while printing, an unmarked string is written as it is, a marked one as aligned, and aligning keeps the number of lines, the first line and every line apart from white space at its edges. Assumed: contracts of strings.Split/Join/Trim*, indentation character is a space or tab; that transforms leave string texts alone is C08-C11.',
 'C08': 'Proved for every tree: reading the elements of any node before and after each transform gives the same elements in the same order, and the same breaks except at the end of a form and past an argument list or dispatch value; the same for the top level. Assumed: the tree is the one the parser made (a tree, arrays of elements not shared: C03, C05); applyTransforms is verified with the four ns transforms off (those are C09-C11).',
 'C10': 'Proved for every ns form: each child is the one it was, or (for the clauses the documentation names) the list of it; the head becomes the keyword of the same name, one line break follows it where a first argument does, every other element is kept in order, required and imported elements are as they were or in the documented form (with what they hold), and nothing else in the tree changes. Assumed: the form is part of the tree the parser made (a tree, arrays of elements not shared: C03, C05), strings.LastIndexByte. That the printed text shows just these changes is C07.',
 'C18': 'Proved for every sequence, style and column: printSequence is its documented layout (the column each element that begins a line is in, as a function of the elements and the style; one space between elements; no blanks before a line break; the closing delimiter), every column passed to a nested form is the byte column of the output. Assumed: the indentation character is one byte, nodes of the tree are in one place each (C03, C05), lengths of texts written are those of C07. Which style a form has is C13.',
 'C20': 'Proved for every input and token stream: nothing is sent after the end, the channel is closed at every exit of the lexer (end, error, failed read), closing happens once; whenever parsing returns, every token the lexer sends has been taken, so the goroutine is past its last send; it is the only goroutine started. That the scanning loops end is not proved (partial correctness): a Read that blocks keeps Reader itself waiting. Schedules: by the channel contract (tokens received in the order sent, closing seen after the last), for every interleaving.',
}
NOTES['C12'] = 'Proved for every loop over a map in package format (and every order of it): the state in which the loop ends, as far as anything after it can see, is the same - two executions that satisfy the loop\'s proved invariants from one state agree (a self-composition of the loop, by its invariants); sortStringSet returns exactly the keys in strictly ascending order; entries are kept under their names; reducing an entry changes only what the entry owns; the shared default tables are left as they were; no select, clock, random number, address or left-over variable occurs. Assumed: different entries own different sets (the parser of clauses makes them so), sort.Strings, that sequential code without such loops is a function of its input. Which error a bad configuration reports first is outside the statement.'
NA = {
 'C09': 'Not claimed: the contracts of sorting (the entries after sort.Stable as a permutation of those collected, with their comments) are not discharged yet; the bounded comparison in harness/p_ns.go is no proof and is not registered.',
 'C11': 'Not claimed: the merge of require entries works on maps of names inside a list of pointers that the transform both reads and rewrites; the contracts needed (every entry of requireList owns its maps, what a merged sequence of entries names) are not discharged. What the functions do that does not depend on the order of maps is under contract in C12; the bounded comparison in harness/p_ns.go is no proof and is not registered.',
 'C19': 'Not applicable: a statement about two runs of the whole program, the second on the text the first printed. It would need the text the printer writes (C07, C18) to be parsed back (C02, C03) into a tree that every transform and every layout decision maps to itself; function contracts relate one call to one state, and no contract within reach composes printing, lexing, parsing and seven transforms into one relation.',
}

# How each property is decided: what is specified, where, why tests cannot settle it.
METHOD = {
 'C01': 'Contracts: `gv/spec_lex.py` (each lexer state function: precondition = token type invariant, postcondition = next state and tokens sent; ghost rune sequence of the source, ghost stream of tokens sent) and `gv/spec_parse.py` (each `parse*` function: returns a node or panics with a `*parseError` caught in `Reader`). Obligations: no nil dereference, index or type-assertion failure escapes; a nil error only with the EOF token taken. For every input, including a read that fails at any rune; tests sample a few dozen strings.',
 'C02': 'Contracts of the lexer state functions over the ghost source: for every token sent, `val` is source[start..end), `pos` is the position function of the first rune (offset, line, byte column defined recursively over the runes), between tokens only blanks; maximality of each token class. Parser side: `Position()` and text of every node are those of its token.',
 'C03': 'Contracts of the parser over the ghost token sequence: each `parse*` returns a node that *is the form of* tokens [i,j) (recursively defined predicate), delimiters match, children tile the tokens in between; prefixes take exactly the next form.',
 'C04': 'The same contracts with the option bits: the loops of the delimited forms keep exactly elements `kept(opts, node)`; decoding of the options in `Reader` against the documented bits.',
 'C05': 'Link invariant over the heap (`parent`, children slices) as postcondition of the parser\'s linking pass, and of every `SetChildren`/`setParent` (frame: no other node\'s parent changes; wrong count panics).',
 'C06': '`parseCharLiteral`: for every token text (a sequence of code points) the outcome equals the table of spellings written in `gv/spec_parse.py`.',
 'C07': '`gv/spec_print.py`: ghost output text; `printNode`/`printSequence`/`PrintTree` append exactly the tokens the (recursively defined) print predicate lists for that kind of node; separators; `applyTransforms` with all transforms off writes nothing to the heap.',
 'C08': '`gv/spec_layout.py`: the sequence of non-newline elements of every node is a ghost sequence; each transform preserves it (frame: only children slices and newline nodes). Line-break runs between elements: clause by clause.',
 'C10': '`gv/spec_ns.py`: pre-state/post-state relation for every clause and element of the ns form; frame: nothing else of the tree changes.',
 'C13': '`gv/spec_style.py`: `indentStyleForSymbol` equals the documented lookup written as a nested conditional over uninterpreted tables, for every name and table; `chooseIndent`, threading marks.',
 'C14': '`gv/spec_cli.py`: ghost file system operations (opened, read, formatted, written, listed), every system call may fail; postconditions over the operations done.',
 'C15': '`gv/spec_conf.py`: `parseDotConfig`/`parseOverrides` against the documented maps for every tree, later pairs winning, errors exactly for malformed ones; style table entry by entry; flag set.',
 'C16': '`gv/specs.py`: sticky writer model; every function that can reach the writer returns or panics with a recorded error, `PrintTree` returns non-nil iff a write failed.',
 'C17': '`gv/spec_doc.py`: which nodes get the docstring mark; what `alignDocstring` keeps line by line (over sequences of lines).',
 'C18': '`gv/spec_cols.py`: the column is a ghost function of the output text; each style\'s column rule for every element that begins a line.',
 'C20': '`gv/spec_lex.py` + `gv/spec_parse.py`: ghost "closed" and "sent end" state of the channel, `Reader` drains on every exit; the only `go` statement of the package is accounted for.',
}
METHOD['C12'] = '`gv/spec_det.py`: for every loop over a map one relational obligation, generated from the loop itself: the copy of the loop\'s facts with all values renamed, both at the exit, implies equal observable state. The invariants it needs are candidates instantiated from the sets, maps and fields in scope. No test can vary the iteration order exhaustively.'
# What a quick run reports for each planted bug (recorded from runs; default: proof and a failing input).
CAUGHT = {}
