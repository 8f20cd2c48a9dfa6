"""What each check verifies: clause tags, functions under contract, what the proof covers."""

TCB = [
    'gv/engine.py: symbolic execution of the SSA form of /repo (path merging, contracts at calls)',
    'gv/specs.py: the contracts state the property',
    'go/packages + go/ssa (golang.org/x/tools): the SSA form is the program the compiler runs',
    'z3 4.8.12 (python API), cvc5 1.1.2 as a second back end',
]
ASSUME = [
    'machine integers are treated as mathematical integers (no wraparound)',
    'Go type safety: a value loaded from memory has its static type; slices are within their arrays',
    'parse.Node is implemented only by the types of package parse (its setParent method is unexported)',
    'heap and goroutine stack are never exhausted; partial correctness: termination is not proved',
    'no other goroutine changes the memory a verified function works on while it runs',
]

PLAN = {}


def plan(prop, tags, funcs, covers, oracle=True, rounds=None):
    PLAN[prop] = dict(tags=tags, funcs=funcs, covers=covers, oracle=oracle)


plan('C06', ['C06', 'safe', 'frame'], ['(*parse.Tree).parseCharLiteral'],
     'parseCharLiteral: accepted spellings, value, text, position and rejection, for every token text')
plan('C16', ['C16', 'frame'],
     ['(*format.bufWriter).writeString', '(*format.bufWriter).writeByte', '(*format.Printer).printNode',
      '(*format.Printer).printSequence', '(*format.Printer).PrintTree', 'format.NewPrinter'],
     'every function that can reach the writer')


PARSER = ['parseNext', 'parseFnLiteral', 'parseSet', 'parseMap', 'parseVector', 'parseList', 'parse', 'parse$1', 'parseNextSemantic',
          'parseReaderCond', 'parseDispatch', 'parseCharLiteral', 'parseNamespacedMap', 'parseMetadata', 'parseReaderDiscard',
          'parseReaderEval', 'parseRegex', 'parseVarQuote', 'parseTag', 'next', 'backup']


def parser_fns(prog, extra=()):
    """The functions of the parser that exist (a missing one is part of its callers)."""
    ns = ['parse.Reader'] + ['(*parse.Tree).' + f for f in PARSER] + ['(parse.token).AsError', '(*parse.Tree).errorf',
          '(*parse.Tree).unexpected', '(*parse.Tree).unexpectedEOF', '(*parse.Pos).FormatError']
    ns += [n for n in extra]
    return [n for n in ns if prog.fns.get(n) is not None or n == 'parse.Reader']


def lexer_fns(prog):
    import spec_lex
    return spec_lex.state_fns(prog) + [n for n in ['(*parse.lexer).run'] if prog.fns.get(n) is not None]


def linkers(prog):
    import spec_parse
    return [n for n, g in sorted(prog.fns.items()) if g is not None and n.split('.')[0].lstrip('(*') == 'parse' and spec_parse.is_linker(g)]


def methods(prog, *ms):
    return ['(*%s).%s' % (t, m) for t in prog.node_types for m in ms]


plan('C01', ['C01', 'safe', 'frame'], lambda prog: parser_fns(prog, lexer_fns(prog) + linkers(prog) + methods(prog, 'Children', 'setParent')),
     'lexer and parser: no panic escapes, a tree or an error, a tree only when the whole input has been read')
plan('C02', ['C02', 'frame'], lambda prog: lexer_fns(prog) + parser_fns(prog),
     'lexer: text, position and extent of every token, only blanks between tokens; parser: nodes carry the position and text of their tokens')
plan('C03', ['C03', 'frame'], parser_fns,
     'the parser: every node is the form of its tokens, children cover the tokens between the delimiters in order')
plan('C04', ['C04', 'frame'], parser_fns,
     'the parser: elements of every form are those the options keep')
plan('C05', ['C05', 'frame'], lambda prog: parser_fns(prog, linkers(prog) + methods(prog, 'SetChildren', 'Children', 'Parent', 'setParent')),
     'parent links of the parsed tree; SetChildren of every node type')


plan('C20', ['C20', 'safe', 'frame'], lambda prog: parser_fns(prog, lexer_fns(prog)),
     'the lexer ends every run by closing its channel, just after the end or an error; the parser takes every token before it returns')


def present(*names):
    return lambda prog: [n for n in names if prog.fns.get(n) is not None]


PR = '(*format.Printer).'
plan('C13', ['C13', 'frame'],
     lambda prog: present(PR + 'indentStyleForSymbol', PR + 'chooseListIndent', PR + 'chooseIndent', '(format.IndentStyle).threadFirstTransform',
                          PR + 'applySpecialIndentRules', PR + 'markThreadFirstStyle', PR + 'markThreadFirsts')(prog) + [PR + 'printNode', PR + 'PrintTree'],
     'the choice of style for a symbol and a form, the tables it is made from, the style each form is printed in, the forms that are threaded')


CF = '(*cljfmt.config).'
plan('C14', ['C14'], present(CF + 'processFile', CF + 'walkDir$1', CF + 'walkDir', 'cljfmt.main'),
     'every function of the tool that reads or writes a file, and the walk')
plan('C15', ['C15', 'safe', 'frame'],
     lambda prog: present(CF + 'parseDotConfig', 'cljfmt.parseOverrides', '(cljfmt.transformFlag).Set', '(*cljfmt.pathFlag).Set',
                          'cljfmt.defaultConfigPath', CF + 'parseDotConfigFile', 'cljfmt.main')(prog) + ['README: style keywords'],
     'reading the configuration, the tables of styles, the flags and the choice of the file')

BW = '(*format.bufWriter).'
plan('C07', ['C07', 'safe', 'frame'],
     lambda prog: present(BW + 'writeString', BW + 'writeByte', PR + 'chooseIndent', PR + 'indentStyleForSymbol', PR + 'applySpecialIndentRules',
                          'format.applyTransforms', PR + 'markDocstrings', PR + 'markThreadFirsts', PR + 'markRequires', 'format.parseRequireSeq')(prog)
     + [PR + 'printNode', PR + 'printSequence', PR + 'PrintTree'],
     'what is written for a tree: tokens of every form, each element once and in order, separators; no transforms leave the tree alone')

plan('C17', ['C17', 'frame'],
     lambda prog: present(PR + 'markDocstrings', PR + 'alignDocstring', PR + 'markThreadFirsts', PR + 'markRequires', BW + 'writeString', BW + 'writeByte')(prog)
     + ['format.NewPrinter', PR + 'printNode', PR + 'printSequence', PR + 'PrintTree'],
     'which strings are taken for docstrings, how strings are written, what aligning a docstring changes')


def holders(prog):
    return [t for t in prog.node_types if any(f['type'] == '[]parse.Node' or (f['type'] == 'parse.Node' and f['name'] != 'parent') for f in prog.fields(t))]


def layout(prog):
    import spec_layout
    return spec_layout.layout_fns(prog)


plan('C08', ['C08', 'safe', 'frame'],
     lambda prog: layout(prog) + present('format.fixDefnArglist', 'format.fixDefmethodDispatchVal', 'format.applyTransforms')(prog) + methods(prog, 'Children')
     + ['(*%s).SetChildren' % t for t in holders(prog)],
     'the layout transforms: what they do to the elements of every node and of the top level')

plan('C10', ['C10', 'frame'],
     lambda prog: present('format.enforceNSStyle', 'format.enforceRequireStyle', 'format.enforceImportStyle')(prog) + ['(*%s).SetChildren' % t for t in holders(prog)],
     'what enforcing ns style does to every clause of the form, to every element of a clause and to what those hold')

plan('C18', ['C18', 'frame'],
     lambda prog: present(BW + 'writeString', BW + 'writeByte', PR + 'chooseIndent', PR + 'indentStyleForSymbol', PR + 'applySpecialIndentRules')(prog)
     + [PR + 'printNode', PR + 'printSequence', PR + 'PrintTree'],
     'where every line begins, spaces between elements, ends of lines')


def det_fns(prog):
    import spec_det
    ns = [n for n in spec_det.map_loops(prog) if n.split('.')[0].lstrip('(*') in ('format', 'goclj', 'parse')]
    ns += [n for n, g in sorted(prog.fns.items()) if g is not None and n not in ns and any(
        i['op'] == 'MapUpdate' and i['x']['t'] == spec_det.ENTRIES for b in g.blocks for i in b['ins'])]
    return ns + present(spec_det.UNUSED, 'format.sortStringSet')(prog) + ['sources of difference']


plan('C12', ['C12'], det_fns,
     'every loop over a map: the state it ends in is the same for every order; no other source of difference between runs')
PLAN['C12']['assume'] = ['in C12, preconditions of callees are assumed (they are obligations of the other checks)',
                         'different entries of a require list own different sets and lists',
                         'a sequential function of the repository without a loop over a map computes the same for the same input',
                         'sort.Strings returns a permutation in ascending order']


def functions(prop, prog):
    fs = PLAN[prop]['funcs']
    ns = fs(prog) if callable(fs) else list(fs)
    return list(dict.fromkeys(ns))
