"""Writes known-findings.txt: the repairs made in /repo (recorded, suppressing nothing)."""
import subprocess, os
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = {  # subject -> (property, what failed)
 "apply ^, #_ and #= to the next form, not to a newline or comment": ('C03', "'#_;c\\n foo bar' discarded the comment instead of foo; likewise ^ and #="),
 "do not turn an unquoted deref into an unquote-splice": ('C03', "'~ @foo' was read as ~@foo"),
 "keep tags such as '# _foo' from being printed as dispatch macros": ('C07', "'# _foo bar' was printed as '#_foo bar'"),
 "never print code on the line of a comment that ended without a newline": ('C07', "'(a ;c\\r b)' was printed with b inside the comment"),
 "decode \\backspace and octal characters as Clojure does, and reject signs": ('C06', "\\backspace decoded to U+007F, \\o7 was rejected, \\o-12 and \\u+123 were accepted"),
 "position of reader conditionals and tags, and of errors at EOF after #": ('C02', "'#?(a)' and '#foo' were placed at the byte after #, and EOF errors after # at 0"),
 "don't treat a string as a docstring because of a trailing comment": ('C17', "'(def s \"foo\\n bar\" ;c\\n)' had its value re-aligned"),
 "keep an escaped space at the end of a docstring line": ('C17', "a docstring line ending in '\\\\ ' lost the space and became invalid"),
 "keep metadata, tags and comments with their entry when sorting ns clauses": ('C09', "'(:require ^:foo [b] [a])' moved ^:foo to [a]"),
 "render rewritten requires in a deterministic order": ('C12', "(:require [a :as b] [a :as c]) with use-to-require was printed in map order"),
 "keep referred macros of a namespace that is also used": ('C11', "':refer-macros [x]' was lost next to (:use a)"),
 "don't remove a referred / that is used": ('C11', "a referred / used as (/ 1 2) was removed"),
 "report a failure to write the result to standard output": ('C14', "cljfmt f.clj >/dev/full exited 0"),
 "keep metadata and tags with their entry when rewriting requires": ('C11', "metadata in front of an entry was attached to another entry"),
 "position of a namespaced map is that of its #:": ('C02', "'#:a {}' was placed at its brace"),
 "indent a paired element by two after any number of blank lines": ('C18', "each blank line inside a pair added two columns and only two were removed"),
 "do not leave the lexing goroutine blocked after an error": ('C20', "each parse error left a goroutine blocked on the token channel, e.g. for ')'"),
 "count columns from the indentation of the first element": ('C18', "in a sequence that begins with a line break and is printed one further, nested columns were one too small, e.g. '(letfn [(\\nf [x] (foo a\\nb))] y)'"),
 "indent a paired element after a comment that ends without a newline": ('C18', "a value after a comment ended by a carriage return was not indented by two, e.g. '{:a ;c\\r b}'"),
 "align arguments with a first argument that has metadata or a tag": ('C18', "after a long head a first argument with metadata or a tag was taken for a comment, e.g. '(very-long-function-name ^String x\\ny)'"),
 "indent only the binding vector of letfn as function bodies": ('C18', "lists of every vector in the body of letfn were indented as function bodies"),
}
log = subprocess.run(['git', '-C', '/repo', 'log', '--format=%h %s'], stdout=subprocess.PIPE, text=True).stdout
out = ['# finding: property=<id> <what fails>      a defect recorded and not repaired (none)',
       '# fixed: property=<id> <commit> <what failed>']
for l in log.splitlines():
    h, s = l.split(' ', 1)
    if s.startswith('fix: '):
        p, w = P[s[5:]]
        out.append('fixed: property=%s %s %s' % (p, h, w))
open(os.path.join(H, 'known-findings.txt'), 'w').write('\n'.join(out) + '\n')
