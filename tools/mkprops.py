#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the list below is the source)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, **kw):
    d = dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text),
             why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech], **kw))
    P.append(d)

G, V = "go/vimlparser.go", "autoload/vimlparser.vim"

p("C01", "Parsing any input ends with exactly one of a tree and an error",
  "For every byte sequence, parsing it as a script or as an expression returns: it neither panics nor runs forever, and it yields either a tree and no error or no tree and an error; when reading the input did not fail, that error is a parse error with a message and a position, never an internal failure. "
  "In a returned tree every part that the documentation of its node calls required is there (a block has its end command, a binary expression both operands, a command its description).",
  ["inputs"], "all byte sequences, well-formed scripts or not, given to the file and the expression entry points (nesting below the stack limit stated in DESIGN.md)",
  "The tests feed a few dozen chosen files; the guarantee is about all inputs, and the failures live in truncated or mangled ones.",
  ["vimlparser.go", "go/export.go", G],
  [("recover at the API", "vimlparser.go ParseFile/ParseExpr"), ("conversion of internal nodes", "go/export.go newAstNode")])

p("C02", "The tree nests exactly the blocks that the script opens and closes",
  "A script is accepted only if its :function, :if/:elseif/:else, :while, :for and :try/:catch/:finally blocks are opened, continued and closed in a legal order, and the command that breaks the order is the one reported (E580 to E606, E126, E170, E171, E193, E133, E586, E587). "
  "In an accepted script every command and comment appears once, in source order, in the body of the innermost block that was open where it stands, and each block carries its own clauses and end command.",
  ["programs", "histories"], "all sequences of block commands, to any depth, mixed with other commands and separated by newlines or bars",
  "Legal orders form a context-free language; the tests contain a handful of words of it and few illegal ones.",
  [G, V], [("context stack", "go/vimlparser.go push_context/pop_context, parse_cmd_*"), ("end of file checks", "VimLParser.parse")])

p("C03", "Expressions group by Vim's precedence and associativity",
  "Every accepted expression is the tree Vim's operator table prescribes: ?: binds loosest and to the right, then ||, &&, the comparisons (with ? and # suffixes, which do not chain), + - . and .., * / %, the prefix operators ! - +, and the postfix [..], (..), .name and ->name(..), with all binary levels but the comparisons grouping to the left and parentheses overriding. "
  "Each operator in the tree is the one written in the source, and an expression that breaks the grammar is rejected; the expression entry point reads one expression and ignores what follows it.",
  ["inputs"], "all expressions over the full operator set, to any depth, with any blanks between tokens",
  "The number of operator pairs and triples, with their spellings and blanks, is far beyond what the sample files hold.",
  [G, V, "go/export.go", "token/token.go"], [("recursive descent", "ExprParser.parse_expr1..9"), ("operator names", "go/export.go opToken"), ("spelling", "token/token.go tokens")])

p("C04", "Literals, containers, names and calls keep exactly what was written",
  "A number, blob, string, option, environment variable, register, list, dictionary (also #{}), lambda, name, curly-braces name, subscript, slice, call or method call in an expression becomes the node of its kind, holding exactly its source spelling, elements, bounds and arguments, in source order. "
  "A { is taken as a lambda, a dictionary or a curly name as Vim's rules say, and a malformed literal (unclosed string, odd blob, missing bracket or colon, more than 20 arguments) is an error.",
  ["inputs"], "all spellings of every literal form and all nestings of the containers",
  "Each form has boundary spellings (0x, 1.5e3, '' inside strings, a: followed by names, {x} against {x: 1} and {x -> 1}) whose combinations are unbounded.",
  [G, V, "go/export.go"], [("tokenizer", "ExprTokenizer.get2"), ("primary expressions", "ExprParser.parse_expr9"), ("brace forms", "parse_dict_literal_key / parse_identifier")])

p("C05", "Every node's position is the place in the source where its text stands",
  "For every node of an accepted tree, line and column (from 1) and byte offset (from 0) name the byte in the original input at which the node's documented anchor stands (an operator's first character, an opening bracket, a name's or literal's first byte, a command's name), also after multibyte characters, tabs, continuation lines and many lines, and the file name is the one given. "
  "The recorded line start, command and argument positions of a command obey the same rule.",
  ["inputs"], "all accepted scripts and expressions whose lines end in a bare newline",
  "Tests compare positions for a few nodes on one line; offsets after continuations or multibyte text are not sampled.",
  ["go/type.go", "go/export.go", G], [("position table", "go/type.go StringReader.__init__"), ("conversion", "go/export.go newPos")])

p("C06", "Continuation lines read as if joined, without moving any position",
  "A line whose first character after spaces and tabs is a backslash continues the line before it: the tree is the one of the joined line, everywhere (inside expressions, strings, commands, comments and blocks), and only the positions tell where the parts stood. "
  "Nothing else joins lines, the first line of a source never continues anything, and splitting a line at any character into continuation lines changes nothing but positions.",
  ["programs"], "all scripts and all ways to split their lines into continuation lines",
  "It is a relation between a script and all of its splittings.",
  ["go/type.go", V], [("joining", "go/type.go StringReader.__init__")])

p("C07", "Verbatim text is kept as is and never parsed as commands",
  "The body of :let =<<, of :append/:insert/:change, of the << form of the script-language commands, and everything after :loadkeymap, is taken line by line as text, blanks and quotes included, up to its end marker line or the end of the file, and parsing resumes with the line after the marker. "
  "A heredoc assignment keeps its modifiers, marker and lines, and lacking a marker or its end line is an error; :finish outside all blocks ends the script, and inside one it does not.",
  ["programs"], "all bodies and markers, including bodies that look like commands, block ends, comments or markers with extra text",
  "Bodies are arbitrary text; the tests hold a few friendly ones.",
  [G, V], [("verbatim readers", "parse_heredoc, parse_cmd_append, parse_cmd_loadkeymap, parse_cmd_lua, parse_cmd_finish")])

p("C08", "A command name or abbreviation always resolves to the command Vim runs",
  "Every name of a built-in command of the Vim version the parser supports, and every abbreviation not shorter than its shortest form, is recognised as that command with its flags, shorter or unknown names are rejected (E492), and an unknown name that starts with a capital is a user command of that full name. "
  "The special spellings (:k, :s with its flags, :d with l or p, :py, the punctuation commands) follow Vim's rule, the answer never depends on commands that came before in the script, and with the Neovim option the commands Neovim added are recognised and those it removed are rejected.",
  ["inputs", "histories", "configurations"], "all names, all orders of commands, with and without the Neovim option",
  "The table has over 500 entries with thousands of abbreviations, and lookups share a cache whose history matters.",
  [G, "go/builtin_commands.go", "go/vimlfunc.go", V], [("lookup", "VimLParser.find_command"), ("tables", "go/builtin_commands.go")])

p("C09", "Modifiers, ranges, bangs and command options are recorded exactly",
  "The modifiers before a command (abbreviated, repeated, :silent!, counts of :tab and :verbose), the tokens of its line range, the !, the ++opt and +cmd arguments (the options of the parser's documentation) and the shapes of :write, :update, :read, < and > are recorded on the command exactly as written and in order. "
  "A ! on a command that takes none (E477), an unknown ++opt (E474), a bad range (E10, E682) and a wrong :write form (E494) are errors.",
  ["inputs"], "all combinations of modifiers, ranges and options before and after all commands",
  "They combine freely with each other and with several hundred commands; the tests pair each with one command.",
  [G, V, "go/export.go"], [("prefixes", "parse_command_modifiers, parse_range"), ("options", "parse_argopt, parse_argcmd, parse_command")])

p("C10", "Commands end at the right bar, quote or line end, and their text is complete",
  "Each command ends where Vim ends it: at the line end, at a bar that starts the next command, or at a double quote that starts a comment, with \\| and CTRL-V and backtick expressions skipped, and commands that take bars or quotes as part of their argument taking them. "
  "A plain command's text is the source from its modifiers or range to its end without trailing blanks before a bar or comment, each comment becomes one comment node with exactly its text, and text left after a complete command is an error (E488).",
  ["inputs", "programs"], "all lines of commands, bars, quotes and comments",
  "Which characters end a command depends on the command's flags and on the characters around them; the combinations are unbounded.",
  [G, V], [("command end", "separate_nextcmd, parse_trail, ends_excmds, parse_cmd_common"), ("special arguments", "parse_wincmd, parse_cmd_syntax, skip_vimgrep_pat")])

p("C11", "Function headers are read exactly and bad ones are refused",
  "A function definition records its name, parameters, default values, variadic mark and attributes (range, abort, dict, closure) as written, and a lambda its parameters and body. "
  "Illegal or duplicate parameter names (E125, E853), a required parameter after an optional one (E989), a blank before a comma (E475), a bad function name (E128), an unknown attribute and a header not closed are errors, while :function without a definition is kept as a plain command.",
  ["inputs"], "all function headers and lambda parameter lists",
  "Headers combine names, defaults, blanks, trailing commas and attributes without bound.",
  [G, V], [("header", "parse_cmd_function, parse_lvalue_func"), ("lambda", "ExprParser.parse_expr9")])

p("C12", "Assignment targets are accepted exactly when Vim can assign to them",
  "The targets of :let, :const, :for, :unlet, :lockvar and :unlockvar (variables with scopes, subscripts, slices, dictionary fields, curly names, options, registers, environment variables, and lists of them with an optional rest) become the target, list and rest of the node, in order, with the operator (= += -= *= /= %= .= ..= =<<), depth and value as written. "
  "An illegal variable name (E461), a target :const cannot lock (E996), a broken target list (E475) and a missing \"in\" are errors.",
  ["inputs"], "all target expressions, operators and values",
  "Targets nest expressions without bound and each command has its own rules.",
  [G, V, "go/export.go"], [("targets", "LvalueParser, parse_letlhs, parse_constlhs, parse_lvaluelist"), ("commands", "parse_cmd_let/const/for/unlet/lockvar")])

p("C13", "Walking a tree visits every node once, in order, and obeys the visitor",
  "Walk calls the visitor first with the root and then, parents before children and siblings in the documented field order, with every node of the tree (also lambda bodies, default values, curly-name parts and end commands) exactly once, goes below a node with the visitor returned for it, not at all if that was nil, and calls that visitor with nil after the node's children. "
  "Inspect visits the same nodes in the same order, descends exactly where the function returned true, and calls it with nil after the children of each node it entered; neither changes the tree.",
  ["programs", "histories"], "all trees the parser can return and all visitor answers",
  "Node kinds combine without bound, and the visitor may answer differently at every node.",
  ["ast/walk.go"], [("traversal", "ast.Walk"), ("function visitor", "ast.Inspect")])

p("C14", "The compiled form tells the whole tree, faithfully",
  "Compiling any tree writes one S-expression per command, nested as the blocks are and indented by depth, that names every operator, literal, name, argument, parameter, default value and comment of the tree in order and verbatim, whatever characters they contain. "
  "Compiling is repeatable, changes nothing in the tree, reports write errors, and handles every node the parser can return.",
  ["programs"], "all accepted scripts and expressions",
  "The tests compare about thirty sample outputs; quoting, nesting and format characters are unbounded.",
  ["compiler/compiler.go"], [("compiler", "compiler/compiler.go")])

p("C15", "Printed expressions parse back to the same tree",
  "For every expression tree the parser can return and the printer supports, the printed text parses to an equal tree (positions and redundant doubled parentheses aside), whatever operators are nested on either side, and also when the tree has no parenthesis nodes and the printer must add the parentheses. "
  "Printing never panics: what is not supported is reported as an error, and a failing writer's error is returned.",
  ["inputs"], "all expression trees",
  "Correct parenthesising is a property of all pairs of nested operators on both sides.",
  ["printer/printer.go", "printer/expr.go", "printer/opprec.go"], [("expressions", "printer/expr.go"), ("precedences", "printer/opprec.go")])

p("C16", "An error names the offending place and message, and nothing else",
  "When a script or expression is rejected, the error is the one of the first offending command or token in source order, with Vim's error number where Vim has one, at the line, column and byte offset in the original input where it stands, and with the given file name. "
  "The text of the error is \"file:line:col: vimlparser: message\" with a file name and \"vimlparser: message: line L col C\" without one, with these same values.",
  ["inputs"], "all rejected inputs",
  "Each of some fifty errors can occur at any place in any script.",
  ["vimlparser.go", "go/type.go", G], [("error value", "go/type.go Err"), ("API error", "vimlparser.go ErrVimlParser")])

p("C17", "Parses do not influence one another",
  "The outcome of parsing, compiling, printing or walking depends only on its arguments: any number of them running at the same time or one after another in one process give the outcomes they give alone, without data races, and each leaves the trees of the others alone. "
  "Parsing one input twice gives equal trees.",
  ["schedules", "histories"], "all interleavings and orders of calls on all inputs",
  "Interference shows only under particular schedules or orders, through shared tables and caches.",
  [G, "go/builtin_commands.go", "go/vimlfunc.go", "vimlparser.go"], [("package state", "go/builtin_commands.go tables, go/vimlfunc.go patVim2GoRegh, find_command_cache")])

p("C18", "The command-line tool compiles each file and reports each failure",
  "The tool reads the files named (or standard input when none is named), in order, with the options before them, and for each that parses prints its compiled form on standard output. "
  "A file that cannot be opened or parsed is reported on standard error with its own name and position, does not stop the files after it, and makes the exit status nonzero; without failures the status is zero.",
  ["inputs", "fault_sequences"], "all argument lists of good, broken and missing files, and standard input",
  "There is no test of the tool.",
  ["cmd/vimlparser/main.go"], [("driver", "cmd/vimlparser/main.go")])

p("C19", "The Vim script parser and the Go parser are the same parser",
  "For every script without NUL bytes whose bytes are valid UTF-8 without combining characters, the parser in Vim script and the Go parser agree: both reject it with the same message, line and column, or both accept it with the same compiled form (an empty :catch pattern and a lock depth of 0, which the Go tree does not tell from none, and ++ options followed by multibyte text aside). "
  "Running the repository's generator on the Vim script parser gives a Go parser that behaves like the committed one.",
  ["programs"], "all scripts and expressions, with and without the Neovim option",
  "It relates two implementations on all inputs.",
  [V, "go/gocompiler.vim", "go/generate.vim", G], [("source", V), ("translator", "go/gocompiler.vim"), ("product", G)])

p("C20", "All of the input is read, byte for byte, or an error is returned",
  "The outcome of a parse depends only on the bytes of the input, not on how the reader hands them out: lines of any length are read whole, a missing final newline does not matter, a carriage return before a newline belongs to the line end, and bytes that are not valid UTF-8 come through in names, strings and comments unchanged. "
  "If the reader fails before its end, the parse returns that failure and no tree.",
  ["inputs", "fault_sequences"], "all inputs, all ways to chunk them, and read errors at every point",
  "Tests read small well-formed files from memory.",
  ["vimlparser.go", "go/type.go"], [("line reader", "vimlparser.go readlines"), ("cells", "go/type.go StringReader.__init__")])

p("C21", "Commands with expression arguments keep every argument",
  "The arguments of :echo, :echon, :echomsg, :echoerr, :execute, :call, :return, :throw, :eval, :if, :elseif, :while, :for, :echohl and the pattern of :catch are kept whole and in order, split exactly where one expression ends and the next begins, and up to the bar, line end or comment that ends the command. "
  "A missing argument or a :call that is not a call is an error.",
  ["inputs"], "all argument lists of these commands",
  "Where an expression ends in a list without commas depends on blanks and on every token of the grammar.",
  [G, V], [("argument lists", "parse_exprlist, parse_cmd_echo..., parse_cmd_call, parse_cmd_return, parse_cmd_catch")])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for d in P: f.write(json.dumps(d) + "\n")
for d in P:
    assert len(d["title"]) <= 80, (d["id"], len(d["title"]))
