#!/usr/bin/env python3
"""Writes spec/VimCommands.tla, the table of Ex commands of the specification.

It was run once, on the tree on which the table was checked against Vim itself
(tools/check_table.py); checks never run it: the table of the specification
does not follow the one of the code.
"""
import re
src = open('/repo/go/builtin_commands.go').read()


def table(name):
    m = re.search(r'var %s = \[\]\*Cmd\{\n(.*?)\n\}' % name, src, re.S)
    return re.findall(r'\{flags: "(.*?)", minlen: (\d+), name: "(.*?)", parser: "(.*?)"\}', m.group(1))


def entry(e):
    f, n, name, q = e
    fl = ', '.join('"%s"' % x for x in f.split('|') if x)
    return '[n |-> "%s", m |-> %s, q |-> "%s", g |-> "%s", f |-> {%s}]' % (
        name, n, q.replace('parse_cmd_', '').replace('parse_', ''), f, fl)


out = ['----------------------------- MODULE VimCommands -----------------------------',
       '(* Ex commands by first character: name n, length of the shortest form m,   *)',
       '(* flags f (g: as one string), and how the argument is read (q).            *)',
       '(* Written by tools/gen_commands.py.                                        *)']
by = {}
for e in table('builtin_commands'):
    by.setdefault(e[2][0], []).append(e)


def rec(d):
    q = lambda c: '"%s"' % c.replace('\\', '\\\\').replace('"', '\\"')
    return ' @@\n'.join('  (%s :> <<\n    %s >>)' % (q(c), ',\n    '.join(entry(e) for e in d[c])) for c in sorted(d))


out.insert(1, 'EXTENDS TLC')
out.append('CommandsBy ==\n' + rec(by))
for v, n in (('NeovimAdded', 'neovim_additional_commands'), ('NeovimRemoved', 'neovim_removed_commands')):
    out.append('%s == <<\n    %s >>' % (v, ',\n    '.join(entry(e) for e in table(n))))
out.append('=' * 78)
open('/verif/spec/VimCommands.tla', 'w').write('\n'.join(out) + '\n')
