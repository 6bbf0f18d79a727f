----------------------------- MODULE VimCommands -----------------------------
EXTENDS TLC
(* Ex commands by first character: name n, length of the shortest form m,   *)
(* flags f (g: as one string), and how the argument is read (q).            *)
(* Written by tools/gen_commands.py.                                        *)
CommandsBy ==
  ("!" :> <<
    [n |-> "!", m |-> 1, q |-> "common", g |-> "RANGE|WHOLEFOLD|BANG|FILES|CMDWIN", f |-> {"RANGE", "WHOLEFOLD", "BANG", "FILES", "CMDWIN"}] >>) @@
  ("#" :> <<
    [n |-> "#", m |-> 1, q |-> "common", g |-> "RANGE|WHOLEFOLD|COUNT|EXFLAGS|TRLBAR|CMDWIN", f |-> {"RANGE", "WHOLEFOLD", "COUNT", "EXFLAGS", "TRLBAR", "CMDWIN"}] >>) @@
  ("&" :> <<
    [n |-> "&", m |-> 1, q |-> "common", g |-> "RANGE|WHOLEFOLD|EXTRA|CMDWIN|MODIFY", f |-> {"RANGE", "WHOLEFOLD", "EXTRA", "CMDWIN", "MODIFY"}] >>) @@
  ("*" :> <<
    [n |-> "*", m |-> 1, q |-> "common", g |-> "RANGE|WHOLEFOLD|EXTRA|TRLBAR|CMDWIN", f |-> {"RANGE", "WHOLEFOLD", "EXTRA", "TRLBAR", "CMDWIN"}] >>) @@
  ("<" :> <<
    [n |-> "<", m |-> 1, q |-> "common", g |-> "RANGE|WHOLEFOLD|COUNT|EXFLAGS|TRLBAR|CMDWIN|MODIFY", f |-> {"RANGE", "WHOLEFOLD", "COUNT", "EXFLAGS", "TRLBAR", "CMDWIN", "MODIFY"}] >>) @@
  ("=" :> <<
    [n |-> "=", m |-> 1, q |-> "common", g |-> "RANGE|TRLBAR|DFLALL|EXFLAGS|CMDWIN", f |-> {"RANGE", "TRLBAR", "DFLALL", "EXFLAGS", "CMDWIN"}] >>) @@
  (">" :> <<
    [n |-> ">", m |-> 1, q |-> "common", g |-> "RANGE|WHOLEFOLD|COUNT|EXFLAGS|TRLBAR|CMDWIN|MODIFY", f |-> {"RANGE", "WHOLEFOLD", "COUNT", "EXFLAGS", "TRLBAR", "CMDWIN", "MODIFY"}] >>) @@
  ("@" :> <<
    [n |-> "@", m |-> 1, q |-> "common", g |-> "RANGE|WHOLEFOLD|EXTRA|TRLBAR|CMDWIN", f |-> {"RANGE", "WHOLEFOLD", "EXTRA", "TRLBAR", "CMDWIN"}] >>) @@
  ("N" :> <<
    [n |-> "Next", m |-> 1, q |-> "common", g |-> "EXTRA|RANGE|NOTADR|COUNT|BANG|EDITCMD|ARGOPT|TRLBAR", f |-> {"EXTRA", "RANGE", "NOTADR", "COUNT", "BANG", "EDITCMD", "ARGOPT", "TRLBAR"}] >>) @@
  ("P" :> <<
    [n |-> "Print", m |-> 1, q |-> "common", g |-> "RANGE|WHOLEFOLD|COUNT|EXFLAGS|TRLBAR|CMDWIN", f |-> {"RANGE", "WHOLEFOLD", "COUNT", "EXFLAGS", "TRLBAR", "CMDWIN"}] >>) @@
  ("X" :> <<
    [n |-> "X", m |-> 1, q |-> "common", g |-> "TRLBAR", f |-> {"TRLBAR"}] >>) @@
  ("a" :> <<
    [n |-> "append", m |-> 1, q |-> "append", g |-> "BANG|RANGE|ZEROR|TRLBAR|CMDWIN|MODIFY", f |-> {"BANG", "RANGE", "ZEROR", "TRLBAR", "CMDWIN", "MODIFY"}],
    [n |-> "abbreviate", m |-> 2, q |-> "common", g |-> "EXTRA|TRLBAR|NOTRLCOM|USECTRLV|CMDWIN", f |-> {"EXTRA", "TRLBAR", "NOTRLCOM", "USECTRLV", "CMDWIN"}],
    [n |-> "abclear", m |-> 3, q |-> "common", g |-> "EXTRA|TRLBAR|CMDWIN", f |-> {"EXTRA", "TRLBAR", "CMDWIN"}],
    [n |-> "aboveleft", m |-> 3, q |-> "common", g |-> "NEEDARG|EXTRA|NOTRLCOM", f |-> {"NEEDARG", "EXTRA", "NOTRLCOM"}],
    [n |-> "all", m |-> 2, q |-> "common", g |-> "BANG|RANGE|NOTADR|COUNT|TRLBAR", f |-> {"BANG", "RANGE", "NOTADR", "COUNT", "TRLBAR"}],
    [n |-> "amenu", m |-> 2, q |-> "common", g |-> "RANGE|NOTADR|ZEROR|EXTRA|TRLBAR|NOTRLCOM|USECTRLV|CMDWIN", f |-> {"RANGE", "NOTADR", "ZEROR", "EXTRA", "TRLBAR", "NOTRLCOM", "USECTRLV", "CMDWIN"}],
    [n |-> "anoremenu", m |-> 2, q |-> "common", g |-> "RANGE|NOTADR|ZEROR|EXTRA|TRLBAR|NOTRLCOM|USECTRLV|CMDWIN", f |-> {"RANGE", "NOTADR", "ZEROR", "EXTRA", "TRLBAR", "NOTRLCOM", "USECTRLV", "CMDWIN"}],
    [n |-> "args", m |-> 2, q |-> "common", g |-> "BANG|FILES|EDITCMD|ARGOPT|TRLBAR", f |-> {"BANG", "FILES", "EDITCMD", "ARGOPT", "TRLBAR"}],
    [n |-> "argadd", m |-> 4, q |-> "common", g |-> "BANG|NEEDARG|RANGE|NOTADR|ZEROR|FILES|TRLBAR", f |-> {"BANG", "NEEDARG", "RANGE", "NOTADR", "ZEROR", "FILES", "TRLBAR"}],
    [n |-> "argdelete", m |-> 4, q |-> "common", g |-> "BANG|RANGE|NOTADR|FILES|TRLBAR", f |-> {"BANG", "RANGE", "NOTADR", "FILES", "TRLBAR"}],
    [n |-> "argedit", m |-> 4, q |-> "common", g |-> "BANG|NEEDARG|RANGE|NOTADR|FILE1|EDITCMD|ARGOPT|TRLBAR", f |-> {"BANG", "NEEDARG", "RANGE", "NOTADR", "FILE1", "EDITCMD", "ARGOPT", "TRLBAR"}],
    [n |-> "argdo", m |-> 5, q |-> "common", g |-> "BANG|NEEDARG|EXTRA|NOTRLCOM", f |-> {"BANG", "NEEDARG", "EXTRA", "NOTRLCOM"}],
    [n |-> "argglobal", m |-> 4, q |-> "common", g |-> "BANG|FILES|EDITCMD|ARGOPT|TRLBAR", f |-> {"BANG", "FILES", "EDITCMD", "ARGOPT", "TRLBAR"}],
    [n |-> "arglocal", m |-> 4, q |-> "common", g |-> "BANG|FILES|EDITCMD|ARGOPT|TRLBAR", f |-> {"BANG", "FILES", "EDITCMD", "ARGOPT", "TRLBAR"}],
    [n |-> "argument", m |-> 4, q |-> "common", g |-> "BANG|RANGE|NOTADR|COUNT|EXTRA|EDITCMD|ARGOPT|TRLBAR", f |-> {"BANG", "RANGE", "NOTADR", "COUNT", "EXTRA", "EDITCMD", "ARGOPT", "TRLBAR"}],
    [n |-> "ascii", m |-> 2, q |-> "common", g |-> "TRLBAR|SBOXOK|CMDWIN", f |-> {"TRLBAR", "SBOXOK", "CMDWIN"}],
    [n |-> "autocmd", m |-> 2, q |-> "common", g |-> "BANG|EXTRA|NOTRLCOM|USECTRLV|CMDWIN", f |-> {"BANG", "EXTRA", "NOTRLCOM", "USECTRLV", "CMDWIN"}],
    [n |-> "augroup", m |-> 3, q |-> "common", g |-> "BANG|WORD1|TRLBAR|CMDWIN", f |-> {"BANG", "WORD1", "TRLBAR", "CMDWIN"}],
    [n |-> "aunmenu", m |-> 3, q |-> "common", g |-> "EXTRA|TRLBAR|NOTRLCOM|USECTRLV|CMDWIN", f |-> {"EXTRA", "TRLBAR", "NOTRLCOM", "USECTRLV", "CMDWIN"}] >>) @@
  ("b" :> <<
    [n |-> "buffer", m |-> 1, q |-> "common", g |-> "BANG|RANGE|NOTADR|BUFNAME|BUFUNL|COUNT|EXTRA|TRLBAR", f |-> {"BANG", "RANGE", "NOTADR", "BUFNAME", "BUFUNL", "COUNT", "EXTRA", "TRLBAR"}],
    [n |-> "bNext", m |-> 2, q |-> "common", g |-> "BANG|RANGE|NOTADR|COUNT|TRLBAR", f |-> {"BANG", "RANGE", "NOTADR", "COUNT", "TRLBAR"}],
    [n |-> "ball", m |-> 2, q |-> "common", g |-> "RANGE|NOTADR|COUNT|TRLBAR", f |-> {"RANGE", "NOTADR", "COUNT", "TRLBAR"}],
    [n |-> "badd", m |-> 3, q |-> "common", g |-> "NEEDARG|FILE1|EDITCMD|TRLBAR|CMDWIN", f |-> {"NEEDARG", "FILE1", "EDITCMD", "TRLBAR", "CMDWIN"}],
    [n |-> "bdelete", m |-> 2, q |-> "common", g |-> "BANG|RANGE|NOTADR|BUFNAME|COUNT|EXTRA|TRLBAR", f |-> {"BANG", "RANGE", "NOTADR", "BUFNAME", "COUNT", "EXTRA", "TRLBAR"}],
    [n |-> "behave", m |-> 2, q |-> "common", g |-> "NEEDARG|WORD1|TRLBAR|CMDWIN", f |-> {"NEEDARG", "WORD1", "TRLBAR", "CMDWIN"}],
    [n |-> "belowright", m |-> 3, q |-> "common", g |-> "NEEDARG|EXTRA|NOTRLCOM", f |-> {"NEEDARG", "EXTRA", "NOTRLCOM"}],
    [n |-> "bfirst", m |-> 2, q |-> "common", g |-> "BANG|RANGE|NOTADR|TRLBAR", f |-> {"BANG", "RANGE", "NOTADR", "TRLBAR"}],
    [n |-> "blast", m |-> 2, q |-> "common", g |-> "BANG|RANGE|NOTADR|TRLBAR", f |-> {"BANG", "RANGE", "NOTADR", "TRLBAR"}],
    [n |-> "bmodified", m |-> 2, q |-> "common", g |-> "BANG|RANGE|NOTADR|COUNT|TRLBAR", f |-> {"BANG", "RANGE", "NOTADR", "COUNT", "TRLBAR"}],
    [n |-> "bnext", m |-> 2, q |-> "common", g |-> "BANG|RANGE|NOTADR|COUNT|TRLBAR", f |-> {"BANG", "RANGE", "NOTADR", "COUNT", "TRLBAR"}],
    [n |-> "botright", m |-> 2, q |-> "common", g |-> "NEEDARG|EXTRA|NOTRLCOM", f |-> {"NEEDARG", "EXTRA", "NOTRLCOM"}],
    [n |-> "bprevious", m |-> 2, q |-> "common", g |-> "BANG|RANGE|NOTADR|COUNT|TRLBAR", f |-> {"BANG", "RANGE", "NOTADR", "COUNT", "TRLBAR"}],
    [n |-> "brewind", m |-> 2, q |-> "common", g |-> "BANG|RANGE|NOTADR|TRLBAR", f |-> {"BANG", "RANGE", "NOTADR", "TRLBAR"}],
    [n |-> "break", m |-> 4, q |-> "break", g |-> "TRLBAR|SBOXOK|CMDWIN", f |-> {"TRLBAR", "SBOXOK", "CMDWIN"}],
    [n |-> "breakadd", m |-> 6, q |-> "common", g |-> "EXTRA|TRLBAR|CMDWIN", f |-> {"EXTRA", "TRLBAR", "CMDWIN"}],
    [n |-> "breakdel", m |-> 6, q |-> "common", g |-> "EXTRA|TRLBAR|CMDWIN", f |-> {"EXTRA", "TRLBAR", "CMDWIN"}],
    [n |-> "breaklist", m |-> 6, q |-> "common", g |-> "EXTRA|TRLBAR|CMDWIN", f |-> {"EXTRA", "TRLBAR", "CMDWIN"}],
    [n |-> "browse", m |-> 3, q |-> "common", g |-> "NEEDARG|EXTRA|NOTRLCOM|CMDWIN", f |-> {"NEEDARG", "EXTRA", "NOTRLCOM", "CMDWIN"}],
    [n |-> "bufdo", m |-> 4, q |-> "common", g |-> "BANG|NEEDARG|EXTRA|NOTRLCOM", f |-> {"BANG", "NEEDARG", "EXTRA", "NOTRLCOM"}],
    [n |-> "buffers", m |-> 7, q |-> "common", g |-> "BANG|TRLBAR|CMDWIN", f |-> {"BANG", "TRLBAR", "CMDWIN"}],
    [n |-> "bunload", m |-> 3, q |-> "common", g |-> "BANG|RANGE|NOTADR|BUFNAME|COUNT|EXTRA|TRLBAR", f |-> {"BANG", "RANGE", "NOTADR", "BUFNAME", "COUNT", "EXTRA", "TRLBAR"}],
    [n |-> "bwipeout", m |-> 2, q |-> "common", g |-> "BANG|RANGE|NOTADR|BUFNAME|BUFUNL|COUNT|EXTRA|TRLBAR", f |-> {"BANG", "RANGE", "NOTADR", "BUFNAME", "BUFUNL", "COUNT", "EXTRA", "TRLBAR"}] >>) @@
  ("c" :> <<
    [n |-> "change", m |-> 1, q |-> "common", g |-> "BANG|WHOLEFOLD|RANGE|COUNT|TRLBAR|CMDWIN|MODIFY", f |-> {"BANG", "WHOLEFOLD", "RANGE", "COUNT", "TRLBAR", "CMDWIN", "MODIFY"}],
    [n |-> "cNext", m |-> 2, q |-> "common", g |-> "RANGE|NOTADR|COUNT|TRLBAR|BANG", f |-> {"RANGE", "NOTADR", "COUNT", "TRLBAR", "BANG"}],
    [n |-> "cNfile", m |-> 3, q |-> "common", g |-> "RANGE|NOTADR|COUNT|TRLBAR|BANG", f |-> {"RANGE", "NOTADR", "COUNT", "TRLBAR", "BANG"}],
    [n |-> "cabbrev", m |-> 2, q |-> "common", g |-> "EXTRA|TRLBAR|NOTRLCOM|USECTRLV|CMDWIN", f |-> {"EXTRA", "TRLBAR", "NOTRLCOM", "USECTRLV", "CMDWIN"}],
    [n |-> "cabclear", m |-> 4, q |-> "common", g |-> "EXTRA|TRLBAR|CMDWIN", f |-> {"EXTRA", "TRLBAR", "CMDWIN"}],
    [n |-> "caddbuffer", m |-> 3, q |-> "common", g |-> "RANGE|NOTADR|WORD1|TRLBAR", f |-> {"RANGE", "NOTADR", "WORD1", "TRLBAR"}],
    [n |-> "caddexpr", m |-> 5, q |-> "common", g |-> "NEEDARG|WORD1|NOTRLCOM|TRLBAR", f |-> {"NEEDARG", "WORD1", "NOTRLCOM", "TRLBAR"}],
    [n |-> "caddfile", m |-> 5, q |-> "common", g |-> "TRLBAR|FILE1", f |-> {"TRLBAR", "FILE1"}],
    [n |-> "call", m |-> 3, q |-> "call", g |-> "RANGE|NEEDARG|EXTRA|NOTRLCOM|SBOXOK|CMDWIN", f |-> {"RANGE", "NEEDARG", "EXTRA", "NOTRLCOM", "SBOXOK", "CMDWIN"}],
    [n |-> "catch", m |-> 3, q |-> "catch", g |-> "EXTRA|SBOXOK|CMDWIN", f |-> {"EXTRA", "SBOXOK", "CMDWIN"}],
    [n |-> "cbuffer", m |-> 2, q |-> "common", g |-> "BANG|RANGE|NOTADR|WORD1|TRLBAR", f |-> {"BANG", "RANGE", "NOTADR", "WORD1", "TRLBAR"}],
    [n |-> "cc", m |-> 2, q |-> "common", g |-> "RANGE|NOTADR|COUNT|TRLBAR|BANG", f |-> {"RANGE", "NOTADR", "COUNT", "TRLBAR", "BANG"}],
    [n |-> "cclose", m |-> 3, q |-> "common", g |-> "RANGE|NOTADR|COUNT|TRLBAR", f |-> {"RANGE", "NOTADR", "COUNT", "TRLBAR"}],
    [n |-> "cd", m |-> 2, q |-> "common", g |-> "BANG|FILE1|TRLBAR|CMDWIN", f |-> {"BANG", "FILE1", "TRLBAR", "CMDWIN"}],
    [n |-> "center", m |-> 2, q |-> "common", g |-> "TRLBAR|RANGE|WHOLEFOLD|EXTRA|CMDWIN|MODIFY", f |-> {"TRLBAR", "RANGE", "WHOLEFOLD", "EXTRA", "CMDWIN", "MODIFY"}],
    [n |-> "cexpr", m |-> 3, q |-> "common", g |-> "NEEDARG|WORD1|NOTRLCOM|TRLBAR|BANG", f |-> {"NEEDARG", "WORD1", "NOTRLCOM", "TRLBAR", "BANG"}],
    [n |-> "cfile", m |-> 2, q |-> "common", g |-> "TRLBAR|FILE1|BANG", f |-> {"TRLBAR", "FILE1", "BANG"}],
    [n |-> "cfirst", m |-> 4, q |-> "common", g |-> "RANGE|NOTADR|COUNT|TRLBAR|BANG", f |-> {"RANGE", "NOTADR", "COUNT", "TRLBAR", "BANG"}],
    [n |-> "cgetbuffer", m |-> 5, q |-> "common", g |-> "RANGE|NOTADR|WORD1|TRLBAR", f |-> {"RANGE", "NOTADR", "WORD1", "TRLBAR"}],
    [n |-> "cgetexpr", m |-> 5, q |-> "common", g |-> "NEEDARG|WORD1|NOTRLCOM|TRLBAR", f |-> {"NEEDARG", "WORD1", "NOTRLCOM", "TRLBAR"}],
    [n |-> "cgetfile", m |-> 2, q |-> "common", g |-> "TRLBAR|FILE1", f |-> {"TRLBAR", "FILE1"}],
    [n |-> "changes", m |-> 7, q |-> "common", g |-> "TRLBAR|CMDWIN", f |-> {"TRLBAR", "CMDWIN"}],
    [n |-> "chdir", m |-> 3, q |-> "common", g |-> "BANG|FILE1|TRLBAR|CMDWIN", f |-> {"BANG", "FILE1", "TRLBAR", "CMDWIN"}],
    [n |-> "checkpath", m |-> 3, q |-> "common", g |-> "TRLBAR|BANG|CMDWIN", f |-> {"TRLBAR", "BANG", "CMDWIN"}],
    [n |-> "checktime", m |-> 6, q |-> "common", g |-> "RANGE|NOTADR|BUFNAME|COUNT|EXTRA|TRLBAR", f |-> {"RANGE", "NOTADR", "BUFNAME", "COUNT", "EXTRA", "TRLBAR"}],
    [n |-> "clist", m |-> 2, q |-> "common", g |-> "BANG|EXTRA|TRLBAR|CMDWIN", f |-> {"BANG", "EXTRA", "TRLBAR", "CMDWIN"}],
    [n |-> "clast", m |-> 3, q |-> "common", g |-> "RANGE|NOTADR|COUNT|TRLBAR|BANG", f |-> {"RANGE", "NOTADR", "COUNT", "TRLBAR", "BANG"}],
    [n |-> "close", m |-> 3, q |-> "common", g |-> "BANG|TRLBAR|CMDWIN", f |-> {"BANG", "TRLBAR", "CMDWIN"}],
    [n |-> "cmap", m |-> 2, q |-> "common", g |-> "EXTRA|TRLBAR|NOTRLCOM|USECTRLV|CMDWIN", f |-> {"EXTRA", "TRLBAR", "NOTRLCOM", "USECTRLV", "CMDWIN"}],
    [n |-> "cmapclear", m |-> 5, q |-> "common", g |-> "EXTRA|TRLBAR|CMDWIN", f |-> {"EXTRA", "TRLBAR", "CMDWIN"}],
    [n |-> "cmenu", m |-> 3, q |-> "common", g |-> "RANGE|NOTADR|ZEROR|EXTRA|TRLBAR|NOTRLCOM|USECTRLV|CMDWIN", f |-> {"RANGE", "NOTADR", "ZEROR", "EXTRA", "TRLBAR", "NOTRLCOM", "USECTRLV", "CMDWIN"}],
    [n |-> "cnext", m |-> 2, q |-> "common", g |-> "RANGE|NOTADR|COUNT|TRLBAR|BANG", f |-> {"RANGE", "NOTADR", "COUNT", "TRLBAR", "BANG"}],
    [n |-> "cnewer", m |-> 4, q |-> "common", g |-> "RANGE|NOTADR|COUNT|TRLBAR", f |-> {"RANGE", "NOTADR", "COUNT", "TRLBAR"}],
    [n |-> "cnfile", m |-> 3, q |-> "common", g |-> "RANGE|NOTADR|COUNT|TRLBAR|BANG", f |-> {"RANGE", "NOTADR", "COUNT", "TRLBAR", "BANG"}],
    [n |-> "cnoremap", m |-> 3, q |-> "common", g |-> "EXTRA|TRLBAR|NOTRLCOM|USECTRLV|CMDWIN", f |-> {"EXTRA", "TRLBAR", "NOTRLCOM", "USECTRLV", "CMDWIN"}],
    [n |-> "cnoreabbrev", m |-> 6, q |-> "common", g |-> "EXTRA|TRLBAR|NOTRLCOM|USECTRLV|CMDWIN", f |-> {"EXTRA", "TRLBAR", "NOTRLCOM", "USECTRLV", "CMDWIN"}],
    [n |-> "cnoremenu", m |-> 7, q |-> "common", g |-> "RANGE|NOTADR|ZEROR|EXTRA|TRLBAR|NOTRLCOM|USECTRLV|CMDWIN", f |-> {"RANGE", "NOTADR", "ZEROR", "EXTRA", "TRLBAR", "NOTRLCOM", "USECTRLV", "CMDWIN"}],
    [n |-> "copy", m |-> 2, q |-> "common", g |-> "RANGE|WHOLEFOLD|EXTRA|TRLBAR|CMDWIN|MODIFY", f |-> {"RANGE", "WHOLEFOLD", "EXTRA", "TRLBAR", "CMDWIN", "MODIFY"}],
    [n |-> "colder", m |-> 3, q |-> "common", g |-> "RANGE|NOTADR|COUNT|TRLBAR", f |-> {"RANGE", "NOTADR", "COUNT", "TRLBAR"}],
    [n |-> "colorscheme", m |-> 4, q |-> "common", g |-> "WORD1|TRLBAR|CMDWIN", f |-> {"WORD1", "TRLBAR", "CMDWIN"}],
    [n |-> "command", m |-> 3, q |-> "common", g |-> "EXTRA|BANG|NOTRLCOM|USECTRLV|CMDWIN", f |-> {"EXTRA", "BANG", "NOTRLCOM", "USECTRLV", "CMDWIN"}],
    [n |-> "comclear", m |-> 4, q |-> "common", g |-> "TRLBAR|CMDWIN", f |-> {"TRLBAR", "CMDWIN"}],
    [n |-> "compiler", m |-> 4, q |-> "common", g |-> "BANG|TRLBAR|WORD1|CMDWIN", f |-> {"BANG", "TRLBAR", "WORD1", "CMDWIN"}],
    [n |-> "continue", m |-> 3, q |-> "continue", g |-> "TRLBAR|SBOXOK|CMDWIN", f |-> {"TRLBAR", "SBOXOK", "CMDWIN"}],
    [n |-> "confirm", m |-> 4, q |-> "common", g |-> "NEEDARG|EXTRA|NOTRLCOM|CMDWIN", f |-> {"NEEDARG", "EXTRA", "NOTRLCOM", "CMDWIN"}],
    [n |-> "copen", m |-> 4, q |-> "common", g |-> "RANGE|NOTADR|COUNT|TRLBAR", f |-> {"RANGE", "NOTADR", "COUNT", "TRLBAR"}],
    [n |-> "cprevious", m |-> 2, q |-> "common", g |-> "RANGE|NOTADR|COUNT|TRLBAR|BANG", f |-> {"RANGE", "NOTADR", "COUNT", "TRLBAR", "BANG"}],
    [n |-> "cpfile", m |-> 3, q |-> "common", g |-> "RANGE|NOTADR|COUNT|TRLBAR|BANG", f |-> {"RANGE", "NOTADR", "COUNT", "TRLBAR", "BANG"}],
    [n |-> "cquit", m |-> 2, q |-> "common", g |-> "TRLBAR|BANG", f |-> {"TRLBAR", "BANG"}],
    [n |-> "crewind", m |-> 2, q |-> "common", g |-> "RANGE|NOTADR|COUNT|TRLBAR|BANG", f |-> {"RANGE", "NOTADR", "COUNT", "TRLBAR", "BANG"}],
    [n |-> "cscope", m |-> 2, q |-> "common", g |-> "EXTRA|NOTRLCOM|XFILE", f |-> {"EXTRA", "NOTRLCOM", "XFILE"}],
    [n |-> "cstag", m |-> 3, q |-> "common", g |-> "BANG|TRLBAR|WORD1", f |-> {"BANG", "TRLBAR", "WORD1"}],
    [n |-> "cunmap", m |-> 2, q |-> "common", g |-> "EXTRA|TRLBAR|NOTRLCOM|USECTRLV|CMDWIN", f |-> {"EXTRA", "TRLBAR", "NOTRLCOM", "USECTRLV", "CMDWIN"}],
    [n |-> "cunabbrev", m |-> 4, q |-> "common", g |-> "EXTRA|TRLBAR|NOTRLCOM|USECTRLV|CMDWIN", f |-> {"EXTRA", "TRLBAR", "NOTRLCOM", "USECTRLV", "CMDWIN"}],
    [n |-> "cunmenu", m |-> 5, q |-> "common", g |-> "EXTRA|TRLBAR|NOTRLCOM|USECTRLV|CMDWIN", f |-> {"EXTRA", "TRLBAR", "NOTRLCOM", "USECTRLV", "CMDWIN"}],
    [n |-> "cwindow", m |-> 2, q |-> "common", g |-> "RANGE|NOTADR|COUNT|TRLBAR", f |-> {"RANGE", "NOTADR", "COUNT", "TRLBAR"}],
    [n |-> "const", m |-> 4, q |-> "const", g |-> "EXTRA|NOTRLCOM|SBOXOK|CMDWIN", f |-> {"EXTRA", "NOTRLCOM", "SBOXOK", "CMDWIN"}],
    [n |-> "cbottom", m |-> 3, q |-> "common", g |-> "TRLBAR", f |-> {"TRLBAR"}],
    [n |-> "cdo", m |-> 3, q |-> "common", g |-> "BANG|NEEDARG|EXTRA|NOTRLCOM|RANGE|NOTADR|DFLALL", f |-> {"BANG", "NEEDARG", "EXTRA", "NOTRLCOM", "RANGE", "NOTADR", "DFLALL"}],
    [n |-> "cfdo", m |-> 3, q |-> "common", g |-> "BANG|NEEDARG|EXTRA|NOTRLCOM|RANGE|NOTADR|DFLALL", f |-> {"BANG", "NEEDARG", "EXTRA", "NOTRLCOM", "RANGE", "NOTADR", "DFLALL"}],
    [n |-> "chistory", m |-> 3, q |-> "common", g |-> "TRLBAR", f |-> {"TRLBAR"}],
    [n |-> "clearjumps", m |-> 3, q |-> "common", g |-> "TRLBAR|CMDWIN", f |-> {"TRLBAR", "CMDWIN"}],
    [n |-> "cabove", m |-> 4, q |-> "common", g |-> "RANGE|COUNT|TRLBAR", f |-> {"RANGE", "COUNT", "TRLBAR"}],
    [n |-> "cafter", m |-> 3, q |-> "common", g |-> "RANGE|COUNT|TRLBAR", f |-> {"RANGE", "COUNT", "TRLBAR"}],
    [n |-> "cbefore", m |-> 3, q |-> "common", g |-> "RANGE|COUNT|TRLBAR", f |-> {"RANGE", "COUNT", "TRLBAR"}],
    [n |-> "cbelow", m |-> 4, q |-> "common", g |-> "RANGE|COUNT|TRLBAR", f |-> {"RANGE", "COUNT", "TRLBAR"}],
    [n |-> "const", m |-> 4, q |-> "common", g |-> "EXTRA|NOTRLCOM|SBOXOK|CMDWIN", f |-> {"EXTRA", "NOTRLCOM", "SBOXOK", "CMDWIN"}] >>) @@
  ("d" :> <<
    [n |-> "delete", m |-> 1, q |-> "common", g |-> "RANGE|WHOLEFOLD|REGSTR|COUNT|TRLBAR|CMDWIN|MODIFY", f |-> {"RANGE", "WHOLEFOLD", "REGSTR", "COUNT", "TRLBAR", "CMDWIN", "MODIFY"}],
    [n |-> "delmarks", m |-> 4, q |-> "common", g |-> "BANG|EXTRA|TRLBAR|CMDWIN", f |-> {"BANG", "EXTRA", "TRLBAR", "CMDWIN"}],
    [n |-> "debug", m |-> 3, q |-> "common", g |-> "NEEDARG|EXTRA|NOTRLCOM|SBOXOK|CMDWIN", f |-> {"NEEDARG", "EXTRA", "NOTRLCOM", "SBOXOK", "CMDWIN"}],
    [n |-> "debuggreedy", m |-> 6, q |-> "common", g |-> "RANGE|NOTADR|ZEROR|TRLBAR|CMDWIN", f |-> {"RANGE", "NOTADR", "ZEROR", "TRLBAR", "CMDWIN"}],
    [n |-> "delcommand", m |-> 4, q |-> "common", g |-> "NEEDARG|WORD1|TRLBAR|CMDWIN", f |-> {"NEEDARG", "WORD1", "TRLBAR", "CMDWIN"}],
    [n |-> "delfunction", m |-> 4, q |-> "delfunction", g |-> "BANG|NEEDARG|WORD1|CMDWIN", f |-> {"BANG", "NEEDARG", "WORD1", "CMDWIN"}],
    [n |-> "diffupdate", m |-> 3, q |-> "common", g |-> "BANG|TRLBAR", f |-> {"BANG", "TRLBAR"}],
    [n |-> "diffget", m |-> 5, q |-> "common", g |-> "RANGE|EXTRA|TRLBAR|MODIFY", f |-> {"RANGE", "EXTRA", "TRLBAR", "MODIFY"}],
    [n |-> "diffoff", m |-> 5, q |-> "common", g |-> "BANG|TRLBAR", f |-> {"BANG", "TRLBAR"}],
    [n |-> "diffpatch", m |-> 5, q |-> "common", g |-> "EXTRA|FILE1|TRLBAR|MODIFY", f |-> {"EXTRA", "FILE1", "TRLBAR", "MODIFY"}],
    [n |-> "diffput", m |-> 6, q |-> "common", g |-> "RANGE|EXTRA|TRLBAR", f |-> {"RANGE", "EXTRA", "TRLBAR"}],
    [n |-> "diffsplit", m |-> 5, q |-> "common", g |-> "EXTRA|FILE1|TRLBAR", f |-> {"EXTRA", "FILE1", "TRLBAR"}],
    [n |-> "diffthis", m |-> 5, q |-> "common", g |-> "TRLBAR", f |-> {"TRLBAR"}],
    [n |-> "digraphs", m |-> 3, q |-> "common", g |-> "EXTRA|TRLBAR|CMDWIN", f |-> {"EXTRA", "TRLBAR", "CMDWIN"}],
    [n |-> "display", m |-> 2, q |-> "common", g |-> "EXTRA|NOTRLCOM|TRLBAR|SBOXOK|CMDWIN", f |-> {"EXTRA", "NOTRLCOM", "TRLBAR", "SBOXOK", "CMDWIN"}],
    [n |-> "djump", m |-> 2, q |-> "common", g |-> "BANG|RANGE|DFLALL|WHOLEFOLD|EXTRA", f |-> {"BANG", "RANGE", "DFLALL", "WHOLEFOLD", "EXTRA"}],
    [n |-> "dlist", m |-> 2, q |-> "common", g |-> "BANG|RANGE|DFLALL|WHOLEFOLD|EXTRA|CMDWIN", f |-> {"BANG", "RANGE", "DFLALL", "WHOLEFOLD", "EXTRA", "CMDWIN"}],
    [n |-> "doautocmd", m |-> 2, q |-> "common", g |-> "EXTRA|TRLBAR|CMDWIN", f |-> {"EXTRA", "TRLBAR", "CMDWIN"}],
    [n |-> "doautoall", m |-> 7, q |-> "common", g |-> "EXTRA|TRLBAR|CMDWIN", f |-> {"EXTRA", "TRLBAR", "CMDWIN"}],
    [n |-> "drop", m |-> 2, q |-> "common", g |-> "FILES|EDITCMD|NEEDARG|ARGOPT|TRLBAR", f |-> {"FILES", "EDITCMD", "NEEDARG", "ARGOPT", "TRLBAR"}],
    [n |-> "dsearch", m |-> 2, q |-> "common", g |-> "BANG|RANGE|DFLALL|WHOLEFOLD|EXTRA|CMDWIN", f |-> {"BANG", "RANGE", "DFLALL", "WHOLEFOLD", "EXTRA", "CMDWIN"}],
    [n |-> "dsplit", m |-> 3, q |-> "common", g |-> "BANG|RANGE|DFLALL|WHOLEFOLD|EXTRA", f |-> {"BANG", "RANGE", "DFLALL", "WHOLEFOLD", "EXTRA"}],
    [n |-> "def", m |-> 3, q |-> "common", g |-> "EXTRA|BANG|SBOXOK|CMDWIN", f |-> {"EXTRA", "BANG", "SBOXOK", "CMDWIN"}],
    [n |-> "disassemble", m |-> 4, q |-> "common", g |-> "EXTRA|NEEDARG|TRLBAR|CMDWIN", f |-> {"EXTRA", "NEEDARG", "TRLBAR", "CMDWIN"}] >>) @@
  ("e" :> <<
    [n |-> "edit", m |-> 1, q |-> "common", g |-> "BANG|FILE1|EDITCMD|ARGOPT|TRLBAR", f |-> {"BANG", "FILE1", "EDITCMD", "ARGOPT", "TRLBAR"}],
    [n |-> "earlier", m |-> 2, q |-> "common", g |-> "TRLBAR|EXTRA|NOSPC|CMDWIN", f |-> {"TRLBAR", "EXTRA", "NOSPC", "CMDWIN"}],
    [n |-> "echo", m |-> 2, q |-> "echo", g |-> "EXTRA|NOTRLCOM|SBOXOK|CMDWIN", f |-> {"EXTRA", "NOTRLCOM", "SBOXOK", "CMDWIN"}],
    [n |-> "echoerr", m |-> 5, q |-> "echoerr", g |-> "EXTRA|NOTRLCOM|SBOXOK|CMDWIN", f |-> {"EXTRA", "NOTRLCOM", "SBOXOK", "CMDWIN"}],
    [n |-> "echohl", m |-> 5, q |-> "echohl", g |-> "EXTRA|TRLBAR|SBOXOK|CMDWIN", f |-> {"EXTRA", "TRLBAR", "SBOXOK", "CMDWIN"}],
    [n |-> "echomsg", m |-> 5, q |-> "echomsg", g |-> "EXTRA|NOTRLCOM|SBOXOK|CMDWIN", f |-> {"EXTRA", "NOTRLCOM", "SBOXOK", "CMDWIN"}],
    [n |-> "echon", m |-> 5, q |-> "echon", g |-> "EXTRA|NOTRLCOM|SBOXOK|CMDWIN", f |-> {"EXTRA", "NOTRLCOM", "SBOXOK", "CMDWIN"}],
    [n |-> "else", m |-> 2, q |-> "else", g |-> "TRLBAR|SBOXOK|CMDWIN", f |-> {"TRLBAR", "SBOXOK", "CMDWIN"}],
    [n |-> "elseif", m |-> 5, q |-> "elseif", g |-> "EXTRA|NOTRLCOM|SBOXOK|CMDWIN", f |-> {"EXTRA", "NOTRLCOM", "SBOXOK", "CMDWIN"}],
    [n |-> "emenu", m |-> 2, q |-> "common", g |-> "NEEDARG|EXTRA|TRLBAR|NOTRLCOM|RANGE|NOTADR|CMDWIN", f |-> {"NEEDARG", "EXTRA", "TRLBAR", "NOTRLCOM", "RANGE", "NOTADR", "CMDWIN"}],
    [n |-> "endif", m |-> 2, q |-> "endif", g |-> "TRLBAR|SBOXOK|CMDWIN", f |-> {"TRLBAR", "SBOXOK", "CMDWIN"}],
    [n |-> "endfor", m |-> 5, q |-> "endfor", g |-> "TRLBAR|SBOXOK|CMDWIN", f |-> {"TRLBAR", "SBOXOK", "CMDWIN"}],
    [n |-> "endfunction", m |-> 4, q |-> "endfunction", g |-> "TRLBAR|CMDWIN", f |-> {"TRLBAR", "CMDWIN"}],
    [n |-> "endtry", m |-> 4, q |-> "endtry", g |-> "TRLBAR|SBOXOK|CMDWIN", f |-> {"TRLBAR", "SBOXOK", "CMDWIN"}],
    [n |-> "endwhile", m |-> 4, q |-> "endwhile", g |-> "TRLBAR|SBOXOK|CMDWIN", f |-> {"TRLBAR", "SBOXOK", "CMDWIN"}],
    [n |-> "enew", m |-> 3, q |-> "common", g |-> "BANG|TRLBAR", f |-> {"BANG", "TRLBAR"}],
    [n |-> "eval", m |-> 2, q |-> "eval", g |-> "EXTRA|NOTRLCOM|SBOXOK|CMDWIN", f |-> {"EXTRA", "NOTRLCOM", "SBOXOK", "CMDWIN"}],
    [n |-> "ex", m |-> 2, q |-> "common", g |-> "BANG|FILE1|EDITCMD|ARGOPT|TRLBAR", f |-> {"BANG", "FILE1", "EDITCMD", "ARGOPT", "TRLBAR"}],
    [n |-> "execute", m |-> 3, q |-> "execute", g |-> "EXTRA|NOTRLCOM|SBOXOK|CMDWIN", f |-> {"EXTRA", "NOTRLCOM", "SBOXOK", "CMDWIN"}],
    [n |-> "exit", m |-> 3, q |-> "common", g |-> "RANGE|WHOLEFOLD|BANG|FILE1|ARGOPT|DFLALL|TRLBAR|CMDWIN", f |-> {"RANGE", "WHOLEFOLD", "BANG", "FILE1", "ARGOPT", "DFLALL", "TRLBAR", "CMDWIN"}],
    [n |-> "exusage", m |-> 3, q |-> "common", g |-> "TRLBAR", f |-> {"TRLBAR"}],
    [n |-> "enddef", m |-> 4, q |-> "common", g |-> "TRLBAR|CMDWIN", f |-> {"TRLBAR", "CMDWIN"}],
    [n |-> "export", m |-> 3, q |-> "common", g |-> "EXTRA|NOTRLCOM", f |-> {"EXTRA", "NOTRLCOM"}] >>) @@
  ("f" :> <<
    [n |-> "file", m |-> 1, q |-> "common", g |-> "RANGE|NOTADR|ZEROR|BANG|FILE1|TRLBAR", f |-> {"RANGE", "NOTADR", "ZEROR", "BANG", "FILE1", "TRLBAR"}],
    [n |-> "files", m |-> 5, q |-> "common", g |-> "BANG|TRLBAR|CMDWIN", f |-> {"BANG", "TRLBAR", "CMDWIN"}],
    [n |-> "filetype", m |-> 5, q |-> "common", g |-> "EXTRA|TRLBAR|CMDWIN", f |-> {"EXTRA", "TRLBAR", "CMDWIN"}],
    [n |-> "find", m |-> 3, q |-> "common", g |-> "RANGE|NOTADR|BANG|FILE1|EDITCMD|ARGOPT|TRLBAR", f |-> {"RANGE", "NOTADR", "BANG", "FILE1", "EDITCMD", "ARGOPT", "TRLBAR"}],
    [n |-> "finally", m |-> 4, q |-> "finally", g |-> "TRLBAR|SBOXOK|CMDWIN", f |-> {"TRLBAR", "SBOXOK", "CMDWIN"}],
    [n |-> "finish", m |-> 4, q |-> "finish", g |-> "TRLBAR|SBOXOK|CMDWIN", f |-> {"TRLBAR", "SBOXOK", "CMDWIN"}],
    [n |-> "first", m |-> 3, q |-> "common", g |-> "EXTRA|BANG|EDITCMD|ARGOPT|TRLBAR", f |-> {"EXTRA", "BANG", "EDITCMD", "ARGOPT", "TRLBAR"}],
    [n |-> "fixdel", m |-> 3, q |-> "common", g |-> "TRLBAR|CMDWIN", f |-> {"TRLBAR", "CMDWIN"}],
    [n |-> "fold", m |-> 2, q |-> "common", g |-> "RANGE|WHOLEFOLD|TRLBAR|SBOXOK|CMDWIN", f |-> {"RANGE", "WHOLEFOLD", "TRLBAR", "SBOXOK", "CMDWIN"}],
    [n |-> "foldclose", m |-> 5, q |-> "common", g |-> "RANGE|BANG|WHOLEFOLD|TRLBAR|SBOXOK|CMDWIN", f |-> {"RANGE", "BANG", "WHOLEFOLD", "TRLBAR", "SBOXOK", "CMDWIN"}],
    [n |-> "folddoopen", m |-> 5, q |-> "common", g |-> "RANGE|DFLALL|NEEDARG|EXTRA|NOTRLCOM", f |-> {"RANGE", "DFLALL", "NEEDARG", "EXTRA", "NOTRLCOM"}],
    [n |-> "folddoclosed", m |-> 7, q |-> "common", g |-> "RANGE|DFLALL|NEEDARG|EXTRA|NOTRLCOM", f |-> {"RANGE", "DFLALL", "NEEDARG", "EXTRA", "NOTRLCOM"}],
    [n |-> "foldopen", m |-> 5, q |-> "common", g |-> "RANGE|BANG|WHOLEFOLD|TRLBAR|SBOXOK|CMDWIN", f |-> {"RANGE", "BANG", "WHOLEFOLD", "TRLBAR", "SBOXOK", "CMDWIN"}],
    [n |-> "for", m |-> 3, q |-> "for", g |-> "EXTRA|NOTRLCOM|SBOXOK|CMDWIN", f |-> {"EXTRA", "NOTRLCOM", "SBOXOK", "CMDWIN"}],
    [n |-> "function", m |-> 2, q |-> "function", g |-> "EXTRA|BANG|CMDWIN", f |-> {"EXTRA", "BANG", "CMDWIN"}],
    [n |-> "filter", m |-> 4, q |-> "common", g |-> "BANG|NEEDARG|EXTRA|NOTRLCOM", f |-> {"BANG", "NEEDARG", "EXTRA", "NOTRLCOM"}] >>) @@
  ("g" :> <<
    [n |-> "global", m |-> 1, q |-> "common", g |-> "RANGE|WHOLEFOLD|BANG|EXTRA|DFLALL|SBOXOK|CMDWIN", f |-> {"RANGE", "WHOLEFOLD", "BANG", "EXTRA", "DFLALL", "SBOXOK", "CMDWIN"}],
    [n |-> "goto", m |-> 2, q |-> "common", g |-> "RANGE|NOTADR|COUNT|TRLBAR|SBOXOK|CMDWIN", f |-> {"RANGE", "NOTADR", "COUNT", "TRLBAR", "SBOXOK", "CMDWIN"}],
    [n |-> "grep", m |-> 2, q |-> "common", g |-> "RANGE|NOTADR|BANG|NEEDARG|EXTRA|NOTRLCOM|TRLBAR|XFILE", f |-> {"RANGE", "NOTADR", "BANG", "NEEDARG", "EXTRA", "NOTRLCOM", "TRLBAR", "XFILE"}],
    [n |-> "grepadd", m |-> 5, q |-> "common", g |-> "RANGE|NOTADR|BANG|NEEDARG|EXTRA|NOTRLCOM|TRLBAR|XFILE", f |-> {"RANGE", "NOTADR", "BANG", "NEEDARG", "EXTRA", "NOTRLCOM", "TRLBAR", "XFILE"}],
    [n |-> "gui", m |-> 2, q |-> "common", g |-> "BANG|FILES|EDITCMD|ARGOPT|TRLBAR|CMDWIN", f |-> {"BANG", "FILES", "EDITCMD", "ARGOPT", "TRLBAR", "CMDWIN"}],
    [n |-> "gvim", m |-> 2, q |-> "common", g |-> "BANG|FILES|EDITCMD|ARGOPT|TRLBAR|CMDWIN", f |-> {"BANG", "FILES", "EDITCMD", "ARGOPT", "TRLBAR", "CMDWIN"}] >>) @@
  ("h" :> <<
    [n |-> "hardcopy", m |-> 2, q |-> "common", g |-> "RANGE|COUNT|EXTRA|TRLBAR|DFLALL|BANG", f |-> {"RANGE", "COUNT", "EXTRA", "TRLBAR", "DFLALL", "BANG"}],
    [n |-> "help", m |-> 1, q |-> "common", g |-> "BANG|EXTRA|NOTRLCOM", f |-> {"BANG", "EXTRA", "NOTRLCOM"}],
    [n |-> "helpfind", m |-> 5, q |-> "common", g |-> "EXTRA|NOTRLCOM", f |-> {"EXTRA", "NOTRLCOM"}],
    [n |-> "helpgrep", m |-> 5, q |-> "common", g |-> "EXTRA|NOTRLCOM|NEEDARG", f |-> {"EXTRA", "NOTRLCOM", "NEEDARG"}],
    [n |-> "helptags", m |-> 5, q |-> "common", g |-> "NEEDARG|FILES|TRLBAR|CMDWIN", f |-> {"NEEDARG", "FILES", "TRLBAR", "CMDWIN"}],
    [n |-> "highlight", m |-> 2, q |-> "common", g |-> "BANG|EXTRA|TRLBAR|SBOXOK|CMDWIN", f |-> {"BANG", "EXTRA", "TRLBAR", "SBOXOK", "CMDWIN"}],
    [n |-> "hide", m |-> 3, q |-> "common", g |-> "BANG|EXTRA|NOTRLCOM", f |-> {"BANG", "EXTRA", "NOTRLCOM"}],
    [n |-> "history", m |-> 3, q |-> "common", g |-> "EXTRA|TRLBAR|CMDWIN", f |-> {"EXTRA", "TRLBAR", "CMDWIN"}],
    [n |-> "helpclose", m |-> 5, q |-> "common", g |-> "RANGE|NOTADR|COUNT|TRLBAR", f |-> {"RANGE", "NOTADR", "COUNT", "TRLBAR"}] >>) @@
  ("i" :> <<
    [n |-> "insert", m |-> 1, q |-> "insert", g |-> "BANG|RANGE|TRLBAR|CMDWIN|MODIFY", f |-> {"BANG", "RANGE", "TRLBAR", "CMDWIN", "MODIFY"}],
    [n |-> "iabbrev", m |-> 2, q |-> "common", g |-> "EXTRA|TRLBAR|NOTRLCOM|USECTRLV|CMDWIN", f |-> {"EXTRA", "TRLBAR", "NOTRLCOM", "USECTRLV", "CMDWIN"}],
    [n |-> "iabclear", m |-> 4, q |-> "common", g |-> "EXTRA|TRLBAR|CMDWIN", f |-> {"EXTRA", "TRLBAR", "CMDWIN"}],
    [n |-> "if", m |-> 2, q |-> "if", g |-> "EXTRA|NOTRLCOM|SBOXOK|CMDWIN", f |-> {"EXTRA", "NOTRLCOM", "SBOXOK", "CMDWIN"}],
    [n |-> "ijump", m |-> 2, q |-> "common", g |-> "BANG|RANGE|DFLALL|WHOLEFOLD|EXTRA", f |-> {"BANG", "RANGE", "DFLALL", "WHOLEFOLD", "EXTRA"}],
    [n |-> "ilist", m |-> 2, q |-> "common", g |-> "BANG|RANGE|DFLALL|WHOLEFOLD|EXTRA|CMDWIN", f |-> {"BANG", "RANGE", "DFLALL", "WHOLEFOLD", "EXTRA", "CMDWIN"}],
    [n |-> "imap", m |-> 2, q |-> "common", g |-> "EXTRA|TRLBAR|NOTRLCOM|USECTRLV|CMDWIN", f |-> {"EXTRA", "TRLBAR", "NOTRLCOM", "USECTRLV", "CMDWIN"}],
    [n |-> "imapclear", m |-> 5, q |-> "common", g |-> "EXTRA|TRLBAR|CMDWIN", f |-> {"EXTRA", "TRLBAR", "CMDWIN"}],
    [n |-> "imenu", m |-> 3, q |-> "common", g |-> "RANGE|NOTADR|ZEROR|EXTRA|TRLBAR|NOTRLCOM|USECTRLV|CMDWIN", f |-> {"RANGE", "NOTADR", "ZEROR", "EXTRA", "TRLBAR", "NOTRLCOM", "USECTRLV", "CMDWIN"}],
    [n |-> "inoremap", m |-> 3, q |-> "common", g |-> "EXTRA|TRLBAR|NOTRLCOM|USECTRLV|CMDWIN", f |-> {"EXTRA", "TRLBAR", "NOTRLCOM", "USECTRLV", "CMDWIN"}],
    [n |-> "inoreabbrev", m |-> 6, q |-> "common", g |-> "EXTRA|TRLBAR|NOTRLCOM|USECTRLV|CMDWIN", f |-> {"EXTRA", "TRLBAR", "NOTRLCOM", "USECTRLV", "CMDWIN"}],
    [n |-> "inoremenu", m |-> 7, q |-> "common", g |-> "RANGE|NOTADR|ZEROR|EXTRA|TRLBAR|NOTRLCOM|USECTRLV|CMDWIN", f |-> {"RANGE", "NOTADR", "ZEROR", "EXTRA", "TRLBAR", "NOTRLCOM", "USECTRLV", "CMDWIN"}],
    [n |-> "intro", m |-> 3, q |-> "common", g |-> "TRLBAR|CMDWIN", f |-> {"TRLBAR", "CMDWIN"}],
    [n |-> "isearch", m |-> 2, q |-> "common", g |-> "BANG|RANGE|DFLALL|WHOLEFOLD|EXTRA|CMDWIN", f |-> {"BANG", "RANGE", "DFLALL", "WHOLEFOLD", "EXTRA", "CMDWIN"}],
    [n |-> "isplit", m |-> 3, q |-> "common", g |-> "BANG|RANGE|DFLALL|WHOLEFOLD|EXTRA", f |-> {"BANG", "RANGE", "DFLALL", "WHOLEFOLD", "EXTRA"}],
    [n |-> "iunmap", m |-> 2, q |-> "common", g |-> "EXTRA|TRLBAR|NOTRLCOM|USECTRLV|CMDWIN", f |-> {"EXTRA", "TRLBAR", "NOTRLCOM", "USECTRLV", "CMDWIN"}],
    [n |-> "iunabbrev", m |-> 4, q |-> "common", g |-> "EXTRA|TRLBAR|NOTRLCOM|USECTRLV|CMDWIN", f |-> {"EXTRA", "TRLBAR", "NOTRLCOM", "USECTRLV", "CMDWIN"}],
    [n |-> "iunmenu", m |-> 5, q |-> "common", g |-> "EXTRA|TRLBAR|NOTRLCOM|USECTRLV|CMDWIN", f |-> {"EXTRA", "TRLBAR", "NOTRLCOM", "USECTRLV", "CMDWIN"}],
    [n |-> "import", m |-> 3, q |-> "common", g |-> "EXTRA|NOTRLCOM", f |-> {"EXTRA", "NOTRLCOM"}] >>) @@
  ("j" :> <<
    [n |-> "join", m |-> 1, q |-> "common", g |-> "BANG|RANGE|WHOLEFOLD|COUNT|EXFLAGS|TRLBAR|CMDWIN|MODIFY", f |-> {"BANG", "RANGE", "WHOLEFOLD", "COUNT", "EXFLAGS", "TRLBAR", "CMDWIN", "MODIFY"}],
    [n |-> "jumps", m |-> 2, q |-> "common", g |-> "TRLBAR|CMDWIN", f |-> {"TRLBAR", "CMDWIN"}] >>) @@
  ("k" :> <<
    [n |-> "k", m |-> 1, q |-> "common", g |-> "RANGE|WORD1|TRLBAR|SBOXOK|CMDWIN", f |-> {"RANGE", "WORD1", "TRLBAR", "SBOXOK", "CMDWIN"}],
    [n |-> "keepalt", m |-> 5, q |-> "common", g |-> "NEEDARG|EXTRA|NOTRLCOM", f |-> {"NEEDARG", "EXTRA", "NOTRLCOM"}],
    [n |-> "keepmarks", m |-> 3, q |-> "common", g |-> "NEEDARG|EXTRA|NOTRLCOM", f |-> {"NEEDARG", "EXTRA", "NOTRLCOM"}],
    [n |-> "keepjumps", m |-> 5, q |-> "common", g |-> "NEEDARG|EXTRA|NOTRLCOM", f |-> {"NEEDARG", "EXTRA", "NOTRLCOM"}],
    [n |-> "keeppatterns", m |-> 5, q |-> "common", g |-> "NEEDARG|EXTRA|NOTRLCOM", f |-> {"NEEDARG", "EXTRA", "NOTRLCOM"}] >>) @@
  ("l" :> <<
    [n |-> "lNext", m |-> 2, q |-> "common", g |-> "RANGE|NOTADR|COUNT|TRLBAR|BANG", f |-> {"RANGE", "NOTADR", "COUNT", "TRLBAR", "BANG"}],
    [n |-> "lNfile", m |-> 3, q |-> "common", g |-> "RANGE|NOTADR|COUNT|TRLBAR|BANG", f |-> {"RANGE", "NOTADR", "COUNT", "TRLBAR", "BANG"}],
    [n |-> "list", m |-> 1, q |-> "common", g |-> "RANGE|WHOLEFOLD|COUNT|EXFLAGS|TRLBAR|CMDWIN", f |-> {"RANGE", "WHOLEFOLD", "COUNT", "EXFLAGS", "TRLBAR", "CMDWIN"}],
    [n |-> "laddexpr", m |-> 3, q |-> "common", g |-> "NEEDARG|WORD1|NOTRLCOM|TRLBAR", f |-> {"NEEDARG", "WORD1", "NOTRLCOM", "TRLBAR"}],
    [n |-> "laddbuffer", m |-> 5, q |-> "common", g |-> "RANGE|NOTADR|WORD1|TRLBAR", f |-> {"RANGE", "NOTADR", "WORD1", "TRLBAR"}],
    [n |-> "laddfile", m |-> 5, q |-> "common", g |-> "TRLBAR|FILE1", f |-> {"TRLBAR", "FILE1"}],
    [n |-> "last", m |-> 2, q |-> "common", g |-> "EXTRA|BANG|EDITCMD|ARGOPT|TRLBAR", f |-> {"EXTRA", "BANG", "EDITCMD", "ARGOPT", "TRLBAR"}],
    [n |-> "language", m |-> 3, q |-> "common", g |-> "EXTRA|TRLBAR|CMDWIN", f |-> {"EXTRA", "TRLBAR", "CMDWIN"}],
    [n |-> "later", m |-> 3, q |-> "common", g |-> "TRLBAR|EXTRA|NOSPC|CMDWIN", f |-> {"TRLBAR", "EXTRA", "NOSPC", "CMDWIN"}],
    [n |-> "lbuffer", m |-> 2, q |-> "common", g |-> "BANG|RANGE|NOTADR|WORD1|TRLBAR", f |-> {"BANG", "RANGE", "NOTADR", "WORD1", "TRLBAR"}],
    [n |-> "lcd", m |-> 2, q |-> "common", g |-> "BANG|FILE1|TRLBAR|CMDWIN", f |-> {"BANG", "FILE1", "TRLBAR", "CMDWIN"}],
    [n |-> "lchdir", m |-> 3, q |-> "common", g |-> "BANG|FILE1|TRLBAR|CMDWIN", f |-> {"BANG", "FILE1", "TRLBAR", "CMDWIN"}],
    [n |-> "lclose", m |-> 3, q |-> "common", g |-> "RANGE|NOTADR|COUNT|TRLBAR", f |-> {"RANGE", "NOTADR", "COUNT", "TRLBAR"}],
    [n |-> "lcscope", m |-> 3, q |-> "common", g |-> "EXTRA|NOTRLCOM|XFILE", f |-> {"EXTRA", "NOTRLCOM", "XFILE"}],
    [n |-> "left", m |-> 2, q |-> "common", g |-> "TRLBAR|RANGE|WHOLEFOLD|EXTRA|CMDWIN|MODIFY", f |-> {"TRLBAR", "RANGE", "WHOLEFOLD", "EXTRA", "CMDWIN", "MODIFY"}],
    [n |-> "leftabove", m |-> 5, q |-> "common", g |-> "NEEDARG|EXTRA|NOTRLCOM", f |-> {"NEEDARG", "EXTRA", "NOTRLCOM"}],
    [n |-> "let", m |-> 3, q |-> "let", g |-> "EXTRA|NOTRLCOM|SBOXOK|CMDWIN", f |-> {"EXTRA", "NOTRLCOM", "SBOXOK", "CMDWIN"}],
    [n |-> "lexpr", m |-> 3, q |-> "common", g |-> "NEEDARG|WORD1|NOTRLCOM|TRLBAR|BANG", f |-> {"NEEDARG", "WORD1", "NOTRLCOM", "TRLBAR", "BANG"}],
    [n |-> "lfile", m |-> 2, q |-> "common", g |-> "TRLBAR|FILE1|BANG", f |-> {"TRLBAR", "FILE1", "BANG"}],
    [n |-> "lfirst", m |-> 4, q |-> "common", g |-> "RANGE|NOTADR|COUNT|TRLBAR|BANG", f |-> {"RANGE", "NOTADR", "COUNT", "TRLBAR", "BANG"}],
    [n |-> "lgetbuffer", m |-> 5, q |-> "common", g |-> "RANGE|NOTADR|WORD1|TRLBAR", f |-> {"RANGE", "NOTADR", "WORD1", "TRLBAR"}],
    [n |-> "lgetexpr", m |-> 5, q |-> "common", g |-> "NEEDARG|WORD1|NOTRLCOM|TRLBAR", f |-> {"NEEDARG", "WORD1", "NOTRLCOM", "TRLBAR"}],
    [n |-> "lgetfile", m |-> 2, q |-> "common", g |-> "TRLBAR|FILE1", f |-> {"TRLBAR", "FILE1"}],
    [n |-> "lgrep", m |-> 3, q |-> "common", g |-> "RANGE|NOTADR|BANG|NEEDARG|EXTRA|NOTRLCOM|TRLBAR|XFILE", f |-> {"RANGE", "NOTADR", "BANG", "NEEDARG", "EXTRA", "NOTRLCOM", "TRLBAR", "XFILE"}],
    [n |-> "lgrepadd", m |-> 6, q |-> "common", g |-> "RANGE|NOTADR|BANG|NEEDARG|EXTRA|NOTRLCOM|TRLBAR|XFILE", f |-> {"RANGE", "NOTADR", "BANG", "NEEDARG", "EXTRA", "NOTRLCOM", "TRLBAR", "XFILE"}],
    [n |-> "lhelpgrep", m |-> 2, q |-> "common", g |-> "EXTRA|NOTRLCOM|NEEDARG", f |-> {"EXTRA", "NOTRLCOM", "NEEDARG"}],
    [n |-> "ll", m |-> 2, q |-> "common", g |-> "RANGE|NOTADR|COUNT|TRLBAR|BANG", f |-> {"RANGE", "NOTADR", "COUNT", "TRLBAR", "BANG"}],
    [n |-> "llast", m |-> 3, q |-> "common", g |-> "RANGE|NOTADR|COUNT|TRLBAR|BANG", f |-> {"RANGE", "NOTADR", "COUNT", "TRLBAR", "BANG"}],
    [n |-> "list", m |-> 3, q |-> "common", g |-> "BANG|EXTRA|TRLBAR|CMDWIN", f |-> {"BANG", "EXTRA", "TRLBAR", "CMDWIN"}],
    [n |-> "lmake", m |-> 4, q |-> "common", g |-> "BANG|EXTRA|NOTRLCOM|TRLBAR|XFILE", f |-> {"BANG", "EXTRA", "NOTRLCOM", "TRLBAR", "XFILE"}],
    [n |-> "lmap", m |-> 2, q |-> "common", g |-> "EXTRA|TRLBAR|NOTRLCOM|USECTRLV|CMDWIN", f |-> {"EXTRA", "TRLBAR", "NOTRLCOM", "USECTRLV", "CMDWIN"}],
    [n |-> "lmapclear", m |-> 5, q |-> "common", g |-> "EXTRA|TRLBAR|CMDWIN", f |-> {"EXTRA", "TRLBAR", "CMDWIN"}],
    [n |-> "lnext", m |-> 3, q |-> "common", g |-> "RANGE|NOTADR|COUNT|TRLBAR|BANG", f |-> {"RANGE", "NOTADR", "COUNT", "TRLBAR", "BANG"}],
    [n |-> "lnewer", m |-> 4, q |-> "common", g |-> "RANGE|NOTADR|COUNT|TRLBAR", f |-> {"RANGE", "NOTADR", "COUNT", "TRLBAR"}],
    [n |-> "lnfile", m |-> 3, q |-> "common", g |-> "RANGE|NOTADR|COUNT|TRLBAR|BANG", f |-> {"RANGE", "NOTADR", "COUNT", "TRLBAR", "BANG"}],
    [n |-> "lnoremap", m |-> 2, q |-> "common", g |-> "EXTRA|TRLBAR|NOTRLCOM|USECTRLV|CMDWIN", f |-> {"EXTRA", "TRLBAR", "NOTRLCOM", "USECTRLV", "CMDWIN"}],
    [n |-> "loadkeymap", m |-> 5, q |-> "loadkeymap", g |-> "CMDWIN", f |-> {"CMDWIN"}],
    [n |-> "loadview", m |-> 2, q |-> "common", g |-> "FILE1|TRLBAR", f |-> {"FILE1", "TRLBAR"}],
    [n |-> "lockmarks", m |-> 3, q |-> "common", g |-> "NEEDARG|EXTRA|NOTRLCOM", f |-> {"NEEDARG", "EXTRA", "NOTRLCOM"}],
    [n |-> "lockvar", m |-> 5, q |-> "lockvar", g |-> "BANG|EXTRA|NEEDARG|SBOXOK|CMDWIN", f |-> {"BANG", "EXTRA", "NEEDARG", "SBOXOK", "CMDWIN"}],
    [n |-> "lolder", m |-> 3, q |-> "common", g |-> "RANGE|NOTADR|COUNT|TRLBAR", f |-> {"RANGE", "NOTADR", "COUNT", "TRLBAR"}],
    [n |-> "lopen", m |-> 3, q |-> "common", g |-> "RANGE|NOTADR|COUNT|TRLBAR", f |-> {"RANGE", "NOTADR", "COUNT", "TRLBAR"}],
    [n |-> "lprevious", m |-> 2, q |-> "common", g |-> "RANGE|NOTADR|COUNT|TRLBAR|BANG", f |-> {"RANGE", "NOTADR", "COUNT", "TRLBAR", "BANG"}],
    [n |-> "lpfile", m |-> 3, q |-> "common", g |-> "RANGE|NOTADR|COUNT|TRLBAR|BANG", f |-> {"RANGE", "NOTADR", "COUNT", "TRLBAR", "BANG"}],
    [n |-> "lrewind", m |-> 2, q |-> "common", g |-> "RANGE|NOTADR|COUNT|TRLBAR|BANG", f |-> {"RANGE", "NOTADR", "COUNT", "TRLBAR", "BANG"}],
    [n |-> "ls", m |-> 2, q |-> "common", g |-> "BANG|TRLBAR|CMDWIN", f |-> {"BANG", "TRLBAR", "CMDWIN"}],
    [n |-> "ltag", m |-> 2, q |-> "common", g |-> "NOTADR|TRLBAR|BANG|WORD1", f |-> {"NOTADR", "TRLBAR", "BANG", "WORD1"}],
    [n |-> "lunmap", m |-> 2, q |-> "common", g |-> "EXTRA|TRLBAR|NOTRLCOM|USECTRLV|CMDWIN", f |-> {"EXTRA", "TRLBAR", "NOTRLCOM", "USECTRLV", "CMDWIN"}],
    [n |-> "lua", m |-> 3, q |-> "lua", g |-> "RANGE|EXTRA|NEEDARG|CMDWIN", f |-> {"RANGE", "EXTRA", "NEEDARG", "CMDWIN"}],
    [n |-> "luado", m |-> 4, q |-> "common", g |-> "RANGE|DFLALL|EXTRA|NEEDARG|CMDWIN", f |-> {"RANGE", "DFLALL", "EXTRA", "NEEDARG", "CMDWIN"}],
    [n |-> "luafile", m |-> 4, q |-> "common", g |-> "RANGE|FILE1|NEEDARG|CMDWIN", f |-> {"RANGE", "FILE1", "NEEDARG", "CMDWIN"}],
    [n |-> "lvimgrep", m |-> 2, q |-> "common", g |-> "RANGE|NOTADR|BANG|NEEDARG|EXTRA|NOTRLCOM|TRLBAR|XFILE", f |-> {"RANGE", "NOTADR", "BANG", "NEEDARG", "EXTRA", "NOTRLCOM", "TRLBAR", "XFILE"}],
    [n |-> "lvimgrepadd", m |-> 9, q |-> "common", g |-> "RANGE|NOTADR|BANG|NEEDARG|EXTRA|NOTRLCOM|TRLBAR|XFILE", f |-> {"RANGE", "NOTADR", "BANG", "NEEDARG", "EXTRA", "NOTRLCOM", "TRLBAR", "XFILE"}],
    [n |-> "lwindow", m |-> 2, q |-> "common", g |-> "RANGE|NOTADR|COUNT|TRLBAR", f |-> {"RANGE", "NOTADR", "COUNT", "TRLBAR"}],
    [n |-> "lbottom", m |-> 3, q |-> "common", g |-> "TRLBAR", f |-> {"TRLBAR"}],
    [n |-> "ldo", m |-> 2, q |-> "common", g |-> "BANG|NEEDARG|EXTRA|NOTRLCOM|RANGE|NOTADR|DFLALL", f |-> {"BANG", "NEEDARG", "EXTRA", "NOTRLCOM", "RANGE", "NOTADR", "DFLALL"}],
    [n |-> "lfdo", m |-> 3, q |-> "common", g |-> "BANG|NEEDARG|EXTRA|NOTRLCOM|RANGE|NOTADR|DFLALL", f |-> {"BANG", "NEEDARG", "EXTRA", "NOTRLCOM", "RANGE", "NOTADR", "DFLALL"}],
    [n |-> "lhistory", m |-> 3, q |-> "common", g |-> "TRLBAR", f |-> {"TRLBAR"}],
    [n |-> "llist", m |-> 3, q |-> "common", g |-> "BANG|EXTRA|TRLBAR|CMDWIN", f |-> {"BANG", "EXTRA", "TRLBAR", "CMDWIN"}],
    [n |-> "labove", m |-> 3, q |-> "common", g |-> "RANGE|COUNT|TRLBAR", f |-> {"RANGE", "COUNT", "TRLBAR"}],
    [n |-> "lafter", m |-> 3, q |-> "common", g |-> "RANGE|COUNT|TRLBAR", f |-> {"RANGE", "COUNT", "TRLBAR"}],
    [n |-> "lbefore", m |-> 3, q |-> "common", g |-> "RANGE|COUNT|TRLBAR", f |-> {"RANGE", "COUNT", "TRLBAR"}],
    [n |-> "lbelow", m |-> 4, q |-> "common", g |-> "RANGE|COUNT|TRLBAR", f |-> {"RANGE", "COUNT", "TRLBAR"}] >>) @@
  ("m" :> <<
    [n |-> "move", m |-> 1, q |-> "common", g |-> "RANGE|WHOLEFOLD|EXTRA|TRLBAR|CMDWIN|MODIFY", f |-> {"RANGE", "WHOLEFOLD", "EXTRA", "TRLBAR", "CMDWIN", "MODIFY"}],
    [n |-> "mark", m |-> 2, q |-> "common", g |-> "RANGE|WORD1|TRLBAR|SBOXOK|CMDWIN", f |-> {"RANGE", "WORD1", "TRLBAR", "SBOXOK", "CMDWIN"}],
    [n |-> "make", m |-> 3, q |-> "common", g |-> "BANG|EXTRA|NOTRLCOM|TRLBAR|XFILE", f |-> {"BANG", "EXTRA", "NOTRLCOM", "TRLBAR", "XFILE"}],
    [n |-> "map", m |-> 3, q |-> "common", g |-> "BANG|EXTRA|TRLBAR|NOTRLCOM|USECTRLV|CMDWIN", f |-> {"BANG", "EXTRA", "TRLBAR", "NOTRLCOM", "USECTRLV", "CMDWIN"}],
    [n |-> "mapclear", m |-> 4, q |-> "common", g |-> "EXTRA|BANG|TRLBAR|CMDWIN", f |-> {"EXTRA", "BANG", "TRLBAR", "CMDWIN"}],
    [n |-> "marks", m |-> 5, q |-> "common", g |-> "EXTRA|TRLBAR|CMDWIN", f |-> {"EXTRA", "TRLBAR", "CMDWIN"}],
    [n |-> "match", m |-> 3, q |-> "common", g |-> "RANGE|NOTADR|EXTRA|CMDWIN", f |-> {"RANGE", "NOTADR", "EXTRA", "CMDWIN"}],
    [n |-> "menu", m |-> 2, q |-> "common", g |-> "RANGE|NOTADR|ZEROR|BANG|EXTRA|TRLBAR|NOTRLCOM|USECTRLV|CMDWIN", f |-> {"RANGE", "NOTADR", "ZEROR", "BANG", "EXTRA", "TRLBAR", "NOTRLCOM", "USECTRLV", "CMDWIN"}],
    [n |-> "menutranslate", m |-> 5, q |-> "common", g |-> "EXTRA|TRLBAR|NOTRLCOM|USECTRLV|CMDWIN", f |-> {"EXTRA", "TRLBAR", "NOTRLCOM", "USECTRLV", "CMDWIN"}],
    [n |-> "messages", m |-> 3, q |-> "common", g |-> "TRLBAR|CMDWIN", f |-> {"TRLBAR", "CMDWIN"}],
    [n |-> "mkexrc", m |-> 2, q |-> "common", g |-> "BANG|FILE1|TRLBAR|CMDWIN", f |-> {"BANG", "FILE1", "TRLBAR", "CMDWIN"}],
    [n |-> "mksession", m |-> 3, q |-> "common", g |-> "BANG|FILE1|TRLBAR", f |-> {"BANG", "FILE1", "TRLBAR"}],
    [n |-> "mkspell", m |-> 4, q |-> "common", g |-> "BANG|NEEDARG|EXTRA|NOTRLCOM|TRLBAR|XFILE", f |-> {"BANG", "NEEDARG", "EXTRA", "NOTRLCOM", "TRLBAR", "XFILE"}],
    [n |-> "mkvimrc", m |-> 3, q |-> "common", g |-> "BANG|FILE1|TRLBAR|CMDWIN", f |-> {"BANG", "FILE1", "TRLBAR", "CMDWIN"}],
    [n |-> "mkview", m |-> 5, q |-> "common", g |-> "BANG|FILE1|TRLBAR", f |-> {"BANG", "FILE1", "TRLBAR"}],
    [n |-> "mode", m |-> 3, q |-> "common", g |-> "WORD1|TRLBAR|CMDWIN", f |-> {"WORD1", "TRLBAR", "CMDWIN"}],
    [n |-> "mzscheme", m |-> 2, q |-> "mzscheme", g |-> "RANGE|EXTRA|DFLALL|NEEDARG|CMDWIN|SBOXOK", f |-> {"RANGE", "EXTRA", "DFLALL", "NEEDARG", "CMDWIN", "SBOXOK"}],
    [n |-> "mzfile", m |-> 3, q |-> "common", g |-> "RANGE|FILE1|NEEDARG|CMDWIN", f |-> {"RANGE", "FILE1", "NEEDARG", "CMDWIN"}] >>) @@
  ("n" :> <<
    [n |-> "nbclose", m |-> 3, q |-> "common", g |-> "TRLBAR|CMDWIN", f |-> {"TRLBAR", "CMDWIN"}],
    [n |-> "nbkey", m |-> 2, q |-> "common", g |-> "EXTRA|NOTADR|NEEDARG", f |-> {"EXTRA", "NOTADR", "NEEDARG"}],
    [n |-> "nbstart", m |-> 3, q |-> "common", g |-> "WORD1|TRLBAR|CMDWIN", f |-> {"WORD1", "TRLBAR", "CMDWIN"}],
    [n |-> "next", m |-> 1, q |-> "common", g |-> "RANGE|NOTADR|BANG|FILES|EDITCMD|ARGOPT|TRLBAR", f |-> {"RANGE", "NOTADR", "BANG", "FILES", "EDITCMD", "ARGOPT", "TRLBAR"}],
    [n |-> "new", m |-> 3, q |-> "common", g |-> "BANG|FILE1|RANGE|NOTADR|EDITCMD|ARGOPT|TRLBAR", f |-> {"BANG", "FILE1", "RANGE", "NOTADR", "EDITCMD", "ARGOPT", "TRLBAR"}],
    [n |-> "nmap", m |-> 2, q |-> "common", g |-> "EXTRA|TRLBAR|NOTRLCOM|USECTRLV|CMDWIN", f |-> {"EXTRA", "TRLBAR", "NOTRLCOM", "USECTRLV", "CMDWIN"}],
    [n |-> "nmapclear", m |-> 5, q |-> "common", g |-> "EXTRA|TRLBAR|CMDWIN", f |-> {"EXTRA", "TRLBAR", "CMDWIN"}],
    [n |-> "nmenu", m |-> 3, q |-> "common", g |-> "RANGE|NOTADR|ZEROR|EXTRA|TRLBAR|NOTRLCOM|USECTRLV|CMDWIN", f |-> {"RANGE", "NOTADR", "ZEROR", "EXTRA", "TRLBAR", "NOTRLCOM", "USECTRLV", "CMDWIN"}],
    [n |-> "nnoremap", m |-> 2, q |-> "common", g |-> "EXTRA|TRLBAR|NOTRLCOM|USECTRLV|CMDWIN", f |-> {"EXTRA", "TRLBAR", "NOTRLCOM", "USECTRLV", "CMDWIN"}],
    [n |-> "nnoremenu", m |-> 7, q |-> "common", g |-> "RANGE|NOTADR|ZEROR|EXTRA|TRLBAR|NOTRLCOM|USECTRLV|CMDWIN", f |-> {"RANGE", "NOTADR", "ZEROR", "EXTRA", "TRLBAR", "NOTRLCOM", "USECTRLV", "CMDWIN"}],
    [n |-> "noautocmd", m |-> 3, q |-> "common", g |-> "NEEDARG|EXTRA|NOTRLCOM", f |-> {"NEEDARG", "EXTRA", "NOTRLCOM"}],
    [n |-> "noremap", m |-> 2, q |-> "common", g |-> "BANG|EXTRA|TRLBAR|NOTRLCOM|USECTRLV|CMDWIN", f |-> {"BANG", "EXTRA", "TRLBAR", "NOTRLCOM", "USECTRLV", "CMDWIN"}],
    [n |-> "nohlsearch", m |-> 3, q |-> "common", g |-> "TRLBAR|SBOXOK|CMDWIN", f |-> {"TRLBAR", "SBOXOK", "CMDWIN"}],
    [n |-> "noreabbrev", m |-> 5, q |-> "common", g |-> "EXTRA|TRLBAR|NOTRLCOM|USECTRLV|CMDWIN", f |-> {"EXTRA", "TRLBAR", "NOTRLCOM", "USECTRLV", "CMDWIN"}],
    [n |-> "noremenu", m |-> 6, q |-> "common", g |-> "RANGE|NOTADR|ZEROR|BANG|EXTRA|TRLBAR|NOTRLCOM|USECTRLV|CMDWIN", f |-> {"RANGE", "NOTADR", "ZEROR", "BANG", "EXTRA", "TRLBAR", "NOTRLCOM", "USECTRLV", "CMDWIN"}],
    [n |-> "normal", m |-> 4, q |-> "common", g |-> "RANGE|BANG|EXTRA|NEEDARG|NOTRLCOM|USECTRLV|SBOXOK|CMDWIN", f |-> {"RANGE", "BANG", "EXTRA", "NEEDARG", "NOTRLCOM", "USECTRLV", "SBOXOK", "CMDWIN"}],
    [n |-> "number", m |-> 2, q |-> "common", g |-> "RANGE|WHOLEFOLD|COUNT|EXFLAGS|TRLBAR|CMDWIN", f |-> {"RANGE", "WHOLEFOLD", "COUNT", "EXFLAGS", "TRLBAR", "CMDWIN"}],
    [n |-> "nunmap", m |-> 3, q |-> "common", g |-> "EXTRA|TRLBAR|NOTRLCOM|USECTRLV|CMDWIN", f |-> {"EXTRA", "TRLBAR", "NOTRLCOM", "USECTRLV", "CMDWIN"}],
    [n |-> "nunmenu", m |-> 5, q |-> "common", g |-> "EXTRA|TRLBAR|NOTRLCOM|USECTRLV|CMDWIN", f |-> {"EXTRA", "TRLBAR", "NOTRLCOM", "USECTRLV", "CMDWIN"}],
    [n |-> "noswapfile", m |-> 3, q |-> "common", g |-> "NEEDARG|EXTRA|NOTRLCOM", f |-> {"NEEDARG", "EXTRA", "NOTRLCOM"}] >>) @@
  ("o" :> <<
    [n |-> "oldfiles", m |-> 2, q |-> "common", g |-> "BANG|TRLBAR|SBOXOK|CMDWIN", f |-> {"BANG", "TRLBAR", "SBOXOK", "CMDWIN"}],
    [n |-> "open", m |-> 1, q |-> "common", g |-> "RANGE|BANG|EXTRA", f |-> {"RANGE", "BANG", "EXTRA"}],
    [n |-> "omap", m |-> 2, q |-> "common", g |-> "EXTRA|TRLBAR|NOTRLCOM|USECTRLV|CMDWIN", f |-> {"EXTRA", "TRLBAR", "NOTRLCOM", "USECTRLV", "CMDWIN"}],
    [n |-> "omapclear", m |-> 5, q |-> "common", g |-> "EXTRA|TRLBAR|CMDWIN", f |-> {"EXTRA", "TRLBAR", "CMDWIN"}],
    [n |-> "omenu", m |-> 3, q |-> "common", g |-> "RANGE|NOTADR|ZEROR|EXTRA|TRLBAR|NOTRLCOM|USECTRLV|CMDWIN", f |-> {"RANGE", "NOTADR", "ZEROR", "EXTRA", "TRLBAR", "NOTRLCOM", "USECTRLV", "CMDWIN"}],
    [n |-> "only", m |-> 2, q |-> "common", g |-> "BANG|TRLBAR", f |-> {"BANG", "TRLBAR"}],
    [n |-> "onoremap", m |-> 3, q |-> "common", g |-> "EXTRA|TRLBAR|NOTRLCOM|USECTRLV|CMDWIN", f |-> {"EXTRA", "TRLBAR", "NOTRLCOM", "USECTRLV", "CMDWIN"}],
    [n |-> "onoremenu", m |-> 7, q |-> "common", g |-> "RANGE|NOTADR|ZEROR|EXTRA|TRLBAR|NOTRLCOM|USECTRLV|CMDWIN", f |-> {"RANGE", "NOTADR", "ZEROR", "EXTRA", "TRLBAR", "NOTRLCOM", "USECTRLV", "CMDWIN"}],
    [n |-> "options", m |-> 3, q |-> "common", g |-> "TRLBAR", f |-> {"TRLBAR"}],
    [n |-> "ounmap", m |-> 2, q |-> "common", g |-> "EXTRA|TRLBAR|NOTRLCOM|USECTRLV|CMDWIN", f |-> {"EXTRA", "TRLBAR", "NOTRLCOM", "USECTRLV", "CMDWIN"}],
    [n |-> "ounmenu", m |-> 5, q |-> "common", g |-> "EXTRA|TRLBAR|NOTRLCOM|USECTRLV|CMDWIN", f |-> {"EXTRA", "TRLBAR", "NOTRLCOM", "USECTRLV", "CMDWIN"}],
    [n |-> "ownsyntax", m |-> 2, q |-> "common", g |-> "EXTRA|NOTRLCOM|SBOXOK|CMDWIN", f |-> {"EXTRA", "NOTRLCOM", "SBOXOK", "CMDWIN"}] >>) @@
  ("p" :> <<
    [n |-> "pclose", m |-> 2, q |-> "common", g |-> "BANG|TRLBAR", f |-> {"BANG", "TRLBAR"}],
    [n |-> "pedit", m |-> 3, q |-> "common", g |-> "BANG|FILE1|EDITCMD|ARGOPT|TRLBAR", f |-> {"BANG", "FILE1", "EDITCMD", "ARGOPT", "TRLBAR"}],
    [n |-> "perl", m |-> 2, q |-> "perl", g |-> "RANGE|EXTRA|DFLALL|NEEDARG|SBOXOK|CMDWIN", f |-> {"RANGE", "EXTRA", "DFLALL", "NEEDARG", "SBOXOK", "CMDWIN"}],
    [n |-> "print", m |-> 1, q |-> "common", g |-> "RANGE|WHOLEFOLD|COUNT|EXFLAGS|TRLBAR|CMDWIN|SBOXOK", f |-> {"RANGE", "WHOLEFOLD", "COUNT", "EXFLAGS", "TRLBAR", "CMDWIN", "SBOXOK"}],
    [n |-> "profdel", m |-> 5, q |-> "common", g |-> "EXTRA|TRLBAR|CMDWIN", f |-> {"EXTRA", "TRLBAR", "CMDWIN"}],
    [n |-> "profile", m |-> 4, q |-> "common", g |-> "BANG|EXTRA|TRLBAR|CMDWIN", f |-> {"BANG", "EXTRA", "TRLBAR", "CMDWIN"}],
    [n |-> "promptfind", m |-> 3, q |-> "common", g |-> "EXTRA|NOTRLCOM|CMDWIN", f |-> {"EXTRA", "NOTRLCOM", "CMDWIN"}],
    [n |-> "promptrepl", m |-> 7, q |-> "common", g |-> "EXTRA|NOTRLCOM|CMDWIN", f |-> {"EXTRA", "NOTRLCOM", "CMDWIN"}],
    [n |-> "perldo", m |-> 5, q |-> "common", g |-> "RANGE|EXTRA|DFLALL|NEEDARG|CMDWIN", f |-> {"RANGE", "EXTRA", "DFLALL", "NEEDARG", "CMDWIN"}],
    [n |-> "pop", m |-> 2, q |-> "common", g |-> "RANGE|NOTADR|BANG|COUNT|TRLBAR|ZEROR", f |-> {"RANGE", "NOTADR", "BANG", "COUNT", "TRLBAR", "ZEROR"}],
    [n |-> "popup", m |-> 4, q |-> "common", g |-> "NEEDARG|EXTRA|BANG|TRLBAR|NOTRLCOM|CMDWIN", f |-> {"NEEDARG", "EXTRA", "BANG", "TRLBAR", "NOTRLCOM", "CMDWIN"}],
    [n |-> "ppop", m |-> 2, q |-> "common", g |-> "RANGE|NOTADR|BANG|COUNT|TRLBAR|ZEROR", f |-> {"RANGE", "NOTADR", "BANG", "COUNT", "TRLBAR", "ZEROR"}],
    [n |-> "preserve", m |-> 3, q |-> "common", g |-> "TRLBAR", f |-> {"TRLBAR"}],
    [n |-> "previous", m |-> 4, q |-> "common", g |-> "EXTRA|RANGE|NOTADR|COUNT|BANG|EDITCMD|ARGOPT|TRLBAR", f |-> {"EXTRA", "RANGE", "NOTADR", "COUNT", "BANG", "EDITCMD", "ARGOPT", "TRLBAR"}],
    [n |-> "psearch", m |-> 2, q |-> "common", g |-> "BANG|RANGE|WHOLEFOLD|DFLALL|EXTRA", f |-> {"BANG", "RANGE", "WHOLEFOLD", "DFLALL", "EXTRA"}],
    [n |-> "ptag", m |-> 2, q |-> "common", g |-> "RANGE|NOTADR|BANG|WORD1|TRLBAR|ZEROR", f |-> {"RANGE", "NOTADR", "BANG", "WORD1", "TRLBAR", "ZEROR"}],
    [n |-> "ptNext", m |-> 3, q |-> "common", g |-> "RANGE|NOTADR|BANG|TRLBAR|ZEROR", f |-> {"RANGE", "NOTADR", "BANG", "TRLBAR", "ZEROR"}],
    [n |-> "ptfirst", m |-> 3, q |-> "common", g |-> "RANGE|NOTADR|BANG|TRLBAR|ZEROR", f |-> {"RANGE", "NOTADR", "BANG", "TRLBAR", "ZEROR"}],
    [n |-> "ptjump", m |-> 3, q |-> "common", g |-> "BANG|TRLBAR|WORD1", f |-> {"BANG", "TRLBAR", "WORD1"}],
    [n |-> "ptlast", m |-> 3, q |-> "common", g |-> "BANG|TRLBAR", f |-> {"BANG", "TRLBAR"}],
    [n |-> "ptnext", m |-> 3, q |-> "common", g |-> "RANGE|NOTADR|BANG|TRLBAR|ZEROR", f |-> {"RANGE", "NOTADR", "BANG", "TRLBAR", "ZEROR"}],
    [n |-> "ptprevious", m |-> 3, q |-> "common", g |-> "RANGE|NOTADR|BANG|TRLBAR|ZEROR", f |-> {"RANGE", "NOTADR", "BANG", "TRLBAR", "ZEROR"}],
    [n |-> "ptrewind", m |-> 3, q |-> "common", g |-> "RANGE|NOTADR|BANG|TRLBAR|ZEROR", f |-> {"RANGE", "NOTADR", "BANG", "TRLBAR", "ZEROR"}],
    [n |-> "ptselect", m |-> 3, q |-> "common", g |-> "BANG|TRLBAR|WORD1", f |-> {"BANG", "TRLBAR", "WORD1"}],
    [n |-> "put", m |-> 2, q |-> "common", g |-> "RANGE|WHOLEFOLD|BANG|REGSTR|TRLBAR|ZEROR|CMDWIN|MODIFY", f |-> {"RANGE", "WHOLEFOLD", "BANG", "REGSTR", "TRLBAR", "ZEROR", "CMDWIN", "MODIFY"}],
    [n |-> "pwd", m |-> 2, q |-> "common", g |-> "TRLBAR|CMDWIN", f |-> {"TRLBAR", "CMDWIN"}],
    [n |-> "py3", m |-> 3, q |-> "python3", g |-> "RANGE|EXTRA|NEEDARG|CMDWIN", f |-> {"RANGE", "EXTRA", "NEEDARG", "CMDWIN"}],
    [n |-> "python3", m |-> 7, q |-> "python3", g |-> "RANGE|EXTRA|NEEDARG|CMDWIN", f |-> {"RANGE", "EXTRA", "NEEDARG", "CMDWIN"}],
    [n |-> "py3file", m |-> 4, q |-> "common", g |-> "RANGE|FILE1|NEEDARG|CMDWIN", f |-> {"RANGE", "FILE1", "NEEDARG", "CMDWIN"}],
    [n |-> "python", m |-> 2, q |-> "python", g |-> "RANGE|EXTRA|NEEDARG|CMDWIN", f |-> {"RANGE", "EXTRA", "NEEDARG", "CMDWIN"}],
    [n |-> "pyfile", m |-> 3, q |-> "common", g |-> "RANGE|FILE1|NEEDARG|CMDWIN", f |-> {"RANGE", "FILE1", "NEEDARG", "CMDWIN"}],
    [n |-> "pydo", m |-> 3, q |-> "common", g |-> "RANGE|DFLALL|EXTRA|NEEDARG|CMDWIN", f |-> {"RANGE", "DFLALL", "EXTRA", "NEEDARG", "CMDWIN"}],
    [n |-> "py3do", m |-> 4, q |-> "common", g |-> "RANGE|DFLALL|EXTRA|NEEDARG|CMDWIN", f |-> {"RANGE", "DFLALL", "EXTRA", "NEEDARG", "CMDWIN"}],
    [n |-> "packadd", m |-> 2, q |-> "common", g |-> "BANG|FILE1|NEEDARG|TRLBAR|SBOXOK|CMDWIN", f |-> {"BANG", "FILE1", "NEEDARG", "TRLBAR", "SBOXOK", "CMDWIN"}],
    [n |-> "packloadall", m |-> 5, q |-> "common", g |-> "BANG|TRLBAR|SBOXOK|CMDWIN", f |-> {"BANG", "TRLBAR", "SBOXOK", "CMDWIN"}],
    [n |-> "pyx", m |-> 3, q |-> "common", g |-> "RANGE|EXTRA|NEEDARG|CMDWIN", f |-> {"RANGE", "EXTRA", "NEEDARG", "CMDWIN"}],
    [n |-> "pyxdo", m |-> 4, q |-> "common", g |-> "RANGE|DFLALL|EXTRA|NEEDARG|CMDWIN", f |-> {"RANGE", "DFLALL", "EXTRA", "NEEDARG", "CMDWIN"}],
    [n |-> "pythonx", m |-> 7, q |-> "common", g |-> "RANGE|EXTRA|NEEDARG|CMDWIN", f |-> {"RANGE", "EXTRA", "NEEDARG", "CMDWIN"}],
    [n |-> "pyxfile", m |-> 4, q |-> "common", g |-> "RANGE|FILE1|NEEDARG|CMDWIN", f |-> {"RANGE", "FILE1", "NEEDARG", "CMDWIN"}] >>) @@
  ("q" :> <<
    [n |-> "quit", m |-> 1, q |-> "common", g |-> "BANG|TRLBAR|CMDWIN", f |-> {"BANG", "TRLBAR", "CMDWIN"}],
    [n |-> "quitall", m |-> 5, q |-> "common", g |-> "BANG|TRLBAR", f |-> {"BANG", "TRLBAR"}],
    [n |-> "qall", m |-> 2, q |-> "common", g |-> "BANG|TRLBAR|CMDWIN", f |-> {"BANG", "TRLBAR", "CMDWIN"}] >>) @@
  ("r" :> <<
    [n |-> "read", m |-> 1, q |-> "common", g |-> "BANG|RANGE|WHOLEFOLD|FILE1|ARGOPT|TRLBAR|ZEROR|CMDWIN|MODIFY", f |-> {"BANG", "RANGE", "WHOLEFOLD", "FILE1", "ARGOPT", "TRLBAR", "ZEROR", "CMDWIN", "MODIFY"}],
    [n |-> "recover", m |-> 3, q |-> "common", g |-> "BANG|FILE1|TRLBAR", f |-> {"BANG", "FILE1", "TRLBAR"}],
    [n |-> "redo", m |-> 3, q |-> "common", g |-> "TRLBAR|CMDWIN", f |-> {"TRLBAR", "CMDWIN"}],
    [n |-> "redir", m |-> 4, q |-> "common", g |-> "BANG|FILES|TRLBAR|CMDWIN", f |-> {"BANG", "FILES", "TRLBAR", "CMDWIN"}],
    [n |-> "redraw", m |-> 4, q |-> "common", g |-> "BANG|TRLBAR|CMDWIN", f |-> {"BANG", "TRLBAR", "CMDWIN"}],
    [n |-> "redrawstatus", m |-> 7, q |-> "common", g |-> "BANG|TRLBAR|CMDWIN", f |-> {"BANG", "TRLBAR", "CMDWIN"}],
    [n |-> "registers", m |-> 3, q |-> "common", g |-> "EXTRA|NOTRLCOM|TRLBAR|CMDWIN", f |-> {"EXTRA", "NOTRLCOM", "TRLBAR", "CMDWIN"}],
    [n |-> "resize", m |-> 3, q |-> "common", g |-> "RANGE|NOTADR|TRLBAR|WORD1", f |-> {"RANGE", "NOTADR", "TRLBAR", "WORD1"}],
    [n |-> "retab", m |-> 3, q |-> "common", g |-> "TRLBAR|RANGE|WHOLEFOLD|DFLALL|BANG|WORD1|CMDWIN|MODIFY", f |-> {"TRLBAR", "RANGE", "WHOLEFOLD", "DFLALL", "BANG", "WORD1", "CMDWIN", "MODIFY"}],
    [n |-> "return", m |-> 4, q |-> "return", g |-> "EXTRA|NOTRLCOM|SBOXOK|CMDWIN", f |-> {"EXTRA", "NOTRLCOM", "SBOXOK", "CMDWIN"}],
    [n |-> "rewind", m |-> 3, q |-> "common", g |-> "EXTRA|BANG|EDITCMD|ARGOPT|TRLBAR", f |-> {"EXTRA", "BANG", "EDITCMD", "ARGOPT", "TRLBAR"}],
    [n |-> "right", m |-> 2, q |-> "common", g |-> "TRLBAR|RANGE|WHOLEFOLD|EXTRA|CMDWIN|MODIFY", f |-> {"TRLBAR", "RANGE", "WHOLEFOLD", "EXTRA", "CMDWIN", "MODIFY"}],
    [n |-> "rightbelow", m |-> 6, q |-> "common", g |-> "NEEDARG|EXTRA|NOTRLCOM", f |-> {"NEEDARG", "EXTRA", "NOTRLCOM"}],
    [n |-> "ruby", m |-> 3, q |-> "ruby", g |-> "RANGE|EXTRA|NEEDARG|CMDWIN", f |-> {"RANGE", "EXTRA", "NEEDARG", "CMDWIN"}],
    [n |-> "rubydo", m |-> 5, q |-> "common", g |-> "RANGE|DFLALL|EXTRA|NEEDARG|CMDWIN", f |-> {"RANGE", "DFLALL", "EXTRA", "NEEDARG", "CMDWIN"}],
    [n |-> "rubyfile", m |-> 5, q |-> "common", g |-> "RANGE|FILE1|NEEDARG|CMDWIN", f |-> {"RANGE", "FILE1", "NEEDARG", "CMDWIN"}],
    [n |-> "rundo", m |-> 4, q |-> "common", g |-> "NEEDARG|FILE1", f |-> {"NEEDARG", "FILE1"}],
    [n |-> "runtime", m |-> 2, q |-> "common", g |-> "BANG|NEEDARG|FILES|TRLBAR|SBOXOK|CMDWIN", f |-> {"BANG", "NEEDARG", "FILES", "TRLBAR", "SBOXOK", "CMDWIN"}],
    [n |-> "rviminfo", m |-> 2, q |-> "common", g |-> "BANG|FILE1|TRLBAR|CMDWIN", f |-> {"BANG", "FILE1", "TRLBAR", "CMDWIN"}],
    [n |-> "redrawtabline", m |-> 7, q |-> "common", g |-> "TRLBAR|CMDWIN", f |-> {"TRLBAR", "CMDWIN"}] >>) @@
  ("s" :> <<
    [n |-> "substitute", m |-> 1, q |-> "common", g |-> "RANGE|WHOLEFOLD|EXTRA|CMDWIN", f |-> {"RANGE", "WHOLEFOLD", "EXTRA", "CMDWIN"}],
    [n |-> "sNext", m |-> 2, q |-> "common", g |-> "EXTRA|RANGE|NOTADR|COUNT|BANG|EDITCMD|ARGOPT|TRLBAR", f |-> {"EXTRA", "RANGE", "NOTADR", "COUNT", "BANG", "EDITCMD", "ARGOPT", "TRLBAR"}],
    [n |-> "sandbox", m |-> 3, q |-> "common", g |-> "NEEDARG|EXTRA|NOTRLCOM", f |-> {"NEEDARG", "EXTRA", "NOTRLCOM"}],
    [n |-> "sargument", m |-> 2, q |-> "common", g |-> "BANG|RANGE|NOTADR|COUNT|EXTRA|EDITCMD|ARGOPT|TRLBAR", f |-> {"BANG", "RANGE", "NOTADR", "COUNT", "EXTRA", "EDITCMD", "ARGOPT", "TRLBAR"}],
    [n |-> "sall", m |-> 3, q |-> "common", g |-> "BANG|RANGE|NOTADR|COUNT|TRLBAR", f |-> {"BANG", "RANGE", "NOTADR", "COUNT", "TRLBAR"}],
    [n |-> "saveas", m |-> 3, q |-> "common", g |-> "BANG|DFLALL|FILE1|ARGOPT|CMDWIN|TRLBAR", f |-> {"BANG", "DFLALL", "FILE1", "ARGOPT", "CMDWIN", "TRLBAR"}],
    [n |-> "sbuffer", m |-> 2, q |-> "common", g |-> "BANG|RANGE|NOTADR|BUFNAME|BUFUNL|COUNT|EXTRA|TRLBAR", f |-> {"BANG", "RANGE", "NOTADR", "BUFNAME", "BUFUNL", "COUNT", "EXTRA", "TRLBAR"}],
    [n |-> "sbNext", m |-> 3, q |-> "common", g |-> "RANGE|NOTADR|COUNT|TRLBAR", f |-> {"RANGE", "NOTADR", "COUNT", "TRLBAR"}],
    [n |-> "sball", m |-> 3, q |-> "common", g |-> "RANGE|NOTADR|COUNT|TRLBAR", f |-> {"RANGE", "NOTADR", "COUNT", "TRLBAR"}],
    [n |-> "sbfirst", m |-> 3, q |-> "common", g |-> "TRLBAR", f |-> {"TRLBAR"}],
    [n |-> "sblast", m |-> 3, q |-> "common", g |-> "TRLBAR", f |-> {"TRLBAR"}],
    [n |-> "sbmodified", m |-> 3, q |-> "common", g |-> "RANGE|NOTADR|COUNT|TRLBAR", f |-> {"RANGE", "NOTADR", "COUNT", "TRLBAR"}],
    [n |-> "sbnext", m |-> 3, q |-> "common", g |-> "RANGE|NOTADR|COUNT|TRLBAR", f |-> {"RANGE", "NOTADR", "COUNT", "TRLBAR"}],
    [n |-> "sbprevious", m |-> 3, q |-> "common", g |-> "RANGE|NOTADR|COUNT|TRLBAR", f |-> {"RANGE", "NOTADR", "COUNT", "TRLBAR"}],
    [n |-> "sbrewind", m |-> 3, q |-> "common", g |-> "TRLBAR", f |-> {"TRLBAR"}],
    [n |-> "scriptnames", m |-> 3, q |-> "common", g |-> "TRLBAR|CMDWIN", f |-> {"TRLBAR", "CMDWIN"}],
    [n |-> "scriptencoding", m |-> 7, q |-> "common", g |-> "WORD1|TRLBAR|CMDWIN", f |-> {"WORD1", "TRLBAR", "CMDWIN"}],
    [n |-> "scscope", m |-> 3, q |-> "common", g |-> "EXTRA|NOTRLCOM", f |-> {"EXTRA", "NOTRLCOM"}],
    [n |-> "set", m |-> 2, q |-> "common", g |-> "TRLBAR|EXTRA|CMDWIN|SBOXOK", f |-> {"TRLBAR", "EXTRA", "CMDWIN", "SBOXOK"}],
    [n |-> "setfiletype", m |-> 4, q |-> "common", g |-> "TRLBAR|EXTRA|NEEDARG|CMDWIN", f |-> {"TRLBAR", "EXTRA", "NEEDARG", "CMDWIN"}],
    [n |-> "setglobal", m |-> 4, q |-> "common", g |-> "TRLBAR|EXTRA|CMDWIN|SBOXOK", f |-> {"TRLBAR", "EXTRA", "CMDWIN", "SBOXOK"}],
    [n |-> "setlocal", m |-> 4, q |-> "common", g |-> "TRLBAR|EXTRA|CMDWIN|SBOXOK", f |-> {"TRLBAR", "EXTRA", "CMDWIN", "SBOXOK"}],
    [n |-> "sfind", m |-> 2, q |-> "common", g |-> "BANG|FILE1|RANGE|NOTADR|EDITCMD|ARGOPT|TRLBAR", f |-> {"BANG", "FILE1", "RANGE", "NOTADR", "EDITCMD", "ARGOPT", "TRLBAR"}],
    [n |-> "sfirst", m |-> 4, q |-> "common", g |-> "EXTRA|BANG|EDITCMD|ARGOPT|TRLBAR", f |-> {"EXTRA", "BANG", "EDITCMD", "ARGOPT", "TRLBAR"}],
    [n |-> "shell", m |-> 2, q |-> "common", g |-> "TRLBAR|CMDWIN", f |-> {"TRLBAR", "CMDWIN"}],
    [n |-> "simalt", m |-> 3, q |-> "common", g |-> "NEEDARG|WORD1|TRLBAR|CMDWIN", f |-> {"NEEDARG", "WORD1", "TRLBAR", "CMDWIN"}],
    [n |-> "sign", m |-> 3, q |-> "common", g |-> "NEEDARG|RANGE|NOTADR|EXTRA|CMDWIN", f |-> {"NEEDARG", "RANGE", "NOTADR", "EXTRA", "CMDWIN"}],
    [n |-> "silent", m |-> 3, q |-> "common", g |-> "NEEDARG|EXTRA|BANG|NOTRLCOM|SBOXOK|CMDWIN", f |-> {"NEEDARG", "EXTRA", "BANG", "NOTRLCOM", "SBOXOK", "CMDWIN"}],
    [n |-> "sleep", m |-> 2, q |-> "common", g |-> "RANGE|NOTADR|COUNT|EXTRA|TRLBAR|CMDWIN", f |-> {"RANGE", "NOTADR", "COUNT", "EXTRA", "TRLBAR", "CMDWIN"}],
    [n |-> "slast", m |-> 3, q |-> "common", g |-> "EXTRA|BANG|EDITCMD|ARGOPT|TRLBAR", f |-> {"EXTRA", "BANG", "EDITCMD", "ARGOPT", "TRLBAR"}],
    [n |-> "smagic", m |-> 2, q |-> "common", g |-> "RANGE|WHOLEFOLD|EXTRA|CMDWIN", f |-> {"RANGE", "WHOLEFOLD", "EXTRA", "CMDWIN"}],
    [n |-> "smap", m |-> 4, q |-> "common", g |-> "EXTRA|TRLBAR|NOTRLCOM|USECTRLV|CMDWIN", f |-> {"EXTRA", "TRLBAR", "NOTRLCOM", "USECTRLV", "CMDWIN"}],
    [n |-> "smapclear", m |-> 5, q |-> "common", g |-> "EXTRA|TRLBAR|CMDWIN", f |-> {"EXTRA", "TRLBAR", "CMDWIN"}],
    [n |-> "smenu", m |-> 3, q |-> "common", g |-> "RANGE|NOTADR|ZEROR|EXTRA|TRLBAR|NOTRLCOM|USECTRLV|CMDWIN", f |-> {"RANGE", "NOTADR", "ZEROR", "EXTRA", "TRLBAR", "NOTRLCOM", "USECTRLV", "CMDWIN"}],
    [n |-> "snext", m |-> 2, q |-> "common", g |-> "RANGE|NOTADR|BANG|FILES|EDITCMD|ARGOPT|TRLBAR", f |-> {"RANGE", "NOTADR", "BANG", "FILES", "EDITCMD", "ARGOPT", "TRLBAR"}],
    [n |-> "sniff", m |-> 3, q |-> "common", g |-> "EXTRA|TRLBAR", f |-> {"EXTRA", "TRLBAR"}],
    [n |-> "snomagic", m |-> 3, q |-> "common", g |-> "RANGE|WHOLEFOLD|EXTRA|CMDWIN", f |-> {"RANGE", "WHOLEFOLD", "EXTRA", "CMDWIN"}],
    [n |-> "snoremap", m |-> 4, q |-> "common", g |-> "EXTRA|TRLBAR|NOTRLCOM|USECTRLV|CMDWIN", f |-> {"EXTRA", "TRLBAR", "NOTRLCOM", "USECTRLV", "CMDWIN"}],
    [n |-> "snoremenu", m |-> 7, q |-> "common", g |-> "RANGE|NOTADR|ZEROR|EXTRA|TRLBAR|NOTRLCOM|USECTRLV|CMDWIN", f |-> {"RANGE", "NOTADR", "ZEROR", "EXTRA", "TRLBAR", "NOTRLCOM", "USECTRLV", "CMDWIN"}],
    [n |-> "sort", m |-> 3, q |-> "common", g |-> "RANGE|DFLALL|WHOLEFOLD|BANG|EXTRA|NOTRLCOM|MODIFY", f |-> {"RANGE", "DFLALL", "WHOLEFOLD", "BANG", "EXTRA", "NOTRLCOM", "MODIFY"}],
    [n |-> "source", m |-> 2, q |-> "common", g |-> "BANG|FILE1|TRLBAR|SBOXOK|CMDWIN", f |-> {"BANG", "FILE1", "TRLBAR", "SBOXOK", "CMDWIN"}],
    [n |-> "spelldump", m |-> 6, q |-> "common", g |-> "BANG|TRLBAR", f |-> {"BANG", "TRLBAR"}],
    [n |-> "spellgood", m |-> 3, q |-> "common", g |-> "BANG|RANGE|NOTADR|NEEDARG|EXTRA|TRLBAR", f |-> {"BANG", "RANGE", "NOTADR", "NEEDARG", "EXTRA", "TRLBAR"}],
    [n |-> "spellinfo", m |-> 6, q |-> "common", g |-> "TRLBAR", f |-> {"TRLBAR"}],
    [n |-> "spellrepall", m |-> 6, q |-> "common", g |-> "TRLBAR", f |-> {"TRLBAR"}],
    [n |-> "spellundo", m |-> 6, q |-> "common", g |-> "BANG|RANGE|NOTADR|NEEDARG|EXTRA|TRLBAR", f |-> {"BANG", "RANGE", "NOTADR", "NEEDARG", "EXTRA", "TRLBAR"}],
    [n |-> "spellwrong", m |-> 6, q |-> "common", g |-> "BANG|RANGE|NOTADR|NEEDARG|EXTRA|TRLBAR", f |-> {"BANG", "RANGE", "NOTADR", "NEEDARG", "EXTRA", "TRLBAR"}],
    [n |-> "split", m |-> 2, q |-> "common", g |-> "BANG|FILE1|RANGE|NOTADR|EDITCMD|ARGOPT|TRLBAR", f |-> {"BANG", "FILE1", "RANGE", "NOTADR", "EDITCMD", "ARGOPT", "TRLBAR"}],
    [n |-> "sprevious", m |-> 3, q |-> "common", g |-> "EXTRA|RANGE|NOTADR|COUNT|BANG|EDITCMD|ARGOPT|TRLBAR", f |-> {"EXTRA", "RANGE", "NOTADR", "COUNT", "BANG", "EDITCMD", "ARGOPT", "TRLBAR"}],
    [n |-> "srewind", m |-> 3, q |-> "common", g |-> "EXTRA|BANG|EDITCMD|ARGOPT|TRLBAR", f |-> {"EXTRA", "BANG", "EDITCMD", "ARGOPT", "TRLBAR"}],
    [n |-> "stop", m |-> 2, q |-> "common", g |-> "TRLBAR|BANG|CMDWIN", f |-> {"TRLBAR", "BANG", "CMDWIN"}],
    [n |-> "stag", m |-> 3, q |-> "common", g |-> "RANGE|NOTADR|BANG|WORD1|TRLBAR|ZEROR", f |-> {"RANGE", "NOTADR", "BANG", "WORD1", "TRLBAR", "ZEROR"}],
    [n |-> "startinsert", m |-> 4, q |-> "common", g |-> "BANG|TRLBAR|CMDWIN", f |-> {"BANG", "TRLBAR", "CMDWIN"}],
    [n |-> "startgreplace", m |-> 6, q |-> "common", g |-> "BANG|TRLBAR|CMDWIN", f |-> {"BANG", "TRLBAR", "CMDWIN"}],
    [n |-> "startreplace", m |-> 6, q |-> "common", g |-> "BANG|TRLBAR|CMDWIN", f |-> {"BANG", "TRLBAR", "CMDWIN"}],
    [n |-> "stopinsert", m |-> 5, q |-> "common", g |-> "BANG|TRLBAR|CMDWIN", f |-> {"BANG", "TRLBAR", "CMDWIN"}],
    [n |-> "stjump", m |-> 3, q |-> "common", g |-> "BANG|TRLBAR|WORD1", f |-> {"BANG", "TRLBAR", "WORD1"}],
    [n |-> "stselect", m |-> 3, q |-> "common", g |-> "BANG|TRLBAR|WORD1", f |-> {"BANG", "TRLBAR", "WORD1"}],
    [n |-> "sunhide", m |-> 3, q |-> "common", g |-> "RANGE|NOTADR|COUNT|TRLBAR", f |-> {"RANGE", "NOTADR", "COUNT", "TRLBAR"}],
    [n |-> "sunmap", m |-> 4, q |-> "common", g |-> "EXTRA|TRLBAR|NOTRLCOM|USECTRLV|CMDWIN", f |-> {"EXTRA", "TRLBAR", "NOTRLCOM", "USECTRLV", "CMDWIN"}],
    [n |-> "sunmenu", m |-> 5, q |-> "common", g |-> "EXTRA|TRLBAR|NOTRLCOM|USECTRLV|CMDWIN", f |-> {"EXTRA", "TRLBAR", "NOTRLCOM", "USECTRLV", "CMDWIN"}],
    [n |-> "suspend", m |-> 3, q |-> "common", g |-> "TRLBAR|BANG|CMDWIN", f |-> {"TRLBAR", "BANG", "CMDWIN"}],
    [n |-> "sview", m |-> 2, q |-> "common", g |-> "BANG|FILE1|RANGE|NOTADR|EDITCMD|ARGOPT|TRLBAR", f |-> {"BANG", "FILE1", "RANGE", "NOTADR", "EDITCMD", "ARGOPT", "TRLBAR"}],
    [n |-> "swapname", m |-> 2, q |-> "common", g |-> "TRLBAR|CMDWIN", f |-> {"TRLBAR", "CMDWIN"}],
    [n |-> "syntax", m |-> 2, q |-> "syntax", g |-> "EXTRA|NOTRLCOM|CMDWIN", f |-> {"EXTRA", "NOTRLCOM", "CMDWIN"}],
    [n |-> "syntime", m |-> 5, q |-> "common", g |-> "NEEDARG|WORD1|TRLBAR|CMDWIN", f |-> {"NEEDARG", "WORD1", "TRLBAR", "CMDWIN"}],
    [n |-> "syncbind", m |-> 4, q |-> "common", g |-> "TRLBAR", f |-> {"TRLBAR"}],
    [n |-> "smile", m |-> 3, q |-> "common", g |-> "TRLBAR|CMDWIN|SBOXOK", f |-> {"TRLBAR", "CMDWIN", "SBOXOK"}],
    [n |-> "scriptversion", m |-> 7, q |-> "common", g |-> "WORD1|TRLBAR|CMDWIN", f |-> {"WORD1", "TRLBAR", "CMDWIN"}],
    [n |-> "spellrare", m |-> 7, q |-> "common", g |-> "BANG|RANGE|NEEDARG|EXTRA|TRLBAR", f |-> {"BANG", "RANGE", "NEEDARG", "EXTRA", "TRLBAR"}] >>) @@
  ("t" :> <<
    [n |-> "t", m |-> 1, q |-> "common", g |-> "RANGE|WHOLEFOLD|EXTRA|TRLBAR|CMDWIN|MODIFY", f |-> {"RANGE", "WHOLEFOLD", "EXTRA", "TRLBAR", "CMDWIN", "MODIFY"}],
    [n |-> "tNext", m |-> 2, q |-> "common", g |-> "RANGE|NOTADR|BANG|TRLBAR|ZEROR", f |-> {"RANGE", "NOTADR", "BANG", "TRLBAR", "ZEROR"}],
    [n |-> "tabNext", m |-> 4, q |-> "common", g |-> "RANGE|NOTADR|COUNT|TRLBAR", f |-> {"RANGE", "NOTADR", "COUNT", "TRLBAR"}],
    [n |-> "tabclose", m |-> 4, q |-> "common", g |-> "RANGE|NOTADR|COUNT|BANG|TRLBAR|CMDWIN", f |-> {"RANGE", "NOTADR", "COUNT", "BANG", "TRLBAR", "CMDWIN"}],
    [n |-> "tabdo", m |-> 4, q |-> "common", g |-> "NEEDARG|EXTRA|NOTRLCOM", f |-> {"NEEDARG", "EXTRA", "NOTRLCOM"}],
    [n |-> "tabedit", m |-> 4, q |-> "common", g |-> "BANG|FILE1|RANGE|NOTADR|ZEROR|EDITCMD|ARGOPT|TRLBAR", f |-> {"BANG", "FILE1", "RANGE", "NOTADR", "ZEROR", "EDITCMD", "ARGOPT", "TRLBAR"}],
    [n |-> "tabfind", m |-> 4, q |-> "common", g |-> "BANG|FILE1|RANGE|NOTADR|ZEROR|EDITCMD|ARGOPT|NEEDARG|TRLBAR", f |-> {"BANG", "FILE1", "RANGE", "NOTADR", "ZEROR", "EDITCMD", "ARGOPT", "NEEDARG", "TRLBAR"}],
    [n |-> "tabfirst", m |-> 6, q |-> "common", g |-> "TRLBAR", f |-> {"TRLBAR"}],
    [n |-> "tablast", m |-> 4, q |-> "common", g |-> "TRLBAR", f |-> {"TRLBAR"}],
    [n |-> "tabmove", m |-> 4, q |-> "common", g |-> "RANGE|NOTADR|ZEROR|EXTRA|NOSPC|TRLBAR", f |-> {"RANGE", "NOTADR", "ZEROR", "EXTRA", "NOSPC", "TRLBAR"}],
    [n |-> "tabnew", m |-> 6, q |-> "common", g |-> "BANG|FILE1|RANGE|NOTADR|ZEROR|EDITCMD|ARGOPT|TRLBAR", f |-> {"BANG", "FILE1", "RANGE", "NOTADR", "ZEROR", "EDITCMD", "ARGOPT", "TRLBAR"}],
    [n |-> "tabnext", m |-> 4, q |-> "common", g |-> "RANGE|NOTADR|COUNT|TRLBAR", f |-> {"RANGE", "NOTADR", "COUNT", "TRLBAR"}],
    [n |-> "tabonly", m |-> 4, q |-> "common", g |-> "BANG|TRLBAR|CMDWIN", f |-> {"BANG", "TRLBAR", "CMDWIN"}],
    [n |-> "tabprevious", m |-> 4, q |-> "common", g |-> "RANGE|NOTADR|COUNT|TRLBAR", f |-> {"RANGE", "NOTADR", "COUNT", "TRLBAR"}],
    [n |-> "tabrewind", m |-> 4, q |-> "common", g |-> "TRLBAR", f |-> {"TRLBAR"}],
    [n |-> "tabs", m |-> 4, q |-> "common", g |-> "TRLBAR|CMDWIN", f |-> {"TRLBAR", "CMDWIN"}],
    [n |-> "tab", m |-> 3, q |-> "common", g |-> "NEEDARG|EXTRA|NOTRLCOM", f |-> {"NEEDARG", "EXTRA", "NOTRLCOM"}],
    [n |-> "tag", m |-> 2, q |-> "common", g |-> "RANGE|NOTADR|BANG|WORD1|TRLBAR|ZEROR", f |-> {"RANGE", "NOTADR", "BANG", "WORD1", "TRLBAR", "ZEROR"}],
    [n |-> "tags", m |-> 4, q |-> "common", g |-> "TRLBAR|CMDWIN", f |-> {"TRLBAR", "CMDWIN"}],
    [n |-> "tcl", m |-> 2, q |-> "tcl", g |-> "RANGE|EXTRA|NEEDARG|CMDWIN", f |-> {"RANGE", "EXTRA", "NEEDARG", "CMDWIN"}],
    [n |-> "tcldo", m |-> 4, q |-> "common", g |-> "RANGE|DFLALL|EXTRA|NEEDARG|CMDWIN", f |-> {"RANGE", "DFLALL", "EXTRA", "NEEDARG", "CMDWIN"}],
    [n |-> "tclfile", m |-> 4, q |-> "common", g |-> "RANGE|FILE1|NEEDARG|CMDWIN", f |-> {"RANGE", "FILE1", "NEEDARG", "CMDWIN"}],
    [n |-> "tearoff", m |-> 2, q |-> "common", g |-> "NEEDARG|EXTRA|TRLBAR|NOTRLCOM|CMDWIN", f |-> {"NEEDARG", "EXTRA", "TRLBAR", "NOTRLCOM", "CMDWIN"}],
    [n |-> "tfirst", m |-> 2, q |-> "common", g |-> "RANGE|NOTADR|BANG|TRLBAR|ZEROR", f |-> {"RANGE", "NOTADR", "BANG", "TRLBAR", "ZEROR"}],
    [n |-> "throw", m |-> 2, q |-> "throw", g |-> "EXTRA|NEEDARG|SBOXOK|CMDWIN", f |-> {"EXTRA", "NEEDARG", "SBOXOK", "CMDWIN"}],
    [n |-> "tjump", m |-> 2, q |-> "common", g |-> "BANG|TRLBAR|WORD1", f |-> {"BANG", "TRLBAR", "WORD1"}],
    [n |-> "tlast", m |-> 2, q |-> "common", g |-> "BANG|TRLBAR", f |-> {"BANG", "TRLBAR"}],
    [n |-> "tmenu", m |-> 2, q |-> "common", g |-> "RANGE|NOTADR|ZEROR|EXTRA|TRLBAR|NOTRLCOM|USECTRLV|CMDWIN", f |-> {"RANGE", "NOTADR", "ZEROR", "EXTRA", "TRLBAR", "NOTRLCOM", "USECTRLV", "CMDWIN"}],
    [n |-> "tnext", m |-> 2, q |-> "common", g |-> "RANGE|NOTADR|BANG|TRLBAR|ZEROR", f |-> {"RANGE", "NOTADR", "BANG", "TRLBAR", "ZEROR"}],
    [n |-> "topleft", m |-> 2, q |-> "common", g |-> "NEEDARG|EXTRA|NOTRLCOM", f |-> {"NEEDARG", "EXTRA", "NOTRLCOM"}],
    [n |-> "tprevious", m |-> 2, q |-> "common", g |-> "RANGE|NOTADR|BANG|TRLBAR|ZEROR", f |-> {"RANGE", "NOTADR", "BANG", "TRLBAR", "ZEROR"}],
    [n |-> "trewind", m |-> 2, q |-> "common", g |-> "RANGE|NOTADR|BANG|TRLBAR|ZEROR", f |-> {"RANGE", "NOTADR", "BANG", "TRLBAR", "ZEROR"}],
    [n |-> "try", m |-> 3, q |-> "try", g |-> "TRLBAR|SBOXOK|CMDWIN", f |-> {"TRLBAR", "SBOXOK", "CMDWIN"}],
    [n |-> "tselect", m |-> 2, q |-> "common", g |-> "BANG|TRLBAR|WORD1", f |-> {"BANG", "TRLBAR", "WORD1"}],
    [n |-> "tunmenu", m |-> 2, q |-> "common", g |-> "EXTRA|TRLBAR|NOTRLCOM|USECTRLV|CMDWIN", f |-> {"EXTRA", "TRLBAR", "NOTRLCOM", "USECTRLV", "CMDWIN"}],
    [n |-> "terminal", m |-> 3, q |-> "common", g |-> "RANGE|BANG|FILES|CMDWIN", f |-> {"RANGE", "BANG", "FILES", "CMDWIN"}],
    [n |-> "tmap", m |-> 3, q |-> "common", g |-> "EXTRA|TRLBAR|NOTRLCOM|USECTRLV|CMDWIN", f |-> {"EXTRA", "TRLBAR", "NOTRLCOM", "USECTRLV", "CMDWIN"}],
    [n |-> "tmapclear", m |-> 5, q |-> "common", g |-> "EXTRA|TRLBAR|CMDWIN", f |-> {"EXTRA", "TRLBAR", "CMDWIN"}],
    [n |-> "tnoremap", m |-> 3, q |-> "common", g |-> "EXTRA|TRLBAR|NOTRLCOM|USECTRLV|CMDWIN", f |-> {"EXTRA", "TRLBAR", "NOTRLCOM", "USECTRLV", "CMDWIN"}],
    [n |-> "tunmap", m |-> 5, q |-> "common", g |-> "EXTRA|TRLBAR|NOTRLCOM|USECTRLV|CMDWIN", f |-> {"EXTRA", "TRLBAR", "NOTRLCOM", "USECTRLV", "CMDWIN"}],
    [n |-> "tcd", m |-> 2, q |-> "common", g |-> "BANG|FILE1|TRLBAR|CMDWIN", f |-> {"BANG", "FILE1", "TRLBAR", "CMDWIN"}],
    [n |-> "tchdir", m |-> 3, q |-> "common", g |-> "BANG|FILE1|TRLBAR|CMDWIN", f |-> {"BANG", "FILE1", "TRLBAR", "CMDWIN"}],
    [n |-> "tlmenu", m |-> 3, q |-> "common", g |-> "RANGE|ZEROR|EXTRA|TRLBAR|NOTRLCOM|CTRLV|CMDWIN", f |-> {"RANGE", "ZEROR", "EXTRA", "TRLBAR", "NOTRLCOM", "CTRLV", "CMDWIN"}],
    [n |-> "tlnoremenu", m |-> 3, q |-> "common", g |-> "RANGE|ZEROR|EXTRA|TRLBAR|NOTRLCOM|CTRLV|CMDWIN", f |-> {"RANGE", "ZEROR", "EXTRA", "TRLBAR", "NOTRLCOM", "CTRLV", "CMDWIN"}],
    [n |-> "tlunmenu", m |-> 3, q |-> "common", g |-> "RANGE|ZEROR|EXTRA|TRLBAR|NOTRLCOM|CTRLV|CMDWIN", f |-> {"RANGE", "ZEROR", "EXTRA", "TRLBAR", "NOTRLCOM", "CTRLV", "CMDWIN"}] >>) @@
  ("u" :> <<
    [n |-> "undo", m |-> 1, q |-> "common", g |-> "RANGE|NOTADR|COUNT|ZEROR|TRLBAR|CMDWIN", f |-> {"RANGE", "NOTADR", "COUNT", "ZEROR", "TRLBAR", "CMDWIN"}],
    [n |-> "undojoin", m |-> 5, q |-> "common", g |-> "TRLBAR|CMDWIN", f |-> {"TRLBAR", "CMDWIN"}],
    [n |-> "undolist", m |-> 5, q |-> "common", g |-> "TRLBAR|CMDWIN", f |-> {"TRLBAR", "CMDWIN"}],
    [n |-> "unabbreviate", m |-> 3, q |-> "common", g |-> "EXTRA|TRLBAR|NOTRLCOM|USECTRLV|CMDWIN", f |-> {"EXTRA", "TRLBAR", "NOTRLCOM", "USECTRLV", "CMDWIN"}],
    [n |-> "unhide", m |-> 3, q |-> "common", g |-> "RANGE|NOTADR|COUNT|TRLBAR", f |-> {"RANGE", "NOTADR", "COUNT", "TRLBAR"}],
    [n |-> "unlet", m |-> 3, q |-> "unlet", g |-> "BANG|EXTRA|NEEDARG|SBOXOK|CMDWIN", f |-> {"BANG", "EXTRA", "NEEDARG", "SBOXOK", "CMDWIN"}],
    [n |-> "unlockvar", m |-> 4, q |-> "unlockvar", g |-> "BANG|EXTRA|NEEDARG|SBOXOK|CMDWIN", f |-> {"BANG", "EXTRA", "NEEDARG", "SBOXOK", "CMDWIN"}],
    [n |-> "unmap", m |-> 3, q |-> "common", g |-> "BANG|EXTRA|TRLBAR|NOTRLCOM|USECTRLV|CMDWIN", f |-> {"BANG", "EXTRA", "TRLBAR", "NOTRLCOM", "USECTRLV", "CMDWIN"}],
    [n |-> "unmenu", m |-> 4, q |-> "common", g |-> "BANG|EXTRA|TRLBAR|NOTRLCOM|USECTRLV|CMDWIN", f |-> {"BANG", "EXTRA", "TRLBAR", "NOTRLCOM", "USECTRLV", "CMDWIN"}],
    [n |-> "unsilent", m |-> 3, q |-> "common", g |-> "NEEDARG|EXTRA|NOTRLCOM|SBOXOK|CMDWIN", f |-> {"NEEDARG", "EXTRA", "NOTRLCOM", "SBOXOK", "CMDWIN"}],
    [n |-> "update", m |-> 2, q |-> "common", g |-> "RANGE|WHOLEFOLD|BANG|FILE1|ARGOPT|DFLALL|TRLBAR", f |-> {"RANGE", "WHOLEFOLD", "BANG", "FILE1", "ARGOPT", "DFLALL", "TRLBAR"}] >>) @@
  ("v" :> <<
    [n |-> "vglobal", m |-> 1, q |-> "common", g |-> "RANGE|WHOLEFOLD|EXTRA|DFLALL|CMDWIN", f |-> {"RANGE", "WHOLEFOLD", "EXTRA", "DFLALL", "CMDWIN"}],
    [n |-> "version", m |-> 2, q |-> "common", g |-> "EXTRA|TRLBAR|CMDWIN", f |-> {"EXTRA", "TRLBAR", "CMDWIN"}],
    [n |-> "verbose", m |-> 4, q |-> "common", g |-> "NEEDARG|RANGE|NOTADR|EXTRA|NOTRLCOM|SBOXOK|CMDWIN", f |-> {"NEEDARG", "RANGE", "NOTADR", "EXTRA", "NOTRLCOM", "SBOXOK", "CMDWIN"}],
    [n |-> "vertical", m |-> 4, q |-> "common", g |-> "NEEDARG|EXTRA|NOTRLCOM", f |-> {"NEEDARG", "EXTRA", "NOTRLCOM"}],
    [n |-> "vimgrep", m |-> 3, q |-> "common", g |-> "RANGE|NOTADR|BANG|NEEDARG|EXTRA|NOTRLCOM|TRLBAR|XFILE", f |-> {"RANGE", "NOTADR", "BANG", "NEEDARG", "EXTRA", "NOTRLCOM", "TRLBAR", "XFILE"}],
    [n |-> "vimgrepadd", m |-> 8, q |-> "common", g |-> "RANGE|NOTADR|BANG|NEEDARG|EXTRA|NOTRLCOM|TRLBAR|XFILE", f |-> {"RANGE", "NOTADR", "BANG", "NEEDARG", "EXTRA", "NOTRLCOM", "TRLBAR", "XFILE"}],
    [n |-> "visual", m |-> 2, q |-> "common", g |-> "BANG|FILE1|EDITCMD|ARGOPT|TRLBAR", f |-> {"BANG", "FILE1", "EDITCMD", "ARGOPT", "TRLBAR"}],
    [n |-> "viusage", m |-> 3, q |-> "common", g |-> "TRLBAR", f |-> {"TRLBAR"}],
    [n |-> "view", m |-> 3, q |-> "common", g |-> "BANG|FILE1|EDITCMD|ARGOPT|TRLBAR", f |-> {"BANG", "FILE1", "EDITCMD", "ARGOPT", "TRLBAR"}],
    [n |-> "vmap", m |-> 2, q |-> "common", g |-> "EXTRA|TRLBAR|NOTRLCOM|USECTRLV|CMDWIN", f |-> {"EXTRA", "TRLBAR", "NOTRLCOM", "USECTRLV", "CMDWIN"}],
    [n |-> "vmapclear", m |-> 5, q |-> "common", g |-> "EXTRA|TRLBAR|CMDWIN", f |-> {"EXTRA", "TRLBAR", "CMDWIN"}],
    [n |-> "vmenu", m |-> 3, q |-> "common", g |-> "RANGE|NOTADR|ZEROR|EXTRA|TRLBAR|NOTRLCOM|USECTRLV|CMDWIN", f |-> {"RANGE", "NOTADR", "ZEROR", "EXTRA", "TRLBAR", "NOTRLCOM", "USECTRLV", "CMDWIN"}],
    [n |-> "vnew", m |-> 3, q |-> "common", g |-> "BANG|FILE1|RANGE|NOTADR|EDITCMD|ARGOPT|TRLBAR", f |-> {"BANG", "FILE1", "RANGE", "NOTADR", "EDITCMD", "ARGOPT", "TRLBAR"}],
    [n |-> "vnoremap", m |-> 2, q |-> "common", g |-> "EXTRA|TRLBAR|NOTRLCOM|USECTRLV|CMDWIN", f |-> {"EXTRA", "TRLBAR", "NOTRLCOM", "USECTRLV", "CMDWIN"}],
    [n |-> "vnoremenu", m |-> 7, q |-> "common", g |-> "RANGE|NOTADR|ZEROR|EXTRA|TRLBAR|NOTRLCOM|USECTRLV|CMDWIN", f |-> {"RANGE", "NOTADR", "ZEROR", "EXTRA", "TRLBAR", "NOTRLCOM", "USECTRLV", "CMDWIN"}],
    [n |-> "vsplit", m |-> 2, q |-> "common", g |-> "BANG|FILE1|RANGE|NOTADR|EDITCMD|ARGOPT|TRLBAR", f |-> {"BANG", "FILE1", "RANGE", "NOTADR", "EDITCMD", "ARGOPT", "TRLBAR"}],
    [n |-> "vunmap", m |-> 2, q |-> "common", g |-> "EXTRA|TRLBAR|NOTRLCOM|USECTRLV|CMDWIN", f |-> {"EXTRA", "TRLBAR", "NOTRLCOM", "USECTRLV", "CMDWIN"}],
    [n |-> "vunmenu", m |-> 5, q |-> "common", g |-> "EXTRA|TRLBAR|NOTRLCOM|USECTRLV|CMDWIN", f |-> {"EXTRA", "TRLBAR", "NOTRLCOM", "USECTRLV", "CMDWIN"}],
    [n |-> "vim9script", m |-> 4, q |-> "common", g |-> "", f |-> {}] >>) @@
  ("w" :> <<
    [n |-> "windo", m |-> 4, q |-> "common", g |-> "BANG|NEEDARG|EXTRA|NOTRLCOM", f |-> {"BANG", "NEEDARG", "EXTRA", "NOTRLCOM"}],
    [n |-> "write", m |-> 1, q |-> "common", g |-> "RANGE|WHOLEFOLD|BANG|FILE1|ARGOPT|DFLALL|TRLBAR|CMDWIN", f |-> {"RANGE", "WHOLEFOLD", "BANG", "FILE1", "ARGOPT", "DFLALL", "TRLBAR", "CMDWIN"}],
    [n |-> "wNext", m |-> 2, q |-> "common", g |-> "RANGE|WHOLEFOLD|NOTADR|BANG|FILE1|ARGOPT|TRLBAR", f |-> {"RANGE", "WHOLEFOLD", "NOTADR", "BANG", "FILE1", "ARGOPT", "TRLBAR"}],
    [n |-> "wall", m |-> 2, q |-> "common", g |-> "BANG|TRLBAR|CMDWIN", f |-> {"BANG", "TRLBAR", "CMDWIN"}],
    [n |-> "while", m |-> 2, q |-> "while", g |-> "EXTRA|NOTRLCOM|SBOXOK|CMDWIN", f |-> {"EXTRA", "NOTRLCOM", "SBOXOK", "CMDWIN"}],
    [n |-> "winsize", m |-> 2, q |-> "common", g |-> "EXTRA|NEEDARG|TRLBAR", f |-> {"EXTRA", "NEEDARG", "TRLBAR"}],
    [n |-> "wincmd", m |-> 4, q |-> "wincmd", g |-> "NEEDARG|WORD1|RANGE|NOTADR", f |-> {"NEEDARG", "WORD1", "RANGE", "NOTADR"}],
    [n |-> "winpos", m |-> 4, q |-> "common", g |-> "EXTRA|TRLBAR|CMDWIN", f |-> {"EXTRA", "TRLBAR", "CMDWIN"}],
    [n |-> "wnext", m |-> 2, q |-> "common", g |-> "RANGE|NOTADR|BANG|FILE1|ARGOPT|TRLBAR", f |-> {"RANGE", "NOTADR", "BANG", "FILE1", "ARGOPT", "TRLBAR"}],
    [n |-> "wprevious", m |-> 2, q |-> "common", g |-> "RANGE|NOTADR|BANG|FILE1|ARGOPT|TRLBAR", f |-> {"RANGE", "NOTADR", "BANG", "FILE1", "ARGOPT", "TRLBAR"}],
    [n |-> "wq", m |-> 2, q |-> "common", g |-> "RANGE|WHOLEFOLD|BANG|FILE1|ARGOPT|DFLALL|TRLBAR", f |-> {"RANGE", "WHOLEFOLD", "BANG", "FILE1", "ARGOPT", "DFLALL", "TRLBAR"}],
    [n |-> "wqall", m |-> 3, q |-> "common", g |-> "BANG|FILE1|ARGOPT|DFLALL|TRLBAR", f |-> {"BANG", "FILE1", "ARGOPT", "DFLALL", "TRLBAR"}],
    [n |-> "wsverb", m |-> 2, q |-> "common", g |-> "EXTRA|NOTADR|NEEDARG", f |-> {"EXTRA", "NOTADR", "NEEDARG"}],
    [n |-> "wundo", m |-> 2, q |-> "common", g |-> "BANG|NEEDARG|FILE1", f |-> {"BANG", "NEEDARG", "FILE1"}],
    [n |-> "wviminfo", m |-> 2, q |-> "common", g |-> "BANG|FILE1|TRLBAR|CMDWIN", f |-> {"BANG", "FILE1", "TRLBAR", "CMDWIN"}] >>) @@
  ("x" :> <<
    [n |-> "xit", m |-> 1, q |-> "common", g |-> "RANGE|WHOLEFOLD|BANG|FILE1|ARGOPT|DFLALL|TRLBAR|CMDWIN", f |-> {"RANGE", "WHOLEFOLD", "BANG", "FILE1", "ARGOPT", "DFLALL", "TRLBAR", "CMDWIN"}],
    [n |-> "xall", m |-> 2, q |-> "common", g |-> "BANG|TRLBAR", f |-> {"BANG", "TRLBAR"}],
    [n |-> "xmapclear", m |-> 5, q |-> "common", g |-> "EXTRA|TRLBAR|CMDWIN", f |-> {"EXTRA", "TRLBAR", "CMDWIN"}],
    [n |-> "xmap", m |-> 2, q |-> "common", g |-> "EXTRA|TRLBAR|NOTRLCOM|USECTRLV|CMDWIN", f |-> {"EXTRA", "TRLBAR", "NOTRLCOM", "USECTRLV", "CMDWIN"}],
    [n |-> "xmenu", m |-> 3, q |-> "common", g |-> "RANGE|NOTADR|ZEROR|EXTRA|TRLBAR|NOTRLCOM|USECTRLV|CMDWIN", f |-> {"RANGE", "NOTADR", "ZEROR", "EXTRA", "TRLBAR", "NOTRLCOM", "USECTRLV", "CMDWIN"}],
    [n |-> "xnoremap", m |-> 2, q |-> "common", g |-> "EXTRA|TRLBAR|NOTRLCOM|USECTRLV|CMDWIN", f |-> {"EXTRA", "TRLBAR", "NOTRLCOM", "USECTRLV", "CMDWIN"}],
    [n |-> "xnoremenu", m |-> 7, q |-> "common", g |-> "RANGE|NOTADR|ZEROR|EXTRA|TRLBAR|NOTRLCOM|USECTRLV|CMDWIN", f |-> {"RANGE", "NOTADR", "ZEROR", "EXTRA", "TRLBAR", "NOTRLCOM", "USECTRLV", "CMDWIN"}],
    [n |-> "xunmap", m |-> 2, q |-> "common", g |-> "EXTRA|TRLBAR|NOTRLCOM|USECTRLV|CMDWIN", f |-> {"EXTRA", "TRLBAR", "NOTRLCOM", "USECTRLV", "CMDWIN"}],
    [n |-> "xunmenu", m |-> 5, q |-> "common", g |-> "EXTRA|TRLBAR|NOTRLCOM|USECTRLV|CMDWIN", f |-> {"EXTRA", "TRLBAR", "NOTRLCOM", "USECTRLV", "CMDWIN"}],
    [n |-> "xrestore", m |-> 2, q |-> "common", g |-> "EXTRA|TRLBAR|CMDWIN", f |-> {"EXTRA", "TRLBAR", "CMDWIN"}] >>) @@
  ("y" :> <<
    [n |-> "yank", m |-> 1, q |-> "common", g |-> "RANGE|WHOLEFOLD|REGSTR|COUNT|TRLBAR|CMDWIN", f |-> {"RANGE", "WHOLEFOLD", "REGSTR", "COUNT", "TRLBAR", "CMDWIN"}] >>) @@
  ("z" :> <<
    [n |-> "z", m |-> 1, q |-> "common", g |-> "RANGE|WHOLEFOLD|EXTRA|EXFLAGS|TRLBAR|CMDWIN", f |-> {"RANGE", "WHOLEFOLD", "EXTRA", "EXFLAGS", "TRLBAR", "CMDWIN"}] >>) @@
  ("~" :> <<
    [n |-> "~", m |-> 1, q |-> "common", g |-> "RANGE|WHOLEFOLD|EXTRA|CMDWIN|MODIFY", f |-> {"RANGE", "WHOLEFOLD", "EXTRA", "CMDWIN", "MODIFY"}] >>)
NeovimAdded == <<
    [n |-> "rshada", m |-> 3, q |-> "common", g |-> "BANG|FILE1|TRLBAR|CMDWIN", f |-> {"BANG", "FILE1", "TRLBAR", "CMDWIN"}],
    [n |-> "wshada", m |-> 3, q |-> "common", g |-> "BANG|FILE1|TRLBAR|CMDWIN", f |-> {"BANG", "FILE1", "TRLBAR", "CMDWIN"}] >>
NeovimRemoved == <<
    [n |-> "Print", m |-> 1, q |-> "common", g |-> "RANGE|WHOLEFOLD|COUNT|EXFLAGS|TRLBAR|CMDWIN", f |-> {"RANGE", "WHOLEFOLD", "COUNT", "EXFLAGS", "TRLBAR", "CMDWIN"}],
    [n |-> "fixdel", m |-> 3, q |-> "common", g |-> "TRLBAR|CMDWIN", f |-> {"TRLBAR", "CMDWIN"}],
    [n |-> "helpfind", m |-> 5, q |-> "common", g |-> "EXTRA|NOTRLCOM", f |-> {"EXTRA", "NOTRLCOM"}],
    [n |-> "open", m |-> 1, q |-> "common", g |-> "RANGE|BANG|EXTRA", f |-> {"RANGE", "BANG", "EXTRA"}],
    [n |-> "shell", m |-> 2, q |-> "common", g |-> "TRLBAR|CMDWIN", f |-> {"TRLBAR", "CMDWIN"}],
    [n |-> "tearoff", m |-> 2, q |-> "common", g |-> "NEEDARG|EXTRA|TRLBAR|NOTRLCOM|CMDWIN", f |-> {"NEEDARG", "EXTRA", "TRLBAR", "NOTRLCOM", "CMDWIN"}],
    [n |-> "gvim", m |-> 2, q |-> "common", g |-> "BANG|FILES|EDITCMD|ARGOPT|TRLBAR|CMDWIN", f |-> {"BANG", "FILES", "EDITCMD", "ARGOPT", "TRLBAR", "CMDWIN"}] >>
==============================================================================
