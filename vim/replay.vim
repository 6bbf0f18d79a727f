" Replays cases into the parser in Vim script.  $CASES has a case per line as
" JSON; the outcomes go to $OUTCOMES.
set encoding=utf-8
let s:v = vimlparser#import()

function! s:Run(c) abort
  let r = {'id': a:c.id}
  try
    let reader = s:v.StringReader.new(a:c.lines)
    if a:c.m ==# 'expr'
      let n = s:v.ExprParser.new(reader).parse()
    else
      let n = s:v.VimLParser.new(a:c.nvim).parse(reader)
    endif
  catch
    let r.err = v:exception
    return r
  endtry
  try
    let x = s:v.Compiler.new().compile(n)
    let r.out = type(x) == type([]) ? x : [x]
  catch
    let r.bad = v:exception . ' at ' . v:throwpoint
  endtry
  return r
endfunction

let s:out = []
for s:line in readfile($CASES)
  call add(s:out, json_encode(s:Run(json_decode(s:line))))
endfor
call writefile(s:out, $OUTCOMES)
