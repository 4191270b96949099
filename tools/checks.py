ROOT=__import__("os").path.dirname(__import__("os").path.dirname(__import__("os").path.abspath(__file__)))
# source of checks.json: run python3 tools/checks.py
import json
C={}
def chk(id,pkg,runs,outside="",assume=()):
    C[id]=dict(pkg=pkg,runs=runs,outside=outside,assumptions=list(assume))
def run(fn,bounds,quick=None,thorough=None,**kw):
    d=dict(fn=fn,bounds=bounds)
    if quick: d['quick']=quick
    if thorough: d['thorough']=thorough
    d.update(kw)
    return d
NOZERO="readers obey the io.Reader contract and never return 0 bytes with a nil error"
chk("C01","parseh",[run("Source","inputs of 0..n arbitrary bytes; string source or reader source with any chunking, buffer sizes 1..3, the final error (EOF or another) alone or together with the last data; every sequence of up to ops operations (Peek, Peek1, PeekN 0..maxn+1, Consume, ConsumeN 0..maxn+1, Consume1) followed by draining the source",dict(n=3,ops=3,maxn=3),dict(n=4,ops=4,maxn=4))],
  "longer inputs and sequences; SetBuffer",[NOZERO])
chk("C02","parseh",[run("Runes","remaining input of 1..n arbitrary bytes (n=4 covers every UTF-8 sequence and every truncation), optionally after a consumed byte, every chunking with buffers of 1..3 bytes",dict(n=4),dict(n=5))],
  "PeekRune at end of input (nothing remains)",[NOZERO])
chk("C03","parseh",[
  run("Uints","every natural number of up to 21 significant digits (all of uint64 and beyond), 0..2 leading zeros, followed by nothing, or by any non-digit byte and more text; string or reader source cut at 4 places"),
  run("Ints","same for Int32, Int64 and Int, with and without minus sign, up to one digit more than the type's maximum"),
  run("IntText","every byte string of 0..n bytes, every chunking, for all four readers",dict(n=3),dict(n=4))],
  "more than 21 significant digits",[NOZERO])
chk("C04","parseh",[
  run("Tokens","AnyExcept1/2 with arbitrary delimiters over every input of 0..n bytes and every chunking",dict(n=4),dict(n=5)),
  run("Ranges","read/skip.UnicodeRange(s) over every input of 0..n bytes cut at any place, 7 combinations of include/exclude tables mixing 16 and 32 bit ranges, strides and U+FFFD",dict(n=3),dict(n=4),secs=240),
  run("Spaces","skip.Space and skip.UnicodeSpace over every input of 0..n bytes cut at any place",dict(n=3),dict(n=5))],
  "tables other than the representative ones",[NOZERO])
chk("C05","parseh",[
  run("Pratt","expressions of up to 'operands' operands over three infix operators with arbitrary precedences 1..2^30, a tightest-binding prefix operator or one level of parentheses, string and two-chunk reader sources",dict(operands=4),dict(operands=5)),
  run("Pratt","same with a prefix operator of arbitrary precedence",dict(operands=3,neg=1),dict(operands=4,neg=1)),
  run("PrattErr","every token string of up to n tokens over operand, prefix operator, two infix operators, parentheses and a foreign byte",dict(n=4),dict(n=6))],
  "deeper nesting",["the lexer used is the harness's own, written against the exported Lexer interface"])
chk("C10","jsonh",[
  run("Strings","every string made of 0..n arbitrary bytes after a plain prefix of 0, 1 or 70 characters and before a plain suffix of 0 or 2 characters; nil or non-empty destination buffer",dict(n=3),dict(n=5)),
  run("Bytes","same shapes for byte slices, through WriteBytes and MarshalToString",dict(n=3),dict(n=5))],
  "more than n consecutive characters that need a decision")
chk("C11","jsonh",[run("Ints","every value of int8..int64 and uint8..uint64 (no bound): the decimal digits are the symbolic variables; destination buffer of 2 bytes with and without spare capacity"),
  run("Kinds","every integer kind and a named type of it, through MarshalToString, the encoder of the object and an interface holding it: every value of two digits and every value with as many digits as the extremes")])
exec(open(ROOT+'/tools/checks_more.py').read()) if __import__('os').path.exists(ROOT+'/tools/checks_more.py') else None
json.dump(C,open(ROOT+'/checks.json','w'),indent=1)
