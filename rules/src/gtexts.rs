grammars! {
    basic { lit, ins, range, seq, mixed, ch, opt, star, plus, sstar, mplus, cnt, mn, mx, mm, smm, pos, neg, dneg, nest, group, lead, raw, qrange, esc } = r##"
~ = " "*
^ = "\n"
lit = "a"
ins = i"aB"
range = 'a'..'c'
seq = lit ~ "b" - "c"
mixed = "a" ^ "b" ~ "c" - lit ^ lit ~ "c"
ch = lit | "b" | range
opt = lit?
star = lit*
plus = lit+
sstar = lit~* - "b"
mplus = lit^+
cnt = lit{2}
mn = lit{2..}
mx = lit{..2}
mm = lit{1..3}
smm = lit~{2..3} ~ "b"
pos = &lit - ("ab" | range+)
neg = !lit ~ ("b" | " ")
dneg = !!lit - pest::any
nest = (lit ~ ("b" | (range - "c" ^ "b")) - "a") | ("b" ~ lit)~+
group = ((lit | "b") | ("c" | "a" - "b"))
lead = | "ab" | "a"
raw = r#""\n"# | r"b"
qrange = '"'..'z'
esc = "\x61\u{e9}\"\\\t" | "\u{61}b\0"
"##;
    nested { top, mid, leaf, quiet, viaquiet, chain, la } = r##"
~ = quiet*
top = mid ~ (leaf | mid)* - quiet
mid = leaf ~ leaf?
leaf = { "x" }
quiet = _{ "y" }
viaquiet = quiet ~ leaf ~ hush
hush = _{ leaf - "z" }
chain = quiet - (&mid - top | !leaf - "z")
la = &leaf - !quiet - pest::any
"##;
    recur { a, b, c, lst, deep, par } = r##"
~ = " "
a = "a" - a? - "b"
b = "a" - c | "b"
c = "b" - b | "c"
lst = "a" ~ ("b" ~ lst)*
deep = "(" - deep* - ")"
par = "(" - (par | lst)~* - ")"
"##;
    param { one, two, swap, inner, hid, hidtwo, hidarg, capt, free, nestcall, shape } = r##"
~ = " "*
^ = "\n"
leaf = "a"
of(e) = e
pair(e, f) = e ~ f ^ e
wrap(e) = "(" - e - ")"
list(e, sep) = e - (sep - e)*
ops(x) = &x - x* - !x | x{2}
quiet(e) = _{ e - "q" }
quiet2(e, f) = _{ f - e ~ e }
hidarg = of(quiet("b")) ~ leaf
f = "x"
capt = quiet2(f, "b")
unused(e) = _{ leaf }
free = unused("b") - "b"
one = of("b")
two = pair(leaf, "b")
swap = pair("b", leaf)
inner = wrap(of(leaf | "b"))
nestcall = list(wrap(leaf), "b")
shape = ops(leaf) - "b"
hid = quiet(leaf) - "b"
hidtwo = quiet2(leaf, "b" | leaf)
"##;
    stacks { push2, peekit, popit, all, dropit, slices, tags, retry, fail } = r##"
~ = " "
use pest::stack as st
use pest::stack::push
push2 = push("a") - push('a'..'b') - pest::stack::peek_all
peekit = push('a'..'b') ~ st::peek ~ pest::stack::peek
popit = push('a'..'b'+) - "c" - st::pop
all = push('a'..'b')* - "c" - st::pop_all
dropit = st::drop - (st::drop | "b")
slices = push('a'..'b')~* - "c" - (st::peek[0..1] - st::peek[-1..] | st::peek[..-1] - st::peek[1..2])
tags = push('a'..'b') - tags? - st::pop
retry = (push("a") - "b" - st::pop | push("a") - st::peek | st::drop)? - st::peek_all
fail = st::pop - "a" | st::peek | "b"
"##;
    builtins { d, nz, bi, oc, hx, lo, up, al, an, asc, nl, full, uni } = r##"
use pest::ascii_digit
use pest::ascii_hex_digit as hex
use pest::stack as st
d = ascii_digit - (hex | st::pop)?
nz = pest::ascii_nonzero_digit
bi = pest::ascii_bin_digit
oc = pest::ascii_oct_digit
hx = pest::ascii_hex_digit
lo = pest::ascii_alpha_lower
up = pest::ascii_alpha_upper
al = pest::ascii_alpha
an = pest::ascii_alphanumeric
asc = pest::ascii
nl = pest::newline - "a"
full = pest::soi - ("a" | "09AFGfgzZ\r\n:@`{/[" | "\u{e9}\u{c9}")* - pest::eoi
uni = pest::unicode::alphabetic | pest::unicode::white_space
"##;
    folds { plain, either, cased, kelvin, sharp, both } = r##"
~ = " "
plain = "\u{e9}" - i"\u{c9}" | "AB"
either = i"\u{e9}" ~ "\u{c9}" | i"aB"
cased = i"K" - "k" - i"k" | "K"
kelvin = i"\u{212a}" | "\u{212a}" - i"k"
sharp = i"\u{df}" - "SS" | i"ss"
both = plain ~ either? | cased | kelvin | sharp | i"" - "k"
"##;
    wide { s17, c17, s5, c5 } = r##"
~ = ","
s17 = "a" ~ "b" - "c" ~ "d" - "e" ~ "f" - "g" ~ "h" - "i" - "j" - "k" ~ "l" - "m" ~ "n" - "o" ~ "p" - "q"
c17 = "a" | "b" | "c" | "d" | "e" | "f" | "g" | "h" | "i" | "j" | "k" | "l" | "m" | "n" | "o" | "p" | "q"
s5 = "a" - "b" ~ ("c" | "d" - "a") - x ~ x
c5 = "a" - "b" | "a" ~ "b" | x - "c" | x | "d"
x = "a"
"##;
}
