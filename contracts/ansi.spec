# ANSI escape sequences (A01-A04)

# The grammar of control sequences as an automaton:
#  0 start; 1 after ESC; 10+d first parameter, d digits, all zero; 20+d first parameter, some digit not '0';
#  30+d, 40+d later parameters (after a first one that is zero / not zero);
#  50 complete start sequence; 51 complete stop sequence; 52 complete other sequence; 60 not a control sequence
define zst(a) = a < 20 || (30 <= a && a < 40)
define keyst(a, x) = ite(x == 115 || x == 104, 50, ite(x == 117 || x == 108, 51, ite(x == 109, ite(zst(a), 51, 50), 52)))
define more(a) = a < 13 || (20 <= a && a < 23) || (30 <= a && a < 33) || (40 <= a && a < 43)
define parst(a, x) = ite(unicode.IsDigit(x) && more(a), ite(a < 13 && x != 48, a + 11, a + 1), ite(x == 59 || x == 58, ite(zst(a), 30, 40), keyst(a, x)))
fold seqst(x rune) int back = 0 ; ite(acc == 0, ite(x == 27, 1, 60), ite(acc == 1, ite(x == 91, 10, 60), ite(10 <= acc && acc < 50, parst(acc, x), 60)))

# reading a text left to right: 0 between, 1 after ESC, 10.. in the parameters, 99 a complete start or stop sequence was met
fold scanst(x rune, s int) int back seed = s ; ite(acc == 0, ite(x == 27, 1, 0), ite(acc == 1, ite(x == 91, 10, ite(x == 27, 1, 0)), ite(10 <= acc && acc < 50, ite(parst(acc, x) == 50 || parst(acc, x) == 51, 99, ite(parst(acc, x) == 52, 0, parst(acc, x))), acc)))
lemma scanseq(A arr, o int, s int, k int) from o + 2 by seqst(A, o, k), scanst(A, o, k, s):
    imp(A[o] == 27 && A[o+1] == 91 && (s == 0 || s == 1), seqst(A, o, k) >= 10 && imp(10 <= seqst(A, o, k) && seqst(A, o, k) < 50, scanst(A, o, k, s) == seqst(A, o, k)) && imp(seqst(A, o, k) == 52, scanst(A, o, k, s) == 0))

define rinv(r) = r != nil && 0 <= r.offset && r.offset <= len(r.runes)
define csi(r, p) = p+1 < len(r.runes) && r.runes[p] == 27 && r.runes[p+1] == 91
define window(g, r, a, b) = len(g) == b-a && forall(k, 0, b-a, g[k] == r.runes[a+k])

func github.com/fredbi/go-typeset/terminal/ansi.decodeANSISequence
params rdr
property A01 A02 A03 A04
aux
requires rinv(rdr)
modifies rdr.offset
ensures inv: rinv(rdr) && same(rdr.runes, old(rdr.runes))
ensures none: imp(result0 == nil, rdr.offset == old(rdr.offset) && !csi(rdr, rdr.offset))
ensures some: imp(result0 != nil, csi(rdr, old(rdr.offset)) && old(rdr.offset)+2 <= rdr.offset)
ensures window: imp(result0 != nil, window(result0, rdr, old(rdr.offset), rdr.offset))
ensures start: imp(result0 != nil, iff(result1 == 1, seqst(rdr.runes[old(rdr.offset):rdr.offset]) == 50))
ensures stop: imp(result0 != nil, iff(result1 == 2, seqst(rdr.runes[old(rdr.offset):rdr.offset]) == 51))
ensures other: imp(result0 != nil && result1 != 1 && result1 != 2, result1 == 0 && (seqst(rdr.runes[old(rdr.offset):rdr.offset]) == 52 || (rdr.offset == len(rdr.runes) && 10 <= seqst(rdr.runes[old(rdr.offset):rdr.offset]) && seqst(rdr.runes[old(rdr.offset):rdr.offset]) < 50)))
nounroll
merge
define seq(r, p, q) = seqst(r.runes[p:q])
define par(a) = (10 <= a && a <= 13) || (21 <= a && a <= 23) || (30 <= a && a <= 33) || (40 <= a && a <= 43)
define unread(e) = ite(e == nil, 1, 0)
define q0(r) = old(r.offset)
loop [] rinv(rdr) && same(rdr.runes, old(rdr.runes)) && csi(rdr, old(rdr.offset)) && old(rdr.offset) + 2 <= rdr.offset
loop [i:int!] rdr.offset == old(rdr.offset) + 2 + i
loop [i:int!] i <= 3
loop [b:bool!] ite(b, seq(rdr, old(rdr.offset), rdr.offset) == 8 + rdr.offset - old(rdr.offset), seq(rdr, old(rdr.offset), rdr.offset) == 18 + rdr.offset - old(rdr.offset) && rdr.offset > old(rdr.offset) + 2)
loop [e:error! r:rune!] imp(e == nil, old(rdr.offset) + 3 <= rdr.offset && r == rdr.runes[rdr.offset-1])
loop [e:error! r:rune!] imp(e != nil, rdr.offset == len(rdr.runes) && r == 65533)
loop [e:error!] par(seq(rdr, old(rdr.offset), rdr.offset - unread(e)))
loop [e:error! b:bool] iff(zst(seq(rdr, old(rdr.offset), rdr.offset - unread(e))), b)
loop [e:error! r:rune!] imp(e == nil && unicode.IsDigit(r), seq(rdr, old(rdr.offset), rdr.offset - 1) != 10 && !more(seq(rdr, old(rdr.offset), rdr.offset - 1)))
loop [e:error! n:int!] n == rdr.offset - old(rdr.offset) - unread(e)
loop [e:error! n:int64!] n == rdr.offset - unread(e)
loop [i:int! b:bool] seq(rdr, old(rdr.offset), rdr.offset) == ite(b, 30, 40) + i
loop [n:int!] n == rdr.offset - old(rdr.offset)
loop [n:int64!] n == rdr.offset

func github.com/fredbi/go-typeset/terminal/ansi.decodeText
params rdr
property A01 A02 A03 A04
aux
requires rinv(rdr)
modifies rdr.offset
merge
define scan(r, p, q) = scanst(r.runes[p:q], 0)
ensures inv: rinv(rdr) && same(rdr.runes, old(rdr.runes)) && old(rdr.offset) <= rdr.offset
ensures window: window(result, rdr, old(rdr.offset), rdr.offset)
ensures end: rdr.offset == len(rdr.runes) || csi(rdr, rdr.offset)
ensures scan: scan(rdr, old(rdr.offset), rdr.offset) == 0 || scan(rdr, old(rdr.offset), rdr.offset) == 1
loop [] rinv(rdr) && same(rdr.runes, old(rdr.runes)) && old(rdr.offset) <= rdr.offset
loop [] ite(rdr.offset > old(rdr.offset) && rdr.runes[rdr.offset-1] == 27, scan(rdr, old(rdr.offset), rdr.offset) == 1 && imp(rdr.offset < len(rdr.runes), rdr.runes[rdr.offset] != 91), scan(rdr, old(rdr.offset), rdr.offset) == 0)
loop [n:int!] n == rdr.offset - old(rdr.offset)

func github.com/fredbi/go-typeset/terminal/ansi.StripANSIFromRunes
params rns
property A01 A02 A03 A04
merge
use scanseq ext(scanst) ext(seqst)
opaque scanst seqst
define part(g, a, p) = forall(k, 0, len(g), g[k] == a[p+k])
define textscan(t) = scanst(t, 0)
ensures total@A01: len(result.StartSequence) + len(result.Text) + len(result.StopSequence) + len(result.Remainder) == len(rns)
ensures startpart@A01: part(result.StartSequence, rns, 0)
ensures textpart@A01: part(result.Text, rns, len(result.StartSequence))
ensures stoppart@A01: part(result.StopSequence, rns, len(result.StartSequence) + len(result.Text))
ensures rest@A01: part(result.Remainder, rns, len(result.StartSequence) + len(result.Text) + len(result.StopSequence))
ensures start@A02: imp(len(result.StartSequence) > 0, seqst(result.StartSequence) == 50)
ensures stop@A02: imp(len(result.StopSequence) > 0, seqst(result.StopSequence) == 51)
ensures text@A03: textscan(result.Text) == textscan(rns[len(result.StartSequence):len(result.StartSequence)+len(result.Text)]) && textscan(result.Text) != 99
ensures progress@A04: imp(len(rns) > 0, len(result.Remainder) < len(rns))
loop [d:*runesio.SliceReader] rinv(d) && same(d.runes, rns)
loop [d:*runesio.SliceReader s:[]rune] len(s) == d.offset && part(s, rns, 0)
loop [d:*runesio.SliceReader s:[]rune e:[]rune!] len(s) + len(e) == d.offset && part(s, rns, 0) && part(e, rns, len(s)) && imp(e != nil, len(e) > 0)
loop [d:*runesio.SliceReader s:[]rune e:[]rune!] imp(e == nil, !csi(d, d.offset))
loop [d:*runesio.SliceReader s:[]rune e:[]rune!] imp(e != nil, csi(d, len(s)) && len(e) >= 2)
loop [d:*runesio.SliceReader s:[]rune e:[]rune! k:kind!] imp(e != nil, iff(k == 1, seqst(rns[len(s):d.offset]) == 50) && iff(k == 2, seqst(rns[len(s):d.offset]) == 51))
loop [d:*runesio.SliceReader s:[]rune e:[]rune! k:kind!] imp(e != nil && k != 1 && k != 2, k == 0 && (seqst(rns[len(s):d.offset]) == 52 || (d.offset == len(rns) && 10 <= seqst(rns[len(s):d.offset]) && seqst(rns[len(s):d.offset]) < 50)))
loop [s:[]rune] imp(len(s) > 0, seqst(rns[0:len(s)]) == 50)
loop [d:*runesio.SliceReader s:[]rune t:[]rune! p:[]rune!] len(s) + len(t) + len(p) == d.offset && part(t, rns, len(s)) && part(p, rns, len(s) + len(t))
loop [d:*runesio.SliceReader s:[]rune t:[]rune! p:[]rune!] imp(len(p) > 0, seqst(rns[len(s)+len(t):d.offset]) == 51)
loop [d:*runesio.SliceReader s:[]rune t:[]rune! p:[]rune!] imp(d.offset < len(rns), csi(d, d.offset) || len(t) + len(p) > 0)
loop [d:*runesio.SliceReader s:[]rune t:[]rune!] ite(len(s) + len(t) < len(rns), scanst(rns[len(s):len(s)+len(t)], 0) == 0 || scanst(rns[len(s):len(s)+len(t)], 0) == 1, scanst(rns[len(s):len(s)+len(t)], 0) != 99)

fold toklen(t ansi.StrippedToken) int = 0 ; acc + len(t.StartSequence) + len(t.Text) + len(t.StopSequence)
func github.com/fredbi/go-typeset/terminal/ansi.StripToken
params token
property A01 A02 A03 A04
ensures total@A01: toklen(result) == len(token)
ensures startpart@A01: forall(k, 0, len(result), part(result[k].StartSequence, token, toklen(result[0:k])))
ensures textpart@A01: forall(k, 0, len(result), part(result[k].Text, token, toklen(result[0:k]) + len(result[k].StartSequence)))
ensures stoppart@A01: forall(k, 0, len(result), part(result[k].StopSequence, token, toklen(result[0:k]) + len(result[k].StartSequence) + len(result[k].Text)))
ensures last@A01: len(result) > 0 && len(result[len(result)-1].Remainder) == 0
ensures start@A02: forall(k, 0, len(result), imp(len(result[k].StartSequence) > 0, seqst(result[k].StartSequence) == 50))
ensures stop@A02: forall(k, 0, len(result), imp(len(result[k].StopSequence) > 0, seqst(result[k].StopSequence) == 51))
ensures text@A03: forall(k, 0, len(result), textscan(result[k].Text) != 99)
ensures bounded@A04: len(result) <= len(token) + 1
opaque scanst seqst
loop [a:[]StrippedToken! t:[]rune!] toklen(a) + len(t) == len(token) && part(t, token, toklen(a))
loop [a:[]StrippedToken!] forall(k, 0, len(a), part(a[k].StartSequence, token, toklen(a[0:k])))
loop [a:[]StrippedToken!] forall(k, 0, len(a), part(a[k].Text, token, toklen(a[0:k]) + len(a[k].StartSequence)))
loop [a:[]StrippedToken!] forall(k, 0, len(a), part(a[k].StopSequence, token, toklen(a[0:k]) + len(a[k].StartSequence) + len(a[k].Text)))
loop [a:[]StrippedToken!] forall(k, 0, len(a), imp(len(a[k].StartSequence) > 0, seqst(a[k].StartSequence) == 50))
loop [a:[]StrippedToken!] forall(k, 0, len(a), imp(len(a[k].StopSequence) > 0, seqst(a[k].StopSequence) == 51))
loop [a:[]StrippedToken!] forall(k, 0, len(a), textscan(a[k].Text) != 99)
loop [a:[]StrippedToken! t:[]rune!] len(a) <= toklen(a) && imp(len(a) > 0, len(t) > 0)
loop [a:[]StrippedToken! t:[]rune! b:bool!] ite(b, len(a) <= toklen(a) && imp(len(a) > 0, len(t) > 0), len(t) == 0 && len(a) > 0 && len(a) <= toklen(a) + 1)
loop [a:[]StrippedToken! t:[]rune!] imp(len(a) > 0, len(a[len(a)-1].Remainder) == len(t))
loop [a:[]StrippedToken! t:*StrippedToken] len(a) > 0 && len(a) <= toklen(a) + 1 && imp(len(t.Remainder) > 0, len(a) <= toklen(a)) && len(a[len(a)-1].Remainder) == len(t.Remainder)
loop [a:[]StrippedToken!] len(a) > 0 && len(a) <= toklen(a) + 1 && imp(len(a[len(a)-1].Remainder) > 0, len(a) <= toklen(a)) && toklen(a) + len(a[len(a)-1].Remainder) == len(token) && part(a[len(a)-1].Remainder, token, toklen(a))
