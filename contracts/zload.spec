# Reading the entries of pattern files (H05)

# Library functions, assumed
func strings.ToLower
params s
trusted
ensures count: nrunes(result) == nrunes(s)
ensures runes: forall(x, 0, nrunes(s), runesof(result)[x] == unicode.ToLower(runesof(s)[x]))

# the letters of a pattern, in lower case
fold pletters(e rune) Key = kempty() ; ite(unicode.IsDigit(e), acc, ksnoc(acc, unicode.ToLower(e)))
# number of letters
fold nletters(e rune) int nonneg = 0 ; ite(unicode.IsDigit(e), acc, acc+1)

func github.com/fredbi/go-typeset/wordbreak/hyphenator.atoiRune
params r
property H05
aux
ensures digit: result == ite(48 <= r && r <= 57, r-48, 0)

# the digit written before rune x of the line
define dig(r) = ite(48 <= r && r <= 57, r-48, 0)
define isdig(s, x) = unicode.IsDigit(runesof(s)[x])

func (*github.com/fredbi/go-typeset/wordbreak/hyphenator.Dictionary).readPattern
params dict line
property H05
requires single: forall(x, 1, nrunes(line), !isdig(line, x) || !isdig(line, x-1))
ensures letters: kof(result0) == pletters(runesof(line), 0, nrunes(line))
ensures count: len(result1) == len(result0) + ite(nrunes(line) > 0 && isdig(line, nrunes(line)-1), 1, 0)
ensures digits: forall(x, 0, nrunes(line), imp(isdig(line, x), result1[nletters(runesof(line), 0, x)] == dig(runesof(line)[x])))
ensures none: forall(x, 0, nrunes(line), imp(!isdig(line, x) && (x == 0 || !isdig(line, x-1)), result1[nletters(runesof(line), 0, x)] == 0))
loop [p:[]rune! i:int!+] kof(p) == pletters(runesof(line), 0, i)
loop [p:[]rune! i:int!+] len(p) == nletters(runesof(line), 0, i)
loop [v:[]int! w:bool! i:int!+] len(v) == nletters(runesof(line), 0, i) + ite(w, 1, 0)
loop [w:bool! i:int!+] w == (i > 0 && isdig(line, i-1))
loop [v:[]int! i:int!+] forall(x, 0, i, imp(isdig(line, x), v[nletters(runesof(line), 0, x)] == dig(runesof(line)[x])))
loop [v:[]int! i:int!+] forall(x, 0, i, imp(!isdig(line, x) && (x == 0 || !isdig(line, x-1)), v[nletters(runesof(line), 0, x)] == 0))

# Library functions, assumed for ASCII arguments
fold without(e rune, x int) Key = kempty() ; ite(e == x, acc, ksnoc(acc, e))
func strings.HasPrefix
params s prefix
trusted
ensures first: imp(nrunes(prefix) == 1 && runesof(prefix)[0] < 128, result == (nrunes(s) > 0 && runesof(s)[0] == runesof(prefix)[0]))
func strings.ReplaceAll
params s from to
trusted
ensures runes: imp(nrunes(from) == 1 && runesof(from)[0] < 128 && nrunes(to) == 0, kof(runesof(result), 0, nrunes(result)) == without(runesof(s), 0, nrunes(s), runesof(from)[0]))
func strings.ToLower
params s
trusted
ensures count: nrunes(result) == nrunes(s)
ensures runes: forall(x, 0, nrunes(s), runesof(result)[x] == unicode.ToLower(runesof(s)[x]))

rec klower(Key) Key
axiom klower: klower(kempty()) == kempty() && forallT(K, Key, forallT(r, int, klower(ksnoc(K, r)) == ksnoc(klower(K), unicode.ToLower(r)), ksnoc(K, r)))
lemma lowered(A arr, B arr, k int) from 0 by kof(B, 0, k), kof(A, 0, k): imp(forall(x, 0, k, B[x] == unicode.ToLower(A[x])), kof(B, 0, k) == klower(kof(A, 0, k)))

define comment(s) = nrunes(s) == 0 || runesof(s)[0] == 37 || runesof(s)[0] == 92 || runesof(s)[0] == 125
# number of runes that are not hyphens
fold nochyph(e rune) int nonneg = 0 ; ite(hyph(e), acc, acc+1)
define ishyph(s, x) = hyph(runesof(s)[x])

func (*github.com/fredbi/go-typeset/wordbreak/hyphenator.Dictionary).readException
params dict line
property H05
use lowered
requires plain: forall(x, 0, nrunes(line), imp(ishyph(line, x), runesof(line)[x] == 45))
requires single: forall(x, 1, nrunes(line), !ishyph(line, x) || !ishyph(line, x-1))
requires entry: !comment(line)
ensures letters: kof(result0) == klower(without(runesof(line), 0, nrunes(line), 45))
ensures count: len(result1) == nochyph(runesof(line), 0, nrunes(line)) + ite(nrunes(line) > 0 && ishyph(line, nrunes(line)-1), 1, 0)
ensures breaks: forall(x, 0, nrunes(line), imp(ishyph(line, x), result1[nochyph(runesof(line), 0, x)] == 1))
ensures none: forall(x, 0, nrunes(line), imp(!ishyph(line, x) && (x == 0 || !ishyph(line, x-1)), result1[nochyph(runesof(line), 0, x)] == 0))
loop [v:[]int! w:bool! i:int!+] len(v) == nochyph(runesof(line), 0, i) + ite(w, 1, 0)
loop [w:bool! i:int!+] w == (i > 0 && ishyph(line, i-1))
loop [v:[]int! i:int!+] forall(x, 0, i, imp(ishyph(line, x), v[nochyph(runesof(line), 0, x)] == 1))
loop [v:[]int! i:int!+] forall(x, 0, i, imp(!ishyph(line, x) && (x == 0 || !ishyph(line, x-1)), v[nochyph(runesof(line), 0, x)] == 0))


# Options: each sets its own field and nothing else; they apply in order to the defaults
func github.com/fredbi/go-typeset/wordbreak/hyphenator.WithMinLength
params minLength
property H01
ensures some: result != nil
ensures sets: optsets(result, minLength, minLength)
func github.com/fredbi/go-typeset/wordbreak/hyphenator.WithMinLeft
params minLeft
property H01
ensures some: result != nil
ensures sets: optsets(result, minLeft, minLeft)
func github.com/fredbi/go-typeset/wordbreak/hyphenator.WithMinRight
params minRight
property H01
ensures some: result != nil
ensures sets: optsets(result, minRight, minRight)
func github.com/fredbi/go-typeset/wordbreak/hyphenator.WithLanguageTag
params tag
property H06
ensures some: result != nil
ensures sets: optsets(result, lang, tag)
func github.com/fredbi/go-typeset/wordbreak/hyphenator.defaultOptions
params opts
property H01 H06
aux
requires fns: forall(i, 0, len(opts), opts[i] != nil)
ensures some: result != nil
ensures defaults: imp(len(opts) == 0, result.minLength == 4 && result.minLeft == 2 && result.minRight == 2)
loop [o:options! k:int!+] imp(k == 0, o.minLength == 4 && o.minLeft == 2 && o.minRight == 2)
