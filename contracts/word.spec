# Hyphenation (H01, H02, H03, H07)
#
# What a dictionary trie at t holds, as functions of the key: phas (a pattern
# is stored), plen and pdig (its digits). They are arbitrary, tied to the real
# trie by `represents`, a precondition met by every trie whose values are []int.
rec phas(int, Key) bool
rec plen(int, Key) int
rec pdig(int, Key, int) int
rec isdict(int) bool
define pval(t, K) = dyn(val(node(t, K)), "[]int")
define represents(t) = forallT(K, Key, iff(phas(t, K), stored(t, K)) && imp(stored(t, K), isdyn(val(node(t, K)), "[]int") && len(pval(t, K)) == plen(t, K) && isdict(ref(pval(t, K)))), node(t, K))
    && forallT(K, Key, forallT(q, int, imp(stored(t, K) && 0 <= q && q < plen(t, K), pval(t, K)[q] == pdig(t, K, q) && pdig(t, K, q) >= 0), node(t, K), pdig(t, K, q)))
define tr(x) = dyn(x, "*trie.RuneTrie")

# key of a lower-cased segment of runes appended to key s
fold lk(e rune, s Key) Key seed = s ; ksnoc(acc, unicode.ToLower(e))

define max2(a, b) = ite(a < b, b, a)
# digit of pattern K at its position q, 0 if there is none
define con(t, K, q) = ite(phas(t, K) && 0 <= q && q < plen(t, K), pdig(t, K, q), 0)
# largest digit at position q over the patterns s+A[lo:h], lo < h <= hi
rec pl(int, arr, int, int, Key, int) int
axiom pl: forallT(t, int, forallT(A, arr, forallT(lo, int, forallT(hi, int, forallT(s, Key, forallT(q, int, imp(hi <= lo, pl(t, A, lo, hi, s, q) == 0), pl(t, A, lo, hi, s, q)))))))
axiom pl: forallT(t, int, forallT(A, arr, forallT(lo, int, forallT(hi, int, forallT(s, Key, forallT(q, int, imp(lo <= hi, pl(t, A, lo, hi+1, s, q) == max2(pl(t, A, lo, hi, s, q), con(t, lk(A, lo, hi+1, s), q))), pl(t, A, lo, hi, s, q), A[hi]))))))

func (*github.com/fredbi/go-typeset/wordbreak/hyphenator.Hyphenator).isException
params h word
property H01 H02 H03 H07
aux
requires some: h != nil && h.Dictionary != nil && h.exceptions != nil && tr(h.exceptions) != nil
requires dict: represents(tr(h.exceptions))
ensures found: result1 == phas(tr(h.exceptions), lk(word, kempty()))
ensures positions: imp(result1, len(result0) == plen(tr(h.exceptions), lk(word, kempty())) && isdict(ref(result0)) && forall(q, 0, len(result0), result0[q] == pdig(tr(h.exceptions), lk(word, kempty()), q) && result0[q] >= 0))
loop [w:[]rune i:int!+] kof(w[0:i]) == lk(word[0:i], kempty())

# largest digit at position q over the patterns that start at index i of the
# dotted word: the dot itself (i = 0) or rune i-1
rec strt(int) int
axiom strt: forallT(i, int, strt(i) == ite(i == 0, 0, i-1), strt(i))
rec seed(int) Key
axiom seed: forallT(i, int, seed(i) == ite(i == 0, ksnoc(kempty(), 46), kempty()), seed(i))
define plw(t, A, o, n, i, q) = pl(t, A, o+strt(i), o+n, seed(i), q)
define frag(t, A, o, n, i, q) = max2(plw(t, A, o, n, i, q), con(t, ksnoc(lk(A, o+strt(i), o+n, seed(i)), 46), q))

# largest digit at position q over a list of values
fold mx(v slice, H arr2, q int) int nonneg back = 0 ; ite(0 <= q && q < len(v), max2(acc, H[ref(v)][off(v)+q]), acc)

func (*github.com/fredbi/go-typeset/wordbreak/hyphenator.Hyphenator).isPattern
params h index word fragment buf
property H02 H07
aux
requires some: h != nil && h.Dictionary != nil && h.patterns != nil && tr(h.patterns) != nil
requires dict: represents(tr(h.patterns))
requires index: 0 <= index && index <= len(word)
requires apart: ref(fragment) != ref(word)
modifies elems(fragment)
modifies elems(buf)
ensures digits: forallT(q, int, mx(result0, helem("int"), q) == frag(tr(h.patterns), arr(word), off(word), len(word), index, q), mx(result0, helem("int"), q))
ensures digits2: forallT(q, int, mx(result0, helem("int"), q) == frag(tr(h.patterns), arr(word), off(word), len(word), index, q), plw(tr(h.patterns), arr(word), off(word), len(word), index, q))
ensures dict: forall(k, 0, len(result0), isdict(ref(result0[k])))
ensures some: result1 == (len(result0) > 0)
ensures buffer: ref(result0) == ref(buf) || fresh(result0)
loop [f:[]rune! i:int!+] kof(f) == lk(word[strt(index):i], seed(index))
loop [f:[]rune! i:int!+] kof(f) == lk(word[strt(index):strt(index)+i], seed(index))
loop [g:[][]int! i:int!+] forallT(q, int, mx(g, helem("int"), q) == pl(tr(h.patterns), arr(word), off(word)+strt(index), off(word)+strt(index)+i, seed(index), q), mx(g, helem("int"), q))
loop [w:[]rune f:[]rune! i:int!+] kof(f) == lk(w[0:i], seed(index))
loop [w:[]rune g:[][]int! i:int!+] forallT(q, int, mx(g, helem("int"), q) == pl(tr(h.patterns), arr(w), off(w), off(w)+i, seed(index), q), mx(g, helem("int"), q))
loop [g:[][]int! i:int!+] forallT(q, int, mx(g, helem("int"), q) == pl(tr(h.patterns), arr(word), off(word)+strt(index), off(word)+i, seed(index), q), mx(g, helem("int"), q))
loop [g:[][]int!] forall(k, 0, len(g), isdict(ref(g[k])))
loop [f:[]rune!] ref(f) != ref(word)

define lvl(p, x) = ite(0 <= x && x < len(p), p[x], 0)

func github.com/fredbi/go-typeset/wordbreak/hyphenator.mergeBreakPoints
params positions partial at
property H02 H07
aux
requires at: 0 <= at && at <= 1099511627776
requires apart: forall(k, 0, len(partial), ref(partial[k]) != ref(positions))
requires positive: forall(x, 0, len(positions), positions[x] >= 0)
modifies elems(positions)
ensures largest: forallT(q, int, imp(0 <= at+q, lvl(result, at+q) == max2(old(lvl(positions, at+q)), mx(partial, old(helem("int")), q))), mx(partial, old(helem("int")), q))
ensures positive: forall(x, 0, len(result), result[x] >= 0)
ensures grows: len(result) >= len(positions)
ensures buffer: ref(result) == ref(positions) || fresh(result)
loop [p:[]int! k:int!+] forallT(q, int, imp(0 <= at+q, lvl(p, at+q) == max2(old(lvl(positions, at+q)), mx(partial[0:k], old(helem("int")), q))), mx(partial[0:k], old(helem("int")), q))
loop [p:[]int! k:int+ j:int+] forallT(q, int, imp(0 <= at+q, lvl(p, at+q) == max2(old(lvl(positions, at+q)), max2(mx(partial[0:k], old(helem("int")), q), ite(0 <= q && q < j, old(helem("int"))[ref(partial[k])][off(partial[k])+q], 0)))), mx(partial[0:k], old(helem("int")), q))
loop [p:[]int k:int+ j:int+] forallT(q, int, imp(0 <= at+q, lvl(p, at+q) == max2(old(lvl(positions, at+q)), max2(mx(partial[0:k], old(helem("int")), q), ite(0 <= q && q < j, old(helem("int"))[ref(partial[k])][off(partial[k])+q], 0)))), mx(partial[0:k], old(helem("int")), q))
loop [p:[]int] len(p) >= len(positions) && forall(x, 0, len(p), p[x] >= 0)
loop [p:[]int k:int+] len(p) >= at + len(partial[k])
loop [p:[]int!] len(p) >= len(positions)
loop [p:[]int!] forall(x, 0, len(p), p[x] >= 0)

define odd(x) = x % 2 != 0
define brk(h, p, n, from, at) = odd(lvl(p, at)) && at - from >= h.minLeft && n - at >= h.minRight

func (*github.com/fredbi/go-typeset/wordbreak/hyphenator.Hyphenator).splitAtPositions
params h word length positions
property H01 H02
aux
requires some: h != nil && h.options != nil
requires length: length == len(word)
requires right: h.minRight >= 0
requires left: h.minLeft >= 0
requires positive: forall(x, 0, len(positions), positions[x] >= 0)
ensures total: sumlen(result) == len(word)
ensures content: forall(k, 0, len(result), forall(j, 0, len(result[k]), result[k][j] == word[sumlen(result[0:k])+j]))
ensures some: len(result) > 0
ensures breaks: forall(k, 0, len(result)-1, brk(h, positions, len(word), sumlen(result[0:k]), sumlen(result[0:k])+len(result[k])))
ensures only: forall(k, 0, len(result), forall(j, 0, len(result[k]), imp(j > 0 || k == 0, !brk(h, positions, len(word), sumlen(result[0:k]), sumlen(result[0:k])+j))))
loop [g:[][]rune! p:int!] sumlen(g) == p
loop [p:int! i:int!+] 0 <= p && p <= i && p <= len(word)
loop [g:[][]rune!] forall(k, 0, len(g), forall(j, 0, len(g[k]), g[k][j] == word[sumlen(g[0:k])+j]))
loop [g:[][]rune!] forall(k, 0, len(g), ref(g[k]) == ref(word) && off(g[k]) == off(word)+sumlen(g[0:k]))
loop [g:[][]rune! p:int!] imp(p > 0, len(g) > 0)
loop [g:[][]rune!] forall(k, 0, len(g), brk(h, positions, len(word), sumlen(g[0:k]), sumlen(g[0:k])+len(g[k])))
loop [g:[][]rune! p:int! i:int!+] forall(x, p, i, imp(x > p || len(g) == 0, !brk(h, positions, len(word), p, x)))
loop [g:[][]rune!] forall(k, 0, len(g), forall(j, 0, len(g[k]), imp(j > 0 || k == 0, !brk(h, positions, len(word), sumlen(g[0:k]), sumlen(g[0:k])+j))))

# largest digit at position p of the dotted word over the patterns that start before index i
rec lv(int, arr, int, int, int, int) int
axiom lv: forallT(t, int, forallT(A, arr, forallT(o, int, forallT(n, int, forallT(p, int, lv(t, A, o, n, 0, p) == 0, lv(t, A, o, n, 0, p))))))
# unfold is true; it asks for the definition of lv at j
rec unfold(int, arr, int, int, int, int) bool
axiom lv: forallT(t, int, forallT(A, arr, forallT(o, int, forallT(n, int, forallT(j, int, forallT(p, int, unfold(t, A, o, n, j, p) && imp(0 < j, lv(t, A, o, n, j, p) == max2(lv(t, A, o, n, j-1, p), frag(t, A, o, n, j-1, p-j+1))), unfold(t, A, o, n, j, p)))))))

func github.com/fredbi/go-typeset/wordbreak/hyphenator.containsHyphen
params word
property H01 H02 H03
aux
ensures def: result == exists(x, 0, len(word), hyph(word[x]))
loop [i:int!+] forall(x, 0, i, !hyph(word[x]))

# The dictionaries as loaded: tries of []int values
define ready(h) = h != nil && h.options != nil && h.Dictionary != nil && h.exceptions != nil && tr(h.exceptions) != nil && h.patterns != nil && tr(h.patterns) != nil
define wholeA(h, A, o, n) = exists(x, o, o+n, hyph(A[x])) || n < h.minLength
define whole(h, w) = exists(x, 0, len(w), hyph(w[x])) || len(w) < h.minLength
# the level of the gap before rune j of the word A[o:o+n]
define levelA(h, A, o, n, j) = ite(phas(tr(h.exceptions), lk(A, o, o+n, kempty())), ite(0 <= j && j < plen(tr(h.exceptions), lk(A, o, o+n, kempty())), pdig(tr(h.exceptions), lk(A, o, o+n, kempty()), j), 0), ite(0 < j && j < n, lv(tr(h.patterns), A, o, n, n+1, j+1), 0))
define brkA(h, A, o, n, from, at) = odd(levelA(h, A, o, n, at)) && at - from >= h.minLeft && n - at >= h.minRight
define brkw(h, w, from, at) = brkA(h, arr(w), off(w), len(w), from, at)

# H03: the levels depend on the lower-cased runes only, wherever they lie.
# With the clauses breaks and only, which determine the parts from the levels
# (from left to right), words equal after lower-casing break alike.
define cased(A, o, B, p, n) = forall(x, o, o+n, unicode.ToLower(A[x]) == unicode.ToLower(B[p+(x-o)]))
# Unicode: a rune is a hyphen if its lower case is (checked for every code
# point by the bounded check of H03)
rec casehyph(int) bool
axiom casehyph: forallT(r, int, iff(hyph(unicode.ToLower(r)), hyph(r)) && casehyph(r), unicode.ToLower(r))
lemma caselk(A arr, o int, B arr, p int, s Key, q int, k int) from o with q=q-1 by lk(A, o, k, s), lk(B, p, q, s):
    imp(q-p == k-o && cased(A, o, B, p, k-o), lk(A, o, k, s) == lk(B, p, q, s))
lemma casepl(t int, A arr, o int, B arr, p int, s Key, x int, q int, k int) from o with q=q-1 by pl(t, A, o, k, s, x), pl(t, B, p, q, s, x):
    imp(q-p == k-o && cased(A, o, B, p, k-o), pl(t, A, o, k, s, x) == pl(t, B, p, q, s, x))
lemma caselv(t int, A arr, o int, B arr, p int, n int, x int, j int) from 0 by lv(t, A, o, n, j, x), lv(t, B, p, n, j, x):
    imp(n >= 0 && j <= n+1 && cased(A, o, B, p, n), unfold(t, A, o, n, j, x) && unfold(t, B, p, n, j, x) && lv(t, A, o, n, j, x) == lv(t, B, p, n, j, x))

func (*github.com/fredbi/go-typeset/wordbreak/hyphenator.Hyphenator).BreakWord
params h word
use caselk casepl caselv
ensures caselen@H03: forallT(B, arr, forallT(p, int, imp(cased(arr(word), off(word), B, p, len(word)) && casehyph(45) && cased(B, p, arr(word), off(word), len(word)), iff(wholeA(h, arr(word), off(word), len(word)), wholeA(h, B, p, len(word))))))
ensures case@H03: forallT(B, arr, forallT(p, int, imp(cased(arr(word), off(word), B, p, len(word)), forallT(j, int, levelA(h, arr(word), off(word), len(word), j) == levelA(h, B, p, len(word), j)))))
property H01 H02 H03 H07
requires ready: ready(h)
requires dict: represents(tr(h.exceptions)) && represents(tr(h.patterns))
requires known: forallT(r, int, imp(isdict(r), 0 <= r && r < bound()), isdict(r))
requires right: h.minRight >= 0
requires left: h.minLeft >= 0
ensures total@H01: sumlen(result) == len(word)
ensures content@H01: forall(k, 0, len(result), forall(j, 0, len(result[k]), result[k][j] == word[sumlen(result[0:k])+j]))
ensures some@H01: len(result) > 0
ensures whole@H01,H03: imp(whole(h, word), len(result) == 1)
ensures left@H01: forall(k, 0, len(result)-1, len(result[k]) >= h.minLeft)
ensures right@H01: forall(k, 0, len(result)-1, len(word) - (sumlen(result[0:k])+len(result[k])) >= h.minRight)
ensures breaks@H02,H03: forall(k, 0, len(result)-1, brkw(h, word, sumlen(result[0:k]), sumlen(result[0:k])+len(result[k])))
ensures only@H02,H03: imp(!whole(h, word), forall(k, 0, len(result), forall(j, 0, len(result[k]), imp(j > 0 || k == 0, !brkw(h, word, sumlen(result[0:k]), sumlen(result[0:k])+j)))))
loop [p:[]int! i:int!+] forallT(x, int, imp(0 <= x, unfold(tr(h.patterns), arr(word), off(word), len(word), i, x) && lvl(p, x) == lv(tr(h.patterns), arr(word), off(word), len(word), i, x)), lv(tr(h.patterns), arr(word), off(word), len(word), i, x))
loop [p:[]int!] forall(x, 0, len(p), p[x] >= 0)
loop [p:[]int!] len(p) >= 2
loop [p:[]int!] !isdict(ref(p))
loop [g:[][]int!] ref(g) == 0 || fresh(g)

func (*github.com/fredbi/go-typeset/wordbreak/hyphenator.Hyphenator).BreakWordString
params h word
property H01 H02 H03 H07
requires ready: ready(h)
requires dict: represents(tr(h.exceptions)) && represents(tr(h.patterns))
requires known: forallT(r, int, imp(isdict(r), 0 <= r && r < bound()), isdict(r))
requires right: h.minRight >= 0
requires left: h.minLeft >= 0
ensures total@H01: sumlen(result) == nrunes(word)
ensures content@H01: forall(k, 0, len(result), forall(j, 0, len(result[k]), result[k][j] == runesof(word)[sumlen(result[0:k])+j]))
ensures some@H01: len(result) > 0
ensures whole@H01,H03: imp(wholeA(h, runesof(word), 0, nrunes(word)), len(result) == 1)
ensures left@H01: forall(k, 0, len(result)-1, len(result[k]) >= h.minLeft)
ensures right@H01: forall(k, 0, len(result)-1, nrunes(word) - (sumlen(result[0:k])+len(result[k])) >= h.minRight)
ensures breaks@H02,H03: forall(k, 0, len(result)-1, brkA(h, runesof(word), 0, nrunes(word), sumlen(result[0:k]), sumlen(result[0:k])+len(result[k])))
ensures only@H02,H03: imp(!wholeA(h, runesof(word), 0, nrunes(word)), forall(k, 0, len(result), forall(j, 0, len(result[k]), imp(j > 0 || k == 0, !brkA(h, runesof(word), 0, nrunes(word), sumlen(result[0:k]), sumlen(result[0:k])+j)))))
