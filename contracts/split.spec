# Splitting on marks: punctuator (P01) and explicit hyphens (H04)

fold sumlen(p slice) int nonneg = 0 ; acc + ite(len(p) > 0, len(p), 0)

define splits(word, g, n) = sumlen(g) == n && forall(k, 0, len(g), len(g[k]) > 0) && forall(k, 0, len(g), forall(j, 0, len(g[k]), g[k][j] == word[sumlen(g[0:k])+j]))

func github.com/fredbi/go-typeset/wordbreak/punctuator.breakAtFunc
params word isBreak
property P01
requires fn: isBreak != nil
ensures total: sumlen(result) == len(word)
ensures nonempty: forall(k, 0, len(result), len(result[k]) > 0)
ensures content: forall(k, 0, len(result), forall(j, 0, len(result[k]), result[k][j] == word[sumlen(result[0:k])+j]))
ensures alone: forall(k, 0, len(result), forall(j, 0, len(result[k]), imp(call(isBreak, result[k][j]), len(result[k]) == 1)))
ensures maximal: forall(k, 1, len(result), call(isBreak, result[k-1][0]) || call(isBreak, result[k][0]))
loop [g:[][]rune! p:int!] sumlen(g) == p
loop [g:[][]rune!] forall(k, 0, len(g), len(g[k]) > 0)
loop [g:[][]rune!] forall(k, 0, len(g), forall(j, 0, len(g[k]), g[k][j] == word[sumlen(g[0:k])+j]))
loop [g:[][]rune!] forall(k, 0, len(g), forall(j, 0, len(g[k]), imp(call(isBreak, g[k][j]), len(g[k]) == 1)))
loop [g:[][]rune!] forall(k, 1, len(g), call(isBreak, g[k-1][0]) || call(isBreak, g[k][0]))
loop [g:[][]rune!] imp(len(g) > 0, call(isBreak, g[len(g)-1][0]))
loop [p:int! n:int!+] forall(m, p, n, !call(isBreak, word[m]))

# Unicode property Hyphen, from the Unicode Character Database
define hyph(r) = r == 45 || r == 173 || r == 1418 || r == 6150 || r == 8208 || r == 8209 || r == 11799 || r == 12539 || r == 65123 || r == 65293 || r == 65381

define punct(r) = r == 124 || (unicode.IsPunct(r) && !hyph(r))

func github.com/fredbi/go-typeset/wordbreak/punctuator.punctSplitFunc
params r
property P01
ensures def: result == punct(r)

func github.com/fredbi/go-typeset/wordbreak/punctuator.IsPunctuation
params word
property P01
ensures def: result == (len(word) == 1 && punct(word[0]))

func (*github.com/fredbi/go-typeset/wordbreak/punctuator.Punctuator).BreakWord
params p word
property P01
ensures total: sumlen(result) == len(word)
ensures nonempty: forall(k, 0, len(result), len(result[k]) > 0)
ensures content: forall(k, 0, len(result), forall(j, 0, len(result[k]), result[k][j] == word[sumlen(result[0:k])+j]))
ensures alone: forall(k, 0, len(result), forall(j, 0, len(result[k]), imp(punct(result[k][j]), len(result[k]) == 1)))
ensures maximal: forall(k, 1, len(result), punct(result[k-1][0]) || punct(result[k][0]))

func (*github.com/fredbi/go-typeset/wordbreak/punctuator.Punctuator).BreakWordString
params p word
property P01
ensures total: sumlen(result) == nrunes(word)
ensures nonempty: forall(k, 0, len(result), len(result[k]) > 0)
ensures content: forall(k, 0, len(result), forall(j, 0, len(result[k]), result[k][j] == runesof(word)[sumlen(result[0:k])+j]))
ensures alone: forall(k, 0, len(result), forall(j, 0, len(result[k]), imp(punct(result[k][j]), len(result[k]) == 1)))
ensures maximal: forall(k, 1, len(result), punct(result[k-1][0]) || punct(result[k][0]))

func github.com/fredbi/go-typeset/wordbreak/hyphenator.IsHyphen
params word
property H04
ensures def: result == (len(word) == 1 && hyph(word[0]))

func github.com/fredbi/go-typeset/wordbreak/hyphenator.SplitWord
params word
property H04
ensures total: sumlen(result) == len(word)
ensures nonempty: forall(k, 0, len(result), len(result[k]) > 0)
ensures content: forall(k, 0, len(result), forall(j, 0, len(result[k]), result[k][j] == word[sumlen(result[0:k])+j]))
ensures alone: forall(k, 0, len(result), forall(j, 0, len(result[k]), imp(hyph(result[k][j]), len(result[k]) == 1)))
ensures maximal: forall(k, 1, len(result), hyph(result[k-1][0]) || hyph(result[k][0]))
loop [g:[][]rune! p:int!] sumlen(g) == p
loop [g:[][]rune!] forall(k, 0, len(g), len(g[k]) > 0)
loop [g:[][]rune!] forall(k, 0, len(g), forall(j, 0, len(g[k]), g[k][j] == word[sumlen(g[0:k])+j]))
loop [g:[][]rune!] forall(k, 0, len(g), forall(j, 0, len(g[k]), imp(hyph(g[k][j]), len(g[k]) == 1)))
loop [g:[][]rune!] forall(k, 1, len(g), hyph(g[k-1][0]) || hyph(g[k][0]))
loop [g:[][]rune!] imp(len(g) > 0, hyph(g[len(g)-1][0]))
loop [p:int! n:int!+] forall(m, p, n, !hyph(word[m]))
