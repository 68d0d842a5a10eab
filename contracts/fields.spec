func github.com/fredbi/go-typeset/terminal/runes.FieldsFunc
params in sep
property F01
requires sep: sep != nil
# every token lies in the input
ensures nonempty: forall(k, 0, len(result), len(result[k]) > 0)
ensures sub: forall(k, 0, len(result), ref(result[k]) == ref(in) && off(in) <= off(result[k]) && off(result[k]) + len(result[k]) <= off(in) + len(in))
ensures nosep: forall(k, 0, len(result), forall(j, 0, len(result[k]), !call(sep, result[k][j])))
ensures before: forall(k, 0, len(result), imp(off(result[k]) > off(in), call(sep, in[off(result[k])-off(in)-1])))
ensures after: forall(k, 0, len(result), imp(off(result[k])+len(result[k]) < off(in)+len(in), call(sep, in[off(result[k])+len(result[k])-off(in)])))
ensures order: forall(k, 1, len(result), off(result[k-1])+len(result[k-1]) <= off(result[k]))
ensures gap0: forall(m, 0, ite(len(result) == 0, len(in), off(result[0])-off(in)), call(sep, in[m]))
ensures gaps: forall(k, 1, len(result), forall(m, off(result[k-1])+len(result[k-1])-off(in), off(result[k])-off(in), call(sep, in[m])))
ensures gapn: imp(len(result) > 0, forall(m, off(result[len(result)-1])+len(result[len(result)-1])-off(in), len(in), call(sep, in[m])))
loop [g:[][]rune!] forall(k, 0, len(g), len(g[k]) > 0)
loop [g:[][]rune! n:int!+] forall(k, 0, len(g), ref(g[k]) == ref(in) && off(in) <= off(g[k]) && off(g[k]) + len(g[k]) <= off(in) + n)
loop [g:[][]rune!] forall(k, 0, len(g), forall(j, 0, len(g[k]), !call(sep, g[k][j])))
loop [g:[][]rune!] forall(k, 0, len(g), imp(off(g[k]) > off(in), call(sep, in[off(g[k])-off(in)-1])))
loop [g:[][]rune!] forall(k, 0, len(g), imp(off(g[k])+len(g[k]) < off(in)+len(in), call(sep, in[off(g[k])+len(g[k])-off(in)])))
loop [g:[][]rune!] forall(k, 1, len(g), off(g[k-1])+len(g[k-1]) <= off(g[k]))
loop [g:[][]rune!] imp(len(g) > 0, forall(m, 0, off(g[0])-off(in), call(sep, in[m])))
loop [g:[][]rune!] forall(k, 1, len(g), forall(m, off(g[k-1])+len(g[k-1])-off(in), off(g[k])-off(in), call(sep, in[m])))
loop [s:int! n:int!+] imp(s >= 0, forall(m, s, n, !call(sep, in[m])))
loop [s:int! n:int!+] imp(s >= 0, s < n)
loop [s:int n:int!] imp(s >= 0, forall(m, s, n, !call(sep, in[m])))
loop [s:int!] imp(s > 0, call(sep, in[s-1]))
loop [s:int! g:[][]rune! n:int!+] imp(s < 0, forall(m, ite(len(g) == 0, 0, off(g[len(g)-1])+len(g[len(g)-1])-off(in)), n, call(sep, in[m])))
loop [s:int! g:[][]rune!] imp(s >= 0, forall(m, ite(len(g) == 0, 0, off(g[len(g)-1])+len(g[len(g)-1])-off(in)), s, call(sep, in[m])))
loop [s:int! g:[][]rune!] imp(s >= 0 && len(g) > 0, off(g[len(g)-1])+len(g[len(g)-1]) <= off(in)+s)
loop [b:bool! s:int! n:int!+] imp(b, 0 <= s && s < n && forall(m, s, n, !call(sep, in[m])))
loop [b:bool! s:int!] imp(b && s > 0, call(sep, in[s-1]))
loop [b:bool! g:[][]rune! n:int!+] imp(!b, forall(m, ite(len(g) == 0, 0, off(g[len(g)-1])+len(g[len(g)-1])-off(in)), n, call(sep, in[m])))
loop [b:bool! s:int! g:[][]rune!] imp(b, forall(m, ite(len(g) == 0, 0, off(g[len(g)-1])+len(g[len(g)-1])-off(in)), s, call(sep, in[m])))
loop [b:bool! s:int! g:[][]rune!] imp(b && len(g) > 0, off(g[len(g)-1])+len(g[len(g)-1]) <= off(in)+s)
loop [b:bool! s:int! n:int!+] imp(!b, 0 <= s && s < n && forall(m, s, n, !call(sep, in[m])))
loop [b:bool! s:int!] imp(!b && s > 0, call(sep, in[s-1]))
loop [b:bool! g:[][]rune! n:int!+] imp(b, forall(m, ite(len(g) == 0, 0, off(g[len(g)-1])+len(g[len(g)-1])-off(in)), n, call(sep, in[m])))
loop [b:bool! s:int! g:[][]rune!] imp(!b, forall(m, ite(len(g) == 0, 0, off(g[len(g)-1])+len(g[len(g)-1])-off(in)), s, call(sep, in[m])))
loop [b:bool! s:int! g:[][]rune!] imp(!b && len(g) > 0, off(g[len(g)-1])+len(g[len(g)-1]) <= off(in)+s)

func (*github.com/fredbi/go-typeset/wordbreak/tokenizer.Tokenizer).BreakWord
params t word
property F01
ensures nonempty: forall(k, 0, len(result), len(result[k]) > 0)
ensures sub: forall(k, 0, len(result), ref(result[k]) == ref(word) && off(word) <= off(result[k]) && off(result[k]) + len(result[k]) <= off(word) + len(word))
ensures nosep: forall(k, 0, len(result), forall(j, 0, len(result[k]), !unicode.IsSpace(result[k][j])))
ensures before: forall(k, 0, len(result), imp(off(result[k]) > off(word), unicode.IsSpace(word[off(result[k])-off(word)-1])))
ensures after: forall(k, 0, len(result), imp(off(result[k])+len(result[k]) < off(word)+len(word), unicode.IsSpace(word[off(result[k])+len(result[k])-off(word)])))
ensures order: forall(k, 1, len(result), off(result[k-1])+len(result[k-1]) <= off(result[k]))
ensures gap0: forall(m, 0, ite(len(result) == 0, len(word), off(result[0])-off(word)), unicode.IsSpace(word[m]))
ensures gaps: forall(k, 1, len(result), forall(m, off(result[k-1])+len(result[k-1])-off(word), off(result[k])-off(word), unicode.IsSpace(word[m])))
ensures gapn: imp(len(result) > 0, forall(m, off(result[len(result)-1])+len(result[len(result)-1])-off(word), len(word), unicode.IsSpace(word[m])))

func (*github.com/fredbi/go-typeset/wordbreak/tokenizer.Tokenizer).BreakWordString
params t s
property F01
ensures nonempty: forall(k, 0, len(result), len(result[k]) > 0)
ensures sub: forall(k, 0, len(result), 0 <= off(result[k]) && off(result[k]) + len(result[k]) <= nrunes(s) && forall(j, 0, len(result[k]), result[k][j] == runesof(s)[off(result[k])+j]))
ensures nosep: forall(k, 0, len(result), forall(j, 0, len(result[k]), !unicode.IsSpace(result[k][j])))
ensures before: forall(k, 0, len(result), imp(off(result[k]) > 0, unicode.IsSpace(runesof(s)[off(result[k])-1])))
ensures after: forall(k, 0, len(result), imp(off(result[k])+len(result[k]) < nrunes(s), unicode.IsSpace(runesof(s)[off(result[k])+len(result[k])])))
ensures order: forall(k, 1, len(result), off(result[k-1])+len(result[k-1]) <= off(result[k]))
ensures gap0: forall(m, 0, ite(len(result) == 0, nrunes(s), off(result[0])), unicode.IsSpace(runesof(s)[m]))
ensures gaps: forall(k, 1, len(result), forall(m, off(result[k-1])+len(result[k-1]), off(result[k]), unicode.IsSpace(runesof(s)[m])))
ensures gapn: imp(len(result) > 0, forall(m, off(result[len(result)-1])+len(result[len(result)-1]), nrunes(s), unicode.IsSpace(runesof(s)[m])))
