# Tries (T01). A trie is the finite map from keys (finite sequences of runes)
# to the values found by walking the children from the root.

# node reached from t by key k, 0 if none; C: children of nodes, D and V: keys and values of children maps
define child(C, D, V, n, x) = ite(C[n] != 0 && D[C[n]][x], V[C[n]][x], 0)
rec walk(arr, arr2b, arr2, int, Key) int
axiom walk: forallT(C, arr, forallT(D, arr2b, forallT(V, arr2, forallT(t, int, walk(C, D, V, t, kempty()) == t, walk(C, D, V, t, kempty())))))
axiom walk: forallT(C, arr, forallT(D, arr2b, forallT(V, arr2, forallT(t, int, forallT(k, Key, forallT(x, int, walk(C, D, V, t, ksnoc(k, x)) == ite(walk(C, D, V, t, k) == 0, 0, child(C, D, V, walk(C, D, V, t, k), x)), walk(C, D, V, t, ksnoc(k, x))))))))

define TC() = hf(trie.RuneTrie.children)
define TD() = hd(trie.RuneTrie.children)
define TV() = hv(trie.RuneTrie.children)
define node(t, k) = walk(TC(), TD(), TV(), t, k)
define val(n) = hf(trie.RuneTrie.value)[n]
define stored(t, k) = node(t, k) != 0 && val(node(t, k)) != nil

# tree shape: every node is reached by one key, and has a children map of its own
define tree(C, D, V, t) = forallT(K, Key, forallT(L, Key, imp(walk(C, D, V, t, K) != 0 && K != L, walk(C, D, V, t, K) != walk(C, D, V, t, L) && (C[walk(C, D, V, t, K)] == 0 || C[walk(C, D, V, t, K)] != C[walk(C, D, V, t, L)])), walk(C, D, V, t, K), walk(C, D, V, t, L)))
define istree(t) = tree(TC(), TD(), TV(), t) && forallT(K, Key, node(t, K) < bound(), node(t, K))

# a walk that has left the trie does not come back
lemma lost(C arr, D arr2b, V arr2, t int, A arr, o int, i int, k int) from i by walk(C, D, V, t, kof(A, o, i)), walk(C, D, V, t, kof(A, o, k)): imp(o <= i && walk(C, D, V, t, kof(A, o, i)) == 0, walk(C, D, V, t, kof(A, o, k)) == 0)

# attaching a new, childless node c as child r of the node at kp
define unlinked(C, D, V, C2, D2, V2, t, n, r) = forallT(x, int, imp(x != r, child(C2, D2, V2, n, x) == child(C, D, V, n, x)), V2[C2[n]][x])
    && forallT(K, Key, forallT(x, int, imp(walk(C, D, V, t, K) != 0 && walk(C, D, V, t, K) != n, child(C2, D2, V2, walk(C, D, V, t, K), x) == child(C, D, V, walk(C, D, V, t, K), x)), V2[C2[walk(C, D, V, t, K)]][x]))
lemma attach(C arr, D arr2b, V arr2, C2 arr, D2 arr2b, V2 arr2, t int, kp Key, r int) by walk(C, D, V, t, kp), walk(C2, D2, V2, t, ksnoc(kp, r)) over K by walk(C2, D2, V2, t, K): tree(C, D, V, t) && walk(C, D, V, t, kp) != 0 && walk(C, D, V, t, ksnoc(kp, r)) == 0 && unlinked(C, D, V, C2, D2, V2, t, walk(C, D, V, t, kp), r) && child(C2, D2, V2, walk(C, D, V, t, kp), r) != 0 && forallT(x, int, child(C2, D2, V2, child(C2, D2, V2, walk(C, D, V, t, kp), r), x) == 0) ==> walk(C2, D2, V2, t, K) == ite(K == ksnoc(kp, r), child(C2, D2, V2, walk(C, D, V, t, kp), r), walk(C, D, V, t, K))

func (*github.com/fredbi/go-typeset/wordbreak/hyphenator/internal/trie.RuneTrie).Get
params trie key
property T01
use lost
requires some: trie != nil
ensures found: imp(node(trie, kof(key)) != 0, result == val(node(trie, kof(key))))
ensures missing: imp(node(trie, kof(key)) == 0, result == nil)
loop [n:*RuneTrie! i:int!+] n == node(trie, kof(key[0:i]))
loop [n:*RuneTrie! i:int!+] n == node(trie, kof(key[0:i])) && n != nil

func (*github.com/fredbi/go-typeset/wordbreak/hyphenator/internal/trie.RuneTrie).Put
params trie key value
property T01
use attach
requires some: trie != nil
requires tree: istree(trie)
modifies any(trie.RuneTrie.children)
modifies any(trie.RuneTrie.value)
modifies anymap(trie.RuneTrie.children)
ensures tree: istree(trie)
ensures put: node(trie, kof(key)) != 0 && val(node(trie, kof(key))) == value
ensures others: forallT(K, Key, imp(K != kof(key), iff(stored(trie, K), old(stored(trie, K))) && imp(stored(trie, K), val(node(trie, K)) == old(val(node(trie, K))))), node(trie, K))
ensures isnew: result == !old(stored(trie, kof(key)))
loop [n:*RuneTrie! i:int!+] n == node(trie, kof(key[0:i])) && n != nil
loop [n:*RuneTrie! i:int!+] imp(n == node(trie, kof(key[0:i])), istree(trie))
loop [n:*RuneTrie! i:int!+] imp(n == node(trie, kof(key[0:i])), forallT(K, Key, iff(stored(trie, K), old(stored(trie, K))) && imp(stored(trie, K), val(node(trie, K)) == old(val(node(trie, K)))), node(trie, K)))

# removing child r, itself childless, of the node at kp
lemma detach(C arr, D arr2b, V arr2, C2 arr, D2 arr2b, V2 arr2, t int, kp Key, r int) over K by walk(C, D, V, t, ksnoc(kp, r)), walk(C2, D2, V2, t, K): tree(C, D, V, t) && walk(C, D, V, t, kp) != 0 && unlinked(C, D, V, C2, D2, V2, t, walk(C, D, V, t, kp), r) && child(C2, D2, V2, walk(C, D, V, t, kp), r) == 0 && forallT(x, int, child(C, D, V, walk(C, D, V, t, ksnoc(kp, r)), x) == 0) ==> walk(C2, D2, V2, t, K) == ite(K == ksnoc(kp, r), 0, walk(C, D, V, t, K))

define kept(t, kk) = forallT(K, Key, imp(K != kk, iff(stored(t, K), old(stored(t, K))) && imp(stored(t, K), val(node(t, K)) == old(val(node(t, K))))), node(t, K))
define childless(n) = forallT(x, int, child(TC(), TD(), TV(), n, x) == 0)

func (*github.com/fredbi/go-typeset/wordbreak/hyphenator/internal/trie.RuneTrie).Delete
params trie key
property T01
use lost detach
requires some: trie != nil
requires tree: istree(trie)
modifies any(trie.RuneTrie.children)
modifies any(trie.RuneTrie.value)
modifies anymap(trie.RuneTrie.children)
ensures tree: istree(trie)
ensures gone: !stored(trie, kof(key))
ensures others: kept(trie, kof(key))
ensures success: imp(old(stored(trie, kof(key))), result)
loop [n:*RuneTrie! i:int!+] n == node(trie, kof(key[0:i])) && n != nil
loop [p:[]nodeRune i:int!+] forall(q, 0, i, p[q].node == node(trie, kof(key[0:q])) && p[q].node != nil && p[q].r == key[q])
loop [i:int!] istree(trie)
loop [] kept(trie, kof(key)) && !stored(trie, kof(key))
loop [p:[]nodeRune i:int!] forall(q, 0, i+1, p[q].node == node(trie, kof(key[0:q])) && p[q].node != nil && p[q].r == key[q])
loop [i:int!] node(trie, kof(key[0:i+1])) != 0 && val(node(trie, kof(key[0:i+1]))) == nil && childless(node(trie, kof(key[0:i+1])))

# a node without children is a trie with one node
lemma bare(C arr, D arr2b, V arr2, t int) over K by walk(C, D, V, t, K): t != 0 && C[t] == 0 ==> walk(C, D, V, t, K) == ite(K == kempty(), t, 0)

func github.com/fredbi/go-typeset/wordbreak/hyphenator/internal/trie.NewRuneTrie
params
property T01
use bare
ensures some: result != nil
ensures tree: istree(result)
ensures empty: forallT(K, Key, !stored(result, K), node(result, K))
ensures bare: fresh(result) && TC()[result] == 0 && val(result) == nil
