# Keys: finite sequences of runes

rec kempty() Key
rec ksnoc(Key, int) Key
rec kpre(Key) Key
rec klast(Key) int
rec klen(Key) int
axiom ksnoc: forallT(k, Key, forallT(x, int, kpre(ksnoc(k, x)) == k && klast(ksnoc(k, x)) == x && klen(ksnoc(k, x)) == klen(k) + 1, ksnoc(k, x)))
axiom kempty,klen: klen(kempty()) == 0
axiom klen: forallT(k, Key, klen(k) >= 0, klen(k))
fold kof(e rune) Key = kempty() ; ksnoc(acc, e)

