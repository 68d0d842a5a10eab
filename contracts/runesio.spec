# Reader over a slice of runes (terminal/runes/runesio/slice_reader.go)

define rinv(r) = r != nil && 0 <= r.offset && r.offset <= len(r.runes)

func github.com/fredbi/go-typeset/terminal/runes/runesio.NewSliceReader
params s
property R01
ensures fresh: fresh(result)
ensures start: result.offset == 0 && same(result.runes, s)

func (*github.com/fredbi/go-typeset/terminal/runes/runesio.SliceReader).ReadRune
params r
property R01
requires rinv(r)
modifies r.offset
ensures inv: rinv(r) && same(r.runes, old(r.runes))
ensures read: imp(old(r.offset) < len(old(r.runes)), result0 == old(r.runes[r.offset]) && r.offset == old(r.offset)+1 && result2 == nil && result1 == runelen(result0))
ensures end: imp(old(r.offset) == len(old(r.runes)), r.offset == old(r.offset) && result2 != nil && result0 == 65533 && result1 == 0)

define runelen(r) = ite(r < 0, -1, ite(r <= 127, 1, ite(r <= 2047, 2, ite(55296 <= r && r <= 57343, -1, ite(r <= 65535, 3, ite(r <= 1114111, 4, -1))))))

func (*github.com/fredbi/go-typeset/terminal/runes/runesio.SliceReader).Runes
params r
property R01
requires rinv(r)
ensures rest: len(result) == len(r.runes) - r.offset && forall(k, 0, len(result), result[k] == r.runes[r.offset+k])

define seekpos(r, offset, whence) = ite(whence == 0, offset, ite(whence == 2, len(r.runes) + offset, ite(whence == 1, r.offset + offset, r.offset)))

func (*github.com/fredbi/go-typeset/terminal/runes/runesio.SliceReader).Seek
params r offset whence
property R01
requires rinv(r)
requires range: -4611686018427387904 <= offset && offset <= 4611686018427387904
modifies r.offset
ensures inv: rinv(r) && same(r.runes, old(r.runes))
ensures hit: imp(0 <= old(seekpos(r, offset, whence)) && old(seekpos(r, offset, whence)) <= len(r.runes), r.offset == old(seekpos(r, offset, whence)) && result0 == r.offset && result1 == nil)
ensures miss: imp(!(0 <= old(seekpos(r, offset, whence)) && old(seekpos(r, offset, whence)) <= len(r.runes)), r.offset == old(r.offset) && result1 != nil)

func (*github.com/fredbi/go-typeset/terminal/runes/runesio.SliceReader).Slice
params r start end
property R01
requires rinv(r)
requires range: 0 <= start && start <= end && end <= len(r.runes)
ensures sub: len(result) == end - start && forall(k, 0, len(result), result[k] == r.runes[start+k])

func (*github.com/fredbi/go-typeset/terminal/runes/runesio.SliceReader).Slices
params r slice
property R01
requires rinv(r)
requires range: len(slice)%2 == 0 && forall(i, 0, len(slice), 0 <= slice[i] && slice[i] <= len(r.runes)) && forall(i, 0, len(slice)-1, imp(i%2 == 0, slice[i] <= slice[i+1]))
ensures count: len(result) == len(slice)/2
ensures size: forall(i, 0, len(result), len(result[i]) == slice[2*i+1] - slice[2*i])
ensures content: forall(i, 0, len(result), forall(k, 0, len(result[i]), result[i][k] == r.runes[slice[2*i]+k]))
loop [g:[][]rune! k:int!] k == 2*len(g)
loop [g:[][]rune! s:[]int!] ref(s) == ref(slice) && off(s) == off(slice) + 2*len(g) && len(s) + 2*len(g) == len(slice)
loop [g:[][]rune!] forall(i, 0, len(g), len(g[i]) == slice[2*i+1] - slice[2*i])
loop [g:[][]rune k:int!+] len(g) == len(slice)/2 && forall(i, 0, k, len(g[i]) == slice[2*i+1] - slice[2*i])
loop [g:[][]rune k:int!+] forall(i, 0, k, forall(j, 0, len(g[i]), g[i][j] == r.runes[slice[2*i]+j]))
loop [g:[][]rune!] forall(i, 0, len(g), forall(k, 0, len(g[i]), g[i][k] == r.runes[slice[2*i]+k]))

# UTF-8 length of a rune as encoded (invalid runes as U+FFFD)
define enclen(r) = ite(0 <= r && r <= 127, 1, ite(0 <= r && r <= 2047, 2, ite(65536 <= r && r <= 1114111, 4, 3)))
define validrune(r) = (0 <= r && r <= 55295) || (57344 <= r && r <= 1114111)

fold utf8bytes(x rune) int nonneg = 0 ; acc + enclen(x)

func (*github.com/fredbi/go-typeset/terminal/runes/runesio.SliceReader).SliceFromByteOffsets
params r slice
property R02
requires rinv(r)
requires valid: forall(i, 0, len(r.runes), validrune(r.runes[i]))
requires bounds: len(slice)%2 == 0 && forall(i, 0, len(slice), exists(p, 0, len(r.runes)+1, utf8bytes(r.runes[0:p]) == slice[i])) && forall(i, 0, len(slice)-1, imp(i%2 == 0, slice[i] <= slice[i+1]))
ensures count: len(result) == len(slice)/2
ensures sub: forall(i, 0, len(result), ref(result[i]) == ref(r.runes) && off(result[i]) >= off(r.runes) && off(result[i])+len(result[i]) <= off(r.runes)+len(r.runes))
ensures start: forall(i, 0, len(result), utf8bytes(r.runes[0:off(result[i])-off(r.runes)]) == slice[2*i])
ensures end: forall(i, 0, len(result), utf8bytes(r.runes[0:off(result[i])-off(r.runes)+len(result[i])]) == slice[2*i+1])
loop [g:[][]rune! k:int!] k == 2*len(g)
loop [g:[][]rune! s:[]int!] ref(s) == ref(slice) && off(s) == off(slice) + 2*len(g) && len(s) + 2*len(g) == len(slice)
loop [g:[][]rune!] forall(i, 0, len(g), ref(g[i]) == ref(r.runes) && off(g[i]) >= off(r.runes) && off(g[i])+len(g[i]) <= off(r.runes)+len(r.runes))
loop [g:[][]rune!] forall(i, 0, len(g), utf8bytes(r.runes[0:off(g[i])-off(r.runes)]) == slice[2*i])
loop [g:[][]rune!] forall(i, 0, len(g), utf8bytes(r.runes[0:off(g[i])-off(r.runes)+len(g[i])]) == slice[2*i+1])
loop [g:[][]rune k:int!+] len(g) == len(slice)/2 && forall(i, 0, k, ref(g[i]) == ref(r.runes) && off(g[i]) >= off(r.runes) && off(g[i])+len(g[i]) <= off(r.runes)+len(r.runes))
loop [g:[][]rune k:int!+] forall(i, 0, k, utf8bytes(r.runes[0:off(g[i])-off(r.runes)]) == slice[2*i])
loop [g:[][]rune k:int!+] forall(i, 0, k, utf8bytes(r.runes[0:off(g[i])-off(r.runes)+len(g[i])]) == slice[2*i+1])
loop [o:int! n:int!+] o == utf8bytes(r.runes[0:n])
loop [o:int! n:int!+] o <= 4*n
loop [s:int! n:int!+ b:int] ite(s < n, utf8bytes(r.runes[0:s]) == b, utf8bytes(r.runes[0:s]) <= b)
loop [n:int!+ b:int] utf8bytes(r.runes[0:n]) <= b

# R03: byte sequences are free terms: empty, snoc(s, byte)
sort Bytes
rec bempty() Bytes
rec bsnoc(Bytes, int) Bytes
fold byteseq(x byte) Bytes = bempty() ; bsnoc(acc, x)
define enc1(s, r) = bsnoc(s, r)
define enc2(s, r) = bsnoc(bsnoc(s, 192 + r/64), 128 + r%64)
define enc3(s, r) = bsnoc(bsnoc(bsnoc(s, 224 + r/4096), 128 + (r/64)%64), 128 + r%64)
define enc4(s, r) = bsnoc(bsnoc(bsnoc(bsnoc(s, 240 + r/262144), 128 + (r/4096)%64), 128 + (r/64)%64), 128 + r%64)
define utf8enc(s, r) = ite(0 <= r && r <= 127, enc1(s, r), ite(0 <= r && r <= 2047, enc2(s, r), ite(65536 <= r && r <= 1114111, enc4(s, r), ite(validrune(r), enc3(s, r), enc3(s, 65533)))))
fold utf8seq(x rune) Bytes = bempty() ; utf8enc(acc, x)

func (*github.com/fredbi/go-typeset/terminal/runes/runesio.runesWriter).WriteRune
params rw r
property R03
requires rw: rw != nil && rw.Writer != nil
ensures once: nev() == old(nev()) + 1 && evkind(old(nev())) == 1 && evrecv(old(nev())) == rw.Writer
ensures bytes: byteseq(evarr(old(nev())), evoff(old(nev())), evoff(old(nev())) + evlen(old(nev()))) == utf8enc(bempty(), r)
ensures result: result0 == evresn(old(nev())) && result1 == evrese(old(nev()))

func (*github.com/fredbi/go-typeset/terminal/runes/runesio.runesWriter).WriteRunes
params rw text
property R03
requires rw: rw != nil && rw.Writer != nil
ensures once: nev() == old(nev()) + 1 && evkind(old(nev())) == 1 && evrecv(old(nev())) == rw.Writer
ensures bytes: byteseq(evarr(old(nev())), evoff(old(nev())), evoff(old(nev())) + evlen(old(nev()))) == utf8seq(text)
ensures result: result0 == evresn(old(nev())) && result1 == evrese(old(nev()))
loop [b:[]byte! n:int!+] byteseq(b) == utf8seq(text[0:n])
