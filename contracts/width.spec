# Width of runes and text (W01-W04). Sets u_* are in unicode.spec.

define okrune(r) = 0 <= r && r <= 1114111 && !(55296 <= r && r <= 57343)
define zerow(r) = !okrune(r) || r == 65533 || r < 32 || (127 <= r && r <= 159) || r == 173 || u_format(r) || u_combining(r)

# the width of a rune, given the three options
rec rw(int, bool, bool, int) int
hidden rw: forallT(r, int, forallT(ea, bool, forallT(sk, bool, forallT(amb, int, rw(r, ea, sk, amb) == ite(zerow(r), 0, ite(r == 11834, 3, ite(r == 11835, 4, ite(u_wide(r), 2, ite(!ea, 1, ite(u_ambiguous(r), amb, ite(sk && u_pictograph(r), 2, 1)))))))))))

frozen github.com/fredbi/go-typeset/terminal/runes.defaultOptions

fold applied(f int, d runes.options) runes.options = d ; applyopt(f, acc)
define setup(opts) = applied(opts, old(*defaultOptions))

define within(r, t) = exists(i, 0, len(t), t[i].first <= r && r <= t[i].last)
define ordered(t) = forall(i, 0, len(t), t[i].first <= t[i].last && forall(j, i+1, len(t), t[i].last < t[j].first))

func github.com/fredbi/go-typeset/terminal/runes.inTable
params r t
property W01 W02 W04
aux
requires some: len(t) > 0
requires ordered: ordered(t)
ensures def: result == within(r, t)
loop [b:int!] forall(i, 0, b, t[i].last < r)
loop [b:int!] forall(i, b+1, len(t), r < t[i].first)
loop [b:int!] forall(i, b, len(t), r < t[i].first)
loop [b:int!] forall(i, b, len(t), r <= t[i].last)
loop [b:int!] forall(i, 0, b, t[i].first <= r)
loop [b:int!] -1 <= b && b <= len(t)

func github.com/fredbi/go-typeset/terminal/runes.inTables
params r ts
property W01 W02 W04
aux
requires ordered: forall(k, 0, len(ts), len(ts[k]) > 0 && ordered(ts[k]))
ensures def: result == exists(k, 0, len(ts), within(r, ts[k]))
loop [k:int!+] forall(q, 0, k, !within(r, ts[q]))
loop [b:bool! k:int!+] b == exists(q, 0, k, within(r, ts[q]))
loop [b:bool! k:int!+] b == forall(q, 0, k, !within(r, ts[q]))

func github.com/fredbi/go-typeset/terminal/runes.IsAmbiguous
params r
property W04
ensures def: result == u_ambiguous(r)

func github.com/fredbi/go-typeset/terminal/runes.runeWidth
params r opts
property W01 W02 W04
aux
reveal rw
requires opts: opts != nil
ensures def: result == rw(r, opts.EastAsian, opts.SkipStrictEmojiNeutral, opts.DefaultAsianAmbiguousWidth)
ensures small: imp(!opts.EastAsian, 0 <= result && result <= 4 && iff(result == 4, r == 11835))

# the lookup table packs four default widths in each byte
define dw(r) = rw(r, false, false, 2)
define packed(b, k) = b == dw(4*k) + 4*dw(4*k+1) + 16*dw(4*k+2) + 64*ite(4*k+3 == 11835, 0, dw(4*k+3))
define smallw(r) = 0 <= dw(r) && dw(r) <= 4 && iff(dw(r) == 4, r == 11835)
define cellok(b, k) = packed(b, k) && smallw(4*k) && smallw(4*k+1) && smallw(4*k+2) && smallw(4*k+3)

func github.com/fredbi/go-typeset/terminal/runes.initLookupTable
params
property W01 W02
aux
modglobal lookupTable
ensures size: len(lookupTable) == 278528
ensures cells: forall(k, 0, 278528, cellok(lookupTable[k], k))
loop [l:[]byte k:int!+] forall(q, 0, k, cellok(l[q], q))
loop [l:[]byte k:int!+] forall(q, k, len(l), l[q] == 0)

func github.com/fredbi/go-typeset/terminal/runes.optionsWithDefaults
params opts
property W03 W01
aux
requires fns: forall(i, 0, len(opts), opts[i] != nil)
ensures some: result != nil
ensures defaults: imp(len(opts) == 0, !result.EastAsian && !result.SkipStrictEmojiNeutral && result.DefaultAsianAmbiguousWidth == 2)
ensures applied: *result == setup(opts)
loop [o:options! k:int!+] o == applied(opts[0:k], old(*defaultOptions))
loop [o:*options k:int!+] *o == applied(opts[0:k], old(*defaultOptions))

func github.com/fredbi/go-typeset/terminal/runes.Width
params r opts
property W01 W02 W03 W04
reveal rw
requires fns: forall(i, 0, len(opts), opts[i] != nil)
ensures def: result == rw(r, setup(opts).EastAsian, setup(opts).SkipStrictEmojiNeutral, setup(opts).DefaultAsianAmbiguousWidth)

fold wsum(r rune, o runes.options) int = 0 ; acc + rw(r, o.EastAsian, o.SkipStrictEmojiNeutral, o.DefaultAsianAmbiguousWidth)

func github.com/fredbi/go-typeset/terminal/runes.Widths
params runes opts
property W01 W03 W04
reveal rw
requires fns: forall(i, 0, len(opts), opts[i] != nil)
requires sane: -1048576 <= setup(opts).DefaultAsianAmbiguousWidth && setup(opts).DefaultAsianAmbiguousWidth <= 1048576
ensures sum: result == wsum(runes, setup(opts))
loop [w:int! k:int!+] w == wsum(runes[0:k], setup(opts))
loop [w:int! k:int!+] -1048576*k <= w && w <= 1048576*k

func github.com/fredbi/go-typeset/terminal/runes.StringWidth
params s opts
property W01 W03
requires fns: forall(i, 0, len(opts), opts[i] != nil)
requires sane: -1048576 <= setup(opts).DefaultAsianAmbiguousWidth && setup(opts).DefaultAsianAmbiguousWidth <= 1048576
ensures sum: result == wsum(runesof(s), 0, nrunes(s), setup(opts))

func github.com/fredbi/go-typeset/terminal/runes.WithEastAsian
params enabled
property W03 W04
ensures some: result != nil
ensures sets: optsets(result, EastAsian, enabled)

func github.com/fredbi/go-typeset/terminal/runes.WithSkipStrictEmojiNeutral
params enabled
property W03 W04
ensures some: result != nil
ensures sets: optsets(result, SkipStrictEmojiNeutral, enabled)

func github.com/fredbi/go-typeset/terminal/runes.WithEastAsianAmbiguousWidth
params width
property W03 W04
ensures some: result != nil
ensures sets: optsets(result, DefaultAsianAmbiguousWidth, width)
