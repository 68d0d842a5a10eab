# Package attributes: renderers and their state (S01, S02).
#
# The calls a function makes on renderers and writers are ghost events, in
# order: 2 is WriteRunes, 5 Start, 6 Stop, 7 Render.
eventmethod 5 attributes.Renderer.Start
eventmethod 6 attributes.Renderer.Stop
eventmethod 7 attributes.Renderer.Render
statemethod level attributes.Renderer.Level attributes.Renderer.SetLevel
puremethod attributes.Renderer.HasStart attributes.Renderer.HasStop

# S02 ------------------------------------------------------------------------------

# event k wrote the runes of s to w
define wrote(k, w, s) = evkind(k) == 2 && evrecv(k) == w && evarr(k) == old(arr(s)) && evoff(k) == off(s) && evlen(k) == len(s)
define one(s) = ite(len(s) > 0, 1, 0)

func (github.com/fredbi/go-typeset/attributes.Attribute).Start
params a w
property S02
requires w: w != nil
ensures count: nev() == old(nev()) + one(a.StartSequence)
ensures start: imp(len(a.StartSequence) > 0, wrote(old(nev()), w, a.StartSequence))
ensures before: forall(i, 0, old(nev()), evkind(i) == old(evkind(i))) && forall(i, 0, old(nev()), evrecv(i) == old(evrecv(i))) && forall(i, 0, old(nev()), evarr(i) == old(evarr(i))) && forall(i, 0, old(nev()), evoff(i) == old(evoff(i))) && forall(i, 0, old(nev()), evlen(i) == old(evlen(i)))

func (github.com/fredbi/go-typeset/attributes.Attribute).Stop
params a w
property S02
requires w: w != nil
ensures count: nev() == old(nev()) + one(a.StopSequence)
ensures stop: imp(len(a.StopSequence) > 0, wrote(old(nev()), w, a.StopSequence))
ensures before: forall(i, 0, old(nev()), evkind(i) == old(evkind(i))) && forall(i, 0, old(nev()), evrecv(i) == old(evrecv(i))) && forall(i, 0, old(nev()), evarr(i) == old(evarr(i))) && forall(i, 0, old(nev()), evoff(i) == old(evoff(i))) && forall(i, 0, old(nev()), evlen(i) == old(evlen(i)))

func (github.com/fredbi/go-typeset/attributes.Attribute).Render
params a w
property S02
requires w: w != nil
ensures count: nev() == old(nev()) + one(a.StartSequence) + one(a.Text) + one(a.StopSequence)
ensures start: imp(len(a.StartSequence) > 0, wrote(old(nev()), w, a.StartSequence))
ensures text: imp(len(a.Text) > 0, wrote(old(nev()) + one(a.StartSequence), w, a.Text))
ensures stop: imp(len(a.StopSequence) > 0, wrote(old(nev()) + one(a.StartSequence) + one(a.Text), w, a.StopSequence))
ensures before: forall(i, 0, old(nev()), evkind(i) == old(evkind(i))) && forall(i, 0, old(nev()), evrecv(i) == old(evrecv(i))) && forall(i, 0, old(nev()), evarr(i) == old(evarr(i))) && forall(i, 0, old(nev()), evoff(i) == old(evoff(i))) && forall(i, 0, old(nev()), evlen(i) == old(evlen(i)))

func github.com/fredbi/go-typeset/attributes.New
params text start stop
property S02
ensures new: fresh(result) && result.Text == text && result.StartSequence == start && result.StopSequence == stop && result.NestingLevel == 0

func (github.com/fredbi/go-typeset/attributes.Attribute).Runes
params a
property S02
ensures text: result == a.Text

func (*github.com/fredbi/go-typeset/attributes.Attribute).SetStop
params a stop
property S02
requires a: a != nil
modifies a.StopSequence
ensures stop: a.StopSequence == stop

# the number of renderers of a collection that are there
fold there(e attributes.Renderer) int nonneg back = 0 ; acc + ite(e == nil, 0, 1)

func (github.com/fredbi/go-typeset/attributes.Renderers).Start
params c w
property S02
ensures count: nev() == old(nev()) + there(c)
ensures each: forall(p, off(c), off(c)+len(c), imp(arr(c)[p] != nil, evkind(old(nev()) + there(arr(c), off(c), p)) == 5 && evrecv(old(nev()) + there(arr(c), off(c), p)) == arr(c)[p] && evarg(old(nev()) + there(arr(c), off(c), p)) == w))
ensures before: forall(i, 0, old(nev()), evkind(i) == old(evkind(i))) && forall(i, 0, old(nev()), evrecv(i) == old(evrecv(i))) && forall(i, 0, old(nev()), evarg(i) == old(evarg(i)))
loop [k:int+] nev() == old(nev()) + there(arr(c), off(c), off(c)+k)
loop [k:int+] forall(p, off(c), off(c)+k, imp(arr(c)[p] != nil, there(arr(c), off(c), p) < there(arr(c), off(c), off(c)+k)))
loop [k:int+] forall(p, off(c), off(c)+k, imp(arr(c)[p] != nil, evkind(old(nev()) + there(arr(c), off(c), p)) == 5 && evrecv(old(nev()) + there(arr(c), off(c), p)) == arr(c)[p] && evarg(old(nev()) + there(arr(c), off(c), p)) == w))
loop [] forall(i, 0, old(nev()), evkind(i) == old(evkind(i))) && forall(i, 0, old(nev()), evrecv(i) == old(evrecv(i))) && forall(i, 0, old(nev()), evarg(i) == old(evarg(i)))

func (github.com/fredbi/go-typeset/attributes.Renderers).Stop
params c w
property S02
ensures count: nev() == old(nev()) + there(c)
ensures each: forall(p, off(c), off(c)+len(c), imp(arr(c)[p] != nil, evkind(old(nev()) + there(arr(c), off(c), p)) == 6 && evrecv(old(nev()) + there(arr(c), off(c), p)) == arr(c)[p] && evarg(old(nev()) + there(arr(c), off(c), p)) == w))
ensures before: forall(i, 0, old(nev()), evkind(i) == old(evkind(i))) && forall(i, 0, old(nev()), evrecv(i) == old(evrecv(i))) && forall(i, 0, old(nev()), evarg(i) == old(evarg(i)))
loop [k:int+] nev() == old(nev()) + there(arr(c), off(c), off(c)+k)
loop [k:int+] forall(p, off(c), off(c)+k, imp(arr(c)[p] != nil, there(arr(c), off(c), p) < there(arr(c), off(c), off(c)+k)))
loop [k:int+] forall(p, off(c), off(c)+k, imp(arr(c)[p] != nil, evkind(old(nev()) + there(arr(c), off(c), p)) == 6 && evrecv(old(nev()) + there(arr(c), off(c), p)) == arr(c)[p] && evarg(old(nev()) + there(arr(c), off(c), p)) == w))
loop [] forall(i, 0, old(nev()), evkind(i) == old(evkind(i))) && forall(i, 0, old(nev()), evrecv(i) == old(evrecv(i))) && forall(i, 0, old(nev()), evarg(i) == old(evarg(i)))

func (github.com/fredbi/go-typeset/attributes.Renderers).Render
params c w
property S02
ensures count: nev() == old(nev()) + there(c)
ensures each: forall(p, off(c), off(c)+len(c), imp(arr(c)[p] != nil, evkind(old(nev()) + there(arr(c), off(c), p)) == 7 && evrecv(old(nev()) + there(arr(c), off(c), p)) == arr(c)[p] && evarg(old(nev()) + there(arr(c), off(c), p)) == w))
ensures before: forall(i, 0, old(nev()), evkind(i) == old(evkind(i))) && forall(i, 0, old(nev()), evrecv(i) == old(evrecv(i))) && forall(i, 0, old(nev()), evarg(i) == old(evarg(i)))
loop [k:int+] nev() == old(nev()) + there(arr(c), off(c), off(c)+k)
loop [k:int+] forall(p, off(c), off(c)+k, imp(arr(c)[p] != nil, there(arr(c), off(c), p) < there(arr(c), off(c), off(c)+k)))
loop [k:int+] forall(p, off(c), off(c)+k, imp(arr(c)[p] != nil, evkind(old(nev()) + there(arr(c), off(c), p)) == 7 && evrecv(old(nev()) + there(arr(c), off(c), p)) == arr(c)[p] && evarg(old(nev()) + there(arr(c), off(c), p)) == w))
loop [] forall(i, 0, old(nev()), evkind(i) == old(evkind(i))) && forall(i, 0, old(nev()), evrecv(i) == old(evrecv(i))) && forall(i, 0, old(nev()), evarg(i) == old(evarg(i)))

# S01 ------------------------------------------------------------------------------

func (github.com/fredbi/go-typeset/attributes.Attribute).Level
params a
property S01
ensures level: result == a.NestingLevel

func (*github.com/fredbi/go-typeset/attributes.Attribute).SetLevel
params a level
property S01
requires a: a != nil
modifies a.NestingLevel
ensures level: a.NestingLevel == level

func (github.com/fredbi/go-typeset/attributes.Attribute).HasStart
params a
property S01 S02
ensures start: result == (len(a.StartSequence) > 0)

func (github.com/fredbi/go-typeset/attributes.Attribute).HasStop
params a
property S01 S02
ensures stop: result == (len(a.StopSequence) > 0)

# l is an initialised list: it is a ring through its sentinel
define list(l) = l != nil && l.len >= 0 && 0 < l.root.next && 0 < l.root.prev && iff(l.len == 0, l.root.prev == l.root) && iff(l.len == 0, l.root.next == l.root) &&
    imp(l.len > 0, l.root.prev.Value != nil && l.root.prev.next == l.root)
define elem(x) = as(x, "*list.Element")
# E[1], ..., E[n] are the elements of l in this order
define chained(l, E, n) = l != nil && l.len == n && imp(n > 0, l.root.next == E[1] && elem(E[n]).next == l.root && l.root.prev == E[n]) &&
    forall(i, 1, n, elem(E[i]).next == E[i+1]) &&
    forall(i, 1, n+1, 0 < E[i] && E[i] < bound() && E[i] != l.root && elem(E[i]).list == l && elem(E[i]).Value != nil)
define lev(x) = method(x, Level, "Renderer")
define last(s) = s.list.root.prev.Value
# the level carried over to the next renderer
define base(s) = ite(s.list.len == 0, 0, lev(last(s)) - ite(method(last(s), HasStop, "Renderer"), 1, 0))

func github.com/fredbi/go-typeset/attributes.NewState
params
property S01
ensures empty: fresh(result) && result.list != nil && result.list.len == 0 && list(result.list)

func (*github.com/fredbi/go-typeset/attributes.State).Push
params s r
property S01
requires some: s != nil && s.list != nil
requires list: list(s.list)
requires size: s.list.len < 1099511627776
requires depth: imp(s.list.len > 0, -1099511627776 < lev(last(s)) && lev(last(s)) < 1099511627776)
modifies s.list.len
modifies s.list.root.prev
modifies s.list.root.prev.next
ensures list: list(s.list)
ensures nothing: imp(r == nil, s.list.len == old(s.list.len) && s.list.root.next == old(s.list.root.next) && s.list.root.prev == old(s.list.root.prev))
ensures more: imp(r != nil, s.list.len == old(s.list.len) + 1 && last(s) == r)
ensures level: imp(r != nil, lev(r) == old(base(s)) + ite(method(r, HasStart), 1, 0))
ensures others: forallT(x, attributes.Renderer, imp(r == nil || x != r, lev(x) == old(lev(x))), lev(x))
ensures order: forallT(E, arr, imp(r != nil && old(chained(s.list, E, s.list.len)) && E[s.list.len] == s.list.root.prev, chained(s.list, E, s.list.len)))
ensures kept: forallT(E, arr, imp(r == nil && old(chained(s.list, E, s.list.len)), chained(s.list, E, s.list.len)))
ensures values: forallT(E, arr, imp(old(chained(s.list, E, s.list.len)), forall(i, 1, old(s.list.len)+1, elem(E[i]).Value == old(elem(E[i]).Value))))

func (*github.com/fredbi/go-typeset/attributes.State).Iterator
params s
property S01
requires some: s != nil && s.list != nil
requires list: list(s.list)
ensures first: fresh(result) && result.start && imp(s.list.len == 0, result.current == nil)
ensures chain: forallT(E, arr, imp(chained(s.list, E, s.list.len) && s.list.len > 0, result.current == E[1]))

func (*github.com/fredbi/go-typeset/attributes.State).First
params s
property S01
requires some: s != nil && s.list != nil
requires list: list(s.list)
ensures first: fresh(result) && !result.start && imp(s.list.len == 0, result.current == nil)
ensures chain: forallT(E, arr, imp(chained(s.list, E, s.list.len) && s.list.len > 0, result.current == E[1]))

# the iterator walks E[1], ..., E[n], then stays at the end
func (*github.com/fredbi/go-typeset/attributes.StateIterator).Next
params i
property S01
requires some: i != nil
modifies i.start
modifies i.current
ensures start: !i.start && imp(old(i.start), i.current == old(i.current))
ensures end: result == (i.current != nil) && imp(old(i.current) == nil, i.current == nil)
ensures step: forallT(E, arr, forallT(k, int, imp(!old(i.start) && old(i.current) != nil && 1 <= k && chained(old(i.current.list), E, old(i.current.list.len)) && k <= old(i.current.list.len) && old(i.current) == E[k],
    ite(k < old(i.current.list.len), i.current == E[k+1], i.current == nil))))

func (*github.com/fredbi/go-typeset/attributes.StateIterator).Item
params i
property S01
requires some: i != nil
requires value: imp(i.current != nil, i.current.Value != nil)
ensures item: ite(i.current == nil, result == nil, result == i.current.Value)
