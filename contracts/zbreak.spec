# Package linebreak.
#
# Widths are float64 values, treated as real numbers.

# node kinds: 0 penalty, 1 glue, 2 box

func github.com/fredbi/go-typeset/linebreak.newGlue
params width stretch shrink
property L01 L02
ensures glue: result.nodeType == 1 && result.width == width && result.stretch == stretch && result.shrink == shrink && len(result.value) == 0 && !result.softHyphen && result.attribute == nil

func github.com/fredbi/go-typeset/linebreak.newBox
params width value attribute
property L01 L02
ensures box: result.nodeType == 2 && result.width == width && result.stretch == 0 && result.shrink == 0 && result.value == value && !result.softHyphen && result.attribute == attribute

func github.com/fredbi/go-typeset/linebreak.newPenalty
params width penalty flagged
property L01 L02
ensures penalty: result.nodeType == 0 && result.width == width && result.stretch == 0 && result.shrink == 0 && result.penalty == penalty && result.flagged == flagged && !result.softHyphen && len(result.value) == 0

func github.com/fredbi/go-typeset/linebreak.newSoftHyphen
params width penalty
property L01 L02
ensures penalty: result.nodeType == 0 && result.width == width && result.stretch == 0 && result.shrink == 0 && result.penalty == penalty && result.flagged && result.softHyphen && len(result.value) == 0

func (*github.com/fredbi/go-typeset/linebreak.sums).Add
params s t
property L02
requires s: s != nil
modifies s.all
ensures sum: s.width == old(s.width) + t.width && s.stretch == old(s.stretch) + t.stretch && s.shrink == old(s.shrink) + t.shrink

func (*github.com/fredbi/go-typeset/linebreak.LineBreaker).idealWidth
params l line
property L02
requires some: l != nil && len(l.lineWidths) > 0 && line >= 1
ensures width: ite(line <= len(l.lineWidths), result == l.lineWidths[line-1], result == l.lineWidths[len(l.lineWidths)-1])

func (*github.com/fredbi/go-typeset/linebreak.LineBreaker).adjustmentRatio
params l b node sum ideal
property L02
requires some: l != nil && b != nil && sum != nil
# a line that would have to shrink is infinitely bad
ensures fits: imp(sum.shrink - b.totals.shrink <= 0 && result < 10000, sum.width - b.totals.width + ite(node.nodeType == 0, node.width, 0) <= ideal)
ensures sign: imp(sum.shrink - b.totals.shrink <= 0, result >= 0)

func (*github.com/fredbi/go-typeset/linebreak.LineBreaker).buildUniformLengths
params l width
property L02
requires some: l != nil && l.options != nil
ensures one: len(result) == 1 && result[0] <= width * l.scaleFactor

func github.com/fredbi/go-typeset/linebreak.skipNodes
params start nodes
property L01
requires range: 0 <= start && start <= len(nodes)
ensures range: start <= result && result <= len(nodes)
ensures skipped: forall(j, start, result, nodes[j].nodeType != 2)
loop [k:int+] forall(j, start, start + k, nodes[j].nodeType != 2)
loop [k:int!] forall(j, start, k, nodes[j].nodeType != 2)

# used with a single blank
func github.com/fredbi/go-typeset/linebreak.repeatRunes
params in times
property L01
requires times: 0 <= times && len(in) == 1 && times <= 1048576
ensures len: len(result) == times
ensures fresh: fresh(result)
ensures blanks: forall(i, 0, len(result), result[i] == in[0])
loop [j:int+ o:[]rune!] len(o) == j
loop [o:[]rune!] len(o) <= times
loop [o:[]rune!] forall(i, 0, len(o), o[i] == in[0])
loop [o:[]rune!] fresh(o) && off(o) == 0
