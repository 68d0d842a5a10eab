RANDOM = "random and enumerated inputs from a seed, within the time stated; the exported API of the real code against an independent oracle"
prop("R01", "runesio", bound=RANDOM)
prop("R02", "runesio", bound=RANDOM)
prop("R03", "runesio", bound=RANDOM, note="Writers are modelled as opaque receivers of one event per write.")
prop("F01", "split", bound=RANDOM)
prop("P01", "split", bound=RANDOM)
prop("H04", "split", bound=RANDOM)
prop("W01", "runes", bound="every rune value of Unicode and some outside, "+RANDOM)
prop("W02", "runes", bound="every code point, "+RANDOM)
prop("W03", "runes", bound=RANDOM)
prop("W04", "runes", bound="every code point under six settings, "+RANDOM)
for a in "A01 A02 A03 A04".split():
    prop(a, "ansi", bound=RANDOM)
prop("T01", "trie", dir="wordbreak/hyphenator", bound=RANDOM)
HYP = "wordbreak/hyphenator"
LIANG = RANDOM + "; oracle: pattern files read and applied independently"
prop("H01", "hyph", dir=HYP, bound=RANDOM)
prop("H02", "hyph", dir=HYP, bound=LIANG)
prop("H03", "hyph", dir=HYP, bound=RANDOM, note="That exactly the same runes are hyphens after lower-casing is an assumed fact of Unicode, checked for every code point by the bounded check. ")
prop("H05", "hyph", dir=HYP, bound="every pattern and exception of the embedded files, as a word, "+LIANG,
     bounded=["hyphenator.LoadPatterns (file and scanner are library code)"],
     note="strings.ReplaceAll, ToLower and HasPrefix have assumed contracts. LoadPatterns, the loop over the lines, is covered by the bounded check only. ")
prop("H07", "hyph", dir=HYP, bound=LIANG + ", also concurrently",
     note="Frames: nothing that existed before the call is written, so calls are independent of each other and of concurrent ones. ")
prop("H06", "hyph", dir=HYP, level="other", bound="every tag of the base languages with every region, script and extension of a list, names of languages, "+RANDOM,
     bounded=["hyphenator.langToPattern (the matcher is library code)"],
     note="Proved: the options that carry the language reach the dictionary that is loaded. What the library's matcher makes of a tag, hence the choice of the pattern file, is covered by the bounded check only. ")
prop("S01", "attr", dir="attributes", bound=RANDOM,
     note="container/list is verified code (inlined), the renderers themselves are behind their interface. Fewer than 2^40 renderers and levels within 2^40. ")
prop("S02", "attr", dir="attributes", bound=RANDOM, note="Writers and renderers are modelled as opaque receivers of one event per call. ")
LB = "linebreak"
LBB = RANDOM + "; paragraphs of up to 60 tokens under various options"
FL = "Floating point is treated as real numbers. "
prop("L01", "linebreak", dir=LB, level="other", bound=LBB, bounded=["linebreak.render", "linebreak.breakPoints"],
     note=FL + "Proved: the functions listed in the evidence. Rendering is covered by the bounded check only. ")
prop("L02", "linebreak", dir=LB, level="other", bound=LBB, bounded=["linebreak.render", "linebreak.breakPoints"],
     note=FL + "Proved: the functions listed in the evidence. That rendered lines have the width of their nodes is covered by the bounded check only. ")
prop("L03", "linebreak", dir=LB, level="exploration", bound="repeated runs on the same input, in one process and in several, " + LBB + "; every case is a non-trivial paragraph drawn from its own number",
     note="Bounded: no contract relates two runs. ")
prop("L04", "linebreak", dir=LB, level="exploration", bound="paragraphs, with and without escape sequences, before the one compared; " + LBB + "; every case is a sequence of paragraphs drawn from its own number",
     note="Bounded: the state carried over between calls is compared by its effects. ")
NA = {"L05": "The implementation does not optimise: total demerits are never accumulated (a candidate's own total is carried over unchanged) and the property does not hold; a repair is a redesign of the algorithm, not a small patch, and no contract within reach relates the result to every other layout."}
