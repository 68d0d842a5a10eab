#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the statements stay reviewable)."""
import json, os
P = []
def p(id, title, statement, over, q, why, files, mech, state=(), obs=(), hook=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=q), why_tests_cant=why,
        anchors=dict(files=files,
            state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
            mechanism=[dict(name=a, where=b) for a, b in mech],
            observe_at=list(obs), hook_needed=hook)))

RD='terminal/runes/runesio/slice_reader.go'; WR='terminal/runes/runesio/writer.go'
p('R01','A rune reader is an exact cursor over its slice',
  'Whatever sequence of reads and seeks a rune slice reader goes through, its position stays between 0 and the number of runes; reading returns the rune at that position with its UTF-8 length and advances by one, or reports end of input without moving. Seeking relative to start, current position or end lands exactly on the requested position when it lies within the slice, and otherwise reports an error and leaves the position unchanged. The unread runes and every requested sub-slice are exactly the corresponding runes of the input, and no operation modifies the input or panics for positions within range.',
  ['histories','inputs'],'every rune slice, every history of reads and seeks, every 64-bit seek offset, all three origins',
  'Tests walk one fixed string with half a dozen seeks; the claim is about every history and every offset, including huge ones.',
  [RD],[('ReadRune',RD),('Seek range check',RD),('Runes/Slice/Slices',RD)],
  [('offset','position of the next rune to read',RD)],['return values of ReadRune, Seek, Runes, Slice, Slices'])
p('R02','Byte-offset slicing agrees with UTF-8 slicing',
  'For runes that are valid Unicode code points and pairs of byte offsets that fall on rune boundaries of the UTF-8 encoding, the slice returned for each pair is exactly the runes encoded between the two offsets, in order, one slice per pair. The input runes and offsets are not modified, and the reader position neither matters nor changes.',
  ['inputs','histories'],'all valid rune slices, all lists of aligned offset pairs, any reader state',
  'One test string with one 2-byte rune and three pairs; the mapping must hold for every mix of 1- to 4-byte runes, empty ranges and range ends.',
  [RD],[('SliceFromByteOffsets double counter loop',RD)],(),['result of SliceFromByteOffsets'])
p('R03','The rune writer emits exact UTF-8 in a single write',
  'Writing a rune or a slice of runes hands the underlying writer, in exactly one write, the UTF-8 encoding of those runes in order, with each invalid code point encoded as U+FFFD. The byte count and error returned are those of the underlying writer, and the runes given are not modified.',
  ['inputs','fault_sequences'],'all rune values (including negative, surrogates and above U+10FFFF), all slices, all writer outcomes (short writes, errors)',
  'Tests write three short strings to a buffer that never fails.',
  [WR],[('writeRune / writeRunes encoding loops',WR)],(),['bytes received by the io.Writer','returned count and error'])
W='terminal/runes/width.go'; LK='terminal/runes/lookup.go'; TB='terminal/runes/runes_tables.go'; OP='terminal/runes/options.go'
p('W01','Width of text is the sum of rune widths, for any text',
  'For every slice of runes and every combination of options, the measured width of the slice equals the sum of the widths of its runes measured one by one with the same options; the width of a string equals that of its runes. Measuring never panics, whatever the rune values.',
  ['inputs','configurations'],'all int32 rune values (valid or not), all slices and strings, all option combinations',
  'Tests compare a few dozen strings; additivity and panic-freedom quantify over all rune values, including those outside Unicode and those special-cased in only one of the two functions.',
  [W,LK],[('packed lookup table',LK),('slow path for East-Asian mode',W),('special case for wide dashes',W)],
  [('lookupTable','packed 2-bit widths for all code points',LK)],['Width','Widths','StringWidth'])
p('W02','Rune width follows the Unicode 15 width classes',
  'Without East-Asian options, each code point has width 0 if it is a control, an invalid code point, the replacement character, a soft hyphen, an unprintable format character or a combining mark; 3 and 4 for the two- and three-em dashes; 2 if Unicode 15 classifies it as Wide or Fullwidth; and 1 otherwise. The precomputed table used for speed agrees with that classification for every code point.',
  ['inputs'],'all 2^32 rune values',
  'Tests sample a few characters per class; a wrong boundary in a table, in the packing or in the search only shows on particular code points.',
  [W,LK,TB],[('binary search in interval tables',LK),('2-bit packing',LK),('generated tables',TB)],
  [('doublewidth, combining, narrow, nonprint','sorted disjoint interval tables',TB)],['Width of every code point'])
p('W03','Width options are local to the call',
  'The result of measuring a rune or a text depends only on the text and the options passed to that very call. Options given to one call, in any order or number, never influence another call, and later options override earlier ones.',
  ['histories','configurations'],'all interleavings of calls with arbitrary option lists',
  'Tests call each function once per option set; leakage through shared defaults needs a particular sequence of calls.',
  [OP,W],[('copy of the defaults before applying options',OP)],[('defaultOptions','shared default settings',OP)],['Width, Widths after any prior calls'])
p('W04','East-Asian options only affect ambiguous and emoji runes as documented',
  'With East-Asian mode on, a rune that Unicode 15 classifies as Ambiguous and that is otherwise printable gets the configured ambiguous width (2 by default); with the broken-emoji-font option also on, pictographic symbols beyond Latin-1 that would otherwise be width 1 get width 2; all other runes keep their default width. Without East-Asian mode the other two options have no effect, and the ambiguity test is true exactly for the code points Unicode 15 classifies as Ambiguous.',
  ['inputs','configurations'],'all rune values, both flags, every ambiguous width',
  'Tests check some ambiguous characters with the default width only.',
  [W,LK,TB,OP],[('runeWidth decision order',W),('ambiguous / emoji tables',TB)],(),['Width with options','IsAmbiguous'])
F='terminal/runes/fields.go'; TK='wordbreak/tokenizer/tokenizer.go'
p('F01','Tokens are exactly the maximal runs between separators',
  'Splitting a text with a separator predicate yields, in order, exactly the maximal runs of consecutive non-separator runes: no token is empty or contains a separator, each is the very sub-slice of the input, and every non-separator rune is in exactly one token. The blank tokenizer does this for Unicode white space; the input is not modified.',
  ['inputs'],'all rune slices and all pure predicates',
  'Tests use a dozen strings; maximality, order and completeness are quantified over all inputs.',
  [F,TK],[('start index state machine',F)],(),['FieldsFunc','Tokenizer.BreakWord, BreakWordString'])
PU='wordbreak/punctuator/punctuator.go'
p('P01','Punctuation breaking is lossless and isolates each mark',
  'Breaking a word on punctuation yields non-empty parts whose concatenation is the word; each punctuation mark (Unicode punctuation or "|", hyphens excluded) is a part of its own, and every other part is a maximal run without such marks. A part is reported as punctuation exactly when it is one such mark alone; the input is not modified.',
  ['inputs'],'all rune slices',
  'Tests use a handful of words; adjacent marks, leading and trailing marks and marks beyond ASCII need the universal claim.',
  [PU],[('breakAtFunc',PU),('punctSplitFunc',PU)],(),['BreakWord, BreakWordString, IsPunctuation'])
A='terminal/ansi/ansi.go'
p('A01','Stripping ANSI sequences loses no rune',
  'For every token, the fields obtained by scanning once (start sequence, text, stop sequence, remainder, in that order) concatenate to the token, and the list obtained by scanning it completely concatenates to the token likewise. The order of all runes is preserved.',
  ['inputs'],'all rune slices, well-formed or not',
  'Tests compare well-formed examples; malformed, truncated and chained sequences are unbounded.',
  [A],[('decode / rewind state machine',A)],(),['StripANSIFromRunes','StripToken'])
p('A02','Start and stop sequences are classified by the escape grammar',
  'Every start (stop) sequence reported is one complete control sequence: ESC [, then parameters of at most three digits separated by ";" or ":", then one key rune which is s, h, or m whose first parameter is present and not all zeros (u, l, or m whose first parameter is absent or all zeros). Nothing else is ever reported as start or stop.',
  ['inputs'],'all rune slices and all parameter lists',
  'Tests cover some one- and two-digit parameters; three-digit parameters, long lists, odd digits and truncated sequences are not sampled.',
  [A],[('decodeANSISequence parameter scan and key switch',A)],(),['StartSequence and StopSequence fields'])
p('A03','Complete stripping leaves no start or stop sequence in the text',
  'After complete scanning, reading the text of any token from left to right, one control sequence or plain rune at a time, never meets a complete start or stop sequence. Sequences of other kinds may remain.',
  ['inputs'],'all rune slices',
  'Needs every arrangement of escapes, including doubled or truncated ones, that tests do not enumerate.',
  [A],[('decodeText stop condition',A),('StripANSIFromRunes loops',A)],(),['Text fields from StripToken'])
p('A04','Stripping always terminates, never panics, never writes its input',
  'Scanning any token terminates without panic, makes progress on every step, reads nothing beyond the given runes, and never modifies the runes given nor the memory behind them.',
  ['inputs','schedules'],'all rune slices including those ending in the middle of a sequence, and slices of larger arrays; concurrent scans of a shared slice',
  'Truncated sequences that end a slice and slices with spare capacity are not exercised; in-place writes are invisible to value comparisons.',
  [A],[('cursor seeks',A),('append to a sub-slice of the input',A)],(),['absence of panics; contents of the backing array; Remainder length'])
H='wordbreak/hyphenator/hyphenator.go'; D='wordbreak/hyphenator/dictionary.go'
p('H01','Hyphenation is lossless and respects its length limits',
  'For every word, the parts returned by the hyphenator concatenate to the word in order. Words that contain a hyphen, or shorter than the minimum length, come back whole; with minimum left and right lengths of at least 1, every part but the last has at least the minimum left length and the rune count after any break is at least the minimum right length.',
  ['inputs','configurations'],'all rune slices, all languages, all non-negative limits',
  'Tests compare word lists; the limits and losslessness are universal over words, dictionaries and option values.',
  [H],[('splitAtPositions',H),('early return on hyphen / short word',H)],(),['BreakWord, BreakWordString'])
p('H02','Break points are those of Liang\'s pattern algorithm',
  'A word that is not an exception is breakable before its rune i exactly when the largest digit any dictionary pattern assigns to that position, over all occurrences of the pattern in the dot-delimited lower-cased word, is odd, subject to the length limits; a word that is an exception breaks exactly at its listed positions, subject to the same limits. No occurrence of a pattern, in particular at either end of the word, is ignored.',
  ['inputs'],'all words, all dictionaries',
  'Tests fix the outcome for a few hundred words of five languages; a missed pattern occurrence or wrong offset shows only on specific words.',
  [H],[('isPattern fragment scan',H),('mergeBreakPoints',H),('isException',H)],(),['BreakWord'])
p('H03','Hyphenation ignores letter case',
  'Two words that differ only in letter case (equal after lower-casing rune by rune) break at the same positions; this holds for dictionary exceptions as well as for patterns.',
  ['inputs'],'all words, all case variants, all languages',
  'Tests use lower-case words; the claim relates pairs of runs.',
  [H],[('lower-casing before lookup',H)],(),['BreakWord'])
p('H04','Splitting on explicit hyphens is lossless and isolates each hyphen',
  'Splitting a word on its explicit hyphens yields non-empty parts whose concatenation is the word; each hyphen is a part of its own and all other parts are maximal hyphen-free runs. A part is reported as a hyphen exactly when it is a single Unicode hyphen rune.',
  ['inputs'],'all rune slices',
  'Tests use a few words with one or two hyphens.',
  [H],[('SplitWord',H),('IsHyphen',H)],(),['SplitWord, IsHyphen'])
p('H05','Pattern files are read as written',
  'Reading a pattern yields its letters, lower-cased, and for each gap between letters the digit written there or 0; reading an exception yields the lower-cased word without hyphens and a break exactly where a hyphen was written. Every pattern and exception of the embedded files is in the loaded dictionary, and nothing else.',
  ['inputs'],'all pattern lines and all embedded files',
  'Tests check a few lines; last-line and formatting accidents in large files show only on particular words.',
  [D],[('readPattern, readException, LoadPatterns',D)],(),['dictionary lookups through BreakWord'])
LG='wordbreak/hyphenator/languages.go'; HO='wordbreak/hyphenator/options.go'
p('H06','A regional language variant uses the patterns of its language',
  'A language tag or name for English, French, German or Spanish, with any region or extension, selects patterns of that language; unsupported languages fall back to American English. American English is used only for tags best matched by it.',
  ['configurations'],'all well-formed language tags',
  'Tests use exact supported tags only.',
  [LG,HO],[('langToPattern',LG),('WithLanguage',HO)],(),['dictionary identifier and break points'])
CA='wordbreak/hyphenator/cache.go'
p('H07','Hyphenating mutates neither words nor shared dictionaries',
  'Breaking a word modifies neither the word nor the dictionary, which is shared by all hyphenators of the same language, so that the result for a word depends only on the word and the options and never on earlier calls. Concurrent calls are therefore independent.',
  ['histories','schedules'],'all histories of calls on hyphenators sharing a dictionary',
  'A write to a shared pattern value would show only on a later word containing that pattern.',
  [H,CA],[('separate position buffer in mergeBreakPoints',H),('dictionary cache under a lock',CA)],(),['BreakWord results after arbitrary histories'])
T='wordbreak/hyphenator/internal/trie/rune_trie.go'
p('T01','The trie is a finite map from rune strings to values',
  'After any sequence of insertions and deletions, looking up a key yields the value most recently stored at exactly that key and not deleted since, or nothing; other keys, including prefixes and extensions, are unaffected. Insertion reports whether the key held no value before, and deletion of a stored key reports success.',
  ['histories','inputs'],'all histories of operations on all keys, including the empty key',
  'Tests insert a dozen keys; pruning after deletion interacts with prefixes in ways only specific histories reveal.',
  [T],[('Get, Put, Delete',T)],[('children/value','node content',T)],['Get after any history'])
S='attributes/state.go'; AT='attributes/attribute.go'; IF='attributes/iface.go'
p('S01','Nesting levels count open start sequences',
  'Pushing renderers onto a state assigns each one the level of its predecessor, minus one if the predecessor had a stop sequence, plus one if it has a start sequence itself; the first starts from zero. Renderers are kept in push order and iterating yields each exactly once; pushing nothing changes nothing.',
  ['histories'],'all sequences of pushes',
  'Tests push one short sequence.',
  [S],[('Push',S),('Iterator / Next / Item',S)],[('list','renderers in push order',S)],['Level of each renderer','iteration order'])
p('S02','An attribute renders as start, text, stop',
  'Rendering an attribute writes exactly its start sequence, its text and its stop sequence, in that order and nothing else; rendering a collection does this for each element in order, skipping missing elements. Start and stop alone write only their own sequence.',
  ['inputs'],'all attributes and collections',
  'Tests render a few attributes through the line breaker only.',
  [AT,IF],[('Render, Start, Stop',AT),('Renderers.Render',IF)],(),['runes handed to the writer'])
LB='linebreak/linebreaker.go'; KP='linebreak/knuth_plass.go'; KT='linebreak/knuth_plass_types.go'
p('L01','Line breaking preserves the text',
  'Wrapping plain non-empty tokens (without escape sequences, blanks or control characters) yields lines which, after removing the hyphens inserted at line ends, contain exactly the tokens in order separated by single blanks or line ends. No rune is lost, duplicated or reordered.',
  ['inputs','configurations'],'all non-empty token lists, widths and break functions',
  'Tests compare a few paragraphs at fixed widths.',
  [LB,KP],[('leftAlignedNodes / boxNodes',LB),('render',LB)],(),['lines returned by LeftAlignUniform'])
p('L02','No line is wider than requested',
  'With the default measure and scale and a tolerance below 10000 (infinity), every line returned is at most as wide as the requested width, counting an inserted hyphen. When no such layout is found an error is returned, never an over-long line.',
  ['inputs','configurations'],'all token lists and widths',
  'Tests compare a few paragraphs at fixed widths.',
  [LB,KP],[('adjustmentRatio feasibility',KP)],(),['lines returned by LeftAlignUniform'])
p('L03','Line breaking is deterministic',
  'Wrapping the same tokens at the same width with the same options always yields the same lines, in any process and run.',
  ['inputs','schedules'],'all inputs, all map iteration orders',
  'A test that passes once says nothing of other iteration orders.',
  [KP],[('candidate insertion order',KP)],(),['lines returned by LeftAlignUniform'])
p('L04','A line breaker can be reused',
  'The result of wrapping a paragraph does not depend on the paragraphs previously wrapped with the same line breaker. Styles of an earlier paragraph never leak into a later one.',
  ['histories'],'all sequences of calls on one line breaker',
  'Tests build a fresh line breaker for each paragraph.',
  [LB],[('state reset per call',LB)],[('attrList','attribute state collected for the paragraph',LB)],['lines returned by LeftAlignUniform'])
p('L05','Line breaks minimise total demerits',
  'Among all feasible sequences of breaks, the one chosen has the least total demerits as defined by the documented parameters.',
  ['inputs','configurations'],'all paragraphs and parameters',
  'Optimality quantifies over all alternative layouts.',
  [KP],[('mainLoop',KP),('findBestBreak',KP)],(),['lines returned by LeftAlignUniform'])
with open(os.path.join(os.path.dirname(os.path.abspath(__file__)),'..','properties.jsonl'),'w') as f:
    for x in P:
        assert len(x['title'])<=80,(x['id'],len(x['title']))
        f.write(json.dumps(x,ensure_ascii=False)+'\n')
print(len(P))
