import json
P=[]
def p(id,title,stmt,over,otext,why,files,mech,state=None,obs=None):
    d=dict(id=id,title=title,statement=stmt,quantifier=dict(over=over,text=otext),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=a,where=b) for a,b in mech]))
    if state: d['anchors']['state']=[dict(name=a,meaning=b,where=c) for a,b,c in state]
    if obs: d['anchors']['observe_at']=obs
    d['anchors']['hook_needed']=None
    assert len(title)<=80,title
    P.append(d)
NS='normalizedstring/normalizedstring.go'
ST=[('original','text before any change',NS),('normalized','text after all changes',NS),('alignments','per normalized byte, the original byte range it comes from',NS),('originalShift','absolute position of a slice in the root original text',NS)]
p('C01','Alignment map stays well formed under every edit history',
 'After any sequence of edits and slicings of a text obtained from a string, there is exactly one original-text byte range per byte of the normalized text, and each range lies inside the original text. Read left to right the ranges never go backwards and never partially overlap: any two are equal, or the later one starts at or after the end of the earlier one. No edit changes the original text or the absolute original position.',
 ['inputs','histories'],'every string, every finite sequence of map, case, filter, trim, prepend, append, replace, transform, slice and split operations with any callbacks and patterns',
 'Tests compare a few literal alignment tables for short strings; the invariant quantifies over all strings and all edit sequences.',
 [NS],[('FromString alignment construction','alignmentsFromString'),('alignment splicing','NormalizedString.TransformRange'),('shifted copy','NormalizedString.Slice')],ST,['OriginalAlignments','CoerceRangeToOriginal of one-byte ranges'])
p('C02','Edit operations produce exactly the specified text',
 'Mapping replaces each character by its image, filtering keeps exactly the characters accepted by the predicate in order, trimming removes exactly the leading and/or trailing white-space run, prepending and appending to a non-empty text concatenate, replacing substitutes every pattern match and nothing else, and a range transformation rewrites only the given range to exactly the given characters. Lower- and upper-casing map every character to its Unicode simple case counterpart. Equality is of character sequences: a byte that is not valid UTF-8 counts as the replacement character.',
 ['inputs','histories'],'every current text, callback, pattern, content and valid range',
 'Tests cover fixed ASCII and a few multi-byte words; the text law must hold for every character mix, match layout and replacement length.',
 [NS],[('rebuild of normalized text','NormalizedString.TransformRange'),('change list builders','Map, Filter, TrimLeftRight, Prepend, Append, Replace')],ST,['Get'])
p('C03','Edits keep each surviving character aligned to its own source',
 'After mapping, case change, filtering or trimming, every surviving character is aligned to exactly the original range it was aligned to before, whatever the byte lengths of the characters removed or produced. A character inserted by an edit shares the range of the character just before it in the text being edited (an empty range at position 0 when there is none), replacement text that of the last character replaced, prepended text shares the range of the first character and appended text that of the last. Everything outside the edited range keeps its alignment.',
 ['inputs','histories'],'every text with characters of any byte length, every edit',
 'Byte and character counts coincide on the ASCII inputs that most tests use; misalignment appears only with particular mixes of character widths and positions.',
 [NS],[('offset bookkeeping per change','NormalizedString.TransformRange'),('initial offset for removed prefix','Filter, TrimLeftRight, Replace')],ST,['CoerceRangeToOriginal','GetOriginalRange'])
p('C04','Range conversion and extraction are exact and never out of bounds',
 'A non-empty in-bounds normalized range converts to exactly the original span from the start of its first byte\'s source to the end of its last byte\'s source; a non-empty original range converts to the normalized bytes whose source lies inside it, never including a byte whose source reaches outside. A range already in the wanted referential and an empty range are returned unchanged. Extracting any range, normalized or original, either returns exactly that slice of text or reports failure, without panicking.',
 ['inputs','histories'],'every text reachable by edits, every pair of integers as a range in either referential',
 'Tests probe a dozen ranges on two strings; the law ranges over all edited texts and all integer bounds, including reversed and out-of-range ones.',
 [NS,'normalizedstring/range.go'],[('conversion','CoerceRangeToNormalized, CoerceRangeToOriginal'),('extraction','GetRange, GetOriginalRange')],ST,['CoerceRangeToNormalized','CoerceRangeToOriginal','GetRange','GetOriginalRange'])
p('C05','Original-to-normalized table is the exact inverse of the alignments',
 'The table of normalized ranges per original byte has exactly one entry per original byte, for every text reachable by edits, including an empty one. The entry of an original byte covered by some aligned range is exactly the run of normalized bytes aligned to that range; the entry of a byte that was removed is an empty range located between the runs of its neighbours, after everything whose source ends at or before that byte and before the rest.',
 ['inputs','histories'],'every text reachable by edits',
 'Checked by tests on a handful of words; group merging and gap filling depend on the exact pattern of equal, empty and skipped ranges.',
 [NS],[('group and gap reconstruction','NormalizedString.OriginalAlignments')],ST,['OriginalAlignments'])
p('C06','Slices carry their text, alignments and absolute original position',
 'Slicing at a range on character boundaries yields exactly that normalized text, the original text it came from, and alignments that select the same original text as in the parent, and leaves the parent unchanged. The absolute original offsets of a slice of a non-empty range, at any nesting depth, select in the root original text exactly the original text of the slice. A range off a character boundary or out of bounds is refused, not sliced.',
 ['inputs','histories'],'every reachable text, every range, every nesting of slices',
 'Offset arithmetic composes across nested slices and earlier edits; tests only see one level on unedited strings.',
 [NS,'strutils/strutils.go'],[('shifted copy','NormalizedString.Slice'),('boundary test','rangeIsValid, IsRuneBoundary')],ST,['Slice','OriginalOffsets','GetOriginal'])
p('C07','Splitting follows the delimiter behaviour and loses nothing else',
 'Splitting cuts the text at the pattern matches: with the isolated behaviour the pieces are exactly the match and non-match stretches in order, with removed exactly the non-match stretches, with merged-with-previous (merged-with-next) each match that directly follows (precedes) a non-match stretch is joined to it and any other match stands alone, and with contiguous every maximal run of stretches of the same kind becomes one piece. Except for removed, the concatenation of the pieces is the whole text; each piece is the slice of the source at its position, and the source is unchanged. For text that is valid UTF-8 and patterns that cut at character boundaries it never fails.',
 ['inputs','configurations'],'every text, every contiguous capture list a pattern can return, all five behaviours',
 'Tests run five behaviours on one ASCII string; the merging logic depends on runs of adjacent matches at every position.',
 [NS],[('behaviour state machines and slicing','NormalizedString.Split')],ST,['Split'])
p('C08','Split patterns tile the text with contiguous ordered captures',
 'For every text and every built-in pattern (predicate, character, literal string, both regular-expression flavours, inverted), the returned captures are contiguous, start at 0, end at the byte length of the text and come in order; an empty text gives one empty non-match. For predicate and character patterns a capture is a match exactly when it is a single character satisfying the predicate, and non-matches are maximal; for the others matches are exactly the engine\'s matches (none for the empty literal; a literal is valid UTF-8, and the regular-expression engine is taken to enumerate finitely many matches without panicking), and a failure of the engine, such as a time limit, is returned. Inverting flips every match flag and changes nothing else.',
 ['inputs','configurations'],'every string (including invalid UTF-8), predicate, character, literal and regular expression',
 'Tests check short ASCII strings; coverage of the whole text must hold for every mix of character widths, match positions and empty matches.',
 ['splitpattern/func.go','splitpattern/rune.go','splitpattern/string.go','splitpattern/regexp.go','splitpattern/regexp2.go','splitpattern/invertedpattern.go'],[('capture emission','FindMatches of each pattern')],None,['FindMatches'])
p('C09','Pre-tokenized text keeps its pieces through split, normalize and tokenize',
 'Splitting replaces each piece that has no tokens by the non-empty pieces the callback returned for it, in order, keeps pieces that already have tokens untouched, and on a callback error leaves the list of pieces as it was. Normalizing and tokenizing visit each piece without tokens exactly once, in order, and stop at the first error; tokenizing attaches exactly the returned tokens. The original-offset report gives each piece\'s text with its absolute original offsets, and the normalized-offset report gives consecutive ranges starting at 0 whose lengths are the piece lengths.',
 ['inputs','histories'],'every list of pieces, every callback behaviour including errors',
 'There are no direct tests of this type; the laws quantify over callbacks and interleavings of steps.',
 ['pretokenizedstring/pretokenizedstring.go','pretokenizedstring/split.go'],[('piece list rebuild','Split, Normalize, Tokenize'),('reports','GetOriginalByteSplits, GetNormalizedByteSplits')],[('splits','ordered pieces with optional tokens','pretokenizedstring/pretokenizedstring.go')],['Splits','GetOriginalByteSplits','GetNormalizedByteSplits'])
p('C10','Encodings are parallel arrays with tokens mapped to the original text',
 'Building the encoding yields, for every token of every piece in order, one entry in each of the id, type id, token, word, offset, special-token mask (0) and attention mask (1) lists, all of the same length. Each token\'s offsets are the absolute original span of its range within its piece (a range that does not lie in the piece is kept as it is), the word index is the given one or, if negative, the index of the piece, and the type id is the given one. It fails if some piece has no tokens and gives an empty encoding when there are no pieces. The length of an encoding is that of its lists, and building one from given lists keeps each of them in its place.',
 ['inputs','histories'],'every list of pieces with tokens, every word index and type id',
 'No test calls it; correctness composes token ranges, alignments and nested slice positions.',
 ['pretokenizedstring/pretokenizedstring.go','encodings/encodings.go'],[('assembly','IntoEncoding, EncodingFromEncodableTokens')],None,['Encoding fields'])
p('C11','Vocabulary is a consistent bijection between terms and ids',
 'Starting from an empty vocabulary, or one loaded from a file with ids 0..n-1, adding a new term gives it the id equal to the previous size and adding a known term changes nothing; ids and terms never change afterwards. Looking up the id of a term and then the term of that id returns the same term, and conversely, for every term and id present; absent ones are reported as not found.',
 ['inputs','histories'],'every sequence of additions and lookups, every term',
 'One short insertion sequence is tested; the invariant couples two maps over all histories.',
 ['vocabulary/vocabulary.go'],[('two-way maps','AddTerm, FromJSONFile, GetID, GetString')],[('termToID / idToTerm','two directions of the mapping','vocabulary/vocabulary.go')],['GetID','GetString','Size'])
p('C12','BPE tokens tile the word and carry the right ids and values',
 'When every character of the word is in the vocabulary or an unknown token is configured, the tokens of a BPE tokenization have consecutive byte ranges that start at 0 and end at the byte length of the word, each with the vocabulary term of its id as value. Characters are looked up with the continuing-subword prefix on every character but the first and the end-of-word suffix on the last; an unknown character becomes the unknown token, and consecutive unknowns form one token exactly when fusion is enabled. A configured unknown token that is not in the vocabulary is reported as an error and an empty word gives no tokens.',
 ['inputs','configurations'],'every word, vocabulary, merge table, dropout and option combination',
 'Tests tokenize one ASCII word without unknowns, prefix or suffix.',
 ['models/bpemodel/bpemodel.go','models/bpemodel/word.go'],[('symbol construction','mergeWord'),('token construction','wordToTokens'),('length conservation','MergeAll, MergeWith')],None,['Tokenize'])
p('C13','BPE applies merges by rank, leftmost first, to a fixpoint',
 'Without dropout, the result of merging equals the one obtained by repeatedly merging, among all adjacent pairs present in the merge table, the one with the lowest rank (the leftmost on ties) until no adjacent pair can be merged, for merge tables in which the merged symbol identifies the merged pair. With dropout, every resulting symbol still arises from merges in the table, and with dropout 1 no merge happens.',
 ['inputs','configurations','histories'],'every sequence of symbols, every merge table, every outcome of the dropout draws',
 'One word with eight merges is tested; stale queue entries, ties, overlapping pairs and dropout draws give unbounded histories.',
 ['models/bpemodel/word.go','models/bpemodel/wordmerge.go','models/bpemodel/mergemap.go'],[('priority queue of merges','Word.MergeAll'),('queue order','WordMergeHeap.Less')],[('Word','linked list of symbols in a slice','models/bpemodel/word.go')],['Word.MergeAll','Tokenize'])
p('C14','WordPiece is greedy longest-match-first with an all-or-nothing fallback',
 'A word within the character limit is cut from left to right, each time taking the longest vocabulary entry that matches at the current position and ends on a character boundary (with the continuation prefix after the first piece), for words of any script. The tokens have consecutive byte ranges covering the whole word with the matching id and value. If some position has no match, or the word has more characters than the limit, the result is the single unknown token covering the whole word, or an error if the unknown token is not in the vocabulary.',
 ['inputs','configurations'],'every word, vocabulary, prefix, unknown token and limit',
 'Only ASCII words are tested; stepping back over candidates must respect characters of every byte length.',
 ['models/wordpiecemodel/wordpiecemodel.go'],[('longest-match loop','WordPieceModel.Tokenize')],None,['Tokenize'])
p('C15','Byte-level pre-tokenization is a lossless byte-to-character encoding',
 'Every byte value has its own printable character, distinct from that of any other byte, so that the pieces produced by byte-level pre-tokenization of a valid UTF-8 text decode back to exactly its bytes, with one space in front when the prefix option is on and the text is not empty and does not already start with white space. Each produced character is aligned to the source character its byte came from, and pieces follow the matches of the configured expression. The default configuration has the prefix option on.',
 ['inputs','configurations'],'every valid UTF-8 text, every option combination and expression',
 'Tests check five sentences; losslessness and alignment range over all 256 bytes and all character widths.',
 ['pretokenizers/bytelevelpretokenizer/bytelevelpretokenizer.go'],[('byte table','init, byteToRune'),('byte expansion','PreTokenize')],[('byteToRune','table from byte to character','pretokenizers/bytelevelpretokenizer/bytelevelpretokenizer.go')],['GetNormalizedByteSplits','GetOriginalByteSplits'])
p('C16','Delimiter, white-space, word and BERT pre-tokenizers cut exactly at delimiters',
 'White-space splitting and character-delimiter splitting return exactly the maximal stretches without delimiter, in order; BERT splitting in addition isolates every punctuation character; the word pre-tokenizer returns exactly the matches of its expression. No delimiter, and no empty piece, survives, every other character is kept, and each piece\'s original offsets select exactly its source text. Text that is valid UTF-8 never makes them fail.',
 ['inputs','configurations'],'every text, delimiter and expression',
 'Tests use a few sentences; the partition law quantifies over all texts and characters.',
 ['pretokenizers/bertpretokenizer/bertpretokenizer.go','pretokenizers/whitespacesplitpretokenizer/whitespacesplitpretokenizer.go','pretokenizers/whitespacepretokenizer/whitespacepretokenizer.go','pretokenizers/runedelimiterpretokenizer/runedelimiterpretokenizer.go'],[('pattern and behaviour choice','PreTokenize of each type')],None,['GetOriginalByteSplits','GetNormalizedByteSplits'])
p('C17','Meta-space pre-tokenization marks spaces and cuts before each marker',
 'For valid UTF-8 text, every space becomes the marker and the text is cut just before each marker, so that each piece after the first starts with the marker and contains no other marker and no space; nothing else is altered or lost. With the prefix option, a non-empty text that starts neither with white space nor with the marker gets exactly one marker in front; otherwise nothing is added. The default configuration marks with U+2581 and has the prefix option on.',
 ['inputs','configurations'],'every text, marker character and prefix option',
 'Two sentences are tested.',
 ['pretokenizers/metaspacepretokenizer/metaspacepretokenizer.go'],[('prefix, replace, split','PreTokenize')],None,['GetNormalizedByteSplits'])
p('C18','Normalizers apply exactly their documented transformations',
 'BERT normalization, in this order and each only if enabled, removes NUL, replacement and control characters (tab, newline and carriage return excepted) and turns every white-space character into a space, puts one space on each side of every CJK ideograph and of nothing else, removes non-spacing marks, and lower-cases. Strip removes white space at the enabled ends only, lower-casing maps every character, and a sequence applies its members in order and stops at the first error, which it returns.',
 ['inputs','configurations'],'every text, every option combination, every list of normalizers',
 'Tests use short strings with all options on; classification must be right for every character and flag combination.',
 ['normalizers/bertnormalizer/bertnormalizer.go','normalizers/stripnormalizer/stripnormalizer.go','normalizers/lowercasenormalizer/lowercasenormalizer.go','normalizers/sequencenormalizer/sequencenormalizer.go'],[('steps','BertNormalizer.Normalize and helpers'),('delegation','Normalize of the others')],None,['NormalizedString.Get'])
p('C19','Character-boundary test and byte-to-character offset conversion are exact',
 'An index is a character boundary exactly when it is 0, the length, or lies inside the text on a byte that is not a UTF-8 continuation byte; any other index, negative or too large, is not. Converting a byte range of a text to a character range counts exactly the characters before its start and, for an end on a character boundary, before its end, for every in-bounds range of every text; on an empty text the result is the empty range at 0.',
 ['inputs'],'every string and every in-bounds byte range',
 'The converter has no test and the boundary test samples seven indices of one string.',
 ['strutils/strutils.go'],[('bit test','IsRuneBoundary'),('byte to character table','NewBytesToRuneOffsetConverter, Convert')],None,['IsRuneBoundary','Convert'])
p('C20','Merge files load in rank order or are rejected as a whole',
 'Loading a merge file assigns to each line that is not a version header the rank equal to its position among such lines, and maps the pair of ids of its two terms to that rank and to the id of the first term followed by the second without its prefix; if a pair is repeated the last line wins. A line that does not consist of exactly two terms separated by one space, a term or merged term missing from the vocabulary, a second term shorter than the prefix, or a read failure makes the load return an error and no table; it never panics.',
 ['inputs','configurations'],'every file content, vocabulary and non-negative prefix length',
 'One well-formed three-line file is tested.',
 ['models/bpemodel/mergemap.go'],[('line parser','MergeMapFromFile'),('table','MergeMap.Get, Set')],None,['MergeMapFromFile','MergeMap.Get'])
p('C21','Tokenizing and pattern matching never modify models, vocabularies or patterns',
 'Tokenizing with any model, matching with any pattern, and normalizing or pre-tokenizing with any built-in component leave the model, its vocabulary and merge table, the pattern and the component exactly as they were. Hence without dropout the same input gives the same result whatever calls were made before.',
 ['histories','inputs'],'every history of calls on a shared component',
 'Tests use each component for one or a few calls and never compare its state.',
 ['models/bpemodel/bpemodel.go','models/wordpiecemodel/wordpiecemodel.go','vocabulary/vocabulary.go','splitpattern/func.go'],[('read-only methods','Tokenize, FindMatches, Normalize, PreTokenize')],None,['Tokenize twice'])
p('C22','No input text makes the library panic',
 'For every byte string, valid UTF-8 or not, building a text, applying any built-in normalizer, pre-tokenizer and model with any options to it and assembling the encoding never panics and always terminates; failures are reported as errors only. (The regular-expression engines themselves are taken to terminate without panicking.)',
 ['inputs','configurations','histories'],'every byte string and every pipeline of built-in components',
 'Crashes need particular byte patterns (truncated or stray UTF-8 bytes, empty text after filtering, multi-byte white space) that no test contains.',
 [NS,'splitpattern/func.go','pretokenizers/bytelevelpretokenizer/bytelevelpretokenizer.go','models/bpemodel/word.go'],[('index, slice, nil and map safety in every function','all packages')],None,['any API call'])
p('C23','Components shared between goroutines behave as if used one at a time',
 'When several goroutines use the same model, pattern, normalizer or pre-tokenizer on separate texts at the same time, each obtains the result it would obtain alone, without data races.',
 ['schedules'],'every interleaving of calls from any number of goroutines on shared components',
 'Tests run single-threaded with respect to each component.',
 ['models/bpemodel/bpemodel.go','splitpattern/regexp2.go'],[('read-only use of shared state','Tokenize, FindMatches')],None,['concurrent Tokenize'])
open('/verif/properties.jsonl','w').write(''.join(json.dumps(x,ensure_ascii=False)+'\n' for x in P))
print(len(P))
