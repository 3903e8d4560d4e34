import json
P=[]
def p(id,title,statement,over,qt,why,files,mech,state=(),observe=(),hook=None):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qt),why_tests_cant=why,
      anchors=dict(files=files,state=[dict(name=a,meaning=b,where=c) for a,b,c in state],
      mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=list(observe),hook_needed=hook)))
GC='textseg/grapheme_clusters.go'; ST='textseg/internal/machine/state.go'; PT='textseg/internal/charprops/property_table.go'
RAW='textseg/internal/charprops/property_table_raw.go'; PR='textseg/internal/charprops/properties.go'
GT='textseg/internal/charprops/gentable/generate.go'; GEN='textseg/internal/charprops/generate.go'
VA='autoversion/textseg/version_agnostic.go'; US='textseg/internal/charprops/ucdparse/ucd_scan.go'; TS='textseg/internal/charprops/ucdparse/testdata_scan.go'
U='textseg/internal/charprops/ucd/'
SC='textseg.ScanGraphemeClusters (v17)'
scan=('ScanGraphemeClusters loop',GC); tr=('State.Transition / nextState (GB3-GB999)',ST); lk=('LookupFirstChar',PT)
stt=[('State','summary of the characters before the current one that GB9c/GB11/GB12-13 need',ST)]

p('C01','Valid text is segmented exactly as UAX #29 of Unicode 17 prescribes',
 'For every valid UTF-8 string, repeatedly applying ScanGraphemeClusters to the remaining text at end of input (or driving bufio.Scanner with it) yields exactly the extended grapheme clusters that rules GB1-GB999 of UAX #29 define with Unicode 17.0 character data. No boundary is missing and none is added, whatever the combination, order or number of characters.',
 ['inputs'],'every finite sequence of Unicode scalar values',
 'The 766 official vectors are at most 10 characters long and use one representative per class; sequences of classes, unlisted characters and longer contexts are unbounded.',
 [GC,ST,PT,RAW],[scan,tr,lk],stt,[SC])
p('C02','Segmentation is a lossless partition that always progresses',
 'For every byte sequence, valid UTF-8 or not, the clusters produced are non-empty, contiguous and concatenate to exactly the input: no byte is lost, duplicated, reordered or altered. Every call made at end of input on non-empty data consumes between 1 and len(data) bytes and returns exactly those bytes as the token; no call, at end of input or not, ever returns an error, panics, consumes more than it was given or fails to terminate. An empty buffer yields no token.',
 ['inputs'],'every byte string, including overlong, out-of-range, surrogate and truncated encodings, with either value of atEOF',
 'Tests use valid text plus two hand-written malformed inputs; the table lookup indexes with attacker-controlled bytes.',
 [GC,PT,RAW],[scan,lk],(),[SC,'bufio.Scanner over it'])
p('C03','Clusters do not depend on how the input arrives',
 'For every byte sequence, a bufio.Scanner using ScanGraphemeClusters delivers the same clusters whatever sizes the underlying reads have, whatever the initial buffer size, and however end of input is signalled, and those clusters are the ones obtained from the whole text in one buffer (provided the buffer may grow beyond the longest cluster). If the reader fails part-way, the clusters of the bytes received so far are delivered and then the reader\'s error is reported; if the buffer limit is too small, what was delivered is a prefix of the right clusters followed by bufio.ErrTooLong.',
 ['inputs','schedules','fault_sequences'],'every byte string times every division into reads, buffer size and read fault position',
 'The only streaming test drips one byte at a time through the official valid vectors; other chunkings, malformed text and faults are not exercised.',
 [GC,PT],[('not-enough-data returns (0,nil,nil)',GC),lk],(),['bufio.Scanner with SplitFunc ScanGraphemeClusters'])
p('C04','Each ill-formed byte is its own cluster and does not disturb its neighbours',
 'A byte that does not begin a structurally complete UTF-8 sequence (an impossible lead byte, a stray continuation byte, or a lead byte whose sequence is cut short by another byte or by the end of input) is reported as a one-byte cluster of its own. The valid text before it is segmented as if the text ended there and the valid text after it as if the text began there. Overlong, surrogate and out-of-range encodings are excluded, their treatment being unspecified.',
 ['inputs'],'every byte string whose structurally complete sequences are all valid scalar values',
 'Two tests check one truncated lead byte each; the position, kind and neighbourhood of the bad byte are unbounded.',
 [GC,PT],[('Error property and early return',GC),('LookupFirstChar continuation checks',PT)],(),[SC])
p('C05','Incremental calls are final, and return as soon as the boundary is decided',
 'When called before end of input, ScanGraphemeClusters either asks for more data (0, nil, nil) or returns a cluster that no further input could change. It asks for more whenever the available bytes end inside the cluster or inside the character that follows it, and never when they hold the whole first cluster followed by at least one complete character or a byte already known to be ill-formed. At end of input it never asks for more while bytes remain.',
 ['inputs','histories'],'every byte prefix times every continuation of it',
 'Tests make four such calls by hand; finality quantifies over all continuations.',
 [GC,PT],[('need-more-data exits',GC),('LookupFirstChar length 0',PT)],(),[SC])
p('C06','Scanning is a pure function: stateless, read-only, in-bounds, concurrency-safe',
 'The result of ScanGraphemeClusters depends only on the bytes data[0:len(data)] and on atEOF: not on earlier calls, on bytes beyond the slice\'s length, on where the slice lies in memory, or on calls made concurrently from other goroutines. It never writes to its input or accesses memory outside data[0:len(data)], and concurrent use, including on shared buffers, is free of data races.',
 ['inputs','histories','schedules'],'every history of calls on any buffers, from any number of goroutines',
 'Tests call it from one goroutine, once per input, and never look at the input or surrounding memory afterwards.',
 [GC,ST,PT],[('no package-level mutable state',GC),('State passed by value',ST)],(),[SC])
p('C07','Clusters are stable under cutting and appending text',
 'Cutting any text at a reported cluster boundary and segmenting the two pieces independently gives the same clusters. Appending text after complete valid text never moves a boundary that was already inside it: only the last cluster may grow.',
 ['inputs'],'every text, every reported boundary, every appended text',
 'No test relates the results of two different inputs.',
 [GC,ST],[scan,tr],(),[SC])
p('C08','Every scalar value is treated with its Unicode 17 properties',
 'For each of the 1,112,064 Unicode scalar values, listed in the character data or not, segmentation treats the character according to its Grapheme_Cluster_Break, Extended_Pictographic and Indic_Conjunct_Break values in Unicode 17.0, and as "Other/None" when it has none.',
 ['inputs'],'every Unicode scalar value in every distinguishing context',
 'Table tests visit only code points listed in each file, one property at a time; over a million unlisted characters, and spurious extra properties on listed ones, are never looked up.',
 [RAW,PT,PR],[('lookupIndices / lookupProps trie',RAW),lk],(),[SC])
p('C09','Clusters of any length are recognised whole, with finite state',
 'There is no limit on cluster length: a base followed by any number of extending characters, any run of prepended characters, conjoining jamo, emoji ZWJ elements or linked consonants is one cluster however many thousands of characters it has, and a run of regional indicators pairs correctly however long it is. Repeating a repeatable part of a cluster never introduces a boundary.',
 ['inputs'],'every repetition count and every position in the text',
 'The longest official vector has ten characters.',
 [GC,ST],[scan,tr],stt,[SC,'bufio.Scanner over it'])
p('C10','Regional indicators pair up from the left (GB12/GB13)',
 'In every maximal run of consecutive regional indicator characters the clusters are consecutive pairs counted from the start of the run, with a final single one when the count is odd, whatever precedes or follows the run. Extending characters attach to the preceding cluster and end the run, and prepended characters attach without changing the pairing.',
 ['inputs'],'every run length, interruption and context',
 'Official vectors contain at most four regional indicators, in a handful of contexts.',
 [ST],[('StateAwaitEmojiFlag',ST)],stt,[SC])
p('C11','Emoji ZWJ sequences join exactly when GB11 says so',
 'Two pictographic characters are in one cluster because of a zero-width joiner exactly when what lies between them is any number of extending characters followed by a single ZWJ. Any other sequence of extending, spacing or joiner characters between them leaves a boundary before the second, and a joiner never attaches a non-pictographic character to what precedes it (unless another rule does).',
 ['inputs'],'every chain of pictographic characters with every sequence of extending characters between them',
 'Official vectors have a few short sequences; the pattern between two pictographics is an unbounded language.',
 [ST],[('StateGB11BeforeZWJ / StateGB11AfterZWJ',ST)],stt,[SC])
p('C12','Indic conjuncts join exactly when GB9c says so',
 'Two consonants are in one cluster exactly when what lies between them consists only of conjunct-extending and conjunct-linking characters with at least one linker. A sequence without a linker, or interrupted by any other character such as a spacing mark or ZERO WIDTH NON-JOINER, leaves a boundary before the second consonant.',
 ['inputs'],'every chain of consonants of any script with every sequence of marks between them',
 'Official vectors have about twenty short examples; the pattern is an unbounded language over 900 consonants, 20 linkers and 2,200 extenders.',
 [ST,RAW],[('StateGB9cConsonant / StateGB9cLinker',ST)],stt,[SC])
p('C13','Hangul syllables stay whole, precomposed or decomposed (GB6-GB8)',
 'Every sequence of conjoining jamo and precomposed syllables is divided into the syllable blocks of UAX #29 (L* (V+ | LV V* | LVT) T*, L+, or T+, each with its trailing marks). Replacing a precomposed syllable by its canonical decomposition never changes where the corresponding boundaries are.',
 ['inputs'],'every sequence over all 11,000+ jamo and syllables',
 'Official vectors cover pairs of single representatives only.',
 [ST,RAW],[('GB6-GB8 conditions',ST)],(),[SC])
p('C14','Control characters and line breaks always stand alone (GB3-GB5)',
 'Every control, format-control, CR and LF character is a cluster of its own, except that CR immediately followed by LF is one two-character cluster. The text on either side is segmented as if it stood alone.',
 ['inputs'],'every text around every control character',
 'Official vectors cover pairs with single representatives; 3,893 control characters and arbitrary surrounding context are not covered.',
 [ST,RAW],[('GB3-GB5 conditions',ST),('IsAnyControl',PR)],(),[SC])
p('C15','Extending, spacing and prepended characters attach as GB9, GB9a, GB9b say',
 'A boundary never falls before an extending character, ZWJ or spacing mark that follows any non-control character, nor after a prepended character that is followed by any non-control character. Inserting a spacing mark at the end of a cluster, or a prepended character at its start, enlarges that cluster only and leaves every other cluster as it was.',
 ['inputs'],'every text, every insertion position, every such character',
 'Official vectors cover pairs of single representatives; no test compares a text with an edited one.',
 [ST,RAW],[('GB9, GB9a, GB9b conditions',ST)],(),[SC])
p('C16','Unicode Character Database files are parsed faithfully',
 'Reading any well-formed UCD property file yields, in order, exactly its data lines: each with the code point range it names (a single code point or first..last inclusive) and all of its fields, trimmed, each time they are asked for, regardless of spacing, comments, blank lines, line endings or how the reader delivers bytes. A data line with an invalid code point yields an error rather than an entry, an error of the underlying reader is reported and not taken for end of file, and end of file is reported only after the last entry.',
 ['inputs','fault_sequences'],'every UCD-format file and reader behaviour',
 'One six-line example file is tested, without malformed lines or read errors.',
 [US],[('Scanner.NextEntry',US),('Fields.Strings',US)],(),['ucdparse.Scanner.NextEntry'])
p('C17','Segmentation conformance vectors are parsed faithfully',
 'Reading any file in the format of GraphemeBreakTest.txt yields, in order, one entry for each data line whose input is exactly the UTF-8 encoding of the listed code points and whose expected segments are exactly those delimited by the division marks, so that segments concatenate to the input. Comments and blank lines yield nothing, a value that is no Unicode scalar value yields an error, and reader errors are reported.',
 ['inputs','fault_sequences'],'every conformance file and reader behaviour',
 'The parser has no test of its own, yet every conformance test relies on it: a line it drops or garbles is silently not tested.',
 [TS],[('TestDataScanner.NextEntry',TS)],(),['ucdparse.TestDataScanner.NextEntry'])
p('C18','Table generation encodes any character data exactly',
 'For every well-formed set of UCD input files, the generated lookup table gives every Unicode scalar value exactly the properties the files assign to it, and none to characters the files do not mention, however the ranges fall relative to UTF-8 length and block boundaries and however many distinct blocks there are. A file that cannot be read, a line with an invalid code point, or a character given both a grapheme-break value and Extended_Pictographic makes generation fail rather than produce a table, as does data that needs more blocks than the emitted table can index. Generation that cannot write the whole table fails too.',
 ['inputs','configurations','fault_sequences'],'every UCD data set',
 'The generator package has no tests; only the one table it produced from Unicode 17 data is (partly) tested.',
 [GT,GEN,US,PR],[('treeInProgress.ensureProps / Compact',GT),('LookupGCBProperty / LookupEmojiProperty / LookupInCBProperty',PR),('main',GEN)],
 [('rawProps/indices','sparse trie under construction',GT)],['gentable.BuildRawPropertyTree','go generate output as seen through ScanGraphemeClusters'])
p('C19','The shipped table is the one its shipped Unicode 17 data generates',
 'The Unicode data files in the repository assign every code point its Unicode 17.0.0 properties. Running the repository\'s table generator on them yields a table with which segmentation behaves exactly as with the committed one for every scalar value, so regenerating never changes behaviour.',
 ['inputs','configurations'],'every Unicode scalar value, for the regenerated and the committed table',
 'No test runs the generator, and the tests read the same data files the generator does, so a change made to both goes unnoticed.',
 [RAW,GEN,GT,U+'auxiliary/GraphemeBreakProperty.txt',U+'emoji/emoji-data.txt',U+'DerivedCoreProperties.txt'],[('generate.go main',GEN)],(),['go generate output','ScanGraphemeClusters'])
p('C20','The autoversion package follows the Go release\'s Unicode version',
 'On every supported Go release the autoversion package compiles, its UnicodeMajorVersion equals the major part of unicode.Version, and its ScanGraphemeClusters gives for every call the same result as that of the go-textseg major version for that Unicode version.',
 ['configurations','inputs'],'every supported Go release (1.25, 1.26, 1.27) times every input and atEOF value',
 'Its one test counts the clusters of one string; UnicodeMajorVersion is never checked and Go 1.25 is never built.',
 ['autoversion/textseg/unicode15.go','autoversion/textseg/unicode17.go'],[('build constraints and delegation','autoversion/textseg/unicode17.go')],(),['autoversion textseg.ScanGraphemeClusters','autoversion textseg.UnicodeMajorVersion'])
p('C21','AllTokens and TokenCount report every token of the buffer',
 'For every buffer and split function, AllTokens returns, in order, the contents of every token that a bufio.Scanner with that split function recognises in the buffer, and TokenCount returns their number; both report the scanner\'s error, if any. The returned tokens keep their contents however long the buffer is, and the buffer is not modified.',
 ['inputs','histories'],'every buffer of any size and every split function',
 'The only use in tests is counting the tokens of one 22-byte string; buffers beyond the scanner\'s internal 4 KiB are never tried.',
 ['autoversion/textseg/version_agnostic.go'],[('AllTokens','autoversion/textseg/version_agnostic.go'),('TokenCount','autoversion/textseg/version_agnostic.go')],(),['autoversion textseg.AllTokens','autoversion textseg.TokenCount'])
p('C22','ScanUTF8Sequences splits exactly at UTF-8 sequences',
 'For every byte sequence and however it arrives, ScanUTF8Sequences yields each valid UTF-8 sequence as one token and each byte that is not part of one as a token of its own, so that the tokens are those of ranging over the text and concatenate to it. It asks for more data only when the buffer is empty or ends within a sequence that could still be completed.',
 ['inputs','schedules'],'every byte string times every division into reads',
 'It has no test in this repository.',
 ['autoversion/textseg/version_agnostic.go'],[('ScanUTF8Sequences','autoversion/textseg/version_agnostic.go')],(),['autoversion textseg.ScanUTF8Sequences'])
p('C23','Segmentation takes time in proportion to the text, and storage independent of it',
 'For every byte sequence, valid UTF-8 or not, segmenting a whole buffer with one call per cluster takes time that grows no faster than in proportion to the buffer\'s length, and a single call takes time in proportion to the cluster it returns (or, if it asks for more data, to the buffer), not to the text that follows. The storage a call allocates does not grow with the length of the cluster or of the buffer.',
 ['inputs'],'every byte string of any length',
 'Tests use texts of a few characters, on which rescanning what came before or comes after costs nothing noticeable; hostile text can be megabytes of one cluster, or of one-byte clusters.',
 [GC,ST,PT],[scan,tr,lk],[('State','a fixed amount of memory of what came before, instead of looking back',ST)],[SC])
p('C24','Canonically equivalent texts have corresponding clusters',
 'For every valid UTF-8 text, the canonical decompositions (NFD, Unicode 17.0.0) of its clusters are exactly the clusters of the text\'s canonical decomposition: composing, decomposing, or reordering combining marks of different combining class never adds, removes or moves a boundary. (The single exception in Unicode 17 is U+21AE, whose first part U+2194 is a pictograph while it is not; texts containing it are not covered.)',
 ['inputs'],'every valid text without U+21AE and its canonical decomposition',
 'The official vectors contain hardly any composed characters and no pair of equivalent texts; 13,252 characters have decompositions, each in unboundedly many contexts.',
 [RAW,ST,GC],[tr,lk],stt,[SC])
p('C25','Table generation is reproducible and touches nothing but the table',
 'What the table generator writes is determined by the character assignments in its input files alone: running it again, at another time, in another environment or over anything that stood in the table\'s place before, or on files that state the same assignments in other lines, another order or another format, writes the same table byte for byte. It changes no other file, and when it refuses its input the earlier table stays as it was.',
 ['inputs','histories'],'every set of data files times every way of writing it down and every earlier state of the directory',
 'No test runs the generator at all.',
 [GEN,GT],[('BuildRawPropertyTree and Compact',GT),('main',GEN)],(),['go generate in textseg/internal/charprops'])
p('C26','Independent uses of the other functions and parsers do not interfere',
 'The autoversion package\'s AllTokens, TokenCount, ScanUTF8Sequences and ScanGraphemeClusters may be used at the same time from any number of goroutines, on common buffers too, and within one another (a split function may itself use them); scanners of UCD files and of conformance vectors, each with a reader of its own, may likewise be used at the same time. Under every schedule each gives exactly what it gives when used alone, and there are no data races.',
 ['schedules','inputs','histories'],'every number and schedule of concurrent or nested uses',
 'No test uses any of them from two goroutines or in a split function.',
 [VA,US,TS],[('AllTokens, TokenCount, ScanUTF8Sequences',VA),('Scanner.NextEntry',US),('TestDataScanner.NextEntry',TS)],(),['autoversion/textseg','ucdparse'])
with open('/verif/properties.jsonl','w') as f:
    for x in P: f.write(json.dumps(x,ensure_ascii=False)+'\n')
import jsonschema
s=json.load(open('/root/.vp/PROPERTIES.schema.json'))
for x in P:
    jsonschema.validate(x,s)
    n=x['statement'].count('. ')+1
    if n>3: print(x['id'],n)
