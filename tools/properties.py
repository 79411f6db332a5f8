import json
P=[]
def p(id,title,stmt,over,qtext,why,files,mech,state=None,obs=None):
    P.append(dict(id=id,title=title,statement=stmt,quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=a,where=b) for a,b in mech],state=[dict(name=a,meaning=b,where=c) for a,b,c in (state or [])],observe_at=obs or [],hook_needed=None)))
I=["inputs"];H=["inputs","histories"]
p("C01","A built dictionary holds exactly the inserted keys with their values",
 "For every sequence of accepted insertions, the dictionary built from the finished graph contains exactly the inserted keys, and every lookup of a key returns the value last inserted with it (0 if none was given), for every value from 0 to the largest 31-bit integer. No other byte string is found.",
 H,"every sorted sequence of keys (any bytes except zero, any length, any number of keys) and every value, through insertion, finishing, building and looking up",
 "The tests insert a few thousand words of one lexicon with small values; which states are merged, where units land and which offsets need the extended form depends on the whole key set.",
 ["dawg_builder.go","dawg.go","dictionary_builder.go","dictionary.go","dictionary_unit.go"],
 [("insertion keeps the unfixed path of the last key","dawg_builder.go InsertKeyValue/fixUnits"),("double-array construction","dictionary_builder.go BuildDictionary"),("lookup","dictionary.go Follow/FindStringLenValue")],
 obs=["Dictionary.ContainsString","Dictionary.FindStringValue"])
p("C02","UTF-C decoding inverts UTF-C encoding",
 "For every string of valid code points, decoding its UTF-C encoding gives the string back. In particular the decoder consumes exactly the bytes the encoder wrote for each character and follows the same switches of alphabet and of 21-bit mode.",
 H,"every string over all Unicode code points: the coder is stateful, so each character is coded relative to every alphabet, auxiliary alphabet and mode reachable before it",
 "The tests sample a handful of texts; the cases that need a zero byte in a particular position of a particular mode, or a switch between two particular alphabets, are not among them.",
 ["utfc.go"],[("encoder step","utfc.go UtfcState.Follow"),("decoder loop","utfc.go UtfcDecode"),("range tables","utfc.go rangesLatin, rangesExtra, auxOffset")],
 [("offs, auxOffs, is21Bit","the alphabets and mode the next character is coded in","utfc.go UtfcState")],["UtfcEncode","UtfcDecode"])
p("C03","UTF-C output never contains a zero byte",
 "No UTF-C encoding of any string contains the byte 0, so encoded keys can be stored in a dictionary, which uses 0 as its end label. This holds for every character in every alphabet and mode.",
 H,"every code point in every coder state","The tests look at the encodings of sample texts only; zero bytes arise for specific low and high bytes in specific modes.",
 ["utfc.go"],[("zero markers","utfc.go UtfcState.Follow")],obs=["UtfcEncode","UtfcFollow"])
p("C04","Incremental UTF-C coding equals whole-string coding and can be aborted",
 "Feeding a string character by character to a coder state emits exactly the bytes of the whole-string encoding, whatever was coded before, and a cleared or fresh state behaves like a new one and a copied state like its source. When the receiver of the bytes refuses one, coding stops at once, no further byte is offered, failure is reported, and the state is unchanged by the refused character.",
 ["inputs","histories","fault_sequences"],"every string, every coder state, and a refusal at every byte position",
 "The tests use receivers that accept everything or fail at one place.",
 ["utfc.go"],[("coder state","utfc.go UtfcState.Follow/Clear/Copy"),("whole string","utfc.go UtfcFollow, UtfcEncode")],obs=["UtfcState.Follow","UtfcFollow"])
p("C05","Packed units give back what was stored and fields do not disturb each other",
 "Every value, label, offset, flag, link and sibling mark stored in a packed unit of any of the structures is read back unchanged for its whole range, and storing one of them leaves the others as they were. An offset too large to be represented is refused rather than truncated.",
 I,"every stored value in range and every previous content of the unit","Tests never build a dictionary large enough to need extended offsets and use small values only.",
 ["dictionary_unit.go","dictionary_extra_unit.go","base_unit.go","dawg_unit.go","bit_pool.go"],
 [("dictionary unit","dictionary_unit.go"),("extra unit","dictionary_extra_unit.go"),("graph unit","base_unit.go, dawg_unit.go"),("bit pool","bit_pool.go")],obs=["Dictionary.Value","Dawg.Label","Dawg.Child"])
p("C06","All lookup entry points agree and follow exactly the stored transitions",
 "Following a byte from a position succeeds exactly when the dictionary has that transition, moves to its target, and leaves the position untouched on failure. The string, length-limited, counting, containing and finding variants of lookup all give the answer obtained by following the bytes one at a time; the counting variants report how many bytes were consumed.",
 I,"every dictionary, position, key and length limit","Tests call a few of the variants on a few present and absent keys.",
 ["dictionary.go","dictionary_unit.go"],[("transition test","dictionary.go Follow"),("variants","dictionary.go FollowString*, FindString*, ContainsString*")],obs=["Dictionary.Follow","Dictionary.FollowStringLenCount","Dictionary.FindStringLenValue"])
p("C07","Insertion accepts exactly the representable, sorted keys",
 "An insertion is accepted exactly if the key contains no zero byte, its value is not negative and it does not sort (by unsigned bytes) before the previously inserted key; a repeated key is accepted. A refused insertion reports failure and leaves everything inserted before it intact and insertable upon, as if the refused call had not been made.",
 H,"every sequence of insertions, sorted or not, and every key and value","Tests insert sorted words only, and one unsorted case.",
 ["dawg_builder.go"],[("order and range checks","dawg_builder.go InsertKeyValue")],obs=["DawgBuilder.InsertKeyValue","DawgBuilder.InsertString"])
p("C08","Clearing and restarting give the behaviour of a fresh object",
 "After a builder has been finished it behaves exactly like a newly created one, whatever was inserted before, and the graph it produced is not changed by what is inserted later. The same holds for clearing a graph, guide or coder state, and for starting a completer again at any position: nothing of the earlier use shows.",
 H,"every history of use before the reset","Every test uses each object once.",
 ["dawg_builder.go","dawg.go","guide.go","ranked_guide.go","completer.go","ranked_completer.go","utfc.go"],
 [("reset","dawg_builder.go clear/init/Finish"),("restart","completer.go StartStringLen, ranked_completer.go StartStringLen")],obs=["DawgBuilder.Finish","Completer.Start","RankedCompleter.Start"])
p("C09","Reading is free of side effects and there is no shared mutable state",
 "Lookups, guide and index queries, index conversions, size queries, writing to a file and UTF-C coding change nothing reachable from the objects they are called on or from the package, so any number of goroutines may run them on the same objects at once. No function of the library keeps state in package-level variables.",
 ["schedules","inputs"],"every interleaving of concurrent readers, every input","No test uses goroutines, and a data race needs a particular schedule to show.",
 ["dictionary.go","guide.go","ranked_guide.go","index.go","indexer.go","dawg.go","utfc.go"],[("read-only accessors","dictionary.go, guide.go, ranked_guide.go, index.go, indexer.go, dawg.go"),("per-call buffers","utfc.go UtfcEncode")],obs=["all read-only methods"])
p("C10","Results and arguments are independent of the library's internal memory",
 "Keys and byte slices returned to the caller stay valid and unchanged whatever is called later and may be modified by the caller without affecting any object. Slices passed in are neither kept nor modified.",
 H,"every later call and every modification by the caller","Tests look at results immediately and do not modify them.",
 ["completer.go","ranked_completer.go","indexer.go","utfc.go","dawg_builder.go"],[("copies on return","completer.go Key, ranked_completer.go Key, indexer.go IndexToBytes, utfc.go UtfcEncode"),("copies on insertion","dawg_builder.go InsertKeyValue")],obs=["Completer.Key","RankedCompleter.Key","Indexer.IndexToBytes","UtfcEncode"])
p("C11","What is written to a file is read back identically, with the announced size",
 "Writing a dictionary, guide, ranked guide or index and reading it back gives an object with the same content, and reading consumes exactly the bytes written, so that several structures can follow one another in one file. The format is a 32-bit little-endian unit count followed by the units, and the announced file size is the number of bytes written.",
 I,"every content and size, every sequence of structures in one stream","Tests write to and read from one buffer for one lexicon, and do not check sizes or that exactly the written bytes are consumed.",
 ["dictionary.go","guide.go","ranked_guide.go","index.go"],[("readers and writers","dictionary.go/guide.go/ranked_guide.go/index.go Read, Write, FileSize, TotalSize")],obs=["Dictionary.Write","Dictionary.Read","Index.Write","Index.Read"])
p("C12","Read and write failures are reported and leave the object as it was",
 "If the underlying stream fails or ends early at any point of reading or writing a structure, failure is reported to the caller. A failed read leaves the object with the content it had before.",
 ["fault_sequences","inputs"],"every stream error at every point of every read or write","Tests use in-memory buffers that never fail.",
 ["dictionary.go","guide.go","ranked_guide.go","index.go"],[("error checks","Read and Write of dictionary.go, guide.go, ranked_guide.go, index.go"),("nil on failure","ReadDictionary, ReadGuide, ReadRankedGuide, ReadIndex")],obs=["Read*","Write"])
p("C13","Completion enumerates exactly the keys below a position, in order",
 "Starting a completer at a position, with any prefix text, and calling next until it reports the end gives every key below that position exactly once, in ascending byte order, each with its value. The reported key is the prefix text followed by the rest of the key, the reported length is the length of that key, and after the end next keeps reporting the end.",
 H,"every dictionary with its guide, every start position and prefix, every call sequence","Tests complete one lexicon from a few prefixes.",
 ["completer.go","guide.go"],[("stack of positions","completer.go Next, FindTerminal, Follow")],obs=["Completer.Next","Completer.Key","Completer.Value","Completer.Length"])
p("C14","Ranked completion enumerates all keys below a position in rank order",
 "With a ranked guide built for the default order, starting a ranked completer at a position, with any prefix text, and calling next until it reports the end gives every key below that position exactly once with its value, values never increasing, and entries of equal value in an order that depends on nothing but the dictionary and the guide. Key, length and value always describe the same entry.",
 H,"every dictionary with its ranked guide, every start position and prefix, every distribution of values","Tests use one lexicon with few distinct values.",
 ["ranked_completer.go","ranked_completer_candidate.go","ranked_guide_builder.go","ranked_guide_link.go","ranked_guide.go"],
 [("candidate queue","ranked_completer.go, ranked_completer_candidate.go"),("link order","ranked_guide_builder.go, ranked_guide_link.go")],obs=["RankedCompleter.Next","RankedCompleter.Value","BuildRankedGuide"])
p("C15","Equivalent states are merged, and only those",
 "While keys are inserted, two states are merged exactly if they accept the same endings with the same values; merging depends neither on the (positive) initial size of the hash table nor on when it is enlarged. The finished graph's state, transition and merge counts describe it exactly.",
 H,"every key sequence and every initial table size","The tests check one lexicon's counts at most; hash collisions and table enlargements depend on the key set.",
 ["dawg_builder.go","dawg.go"],[("hash table of fixed states","dawg_builder.go findUnit, findTransition, expandHashTable"),("equality and hash","dawg_builder.go areEqual, hashUnit, hashTransition"),("counters","dawg_builder.go, dawg.go")],obs=["Dawg.NumOfStates","Dawg.NumOfTransitions","Dawg.Size"])
p("C16","Dictionary construction places every state without conflict",
 "Building a dictionary from any finished graph places the children of every state at distinct, otherwise unused positions, reuses the placement of a shared state only where the offset can be represented, and reports how many units stay unused. It either yields a dictionary that represents the whole graph or reports failure.",
 I,"every graph, including those that fill many blocks and need extended offsets","The tests build dictionaries of a few blocks.",
 ["dictionary_builder.go","link_table.go","dictionary_extra_unit.go"],[("offset search and reservation","dictionary_builder.go findGoodOffset, isGoodOffset, reserveUnit"),("blocks","dictionary_builder.go expandDictionary, fixBlock, fixAllBlocks"),("shared states","link_table.go")],obs=["Dawg.Build","Dawg.BuildWithUnused"])
p("C17","A guide lists exactly the children of every position in label order",
 "For every position of a dictionary that corresponds to a state, the guide built for it gives the smallest non-end label leaving that position, and following sibling labels from there visits every other one exactly once in ascending order. A guide has one entry per dictionary unit and positions that are not states have empty entries.",
 I,"every graph and dictionary built from it","The tests only use guides through completion of one lexicon.",
 ["guide_builder.go","guide.go","guide_unit.go"],[("construction","guide_builder.go Build, buildIndices"),("accessors","guide.go")],obs=["BuildGuide","Guide.Child","Guide.Sibling"])
p("C18","Index numbers and keys correspond one to one in key order",
 "With a dictionary, its unranked guide and the index built for them, converting a key to its number gives the number of smaller keys in the dictionary, or reports that it is absent, and converting a number below the total back gives that key and for all others nothing. The total is the number of keys, also for an empty dictionary.",
 I,"every key set, every key and every number","Tests convert a few keys of one lexicon.",
 ["index_builder.go","index.go","indexer.go"],[("counts per position","index_builder.go"),("conversions","indexer.go")],obs=["BuildIndex","Indexer.StringToIndex","Indexer.IndexToString","Indexer.TotalCount"])
p("C19","The command-line tool never reports success after a failure",
 "If the lexicon or dictionary file cannot be opened, read to the end, written or closed, a key cannot be inserted, a value cannot be parsed, or a structure cannot be built, read or written, the tool stops with a message and a failing exit status.",
 ["fault_sequences","inputs"],"every failure at every step of the tool","The tool has no tests.",
 ["cmd/dawgtool/main.go"],[("error checks","cmd/dawgtool/main.go main, processLine, handleBuildDict, handleLoadDict")],obs=["exit status of dawgtool"])
p("C20","The tool builds the file its options and input lines ask for",
 "For every combination of options the tool inserts exactly the non-empty input lines (the part before the tab with its value when asked to split, replaced by the nearest allowed value when out of range), encoded as asked, in the order the builder needs when asked to sort, and writes the dictionary followed by the structures asked for (an index only together with a guide).",
 ["configurations","inputs"],"every combination of options and every input file","The tool has no tests.",
 ["cmd/dawgtool/main.go"],[("line handling","cmd/dawgtool/main.go processLine, keyBytes"),("building","cmd/dawgtool/main.go handleBuildDict")],obs=["file written by dawgtool -b"])
p("C21","The tool answers queries from the loaded file",
 "For every combination of options and every query line the tool prints the line, its number or that it is not found when an index was asked for, and then either all completions with their values in the order of the completer or, without a guide, all stored prefixes of the line with their values; with an index it finally lists all keys by number. An index only counts together with a guide, and query lines are taken byte for byte as stored keys.",
 ["configurations","inputs"],"every combination of options, dictionary file and query","The tool has no tests.",
 ["cmd/dawgtool/main.go"],[("queries","cmd/dawgtool/main.go handleLoadDict")],obs=["output of dawgtool"])
p("C22","The finished graph can be walked like the key set's automaton",
 "Walking a finished graph from its root by child and sibling visits exactly the inserted keys in order: every position gives its label, whether it is the end of a key and then its value, and its size, state, transition and merge counts are those of the graph. Clearing it leaves an empty graph with zero counts.",
 H,"every finished graph and every position in it","The tests never walk a graph.",
 ["dawg.go","base_unit.go","bit_pool.go"],[("accessors","dawg.go"),("finishing","dawg_builder.go Finish")],obs=["Dawg.Child","Dawg.Sibling","Dawg.Value","Dawg.Label"])
p("C23","The finished graph is minimal for every key set",
 "For every set of keys the finished graph has the smallest number of states any such graph can have.",
 I,"every key set","Only individual lexicons can be compared against a minimisation.",
 ["dawg_builder.go"],[("merging of equivalent states","dawg_builder.go fixUnits")])
p("C24","Reading a damaged file never crashes or exhausts memory",
 "Whatever bytes are read as a dictionary, guide or index, lookups in the result return and do not crash, and reading does not allocate more than the stream can fill.",
 ["inputs"],"every byte stream","Hostile streams are not among the test inputs.",
 ["dictionary.go","guide.go","index.go"],[("none","dictionary.go Read trusts the unit count and the units")])
p("C25","Construction time and memory grow linearly with the input",
 "Inserting and building take time and memory proportional to the total length of the keys, for every key set.",
 I,"every key set","Tests do not measure time.",
 ["dawg_builder.go","dictionary_builder.go"],[("hash table and block window","dawg_builder.go, dictionary_builder.go")])
open('/verif/properties.jsonl','w').write(''.join(json.dumps(x)+'\n' for x in P))
for x in P:
    assert len(x['title'])<=80,x['title']
