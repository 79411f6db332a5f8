package main

// Property is a claimed property and the obligations that decide it.
type Property struct {
	ID    string
	Level string
	// Entries are the functions whose behaviour the property is about. An
	// entry "a|b" stands for b where the repository has no a.
	Entries []string
	// Assume are functions below the entries that are the subject of other
	// properties and taken to behave as their models here.
	Assume []string
	// Wire adds the check of the types handed to encoding/binary.
	Wire bool
	// Consts are exported constants with the values users rely on.
	Consts map[string]string
	// Rules are further analyses.
	Rules []func(*Checker)
}

var insertion = []string{"NewDawgBuilder", "NewDawgBuilderWithSize", "DawgBuilder.InsertKeyValue", "DawgBuilder.InsertStringValue", "DawgBuilder.InsertString", "DawgBuilder.Finish", "NewDawg"}
var construction = []string{"Dawg.Build", "Dawg.BuildWithUnused", "DictionaryBuilder.BuildDictionary|Dawg.BuildWithUnused", "NewDictionary"}
var lookup = []string{
	"Dictionary.Root", "Dictionary.HasValue", "Dictionary.Value", "Dictionary.Follow",
	"Dictionary.FollowString", "Dictionary.FollowStringCount", "Dictionary.FollowStringLen", "Dictionary.FollowStringLenCount",
	"Dictionary.ContainsString", "Dictionary.ContainsStringLen",
	"Dictionary.FindString", "Dictionary.FindStringLen", "Dictionary.FindStringValue", "Dictionary.FindStringLenValue",
}
var coder = []string{"byteBuffer.Follow|UtfcEncode", "NewUtfcState", "UtfcState.Clear", "UtfcState.Copy", "UtfcState.Follow", "UtfcFollow", "UtfcEncode"}
var graph = []string{"Dawg.Root", "Dawg.Child", "Dawg.Sibling", "Dawg.Value", "Dawg.IsLeaf", "Dawg.Label", "Dawg.IsMerging", "Dawg.Size",
	"Dawg.NumOfStates", "Dawg.NumOfTransitions", "Dawg.NumOfMergedStates", "Dawg.NumOfMergedTransitions", "Dawg.NumOfMergingStates", "Dawg.Clear"}
var readers = []string{"Dictionary.Read", "ReadDictionary", "Guide.Read", "ReadGuide", "RankedGuide.Read", "ReadRankedGuide", "Index.Read", "ReadIndex"}
var writers = []string{"Dictionary.Write", "Guide.Write", "RankedGuide.Write", "Index.Write"}
var sizes = []string{"Dictionary.Size", "Dictionary.TotalSize", "Dictionary.FileSize", "Guide.Size", "Guide.TotalSize", "Guide.FileSize",
	"RankedGuide.Size", "RankedGuide.TotalSize", "RankedGuide.FileSize", "Index.Size", "Index.TotalSize", "Index.FileSize"}
var completion = []string{"NewCompleter", "Completer.Start", "Completer.StartString", "Completer.StartStringLen", "Completer.Next", "Completer.Key", "Completer.Length", "Completer.Value",
	"Completer.Follow", "Completer.FindTerminal"}
var ranked = []string{"NewRankedCompleter", "RankedCompleter.Start", "RankedCompleter.StartString", "RankedCompleter.StartStringLen", "RankedCompleter.Next", "RankedCompleter.Key", "RankedCompleter.Length", "RankedCompleter.Value",
	"RankedCompleterCandidateQueue.Len", "RankedCompleterCandidateQueue.Less", "RankedCompleterCandidateQueue.Swap", "RankedCompleterCandidateQueue.Push", "RankedCompleterCandidateQueue.Pop"}
var guides = []string{"BuildGuide", "GuideBuilder.Build|BuildGuide", "Guide.Root", "Guide.Child", "Guide.Sibling", "Guide.Size"}
var rankedGuides = []string{"BuildRankedGuide", "BuildRankedGuideCmp", "RankedGuideBuilder.Build|BuildRankedGuide", "RankedGuide.Root", "RankedGuide.Child", "RankedGuide.Sibling", "RankedGuide.Size"}
var indexing = []string{"BuildIndex", "IndexBuilder.Build|BuildIndex", "Index.Root", "Index.ChildCount", "Index.TotalCount", "Index.Size",
	"NewIndexer", "Indexer.TotalCount", "Indexer.StringToIndex", "Indexer.IndexToString", "Indexer.BytesToIndex", "Indexer.IndexToBytes"}
var units = []string{
	"dictSetHasLeaf|Dawg.Build", "dictSetValue|Dawg.Build", "dictSetLabel|Dawg.Build", "dictSetOffset|Dawg.Build",
	"dictHasLeaf|Dictionary.HasValue", "dictValue|Dictionary.Value", "dictLabel|Dictionary.Follow", "dictOffset|Dictionary.Follow",
	"DictionaryExtraUnit.clear|Dawg.Build", "DictionaryExtraUnit.setIsFixed|Dawg.Build", "DictionaryExtraUnit.setNext|Dawg.Build", "DictionaryExtraUnit.setIsUsed|Dawg.Build", "DictionaryExtraUnit.setPrev|Dawg.Build",
	"DictionaryExtraUnit.isFixed|Dawg.Build", "DictionaryExtraUnit.next|Dawg.Build", "DictionaryExtraUnit.isUsed|Dawg.Build", "DictionaryExtraUnit.prev|Dawg.Build",
	"BaseUnit.child|Dawg.Child", "BaseUnit.hasSibling|Dawg.Sibling", "BaseUnit.value|Dawg.Value", "BaseUnit.isState|DawgBuilder.InsertKeyValue",
	"DawgUnit.clear|DawgBuilder.InsertKeyValue", "DawgUnit.setValue|DawgBuilder.InsertKeyValue", "DawgUnit.value|DawgBuilder.InsertKeyValue", "DawgUnit.base|DawgBuilder.InsertKeyValue",
	"BitPool.get|Dawg.IsMerging", "BitPool.set|DawgBuilder.InsertKeyValue", "BitPool.allocate|DawgBuilder.InsertKeyValue", "BitPool.clear|DawgBuilder.Finish", "NewBitPool|NewDawgBuilder",
}

func cat(ls ...[]string) []string {
	var out []string
	seen := map[string]bool{}
	for _, l := range ls {
		for _, x := range l {
			if !seen[x] {
				seen[x] = true
				out = append(out, x)
			}
		}
	}
	return out
}

const tv = "translation_validation"

var properties = []*Property{
	{ID: "C01", Level: tv, Entries: cat(insertion, construction, lookup), Consts: map[string]string{"MaxValue": "2147483647"}},
	{ID: "C02", Level: tv, Entries: cat(coder, []string{"UtfcDecode"})},
	{ID: "C03", Level: tv, Assume: []string{"UtfcState.Follow"}, Entries: []string{"UtfcFollow", "UtfcEncode", "byteBuffer.Follow|UtfcEncode"}, Rules: []func(*Checker){(*Checker).nonzero}},
	{ID: "C04", Level: tv, Entries: coder},
	{ID: "C05", Level: tv, Entries: units},
	{ID: "C06", Level: tv, Entries: lookup},
	{ID: "C07", Level: tv, Entries: insertion[:5], Assume: []string{"DawgBuilder.fixUnits"}},
	{ID: "C08", Level: tv, Assume: []string{"DawgBuilder.fixUnits"}, Entries: []string{"DawgBuilder.allocateUnit|DawgBuilder.InsertKeyValue", "DawgBuilder.allocateTransition|DawgBuilder.InsertKeyValue", "DawgBuilder.freeUnit|DawgBuilder.InsertKeyValue", "NewDawgBuilder", "NewDawgBuilderWithSize", "DawgBuilder.Finish", "DawgBuilder.InsertKeyValue", "Dawg.Clear", "NewDawg", "Guide.Clear", "NewGuide", "RankedGuide.Clear", "NewRankedGuide",
		"UtfcState.Clear", "NewUtfcState", "UtfcState.Copy", "NewCompleter", "Completer.Start", "Completer.StartString", "Completer.StartStringLen", "NewRankedCompleter", "RankedCompleter.Start", "RankedCompleter.StartString", "RankedCompleter.StartStringLen"}},
	{ID: "C09", Level: "other", Rules: []func(*Checker){(*Checker).effects}},
	{ID: "C10", Level: "other", Rules: []func(*Checker){(*Checker).independence}},
	{ID: "C11", Level: tv, Entries: cat(readers, writers, sizes), Wire: true},
	{ID: "C12", Level: tv, Entries: cat(readers, writers)},
	{ID: "C13", Level: tv, Entries: cat(completion, []string{"Guide.Child", "Guide.Sibling", "Dictionary.Follow", "Dictionary.HasValue", "Dictionary.Value"}, guides)},
	{ID: "C14", Level: tv, Entries: cat(ranked, rankedGuides, []string{"Dictionary.Follow", "Dictionary.HasValue", "Dictionary.Value"})},
	{ID: "C15", Level: tv, Entries: cat([]string{"NewDawgBuilder", "NewDawgBuilderWithSize", "DawgBuilder.InsertKeyValue", "DawgBuilder.Finish"}, []string{"Dawg.Size", "Dawg.NumOfStates", "Dawg.NumOfTransitions", "Dawg.NumOfMergedStates", "Dawg.NumOfMergedTransitions", "Dawg.NumOfMergingStates", "Dawg.IsMerging"})},
	{ID: "C16", Level: tv, Entries: construction},
	{ID: "C17", Level: tv, Entries: guides},
	{ID: "C18", Level: tv, Entries: cat(indexing, guides, []string{"Dictionary.Follow", "Dictionary.HasValue"}), Consts: map[string]string{"NotFound": "4294967295", "Failed": "4294967294"}},
	{ID: "C19", Level: tv, Entries: []string{"main:main", "main:handleBuildDict|main:main", "main:handleLoadDict|main:main", "main:processLine|main:main", "main:keyBytes|main:main"}},
	{ID: "C20", Level: tv, Assume: []string{"main:handleLoadDict"}, Entries: []string{"main:main", "main:handleBuildDict|main:main", "main:processLine|main:main", "main:keyBytes|main:main"}},
	{ID: "C21", Level: tv, Assume: []string{"main:handleBuildDict"}, Entries: []string{"main:main", "main:handleLoadDict|main:main"}},
	{ID: "C22", Level: tv, Entries: cat(graph, []string{"DawgBuilder.Finish", "DawgBuilder.InsertKeyValue"})},
}
