#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a script so that the lines stay valid JSON)."""
import json, os
P=[]
def p(id,title,statement,over,text,why,files,mech,observe,state=None,hook=None):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),
      why_tests_cant=why,anchors=dict(files=files,state=state or [],
      mechanism=[dict(name=n,where=w) for n,w in mech],observe_at=observe,hook_needed=hook)))

p("C01","Hits and linear search return exactly the documents holding every term",
 "For any history of documents put into an index and any query, hits search and linear search each return exactly the stored documents whose analysed statement contains every analysed query term, each stored document once. Two stored documents that share an identifier are matched separately, each on its own words. A query without terms, or with a term no document contains, returns nothing.",
 ["inputs","histories"],"every sequence of put documents (any identifiers, repeated ones included) and every query string",
 "The tests run about twenty hand-written corpora of at most four documents, all with distinct identifiers and ASCII words; the claim is over all corpora and queries.",
 ["search_hits_search.go","search_linear_search.go","index_memory_index.go"],
 [("HitsSearch threshold over per-document hit counts","search_hits_search.go"),("LinearSearch sorted intersection","search_linear_search.go"),("MemoryIndex.Put posting lists","index_memory_index.go")],
 ["MemoryIndex.Search","IndexRepo.Search"],
 [dict(name="InvertedIndex",meaning="token -> ascending positions of the documents that contain it",where="index_memory_index.go")])

p("C02","Result order and hit counts follow the documentation",
 "Hits search orders results by descending hit count with ties in the order the documents were put, and reports as hit count the number of distinct query terms found. Linear search returns results in the order the documents were put and reports the number of query terms, repeats included. Every result carries the identifier and content of the stored document it stands for.",
 ["inputs","histories"],"every corpus (any put order, any identifiers) and every query, repeated terms included",
 "The tests look at corpora whose identifiers happen to sort in put order and never repeat a query term, so the documented order and count are not told apart from others.",
 ["search_hits_search.go","search_linear_search.go","search_result.go","README.md"],
 [("result sort","search_hits_search.go"),("intersection keeps index order","search_linear_search.go")],
 ["HitsSearch","LinearSearch"])

p("C03","An index keeps every document put into it, in order and unaltered",
 "After any sequence of puts an index holds one document per put, in put order, with the identifier and content given, whatever earlier documents looked like. For every token, the index lists exactly the documents whose analysed statement contains it, in ascending order and without repeats, and a token that occurs in no statement lists none. Requests, documents and results report the identifier, content, statement, mime type and hits they were made with.",
 ["inputs","histories"],"every sequence of put requests (any identifier, content, statement and mime type, sizes from empty to thousands of words)",
 "The tests put at most four short documents and never read the posting lists; a lost, duplicated or misplaced posting at some size or repetition goes unseen.",
 ["index_memory_index.go","entities_request.go","entities_doc.go"],
 [("MemoryIndex.Put","index_memory_index.go"),("DocRequest constructors","entities_request.go")],
 ["MemoryIndex.Len","MemoryIndex.Document","MemoryIndex.Indexed"],
 [dict(name="Docs",meaning="stored documents in put order",where="index_memory_index.go"),dict(name="InvertedIndex",meaning="posting lists",where="index_memory_index.go")])

p("C04","A document can be found by the words of its own statement",
 "After any history of puts to an index behind the Spanish analysis pipeline, searching for any non-empty selection of words taken from a document's statement that leaves at least one term returns that document with its full original content. Where a document was put with a statement separate from its content, the words of the statement find it, and a word that occurs only in the content does not.",
 ["inputs","histories"],"every document text (any Unicode, invalid bytes included), every selection of its words, every surrounding corpus",
 "The tests search for a dozen hand-picked words; no test uses a separate statement, non-Latin text or words altered by stemming in both places.",
 ["index_memory_index.go","analyze_compose.go","analyze_clean_tokenizer.go","analyze_stem_filter.go","entities_request.go"],
 [("same analyser on both sides","index_memory_index.go"),("DocRequest.Statement","entities_request.go")],
 ["MemoryIndex.Search","IndexRepo.Search"])

p("C05","Searching changes nothing and hands out nothing shared",
 "No search, with any engine and any query, changes the documents, the posting lists or the answer of any later search. What a search or a posting lookup returns belongs to the caller: overwriting, sorting or extending it never changes the index, and later puts never change it.",
 ["inputs","histories"],"every interleaving of puts, searches and caller-side mutation of earlier answers",
 "One test repeats a search five times and compares two lengths; nothing mutates a returned value or puts documents after an answer was taken.",
 ["index_memory_index.go","search_linear_search.go","search_hits_search.go","search_noop_search.go"],
 [("Indexed returns a copy","index_memory_index.go"),("intersection allocates its result","search_linear_search.go")],
 ["MemoryIndex.Search","MemoryIndex.Indexed"])

p("C06","The tokenizer yields exactly the maximal runs of kept characters",
 "For every text, valid UTF-8 or not, the alphanumeric tokenizer returns in order exactly the maximal runs of Unicode letters and numbers, byte for byte as they occur in the text, and no empty token. A tokenizer built from a list of character predicates does the same for the union of its predicates, and with no predicate returns nothing.",
 ["inputs"],"every byte string, every set of predicates",
 "No test calls the tokenizer directly; the tests' texts contain only spaces, parentheses and Spanish letters.",
 ["analyze_clean_tokenizer.go"],[("CleanTokenizer.Tokenize","analyze_clean_tokenizer.go")],["CleanTokenizer.Tokenize"])

p("C07","Filters treat tokens one by one and the pipeline applies them in order",
 "The lower-case filter returns each token lower-cased and the Spanish stemmer returns each token's Spanish Snowball stem (built with false it leaves Snowball's own stop words unstemmed, built with true it stems them too), both with the same length and order as their input; the stop-word filter removes exactly the tokens in its set and keeps the others in order. No filter modifies the token list or the stop-word set it is given, and none lets one token affect another. A pipeline returns the tokenizer's output passed through its filters in the order they were given.",
 ["inputs","configurations"],"every token list, every stop-word set, every sequence of filters",
 "No test exercises a filter by itself; the pipelines in the tests are two fixed configurations.",
 ["analyze_compose.go","analyze_lowercase_filter.go","analyze_stopwords_filter.go","analyze_stem_filter.go"],
 [("Filter implementations","analyze_*_filter.go"),("TokenizationPipeline.Tokenize","analyze_compose.go")],
 ["Filter.Filter","TokenizationPipeline.Tokenize"])

p("C08","Case, punctuation, word order, stop words and inflection do not change matches",
 "With the Spanish pipeline, changing the letter case of a query, its punctuation, the order or repetition of its words, or adding Spanish stop words (the shipped SpanishStopWords) to it does not change which documents match. Nor does replacing a word by another word with the same Spanish stem. The same changes made to the statements of the documents do not change which documents match either.",
 ["inputs","histories"],"every corpus and query of Spanish words, every such rewriting",
 "Each test issues its query in one spelling; the claim relates pairs of runs.",
 ["analyze_compose.go","analyze_lowercase_filter.go","analyze_stopwords_filter.go","analyze_stem_filter.go","search_hits_search.go","search_linear_search.go"],
 [("lower-case, stop-word and stem filters","analyze_*_filter.go"),("AND semantics","search_*.go")],
 ["MemoryIndex.Search"])

p("C09","R1, R2 and RV follow the Snowball definition for every word",
 "With the vowels a, e, i, o, u, á, é, í, ó, ú and ü (lower case only), for every word R1 is the region after the first non-vowel that follows a vowel, R2 is the region so defined within R1, and RV is the region given by the Spanish Snowball rule, each empty when there is none. Each is a suffix of the word that begins at a character boundary, and the word itself is left unchanged.",
 ["inputs"],"every byte string as a word, in particular words without R1 and words of one to four letters",
 "The only test has four words, each of which has a non-empty R1 and RV; whether the regions are right for other shapes of word is open.",
 ["stemmer_spanish_snowball.go"],[("R1R2RV","stemmer_spanish_snowball.go")],["R1R2RV"])

p("C10","Index names live and die exactly as the operations say",
 "Through any history, the repository lists exactly the indices created by a put to an unused name or by a rename and not since dropped, renamed away or replaced, and each holds exactly the documents put into it since its creation, in order, also after being renamed. Put, rename and drop affect no index but the ones they name; renaming an index to its own name changes nothing. Rename and drop report success exactly when the index existed.",
 ["histories","inputs"],"every history of put, rename, drop, alias and unalias over any names",
 "The tests run histories of at most four operations and check one boolean each; contents after rename, renaming to itself or onto another index, and re-creation are never looked at.",
 ["repos_repo.go","index_memory_index.go"],
 [("IndexRepo.Put/Rename/Drop","repos_repo.go")],["IndexRepo.List","IndexRepo.Has","IndexRepo.Search"],
 [dict(name="indices",meaning="index name -> index",where="repos_repo.go")])

p("C11","Aliases always denote exactly the existing indices attached to them",
 "Through any history, an alias lists exactly the indices attached to it and not since detached or dropped, each once and under its current name, and an alias left with no index no longer exists. Attaching succeeds exactly when the index exists and is not yet attached, detaching exactly when it was attached, and removing a whole alias exactly when it existed. The alias listing, the alias existence test and search through the alias always agree.",
 ["histories","inputs"],"every history of put, alias, unalias, rename and drop over any names, shared between indices and aliases or not",
 "The tests attach at most two indices and check a single boolean; repeated attachment, partial detachment, rename onto another attached index and the listing are never checked.",
 ["repos_repo.go"],[("IndexRepo.Alias/UnAlias, alias upkeep in Rename and Drop","repos_repo.go")],
 ["IndexRepo.ListAliases","IndexRepo.HasAlias","IndexRepo.Alias","IndexRepo.UnAlias"],
 [dict(name="aliases",meaning="alias -> names of attached indices",where="repos_repo.go")])

p("C12","Writing or searching through a name reaches exactly the indices it denotes",
 "A name denotes the index so called if there is one, otherwise all indices attached to the alias so called. A put through a name stores the document exactly once in every index denoted and nowhere else, creating the index when the name denotes nothing. A search through a name returns exactly the union of what each denoted index returns, and fails with an error when the name denotes nothing.",
 ["histories","inputs","schedules"],"every history, every name, and every schedule of the workers that serve one alias operation",
 "One test searches an alias over two indices and one puts through an alias of one index; whether each document arrives once everywhere, and nowhere else, is not observed.",
 ["repos_repo.go"],[("name resolution and fan-out in Put and Search","repos_repo.go")],["IndexRepo.Put","IndexRepo.Search"])

p("C13","No history wedges or crashes the repository, and failed calls change nothing",
 "Through any history of calls, including calls that name unknown indices and aliases, every call returns without crashing and without leaving later calls stuck. A call that reports failure leaves every index, every alias and every document as it was.",
 ["histories","inputs"],"every sequential history, weighted towards failing calls",
 "The tests stop after the first failing call, so a lock left held or a half-done change after a failure goes unnoticed.",
 ["repos_repo.go"],[("early returns under indicesMu and aliasesMu","repos_repo.go")],["every IndexRepo method"],None)

p("C14","What the repository returns is a snapshot",
 "The list of indices, the list of aliases and the stream of a search keep the values they had when the call returned, whatever is put, renamed, dropped, aliased or unaliased afterwards. Changing a returned list never changes the repository or another returned list.",
 ["histories","inputs"],"every history with answers kept and re-read later, and with answers overwritten by the caller",
 "Every test consumes its answer at once and never keeps or modifies one.",
 ["repos_repo.go","index_memory_index.go"],[("ListAliases, List, Search","repos_repo.go")],["IndexRepo.List","IndexRepo.ListAliases","IndexRepo.Search"])

p("C15","Concurrent repository calls behave as if executed one at a time",
 "For every set of concurrent callers and every schedule, the results of all put, search, alias, unalias, rename, drop, list and existence calls, and the state left behind, are those of some sequential order of the calls that respects the order of calls that did not overlap.",
 ["schedules","histories"],"every concurrent history of repository calls and every interleaving of their steps",
 "No test starts a goroutine of its own; every atomicity gap between checking a name and acting on it is out of reach of the tests.",
 ["repos_repo.go"],[("indicesMu and aliasesMu","repos_repo.go")],["every IndexRepo method"],
 [dict(name="indices, aliases",meaning="two maps under two locks",where="repos_repo.go")],
 "none in /repo: the check builds a rewritten copy (overlay) with scheduling points")

p("C16","No document put concurrently is lost or stored twice",
 "When any number of callers put documents at the same time, directly or through aliases, to names that exist or not, while other callers search, rename, alias and list but nothing is dropped or overwritten, every document whose put returned is found afterwards exactly once in every index its name denoted, and no other document is found.",
 ["schedules","histories"],"every set of concurrent writers and readers and every interleaving",
 "All tests put from a single goroutine.",
 ["repos_repo.go","index_memory_index.go"],[("Put under the write lock","repos_repo.go")],["IndexRepo.Put","IndexRepo.Search"],None,
 "none in /repo: the check builds a rewritten copy (overlay) with scheduling points")

p("C17","Concurrent use is free of data races, deadlocks and crashes",
 "However repository calls are interleaved between goroutines, including reading what they returned, no memory is accessed by two of them without synchronisation, no set of callers ends up waiting on one another for ever, and no call panics.",
 ["schedules","histories"],"every concurrent history of all repository calls and every interleaving of their steps",
 "The tests run under the race detector but never call the repository from two goroutines.",
 ["repos_repo.go","index_memory_index.go"],[("indicesMu and aliasesMu, always taken in that order","repos_repo.go")],["every IndexRepo method"],None,
 "none in /repo: the check builds a rewritten copy (overlay) with scheduling points")

p("C18","Search results survive JSON exactly and malformed JSON is rejected",
 "Encoding a search result gives valid JSON of the form {\"doc\":{\"id\",\"raw\"},\"hits\"} for every content, and decoding it gives the same result back whenever its strings are valid UTF-8; any standard JSON encoder and decoder agrees with it in both directions, with fields in any order, unknown fields ignored and nulls leaving the field unset. Decoding input that is truncated, whose structure (braces, brackets, quotes, colons, commas, literals) is broken, or in which a field has a value of the wrong type returns an error, and no input crashes the decoder. A decoded result does not depend on the input buffer afterwards.",
 ["inputs"],"every result (any strings, any integer), every re-spelling of its JSON, every byte string as input",
 "No test encodes or decodes a result.",
 ["search_result_easyjson.go","search_result.go","entities_doc.go"],[("easyjson encoder and decoder","search_result_easyjson.go")],["SearchResult.MarshalJSON","SearchResult.UnmarshalJSON","MarshalEasyJSON","UnmarshalEasyJSON"])

p("C19","An index saved as JSON and loaded again answers every query the same",
 "For any history of puts of valid UTF-8, encoding the index as JSON and decoding it into a new index with the same analyser yields an index that stores the same documents in the same order, answers every query with every engine identically, and stays equivalent as more documents are put into both. The saved form is {\"indexed\":[{\"id\",\"raw\"}],\"inverted\":{term:[positions]}}, and an index in that form loads whoever wrote it.",
 ["inputs","histories"],"every history of puts before and after the save, every query",
 "No test encodes or decodes an index.",
 ["index_memory_index.go","entities_doc.go"],[("json tags on MemoryIndex and Doc","index_memory_index.go")],["json.Marshal(MemoryIndex)","MemoryIndex.Search"])

p("C20","Document identity depends on the identifier alone",
 "Two documents have equal hashes whenever their identifiers are equal, whatever their content, and different hashes when their identifiers differ, up to the chance collisions of a 64-bit hash. The hash of a document never changes.",
 ["inputs"],"every pair of documents: identifiers that differ in one byte, in length, in order of characters, or only far into a long string",
 "No test computes a hash.",
 ["entities_hash.go","entities_doc.go"],[("Doc.Hash","entities_hash.go")],["Doc.Hash"])

p("C21","The same query on the same repository gives the same answer in the same order",
 "As long as nothing is written in between, repeating a search gives the same results in the same order, with any engine, directly or through an alias over any number of indices, however the workers serving it are scheduled and whatever other searches run. Two repositories built by the same history answer alike.",
 ["schedules","inputs","histories"],"every history, query and engine, and every schedule of the workers of an alias search",
 "The tests repeat one query five or ten times on one index; an alias search over several indices is never repeated.",
 ["repos_repo.go","search_hits_search.go","search_result.go"],[("order of alias results","repos_repo.go"),("sort of hits","search_hits_search.go")],["IndexRepo.Search","MemoryIndex.Search"],None,
 "none in /repo: the check builds a rewritten copy (overlay) with scheduling points")

p("C22","The repository works with any index implementation and adds nothing of its own",
 "With any index implementation supplied through the builder, the repository builds one index per created name under that name, hands each put request unaltered and exactly once to every index denoted, hands each search text and engine unaltered to every index denoted, and returns exactly what these return. It never calls one index's put while any other call on that same index is running.",
 ["histories","schedules","inputs"],"every history over a recording index implementation, every schedule",
 "All tests use the built-in memory index, which cannot show how often or with what it was called.",
 ["repos_repo.go","index_index.go"],[("Builder, Index interface","index_index.go"),("Put and Search fan-out","repos_repo.go")],["IndexRepo.Put","IndexRepo.Search"],None,
 "none in /repo: the check builds a rewritten copy (overlay) with scheduling points")

p("C23","Engines need nothing but the index view they are given",
 "On any index view whose posting lists are ascending, hits and linear search select exactly the documents common to the posting lists of all query tokens, an absent list counting as empty whether nil or not; the all-documents engine returns every document in order with no hits; the empty engine returns nothing. No engine modifies the token list it is given, and a document's identifier or content never influences whether it is selected.",
 ["inputs"],"every view (any posting lists, any documents, nil or empty lists) and every token list",
 "The tests reach the engines only through the memory index and never call the all-documents and empty engines on their own.",
 ["search_hits_search.go","search_linear_search.go","search_noop_search.go","search_search.go"],[("Engine over Indexer","search_search.go")],["HitsSearch","LinearSearch","NoopAllSearch","NoopZeroSearch"])

p("C24","More documents never hide one, more words never add one",
 "Putting further documents never removes a document from the answer to a query or changes its content, hit count or position relative to the others. Adding words to a query that has terms never adds a document to its answer, and the answer to a query of two parts is the intersection of the answers to the parts, when neither part is without terms.",
 ["inputs","histories"],"every corpus, every continuation of it, every query and every extension of it",
 "The tests never compare the answers of a query before and after a put, nor of a query and its extension.",
 ["search_hits_search.go","search_linear_search.go","index_memory_index.go"],[("AND semantics","search_*.go"),("append-only index","index_memory_index.go")],["MemoryIndex.Search","IndexRepo.Search"])

p("C25","The textual dump shows the index as it is",
 "Through any history, the textual form of an index gives the name the index was created under and shows each token once with the number and positions of the documents that contain it and no other token, and the textual form of the repository shows every existing index once and no other. Producing it changes nothing.",
 ["histories","inputs"],"every history of puts, renames and drops over alphanumeric tokens",
 "No test renders an index or a repository.",
 ["index_memory_index.go","repos_repo.go"],[("MemoryIndex.String","index_memory_index.go"),("IndexRepo.String","repos_repo.go")],["MemoryIndex.String","IndexRepo.String"])

p("C26","Sorting search results ranks them and loses none",
 "For every list of search results, from one index or merged from several, sorting it with any function of package sort gives the same results, each as often as before, by descending hit count and among equal hit counts by ascending identifier in byte order; results equal in both may stand in any order, and in their old order if the sort is stable. The comparison depends on nothing but hit counts and identifiers, asking for it or for the length changes nothing, and the accessors of a result return the document and the hit count it holds.",
 ["inputs"],"every list of results (any length, any hit counts and identifiers, any ties) and every sorting function",
 "No test sorts results by this order; a comparison that is wrong only for some pairs, or not a strict order, shows only on lists with particular ties.",
 ["search_result.go"],[("SearchResults sort.Interface","search_result.go")],["SearchResults.Less","SearchResults.Swap","SearchResults.Len"])

p("C27","Repositories and indices do not affect one another",
 "However the histories of several repositories and stand-alone indices are interleaved, one call after another or at the same time in several goroutines, and whatever they have in common (analyser, builder, index and alias names, documents), each answers every call and ends up exactly as if it were the only one, without data races between them.",
 ["histories","schedules","inputs"],"every set of repositories and indices, whatever they share, and every interleaving of their histories",
 "Every test works on one repository or index with an analyser of its own; state shared by accident shows only where two of them are used by turns.",
 ["repos_repo.go","index_memory_index.go","analyze_compose.go","analyze_clean_tokenizer.go","analyze_stem_filter.go","analyze_stopwords_filter.go"],
 [("NewIndexRepo, NewMemoryIndexBuilder","repos_repo.go, index_memory_index.go"),("stateless analysis pipeline","analyze_compose.go")],["IndexRepo","MemoryIndex"],None,
 "none in /repo: the check builds a rewritten copy (overlay) with scheduling points")

p("C28","A call leaves nothing running behind it",
 "When the calls of a history have returned, no goroutine started for them goes on running or waiting, whether they succeeded or failed and however many indices they reached, and whether the answer of a search is read to the end, in part, closed early or not at all. An answer left unread hinders no later call.",
 ["histories","schedules"],"every history, every way of reading or not reading the answers, every schedule of the workers",
 "The tests never count goroutines, and read every answer to the end.",
 ["repos_repo.go"],[("worker goroutines of Search and Put","repos_repo.go")],["IndexRepo.Search","IndexRepo.Put"],None,
 "none in /repo: the check builds a rewritten copy (overlay) with scheduling points")

p("C29","Analysers and engines of the user's own get and give exactly what is there",
 "With any analyser and any search engine supplied by the user, an index asks its analyser for the statements put and the texts searched, unaltered and for nothing else. A search runs its engine exactly once on each index denoted, hands it the tokens the analyser yields for the query, in order and with repeats, and a view that shows exactly the documents put and, for each token, the positions of the documents whose analysed statement has it, and returns exactly the results the engine returned, whatever they are. What an engine does to the tokens and posting lists it was given affects no index and no other search.",
 ["histories","inputs","schedules"],"every analyser and engine, every history of an index or a repository, every schedule of the searches",
 "The tests use the library's own engines and two analysers; what an engine is given is never looked at.",
 ["index_memory_index.go","repos_repo.go","search_search.go","index_index.go"],
 [("MemoryIndex.Search","index_memory_index.go"),("Engine, Indexer","search_search.go"),("fan-out of a search","repos_repo.go")],["MemoryIndex.Search","IndexRepo.Search","Indexer"],None,
 "none in /repo: the check builds a rewritten copy (overlay) with scheduling points")

p("C30","A search costs no more than the documentation says",
 "The work done by HitsSearch and LinearSearch, over any index view, an index or an alias of several indices, stays within a constant factor of the documented cost: the total length of the posting lists of the query's tokens, plus the number of documents, plus R log R for R results. No length, density, overlap or order of the lists, no repetition of tokens and no sharing of identifiers makes it quadratic in the number of documents.",
 ["inputs","configurations"],"every shape of the posting lists, every query, every number of documents up to thousands",
 "The tests search a handful of documents and measure nothing.",
 ["search_hits_search.go","search_linear_search.go","repos_repo.go"],
 [("hit counting","search_hits_search.go"),("merging intersection","search_linear_search.go")],["HitsSearch","LinearSearch","IndexRepo.Search"],None,
 "none in /repo: the check builds a rewritten copy (overlay) that counts the statements executed")

p("C31","What is dropped, and what the caller lets go of, is not kept",
 "Once an index has been dropped, or replaced by a rename onto its name, the repository keeps neither the index nor the documents, contents and statements that only it held: their memory can be reclaimed while the repository lives on. Once the caller has let go of an answer, neither the answer nor the text of its query is kept by the repository or by an index. When the caller lets go of a repository, nothing of it stays.",
 ["histories","inputs"],"every history of calls, with the library's indices and with others, and every time at which an answer is let go",
 "The tests look at answers only; what is still reachable cannot be seen in them.",
 ["repos_repo.go","index_memory_index.go"],
 [("Drop and Rename","repos_repo.go"),("Search","repos_repo.go")],["IndexRepo.Drop","IndexRepo.Rename","IndexRepo.Search"],None)

p("C32","An answer is read once, in order, at whatever pace and in whatever turns",
 "The stream a search returns gives each of its results once and in order, however few or many are read at a time, whether a result is asked for not at all, once or again, whatever calls come between, and whatever other answers, of the same query or of others, are read in turns with it. It says that it has ended after the last result, goes on saying so, reports no error, and closes without one, read to the end or not. Any function of package streams reads from it what reading by hand does.",
 ["histories","inputs"],"every history of calls, every answer and every order of reads and calls",
 "The tests read each answer at once, to the end, before the next call.",
 ["repos_repo.go"],[("the streams returned by Search","repos_repo.go")],["IndexRepo.Search"],None,
 "none in /repo: the check builds a rewritten copy (overlay) with scheduling points")

out=os.path.join(os.path.dirname(os.path.abspath(__file__)),"..","properties.jsonl")
with open(out,"w") as f:
    for x in P: f.write(json.dumps(x,ensure_ascii=False)+"\n")
for x in P: assert len(x["title"])<=80,(x["id"],len(x["title"]))
