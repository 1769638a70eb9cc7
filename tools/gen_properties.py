import json
P=[]
def p(id,title,statement,over,text,why,files,state,mech,observe,hook=None):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,state=[dict(name=a,meaning=b,where=c) for a,b,c in state],
      mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=observe,hook_needed=hook)))
ET="src/edx/entry_table.rs";CT="src/edx/chain_table.rs";MM="src/findex_mm/mm.rs";MMC="src/findex_mm/compact.rs";MMS="src/findex_mm/structs.rs"
GR="src/findex_graph/graph.rs";GC="src/findex_graph/compact.rs";GS="src/findex_graph/structs.rs";IX="src/index/mod.rs";IXS="src/index/structs.rs";EDX="src/edx/mod.rs";ES="src/edx/structs.rs";MAC="src/macros.rs";PAR="src/parameters.rs"

p("C01","Search returns exactly the live associations after any history",
 "After any sequence of successful add, delete and compact calls, searching any set of keywords returns, for every requested keyword, exactly the data reachable from it through the associations currently in the index, where an association is in the index iff the last call that named it was an add. Repeating an add or a delete, or deleting something absent, changes nothing else, and a keyword with nothing live maps to an empty set.",
 ["histories"],"all sequences of add/delete/compact calls (each over any non-empty set of associations) and all search sets",
 "unit tests run a handful of fixed sequences; correctness depends on how every later link in a chain overrides the earlier ones, across calls and compactions",
 [MM,MMC,IX,GR],[("chain","ordered list of signed values of a keyword",MM),("entry","seed + last link token of a keyword",MMS)],
 [("decompose/recompose: last operation wins",MM),("unroll from the tag hash to the last token",MM)],["Index::search result"])

p("C02","Every byte string is stored and returned unaltered",
 "Keywords, indexed data and labels may be any byte strings, of any length (including zero) and content, in any number per call and per keyword: whatever an add accepts, a later search returns byte for byte, and nothing else. Distinct byte strings, and a pointer and a piece of data with the same bytes, are never confused, merged, split, padded or truncated, and deleting or filtering one leaves the others.",
 ["inputs"],"all byte strings as keyword, data, pointer and label; all numbers of values per call, calls per keyword, keywords per call",
 "tests use 10 random 32-byte values and short ASCII strings; block and line boundaries, long values, zero-length values and long chains are a matter of every length and every alignment",
 [MM,MMS,GS,IXS,MAC],[("link","operation byte + 5 blocks of 1+16 bytes",MMS)],
 [("block length byte, 255 = continued",MMS),("leading type byte of an indexed value",GS)],["Index::search result after add/delete/compact"])

p("C03","Search resolves any pointer graph exactly and terminates",
 "Whatever the graph formed by pointers between keywords (cycles, self references, diamonds, pointers to keywords never indexed), a search terminates after a number of storage rounds bounded by the number of keywords reachable, and returns for each requested keyword exactly the data of all the keywords reachable from it. The answer for a keyword does not depend on which other keywords are requested in the same search.",
 ["inputs","histories"],"all directed graphs of pointers over the keywords, all sets of requested keywords",
 "tests walk one 9-node cyclic graph and prefix trees; cycles combined with several roots need all graph shapes",
 [GR,IX],[("graph","keywords already read in the current search",GR),("visited","keywords already walked for one root",GR)],
 [("only pointers to keywords not read yet are followed",GR),("walk() with a visited set per root",GR)],["Index::search result","number of fetch requests"])

p("C04","Search interruption sees each round and stops exactly there",
 "The interruption callback of a search is called after each round with exactly the associations of the keywords read in that round, each keyword reachable in r hops having been reported at the latest in round r. When it asks to stop, no further storage request is made and the search returns exactly the data reachable inside what was read so far; when it fails, the search fails with its error.",
 ["inputs","fault_sequences"],"all pointer graphs, all request sets, all rounds at which the callback stops or fails",
 "the only test of the callback never interrupts (its interrupt condition is unsatisfiable)",
 [GR,IX],[("local_graph","associations read in the current round",GR)],[("interrupt() awaited after every round",GR)],["interrupt callback arguments","Index::search result","fetch requests"])

p("C05","Compaction preserves the index content",
 "A successful compaction, whatever the history before it, the compaction rate, the random choice of chains, and whichever of the key and the label are renewed, leaves every keyword searchable under the new key and label with exactly the data and pointers it had, except data the filter did not return. The filter is given only live data of the chains being compacted, with a rate of one or more it is given all live data and everything it does not return is gone, and the old key and label find nothing any more.",
 ["histories","inputs","configurations"],"all histories, rates, subsets of chains drawn, renewals of key/label, filter answers, and numbers of entries (below, at and above a batch)",
 "tests compact a few fixed indexes at rate 1 with a filter keeping everything or one value; partial compactions are random, so a test sees one draw",
 [MMC,GC,IX],[("CompactingData","entries and chain tokens read by the first half of a compaction",MMS)],
 [("remaining_entry_tokens",MMC),("select_random_tokens / get_compact_line_number",IX),("compact_batch filter",IX)],["Index::search under new and old credentials","data_filter arguments"],
 "cfg(findex_verif_small_batch): small COMPACT_BATCH_SIZE so that several batches are explored")

p("C06","Compaction renews every entry and leaves minimal storage",
 "After a successful compaction no entry-table token or value stored before it is still stored, and none of the chain-table rows of a compacted chain is. A compaction at rate one or more leaves exactly one entry per keyword that still has associations, and for each the minimal number of chain rows its remaining values need (no duplicate, no deleted value, no orphan row); a lower rate leaves untouched chains as they are, a rate of zero touches none, and repeating a partial compaction ends up rewriting every chain.",
 ["histories","configurations"],"all histories and all compaction parameters, all index sizes",
 "tests check row counts after three compactions of a two-keyword index",
 [MMC,IX],[("old_links/old_entries","rows to delete after the new ones are stored",MMC)],[("new seed per compacted chain",MMC),("tokenize under new key/label",MMC),("number of draws covers the table at rate 1",IX)],["rows of both tables before/after"])

p("C07","Concurrent adds and deletes lose nothing",
 "When several clients add and delete associations concurrently on the same index, under every interleaving of their storage requests every call succeeds, and afterwards each keyword holds what some sequential order of the calls (compatible with their real-time order) would have left. Nothing acknowledged is lost, duplicated or attributed to another keyword, and the index stays fully usable.",
 ["schedules"],"all interleavings of the storage requests of concurrent add/delete calls, for all small sets of overlapping calls",
 "test_concurrency runs 100 OS threads adding to one keyword once: it samples one schedule, adds only, one keyword per call",
 [MM,EDX,ET],[("last link token in the entry","compared-and-swapped by upsert",MM)],[("upsert retry loop in commit()",MM),("conditional upsert contract",EDX)],["Index::add/delete results","Index::search afterwards"],
 "cfg(findex_verif): scheduling points at the in-memory store's mutex (lock-level phase)")

p("C08","A search concurrent with writers sees each write whole or not at all",
 "A search running concurrently with adds and deletes never fails and never returns data that was not indexed, under every interleaving of storage requests. For each keyword it reads, what it sees is the result of all writes acknowledged before the search began plus some of those overlapping it, each write entirely or not at all, in an order compatible with real time; a later search never sees less than an earlier one did.",
 ["schedules"],"all interleavings of one or two searches (multi-keyword, multi-round) with concurrent writers, including multi-row values",
 "no test searches while writing",
 [MM,EDX,GR],[("links not stored yet","chain rows announced in the entry but not inserted yet are skipped",MM)],[("missing links are skipped, links of one call are inserted in one request",MM)],["Index::search result","interrupt callback arguments"],
 "cfg(findex_verif): scheduling points at the in-memory store's mutex (lock-level phase)")

p("C09","A failed or interrupted add or delete is all-or-nothing",
 "If an add or delete fails, is cancelled or its process dies at any storage request (before or after the request took effect), everything indexed before is still found, and the call's own associations took effect either all or not at all (keyword by keyword when other writers overlap the call). The index stays searchable, writable and compactable, and repeating the call makes it take effect fully.",
 ["crash_points","fault_sequences"],"all storage requests of the call x {error, lost answer, cancelled before, died after} x history before x actions after (search, retry, other writes, compaction), up to two faults",
 "no test injects a failure",
 [MM],[("hole","link token announced in the entry with no row behind it",MM)],[("entry first, links second in a single insert; missing links skipped",MM)],["Index::search after recovery"])

p("C10","A failed or interrupted compaction loses nothing",
 "If a compaction fails, is cancelled or its process dies at any point (storage failure, filter failure, wrong key, label already in use), the whole content is still found under the old key and label or under the new ones (keyword by keyword for an index of several batches). One that fails before its new entries are stored leaves both tables as they were, and retrying it, or running another compaction of the index with the credentials that hold the content, never loses anything. The client that failed is no worse off than a new one.",
 ["crash_points","fault_sequences","histories"],"all storage requests of the compaction x {error, lost answer, cancelled, died after} x histories x key/label renewals x follow-ups (retry, other rate, other label), including repeating an already successful compaction",
 "no test injects a failure or repeats a compaction; the rollback code is never executed",
 [MMC,IX],[("new rows/old rows coexisting","state between the insertions and the deletions",MMC)],[("insert new links, insert new entries, then delete old rows; rollback on failure",MMC)],["Index::search under old and new credentials","raw tables"])

p("C11","Compaction overlapping searches and writes keeps the index sound",
 "While a compaction runs, concurrent searches under the old or new credentials never fail because of it and never return anything that was not live; every association acknowledged before the compaction began is afterwards found under the new credentials if the compaction succeeded, otherwise under the old ones, unless an overlapping delete removed it. A write that overlaps the compaction either fails or is not lost.",
 ["schedules"],"all interleavings of the storage requests of one compaction with a search, an add or a delete (existing and new keywords, old and new credentials)",
 "no test runs anything during a compaction",
 [MMC,MM],[("entry rows","replaced under a new token by the compaction",MMC)],[("upsert of a vanished entry is an error",EDX),("insert of an existing token is an error",EDX)],["Index::search afterwards under both credentials"])

p("C12","Keys and labels isolate indexes",
 "Searching with a key or label that differs in any way from those used to index (a single bit, a prefix, an extension, an empty label) finds nothing and does not fail. Indexes written under different keys or labels in the same tables never see, change or corrupt each other's content, whatever the interleaving of their searches, adds and deletes. A compaction, which by design moves the whole entry table, fails and changes nothing when an entry is under another key than its old one.",
 ["inputs","histories","configurations"],"all pairs of (key, label) contexts including single-bit and prefix variants, all histories of operations alternating between contexts",
 "tests search with one wrong key/label after compaction only",
 [ET,CT,MAC,MM],[("token = KMAC(key, H(keyword), label)","entry-table address",ET)],[("key derivation with domain separation",ET),("per-chain random seed",MM)],["Index::search in each context"])

p("C13","Every keyword is reported as new exactly once",
 "The set returned by an add or delete contains exactly the keywords of that call for which the index held no entry yet. For concurrent calls exactly one of those introducing a keyword reports it, and a keyword removed by a compaction counts as new again.",
 ["histories","schedules"],"all histories of add/delete/compact and all interleavings of concurrent calls introducing the same keywords",
 "test_keyword_presence and test_concurrency check one sequence and one sampled schedule",
 [MM],[("new_tags","keywords without an entry at the last accepted upsert",MM)],[("new_tags.retain after each upsert",MM)],["return value of Index::add/delete"])

p("C14","The storage backend cannot tell operations or contents apart",
 "The sequence of storage requests of a call (kinds, numbers and sizes of tokens and rows) depends only on the volumes involved, never on the content of keywords, data or labels, and an add and a delete of the same associations are indistinguishable. Every stored row of a table has the same fixed size, whatever is indexed.",
 ["inputs","histories"],"all pairs of calls with equal volumes from equal-volume states; add versus delete",
 "documented as a security guarantee but not tested at all",
 [MM,MMC,GR,EDX],[("request transcript","what the storage sees",EDX)],[("fixed-size entries and links",MMS),("deletion = negated addition",IX)],["trace of DbInterface requests"])

p("C15","Stored data is always freshly randomised and never in clear",
 "Over any history, no two values ever sent to storage share a nonce or a ciphertext, no chain-row token is ever used twice, and chains never share rows across keywords, keys or labels. Neither keywords (nor their unkeyed hashes) nor indexed data nor user keys nor chain seeds ever appear in clear in anything sent to the storage, and generated user keys never repeat.",
 ["histories"],"all histories of add/delete/compact by several clients, retries included",
 "nothing checks randomness reuse; a reuse is invisible to functional tests",
 [ES,MM,MMC,IX],[("rng","shared random generator",IX),("nonce","12 random bytes per encryption",ES)],[("fresh nonce per encrypt",ES),("fresh seed per new or compacted chain",MM)],["bytes passed to DbInterface"])

p("C16","The in-memory store honours the storage contract atomically",
 "The bundled in-memory store implements the documented storage contract: upsert writes a row iff the given old value equals the stored one and returns the others with their current value, requires stored rows for all old values, insert is refused as a whole if any token is in use, fetch returns exactly the stored rows among those asked, delete and dump are exact. Each request is atomic: under every interleaving of concurrent requests at the granularity of its locks, the answers and the final content are those of some sequential order.",
 ["inputs","schedules"],"all small table states x all requests (old/new/stored combinations over several tokens); all interleavings of 2-3 concurrent requests at lock granularity",
 "tests use it only through Findex; its error paths and atomicity are never examined",
 [EDX],[("Arc<Mutex<map>>","the table",EDX)],[("one lock held for the whole request",EDX)],["DbInterface results and table content"],
 "cfg(findex_verif): the store's Mutex is a wrapper with scheduling points")

p("C17","Stored and exchanged representations round-trip",
 "Serializing an in-memory table and reading it back yields the same table, for every content including the empty one, and the index it holds answers searches as before; several tables written one after the other are read back in order. Tokens, encrypted values and indexed values survive conversion to bytes and back; byte strings of any other length are rejected; the collections exchanged with the library hold exactly what they are made from. Bytes that are not exactly a serialized table of the expected value size (truncated, altered, followed by others, announcing another number of rows) are rejected with an error, never a panic.",
 ["inputs"],"all small tables and index states, all row contents, all byte lengths for the conversions",
 "the regression test only reads one file produced by an older version; nothing reads back what is written",
 [EDX,ES],[("serialized table","leb128 count then rows",EDX)],[("Serializable for InMemoryDb",EDX),("EncryptedValue from/to bytes",ES)],["Serializable write/read, TryFrom<&[u8]>"])

p("C18","Searches never write and no storage failure is swallowed",
 "A search sends only read requests and leaves both tables unchanged. If any storage request, interruption callback or data filter fails during any operation, that operation returns an error (never a partial or wrong success), never panics, and an add, delete or search reports the backend's own error.",
 ["fault_sequences","histories"],"all operations x all storage requests they make x error; all callback failures",
 "no test makes the backend or a callback fail",
 [MM,MMC,GR,IX,ET,CT,"src/error.rs"],[],[("? propagation of DxEnc errors",MM),("map_err to Interrupt/Filter",IX)],["operation results","request trace"])

p("C19","Corrupted rows are detected, never decoded",
 "If any single bit of a stored entry or chain value is altered, or the value is replaced by another chain's (or an entry by one written under another user key), every search, write or compaction that decrypts it fails with an error instead of returning or storing anything derived from it. Nothing already stored is modified by the failing operation, and operations that do not need the damaged row are unaffected.",
 ["inputs","fault_sequences"],"all single-bit alterations of every stored value of small indexes, all swaps of values between chains, x operations",
 "no test alters stored rows",
 [ES,MM,MMC],[("AES-256-GCM tag","authenticates each value",ES)],[("decrypt_in_place_detached error propagated by resolve",ES)],["operation results","raw tables"])

p("C20","The index follows the documented storage format",
 "For every history, a reader written independently from the documented format (keyword hash and label keyed-hashed into entry tokens, 80-byte entries, hash-chained link tokens, 86-byte links of five flagged blocks, AES-256-GCM rows) decodes both tables completely and finds exactly the live associations, with no unexplained row. Conversely an index produced by such an independent writer, using any layout the format allows, is searched, updated and compacted correctly, and a chain that breaks the format (blocks of one value that disagree on the operation, an impossible block length, a value neither pointer nor data) is refused with an error that changes nothing.",
 ["histories","inputs"],"all histories of operations (library writes, reference reads) and all small chains in every block layout (reference writes, library reads)",
 "the regression test reads one old file; nothing constrains what is written, nor layouts other than the writer's own",
 [MMS,MM,ET,CT,"documentation/serialization.md"],[("entry/link layout","",MMS)],[("From<Entry> for bytes",MMS),("Link get/set",MMS),("key derivation info strings",ET)],["raw tables vs reference codec"])

p("S01","Snapshot security (computational)",
 "An attacker who obtains the stored tables learns nothing about keywords and associations beyond the table sizes, assuming the primitives are secure.",
 ["inputs"],"all probabilistic polynomial-time attackers","a computational indistinguishability claim",
 ["documentation/security.md",ES],[],[("AES-256-GCM, KMAC256",ES)],["tables"])

p("S02","Repeated partial compactions statistically compact everything",
 "Compacting repeatedly at rate 1/n is expected to have compacted every chain after n compactions.",
 ["histories"],"the distribution of random draws","a statement about expectations over the random generator",
 [IX],[],[("get_compact_line_number (coupon collector)",IX)],["chains compacted"])
with open('/verif/properties.jsonl','w') as f:
    for x in P: f.write(json.dumps(x)+"\n")
try:
    import jsonschema
    s=json.load(open('/root/.vp/PROPERTIES.schema.json'))
    for x in P:
        jsonschema.validate(x,s)
        n=x['statement'].count('. ')+1
        if n>3: print(x['id'],n)
except ImportError: print("no jsonschema")
