HOOK_COMMITS = ["ee04588f87b353dc65a05f0816d20bf0ddb32464"]
DIRECT = "stateless model checking of the implementation: "
TRUST = (" Exhaustive inside the stated bounds only (evidence/<id>.json lists them per phase); trusts the "
         "cryptographic primitives, the explorer, its reference model and (where used) its independent "
         "codec of the storage format.")
MC, FE = "model_checking", "fault_enumeration"
NOTES = {
 "C01": (DIRECT + "all call histories up to a depth, compared with a reference model", MC,
   "Every history of the alphabet up to the depth is executed on the real code and every search is compared with a reference map." + TRUST),
 "C02": (DIRECT + "all value lengths up to a bound, all splits and mixes of boundary contents, over all short histories", MC,
   "Every length and combination inside the bounds is indexed, searched, deleted and compacted on the real code; answers are compared byte for byte." + TRUST),
 "C03": (DIRECT + "all pointer graphs up to a size, all request sets, rounds bounded; long paths and deep cycles", MC,
   "Every graph up to the size and every requested subset is searched on the real code and compared with graph reachability." + TRUST),
 "C04": (DIRECT + "all graphs, request sets and decisions of the interruption callback at every round", MC,
   "Every decision sequence of the callback is explored; what it receives, what is requested afterwards and what is returned are compared with the model." + TRUST),
 "C05": (DIRECT + "all histories up to a depth with compactions, all draws of the compacted chains, all filters", MC,
   "Every history is executed, with every filter of the alphabet; contents before and after each compaction are compared under old and new credentials." + TRUST),
 "C06": (DIRECT + "all histories up to a depth followed by compactions; both tables decoded by an independent codec", MC,
   "After every explored compaction the raw tables are compared with those before and decoded; row counts are compared with the minimum computed independently." + TRUST),
 "C07": (DIRECT + "all interleavings of the storage requests (sleep-set reduction) and of the lock operations of concurrent writers", MC,
   "Every schedule of the plans is executed on the real code; the final content must be that of a sequential order compatible with real time." + TRUST),
 "C08": (DIRECT + "all interleavings of searches and writers, at request and at lock granularity", MC,
   "Every schedule of the plans is executed; one order of the writes must explain every observation of every keyword." + TRUST),
 "C09": (DIRECT + "every fault at every storage request of adds and deletes, with all follow-ups up to a depth", FE,
   "Every request of every call of the alphabet is failed or interrupted before and after its effect (also in pairs), and every follow-up is compared with both possible contents." + TRUST),
 "C10": (DIRECT + "every fault at every storage request of compactions, wrong credentials, filter failures, with all follow-ups up to a depth", FE,
   "Every request of every compaction is failed or interrupted before and after its effect (also in pairs); contents under old and new credentials are compared after it and after every follow-up." + TRUST),
 "C11": (DIRECT + "all interleavings of a compaction with searches and writes", MC,
   "Every schedule of the storage requests is executed; losses inside the window of the known finding KF1 are reported as such, any other one is a violation." + TRUST),
 "C12": (DIRECT + "all one-bit variations of keys, label variations, all histories over several credentials, all interleavings of their clients", MC,
   "Every variation is searched, and every history and schedule is compared with one independent model per credentials." + TRUST),
 "C13": (DIRECT + "all histories and all interleavings of concurrent writers", MC,
   "The reported keywords are compared, in every execution, with the entry tokens stored before it." + TRUST),
 "C14": (DIRECT + "all pairs of calls of equal volumes and different contents: their storage transcripts are compared", MC,
   "Every history of volumes is executed with every content variant; the sequences of kinds, numbers and sizes of requests must be identical." + TRUST),
 "C15": (DIRECT + "all histories, faults and interleavings, monitoring every row and token sent to storage", MC,
   "A monitor compares every nonce, ciphertext, token and byte string sent over each explored execution. Decides freshness within one process, not the quality of the random generator." + TRUST),
 "C16": (DIRECT + "all requests over small token and value sets from all states, all lock-level interleavings of concurrent requests", MC,
   "Every request from every state of the bounded domain is compared with the documented contract, and every lock-level schedule with the sequential orders." + TRUST),
 "C17": (DIRECT + "all small tables and all histories, serialized and read back; all lengths of the conversions", MC,
   "Every table of the bounded domain and every index reached by the histories is written and read back." + TRUST),
 "C18": (DIRECT + "every failure of every request, callback or filter of every operation of the alphabet", FE,
   "Every request of every operation is failed in turn (and in pairs); the answer must be the error, and searches must only read." + TRUST),
 "C19": (DIRECT + "every single-bit alteration and every cross-chain replacement of every stored row", FE,
   "Every bit of every row of small indexes is flipped, and every row replaced by every other, before every operation of the alphabet." + TRUST),
 "C20": (DIRECT + "all histories decoded by an independent codec, and all layouts of an independent writer used by the implementation", MC,
   "The codec must explain every row of every reached state; the implementation must search, update and compact every layout written by it." + TRUST),
}
REASONS = {
 "S01": "a computational indistinguishability statement against every polynomial adversary: there is no finite set of executions whose enumeration decides it (its structural consequences are C14 and C15)",
 "S02": "a statement about a probability distribution (coupon collector) over the compaction's random draws: enumeration decides what happens for each draw (C05, C06 explore the draws) but not how likely the draws are",
}
