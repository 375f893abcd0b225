#!/usr/bin/env python3-vt
# Source of properties.jsonl (run: python3-vt tools/gen_props.py)
import json
P=[]
def p(id,title,statement,over,text,why,files,mech,obs,state=()):
    assert len(title)<=80,(id,len(title))
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,state=[dict(name=a,meaning=b,where=c) for a,b,c in state],
        mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=obs,hook_needed=None)))

p("C01","Key-value calls behave exactly like a map, through every split and compaction",
 "For every configuration and every sequence of set, get, contains, replace (with or without an expected value), get-or-create, remove, iterate and clear calls, each call returns exactly what an in-memory byte-string map would return (including the previous or existing value it reports), and the store's contents always equal that map's. Shard splits, background compaction, full hash rows, empty and maximum-size keys and values, and data far into a large shard file change nothing a caller can see.",
 ["inputs","histories","configurations","schedules"],
 "all byte-string keys/values within the documented size limits, all operation sequences, all shard-size/compaction-threshold/pre-allocation/initial-size configurations, all relative progress of the background compaction threads",
 "test_logic/test_pre_split run a few fixed insert/remove loops with one or two configurations and mostly assert counts; nothing compares every return value with a model while splits and compactions are in progress.",
 ["src/store.rs","src/router.rs","src/shard.rs","src/hashing.rs"],
 [("insert loop that splits and retries","src/router.rs insert"),("row lookup by signature then full-key compare","src/shard.rs try_replace/get/remove"),("split copies rows to two halves","src/shard.rs split"),("background compaction redirects rows as they are moved","src/shard.rs do_compaction/operate_on_row")],
 ["CandyStore::{set,get,contains,replace,get_or_create,remove,iter,clear}"],
 [("row table","which keys a shard holds and where their bytes are","src/shard.rs ShardHeader.rows"),("compaction progress","rows already served from the new file","compacted_up_to")])

p("C02","Closing and reopening a store preserves everything, under any tuning",
 "After a store is closed and reopened, with the same or different tuning options (shard size, compaction threshold, expected key count, pre-allocation, memory locking, thread counts), every key-value pair, list (with its order), queue (with its element indices), big value and typed item is exactly as it was, and the store continues to work. Directory entries that are not the store's own are ignored and left untouched.",
 ["histories","configurations","inputs"],
 "all histories of operations of every kind, all points at which the store is closed, all pairs of configurations that share the hash seed",
 "test_loading reopens one fixed key-value sequence with unchanged options; no list, queue or restructured shard tree is reopened, and never under other options.",
 ["src/router.rs","src/shard.rs","src/store.rs"],
 [("shard tree rebuilt from file names","src/router.rs load/treeify/consolidate_ranges"),("drop waits for compaction","src/shard.rs Drop for Shard")],
 ["drop + CandyStore::open, then full read-back"])

p("C03","A process crash at any instant loses no acknowledged key-value operation",
 "If the process dies at any instant, the store can be opened again; every operation that had returned is fully in effect, the operation in flight is either entirely in effect or entirely absent, and no other key or value changes, disappears, duplicates or reappears. The recovered store accepts and correctly executes further operations.",
 ["crash_points","histories","schedules","configurations"],
 "every point between two effects on the store's files (file writes, size changes, renames, deletions, and individual stores to the mapped headers), over all operation histories including concurrent writers on different keys and running compactions",
 "candy-crasher kills a child at random times with one workload and is not part of the test suite; the chance of hitting a given few-instruction window is negligible.",
 ["src/shard.rs","src/router.rs"],
 [("entry bytes, then offset, then signature","src/shard.rs insert (write_kv, fence, signature)"),("update by a single 8-byte store","src/shard.rs try_replace"),("removal by a single 4-byte store","src/shard.rs remove")],
 ["files in the store directory at the crash point, reopened by CandyStore::open"])

p("C04","Restructuring and recovery survive a crash at any point without losing data",
 "If the process dies at any instant of creating a new store (of any initial size), splitting a shard, compacting, merging small shards, clearing, or recovering from an earlier crash, the store can be opened again and holds exactly the acknowledged contents: nothing lost, stale or resurrected. An interrupted clear leaves either the whole old contents or an empty store.",
 ["crash_points","histories","configurations"],
 "every effect boundary inside creation, split, compaction (including resuming one), merge, clear and open, including crashes during recovery from crashes",
 "no test crashes in the middle of any of these; the leftover-file handling at load is never exercised by the suite.",
 ["src/router.rs","src/shard.rs"],
 [("temporary names then rename","src/shard.rs split/merge/background_compact"),("largest covering span wins, leftovers deleted","src/router.rs load/consolidate_ranges"),("compaction resumed from its recorded row","src/shard.rs Shard::open")],
 ["files in the store directory at the crash point, reopened by CandyStore::open"])

p("C05","Concurrent key-value operations are linearizable, also while shards restructure",
 "Under any interleaving of threads sharing one store, every get, set, replace, compare-and-replace, get-or-create, remove, clear and contains call takes effect atomically at one moment between its call and return, consistent with one sequential order; splits, compactions and merges running at the same time neither lose, duplicate nor revert any update.",
 ["schedules","histories","configurations"],
 "all interleavings of a few threads performing a few operations each on shared keys, with background compaction, splits, merges, clears, flush and stats calls in progress",
 "test_multithreading and test_atomics run free-running threads on disjoint counters; the OS schedule they get is one of astronomically many and rare windows (row handed over by compaction, split retry, upgrade of the file lock) are practically never hit.",
 ["src/shard.rs","src/router.rs"],
 [("row locks","src/shard.rs row_locks"),("files lock and its upgrade when compaction completes","src/shard.rs files / background_compact"),("router node lock with retry after split","src/router.rs insert")],
 ["return values of concurrent calls and the final contents"])

p("C06","Merging small shards never changes contents and always completes",
 "For any reachable arrangement of shards, merging small shards terminates, leaves every key, list and queue exactly as it was (immediately, and after reopening), never increases the number of shards nor goes below what the data and configured expectation require, merges whatever is small enough as long as more shards exist than required (the number that the statistics advise and that new stores are created with), and reports true exactly when the number of shards changed. Fill levels outside the allowed open interval (0, 0.5) are rejected without effect.",
 ["histories","configurations","inputs"],
 "all shard trees reachable by splits, initial pre-splitting and earlier merges (balanced or not), all fill levels, with or without a compaction in progress",
 "test_merge merges one freshly pre-split balanced tree twice; unbalanced trees, rows too full to merge and compaction in progress are never tried.",
 ["src/router.rs","src/shard.rs"],
 [("recursive pairwise merge and reload","src/router.rs _merge/merge_small_shards"),("abandoning a merge when a row overflows","src/shard.rs merge")],
 ["merge_small_shards result, num_shards, full contents before and after"])

p("C07","Lists behave like insertion-ordered maps",
 "For every sequence of list calls (set, promote, replace with or without an expected value, get-or-create, get, remove, discard, pop and peek at both ends, iterate both ways, compact, length) over any number of lists, every result equals that of an insertion-ordered map per list: updates keep an item's position, promotion moves it to the tail, pops and peeks take the true ends, and both iteration directions yield exactly the current items in order. The reported length equals the number of items, and compacting a list changes nothing visible.",
 ["inputs","histories","configurations"],
 "all sequences of list operations on any list and item keys and values, interleaved with splits, compactions, merges and reopening of the store, and any compaction parameters",
 "test_lists covers a handful of fixed sequences; the compare-and-replace form, compaction after arbitrary hole patterns and interaction with restructuring are not explored.",
 ["src/lists.rs"],
 [("chain entries from index to item","src/lists.rs get_from_list_at_index"),("head/tail/num_items record","src/lists.rs List"),("list compaction","src/lists.rs compact_list_if_needed")],
 ["all *_list / *_in_list calls"])

p("C08","A process crash leaves every list consistent and complete",
 "If the process dies at any instant during list operations (other than promoting sets and list compaction, documented as not crash-safe), then after reopening every list iterates, in its proper order, over exactly the items reachable by key: all those acknowledged and, for the operation in flight, its effect either fully or not at all on the items' presence and values. Repeating the interrupted operation and continuing to use the list then behaves normally, without errors, lost or duplicated items.",
 ["crash_points","histories"],
 "every effect boundary inside set, replace, get-or-create, remove, pop and discard on lists, followed by arbitrary further list operations",
 "no test ever crashes inside a list operation; each is a sequence of three or more separately durable steps.",
 ["src/lists.rs"],
 [("list record before chain before item on insert","src/lists.rs _insert_to_list"),("removal order","src/lists.rs owned_remove_from_list")],
 ["files at the crash point, reopened; iter_list, get_from_list, further operations"])

p("C09","Queues behave like double-ended queues with stable indices",
 "For every sequence of queue calls (push and pop at both ends, peek, extend, remove by index, discard, iterate both ways, length, range) every result equals that of a reference double-ended queue whose elements keep the index they were given: order is preserved, no element is lost, duplicated or returned twice, holes left by removals are skipped, and the length equals the number of elements present. This holds across splits, compaction and reopening.",
 ["inputs","histories","configurations"],
 "all sequences of queue operations over any queue keys, values, and indices (present, absent, out of range)",
 "test_queues runs one short fixed sequence; emptying a queue by removals in various orders, mixed head/tail pushes around empty queues and restructuring are not explored.",
 ["src/queues.rs"],
 [("head/tail/num_items record","src/queues.rs Queue"),("removal by index adjusts the ends","src/queues.rs remove_from_queue"),("pops skip holes","src/queues.rs _pop_queue")],
 ["all queue calls"])

p("C10","A process crash leaves every queue consistent, losing no acknowledged element",
 "If the process dies at any instant during queue operations, then after reopening each queue yields, in order, exactly the acknowledged elements, with the element of a single push, pop or removal in flight either present or absent and an extension or discard in flight having affected any part of its elements at most. The queue remains fully usable: further pushes, pops, removals and iteration behave normally.",
 ["crash_points","histories"],
 "every effect boundary inside push, pop, remove, extend and discard, followed by arbitrary further queue operations",
 "no test crashes inside a queue operation; each is two or more separately durable steps.",
 ["src/queues.rs"],
 [("queue record written before the element on push","src/queues.rs _push_to_queue"),("element removed before the record on pop","src/queues.rs _pop_queue")],
 ["files at the crash point, reopened; iter_queue and further operations"])

p("C11","Concurrent list operations take effect atomically",
 "Under any interleaving of threads operating on the same and on different lists, every list set, replace, compare-and-replace, get-or-create, remove, pop and discard takes effect atomically between its call and return (a promoting set as a removal followed by an insertion), a popped item carries the value it had when removed from that end, and when all threads finish each list is intact: iteration in both directions, lookups by key and the reported length agree with one sequential order.",
 ["schedules","histories"],
 "all interleavings of a few threads with a few list operations each, with any number of list locks, while shards split and compact",
 "test_lists_multithreading checks only that a few free-running threads popping disjoint amounts sum up; no interleaving control, no order or value checks.",
 ["src/lists.rs"],
 [("per-list keyed lock","src/lists.rs lock_list"),("pops","src/lists.rs owned_pop_list_head/owned_pop_list_tail")],
 ["results of concurrent list calls; final iteration"])

p("C12","Concurrent queue operations take effect atomically",
 "Under any interleaving of threads on the same and different queues, every push, pop, remove-by-index, extend and discard takes effect atomically between its call and return: each pushed element is popped at most once, none is lost, per-producer order is kept, and final contents, length and iteration agree with one sequential order of the calls.",
 ["schedules","histories"],
 "all interleavings of a few threads with a few queue operations each, while shards split and compact",
 "no existing test uses queues from more than one thread.",
 ["src/queues.rs"],
 [("per-queue keyed lock","src/queues.rs make_queue_key/lock_list")],
 ["results of concurrent queue calls; final iteration"])

p("C13","Big values of any length round-trip and overwrite cleanly",
 "A big value of any length, including empty and exact multiples of the chunk size, reads back byte for byte; overwriting replaces it completely whether the new value is longer or shorter, removal makes it absent and frees all it occupied, and set and remove report correctly whether it existed before.",
 ["inputs","histories","configurations"],
 "all value lengths and contents, all sequences of set/get/remove of big values on several keys mixed with other data, across restructuring and reopening",
 "test_bigval stores two fixed values; boundary lengths (0, chunk size, multiples), shrinking overwrites and leftover entries are not checked.",
 ["src/store.rs","src/queues.rs"],
 [("chunking into a queue","src/store.rs set_big/get_big/remove_big")],
 ["set_big, get_big, remove_big, typed set_big/get_big/remove_big, raw iteration"])

p("C14","Typed stores, lists and deques round-trip values and never mix types",
 "Through the typed wrappers, any key and value of a supported type reads back equal, with all results (previous values, iteration order, indices) equal to a typed reference model. Keys of different declared types never collide or affect each other even if their encodings coincide, and typed key-value items are invisible to untyped user iteration and untyped calls. A typed list or deque is the untyped one whose name is the encoded key followed by its type identifier.",
 ["inputs","histories"],
 "all values of the built-in key types, strings, byte vectors and nested encodable values; several wrappers of different key types over one store; all operation sequences",
 "test_typed uses a few hand-picked values of two or three types; coinciding encodings of different types are tried once.",
 ["src/typed.rs","src/store.rs"],
 [("type identifier appended to the encoded key","src/typed.rs make_key/make_list_key"),("typed namespace","src/store.rs TYPED_NAMESPACE")],
 ["CandyTypedStore, CandyTypedList, CandyTypedDeque calls"])

p("C15","Different kinds of data never interfere, whatever bytes the keys contain",
 "Plain keys, typed keys, lists, list items, queues, queue elements and big values live in separate name spaces: for any choice of key bytes (identical keys across kinds, keys that are prefixes or concatenations of one another, keys ending in internal-looking bytes), an operation on one object never changes what is observed of any other, except that a big value and the queue of the same key are one object. Plain iteration yields exactly the plain keys.",
 ["inputs","histories"],
 "all combinations of adversarial keys over every kind of object and all operation sequences mixing them, including discards",
 "no test mixes kinds under equal or crafted keys.",
 ["src/store.rs","src/lists.rs","src/queues.rs","src/typed.rs"],
 [("one suffix byte per kind of entry","src/store.rs *_NAMESPACE"),("item keys embed the list's hash","src/lists.rs make_item_key"),("element keys embed the index","src/queues.rs make_queue_item_key")],
 ["every public read call for every object after every operation"])

p("C16","Iteration yields every untouched key exactly once and resumes from cookies",
 "Iterating over a store yields every key that is present and untouched during the iteration exactly once with its value, never yields a key that was absent throughout, and yields for a concurrently modified key only values it actually held, as long as no shard splits or merges meanwhile (background compaction may run). Stopping at any position and resuming from the cookie taken there yields exactly the remaining items, and resuming from the cookie of a finished iteration yields nothing.",
 ["inputs","histories","schedules"],
 "all contents (including several shards, full and sparse rows), all positions for taking cookies, all modifications interleaved with the iteration",
 "the tests only count full iterations of quiescent stores; cookies are not tested at all.",
 ["src/store.rs"],
 [("cursor of shard, row and entry","src/store.rs CandyStoreIterator")],
 ["iter, iter_raw, cookie, iter_from_cookie"])

p("C17","Size limits are exact and a rejected operation leaves no trace",
 "Keys and values up to the documented maxima (and entries that fit the configured shard size) are accepted and read back intact; anything larger is refused with the error naming the limit exceeded. A refused operation of any kind - plain, list, queue, typed or big - leaves all observable state, including lengths and the existence of lists and queues, exactly as before.",
 ["inputs","configurations"],
 "all key and value lengths around every limit, for every kind of write operation, in every configured shard size",
 "test_too_large probes a few sizes of plain sets only and does not check that list and queue state is unaffected.",
 ["src/store.rs","src/lists.rs","src/queues.rs","src/lib.rs"],
 [("size checks","src/store.rs ensure_sizes/insert_internal")],
 ["all write calls at and around the limits, full state comparison after an error"])

p("C18","Statistics agree with the actual contents and traffic",
 "At any quiescent moment the statistics' number of entries equals the number of stored entries, the number of live data bytes equals the total size of those entries, wasted bytes never exceed occupied bytes, the shard count equals the number of shards, the numbers of splits and compactions equal those carried out, the size histogram accounts for every entry written (background copies included), the lookup, insert, update, removal and hash collision counters equal the operations actually performed, and the read and write byte counters equal the entry bytes actually read from and written to shard files. This holds through updates, removals, splits, compaction, merging, clearing and reopening.",
 ["histories","configurations","schedules"],
 "all operation histories and configurations, read when no operation is in progress, including after concurrent workloads",
 "test_histogram and test_compaction_stats check a few counters after one fixed loop.",
 ["src/stats.rs","src/shard.rs","src/store.rs"],
 [("per-shard counters in the header","src/shard.rs num_inserts/num_removals/wasted_bytes/write_offset"),("process-wide counters","src/stats.rs InternalStats")],
 ["CandyStore::stats() against raw iteration and a model of the calls made"])

p("C19","A store directory is open at most once at a time",
 "While a store is open, any other attempt to open the same directory - from the same process or another, by any path to it - fails without disturbing the open store's data; after the holder closes the store or its process dies in any way, opening succeeds. A failed open never releases or steals the lock of the holder, and releases its own.",
 ["histories","schedules","crash_points"],
 "all sequences of opens, closes and kills by several processes and threads, including simultaneous opens and opens that fail for another reason",
 "no test opens a directory twice.",
 ["src/store.rs"],
 [("lock file taken before anything else","src/store.rs open")],
 ["results of CandyStore::open in several processes"])

p("C20","Unknown or damaged files are refused untouched, or cleared only on request",
 "Opening a directory whose shard files carry another version, a foreign signature or a truncated (but not empty) header, or only some of whose shard files are there, fails with an error and modifies no shard file's contents - unless clearing of unsupported versions was requested (and no shard file is missing), in which case the affected shards come up empty and the store is fully usable while intact shards keep their data. Leftovers of interrupted internal work never shadow, corrupt or resurrect data.",
 ["inputs","configurations","fault_sequences"],
 "all corruptions of the identifying header fields and all truncations below the header size, on any subset of shards, any proper subset of the shard files missing, plus any leftover temporary files, with the clear option on and off",
 "no test opens a store with a foreign version or a damaged file.",
 ["src/shard.rs","src/router.rs"],
 [("signature, version and size check before use","src/shard.rs Shard::open"),("temporary files discarded at load","src/router.rs load")],
 ["CandyStore::open result, file bytes before and after"])

p("C21","A completed flush makes everything acknowledged before it durable",
 "When a flush returns successfully, the contents the disk has been told to persist for the store's files suffice to reopen the store with every operation acknowledged before the flush was called, even when a compaction or restructuring is in progress. A failure to sync any file is reported as an error.",
 ["histories","schedules","crash_points","fault_sequences"],
 "all histories before the flush, all progress states of compaction at the flush, all shard arrangements, any failing sync",
 "durability against loss of the page cache cannot be observed by ordinary tests; none call flush and check anything.",
 ["src/store.rs","src/shard.rs"],
 [("sync of every shard file","src/store.rs flush / src/shard.rs flush")],
 ["file contents as of their last successful sync at the moment flush returns, reopened"])

p("C22","With flush aggregation every write is synced before it is acknowledged",
 "With the flush-aggregation option enabled and a delay configured, a modifying call returns only after the bytes it wrote have been synced to disk, however many threads write concurrently and however their delays overlap; concurrent writers share syncs but never return before one that covers them. With no delay configured behaviour is the same as without the option.",
 ["schedules","histories"],
 "all interleavings of several threads writing to the same and different shards, with any delay, with compaction in progress",
 "test_flush_agg only measures that the number of operations per second is plausible; the hand-over between a finishing and an arriving writer is a narrow race.",
 ["src/shard.rs"],
 [("aggregation mutex and delay flag","src/shard.rs flush_aggregation")],
 ["synced file contents at the moment each modifying call returns"])

p("C23","No combination of public calls deadlocks or runs forever",
 "Under any interleaving of threads calling any public operations on one store - key-value, list, queue, big, flush, statistics, iteration, merge, clear, closing - every call eventually returns, whatever the number of list locks and compaction threads, and dropping the store waits for and finishes background work.",
 ["schedules","histories","configurations"],
 "all interleavings of a few threads over the entire public API, all lock and thread counts (at least one), all shard sizes",
 "the tests' schedules are whatever the OS happens to give; a deadlock needs a specific order of lock acquisitions across the tree, shard, row, compaction and list locks.",
 ["src/router.rs","src/shard.rs","src/lists.rs","src/queues.rs","src/store.rs"],
 [("lock order: list lock, tree node, compaction handle, files, row","src/router.rs, src/shard.rs"),("bounded channel to compaction threads","src/shard.rs CompactionThreadPool")],
 ["termination of every call under a controlled scheduler that can prove that all threads are blocked"])

p("C24","An I/O failure is reported and never loses or corrupts acknowledged data",
 "If any file operation fails (no space, I/O error, too many files) during a call, the store reports an error from a call rather than panicking or silently dropping the write, data acknowledged earlier stays readable with its exact value, and the failed operation is entirely in effect or entirely absent. Once the failure is gone, the store - still open or reopened - is fully usable with exactly those contents. (Operations documented as several steps - discarding a list or queue, big values, promoting a list item - may be found part-way, affecting only their own object, and compact_list_if_needed, documented as not crash-safe, is excluded; after clear() fails, the store may refuse operations until it is cleared again or reopened, and then comes up empty.)",
 ["fault_sequences","histories","configurations"],
 "every single failing file operation (create, resize, map, write, read, rename, delete, sync) at every occurrence, during any key-value operation, split, compaction, merge, flush or open",
 "no test injects an I/O failure.",
 ["src/shard.rs","src/router.rs","src/store.rs"],
 [("errors propagated by Result","src/shard.rs, src/router.rs"),("background compaction result handed to a later call","src/shard.rs TPHandle")],
 ["results of calls and full read-back after a fault, live and after reopening"])

p("C25","Keys with equal hashes are kept apart",
 "Keys whose hashes coincide partially or completely (same shard, same row, same signature, or the reserved signature value) behave exactly like unrelated keys: each has its own value, and updating, removing, splitting, compacting, merging, iterating, list membership and queues never confuse one with another (names of lists whose full 64-bit hashes coincide excepted: the file format cannot tell those apart).",
 ["inputs","histories","configurations"],
 "all operation sequences over sets of colliding keys: genuinely colliding keys found by search for the default seed, and keys made to collide by masking hash bits",
 "test_list_collisions covers one fixed list scenario under masked hashes; plain keys, removal and compaction among collisions are not covered.",
 ["src/shard.rs","src/hashing.rs","src/lists.rs"],
 [("full key comparison after signature match","src/shard.rs get/try_replace/remove"),("reserved signature avoided","src/hashing.rs from_hash"),("item found by hash, list and index","src/lists.rs get_from_list_at_index")],
 ["all key-value, list and queue calls on colliding keys"])

p("C26","Space of overwritten and removed entries is reclaimed",
 "Overwriting or removing and re-inserting entries indefinitely never makes the store grow without bound: whenever background work has finished after an insertion, the wasted bytes of the shard written to stay below the compaction threshold plus that operation's size, its occupied bytes stay within its configured maximum plus that size, and rewriting a fixed set of entries that fits its shards causes no further splits. No temporary or superseded file remains after background work - or a merge, carried out or refused - has finished.",
 ["histories","configurations"],
 "all histories of overwrites, removals and inserts on all configurations whose threshold is below the shard size",
 "test_compaction checks that some compaction happened in one fixed loop.",
 ["src/shard.rs","src/router.rs"],
 [("compaction trigger","src/shard.rs insert/begin_compaction"),("split trigger","src/shard.rs insert")],
 ["CandyStore::stats() and the directory listing after quiescence"])

with open("/verif/properties.jsonl","w") as f:
    for x in P: f.write(json.dumps(x)+"\n")
try:
    import jsonschema
    sch=json.load(open("/root/.vp/PROPERTIES.schema.json"))
    for x in P: jsonschema.validate(x,sch)
except ImportError: pass
print(len(P))
