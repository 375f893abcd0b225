#!/usr/bin/env python3-vt
# fixed: lines of known_findings.txt, with the current commit ids of /repo
import subprocess
F=[
("do not split a shard that spans a single selector",["C01","C25"],"a full row in a shard that covers a single shard selector made insertion split forever / fail"),
("creating and clearing a store survives a crash",["C04"],"killed while creating a pre-split store or while clearing, the store came up with part of its shards or of its old contents"),
("merging shards neither deadlocks",["C06","C23","C24"],"merge_small_shards could deadlock on its own locks and lost shards from memory when merging failed"),
("iterating over a shard while it's being compacted",["C16","C01","C04"],"iteration skipped entries of rows that were being moved by compaction; a resumed compaction lost column positions"),
("finish compactions that have failed",["C24"],"a compaction that failed once was never finished, blocking or breaking the shard until reopen"),
("recalculate the number of entries when opening",["C18"],"after a crash the shard's entry counters stayed wrong forever (and so did decisions based on them)"),
("clearing a shard of an unsupported version",["C20"],"clear_on_unsupported_version left an unfinished compaction file of the old version, which was then resumed"),
("flushed data stays flushed while",["C21","C22"],"data acknowledged and flushed became undurable when a compaction, split or merge replaced its file by an unsynced one; flush skipped the second file during a compaction"),
("an aggregated flush that failed",["C22"],"with flush aggregation, threads that joined a flush that failed were told it had succeeded"),
("resuming from the cookie of an exhausted iterator",["C16"],"the cookie of a finished iterator restarted the iteration from the beginning"),
("replace_in_list compares the expected value",["C07"],"replace_in_list compared the expected value with the item's internal encoding, so it never matched"),
("check the sizes of list items, queue items and big",["C17"],"a refused list/queue/big write left metadata, chunks or a discarded old value behind"),
("remove_from_queue handles the only element",["C09","C10"],"removing the only element or an index outside the range corrupted the queue's head/tail"),
("an unfinished extend_queue has no effect",["C10","C17","C09"],"an extend_queue that failed or crashed part-way left elements counted but missing"),
("set_big of an empty value",["C13"],"set_big of an empty value did not create it: get_big returned None"),
("crashing while removing from a list",["C08"],"killed inside remove_from_list/discard_list, items stayed reachable by key but not by iteration"),
("popping from a list is atomic",["C11"],"pop_list_head/tail peeked and removed in two steps: concurrent calls returned stale values or None for a non-empty list"),
("list and queue iterators don't overestimate",["C07","C09"],"size_hint's lower bound of list/queue iterators counted holes"),
("opening a shard must not ignore a compaction",["C24"],"if the unfinished compaction file of a shard could not be opened, the shard was opened without it and entries already moved were lost"),
("don't sync files that replace",["C21"],"(refines the repair of flushed data above, which made compactions wait for syncs nobody had asked for)"),
("opening must not ignore files whose type",["C24"],"when an I/O error hid the type of a shard file (or the presence of the reset marker), the shard was silently left out: a panic, or a store created anew over the old data"),
("files with names similar to those of shards",["C02"],"a foreign file named shard_0-10000 made opening delete the real shard, shard_x-y made it panic, and files named top_*, bottom_*, merge_* were deleted"),
("failing writes must not use up",["C24"],"every failed write leaked its area of the file; after enough of them (a full disk, say) the offset exceeded 32 bits and later successful writes ended up pointing elsewhere, losing data"),
("opening a store must fail if some",["C20"],"opening a store some of whose shard files are missing panicked instead of returning an error"),
("sizing a store for more keys",["C06"],"with more than about 1.9e9 expected keys, creating a store, Stats::required_num_shards and merge_small_shards panicked"),
("a store without compaction threads",["C01"],"with num_compaction_threads = 0 every insertion that needed a compaction failed with a channel error"),
("a clear that fails midway",["C24"],"after a clear() that failed midway the store went on accepting writes into files that the next open discards"),
]
log=[l.split(' ',1) for l in subprocess.check_output(['git','-C','/repo','log','--format=%h %s'],text=True).splitlines()]
out=["# Genuine defects found by these checks. 'fixed:' entries were repaired in /repo and suppress nothing;",
"# 'finding:' entries (property=, sig=) are recorded but not repaired, and are reported as KNOWN-FINDING."]
used=set()
for pre,ids,t in F:
    c=[h for h,s in log if s.startswith('fix: '+pre)]
    assert len(c)==1,(pre,c)
    used.add(c[0])
    for i in ids: out.append(f'fixed: property={i} {c[0]} {t}')
for h,s in log:
    assert not s.startswith('fix:') or h in used,(h,s)
try: out+= [l.rstrip('\n') for l in open('/verif/tools/findings.txt')]
except FileNotFoundError: pass
open('/verif/known_findings.txt','w').write('\n'.join(out)+'\n')
