PBT='property-based testing: generated operation histories against a reference model, shrinking'
CRASH='property-based testing with crash-point enumeration: generated histories, every effect boundary snapshotted, recovered and compared with a model'
SCHED='property-based testing of generated thread schedules (deterministic scheduler) with a linearizability oracle'
FAULT='property-based testing with injected I/O faults: generated histories against a reference model, shrinking'
NA={}
RH='Random histories on random small configurations; every call compared with a reference model. No exhaustive bound.'
T['C01']=(PBT,'exploration',RH)
T['C02']=(PBT,'exploration',RH+' Sessions separated by close and reopen under changed tuning.')
T['C03']=(CRASH,'fault_enumeration','Sampled and, for short windows, exhaustive enumeration of effect boundaries of generated histories. Assumes completed system calls and mapped stores survive a process crash.')
T['C04']=(CRASH,'fault_enumeration','As C03 with creation, clear, merge, and crashes during recovery.')
LIN='Sampled schedules at machine-instruction granularity under sequential consistency; Wing-Gong search decides each history.'
T['C05']=(SCHED,'exploration',LIN)
T['C06']=(PBT,'exploration',RH)
T['C07']=(PBT,'exploration',RH)
T['C08']=(CRASH,'fault_enumeration','As C03, for list operations.')
T['C09']=(PBT,'exploration',RH)
T['C10']=(CRASH,'fault_enumeration','As C03, for queue operations.')
T['C11']=(SCHED,'exploration',LIN)
T['C12']=(SCHED,'exploration',LIN)
T['C13']=(PBT,'exploration',RH)
T['C15']=(PBT,'exploration',RH)
T['C17']=(PBT,'exploration',RH+' Sizes at and around every limit.')
T['C18']=(PBT,'exploration',RH)
T['C26']=(PBT,'exploration',RH)
T['C14']=(PBT,'exploration',RH)
T['C16']=(SCHED,'exploration','Sampled histories, cookies and schedules; the iteration oracle is a per-key interval model.')
T['C23']=('property-based testing of generated thread schedules (deterministic scheduler) with a progress oracle','exploration','Sampled schedules; a deadlock is detected exactly (no runnable thread), a livelock by a step bound.')
T['C19']=('property-based testing over generated multi-process open/kill histories','exploration','Real processes and threads contend for directories; holders end by drop, exit or SIGKILL. Sampled histories.')
T['C20']=('property-based testing: generated stores, damage and leftovers, with acceptance oracle','exploration','Generated header damage (every byte and random sets) and generated leftovers of interrupted work; sampled.')
T['C21']=('property-based testing with durable-image enumeration: generated histories and schedules, contents as of the last sync recovered and compared with a model; injected sync faults','fault_enumeration','Durable image = contents at the last completed sync of each file plus the directory as it is. Sampled histories.')
T['C22']=('property-based testing of generated schedules with the flush_aggregation feature: durable images compared with a model; injected sync faults','fault_enumeration','As C21, after every successful mutation, under the deterministic scheduler.')
T['C24']=(FAULT,'fault_enumeration','Sampled faults (every kind of file operation, single, repeated and permanent) in sampled histories, schedules and recoveries. posix_fallocate, stat and mlock never fail.')
T['C25']=(PBT,'exploration','Random hash masks through the existing whitebox_testing hook, plus genuine 64- and 54-bit collisions on the unmodified build.')
