#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one source of truth for the property texts)."""
import json, os
HP="src/hyperloglogplus.rs"; PF="src/hyperloglog.rs"; CM="src/common.rs"; EN="src/encoding.rs"; CO="src/constants.rs"; LI="src/lib.rs"; LG="src/log.rs"; EV="evaluation/src/main.rs"
P=[]
def add(id,title,statement,over,text,why,files,mech,state=[],observe=[],hook=None):
    assert len(title)<=80,(id,len(title))
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,state=[dict(name=a,meaning=b,where=c) for a,b,c in state],
                   mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=observe,hook_needed=hook)))
REP=("representation","pending codes, compressed sorted codes, or packed registers",HP+": HyperLogLogPlus fields")
REG=("registers","per-bucket maximum rank, bit-packed, plus a zero counter",CM+": registers_impls!")
add("C01","Merging converges to the union under any delivery of sketches",
 "Whatever the order, duplication, delay, loss with retry, or routing in which sketches of one precision are merged into one another, a sketch into which the contributions of a set of sketches were merged, directly or through intermediaries, estimates what a single sketch fed the union of their values estimates. It also stays equal to that sketch under the same later inserts and merges. This holds for both implementations and for every mixture of small (compact) and large (register) sketches.",
 ["schedules","fault_sequences","histories","inputs"],
 "every topology, delivery order, duplication, loss and retry, partition, crash/restart and workload of a set of nodes exchanging sketches; every precision; both implementations",
 "the tests do five hand-written two-sketch merges at precision 16 with at most 10 values, two of them forced into registers; no merge of pending plus compressed codes, no chains, no transition caused by a merge",
 [HP,PF,CM,EN],[("register-wise maximum",CM+": set_greater"),("merge in four representation combinations",HP+": merge"),("decoding of compact codes to (rank, index)",HP+": decode_hash")],[REP,REG],["count() of both implementations after merge()"])
add("C02","Estimates depend only on the set of values, not on the schedule",
 "Two sketches of the same implementation, precision and hashing that received the same set of values give the same estimate, however the inserts of concurrent callers were interleaved, repeated and reordered, and however many estimates were taken in between. Taking an estimate never changes any later estimate.",
 ["schedules","histories","inputs"],
 "every interleaving of the inserts and estimates of any number of callers sharing a sketch, every repetition of values, every precision",
 "tests insert one fixed order of at most 102 values; none compares two orders, or the same history with and without estimates taken in between (count() reorganises the sketch)",
 [HP,PF,CM,EN],[("pending codes flushed into the sorted compact list",HP+": merge_sparse"),("switch from compact to register form",HP+": sparse_to_normal"),("maximum per register",CM+": set_greater")],[REP,REG],["count()"])
add("C03","A sketch restored from an acknowledged snapshot equals the one saved",
 "If serialising a sketch to a writer succeeded, deserialising those bytes (after a crash, in another process, through short and interrupted reads) yields a sketch that, with its hasher, is indistinguishable from the saved one in every later estimate, insert and merge, whatever state the sketch was in when it was saved. A snapshot cut short by a failed or torn write is refused with an error and never loaded as a different sketch.",
 ["crash_points","fault_sequences","histories"],
 "every history before the save, every crash point inside and after the save, every pattern of short, interrupted, failing, torn and lost writes and reads, text and binary formats, both implementations",
 "tests round-trip three 5-value sketches through an in-memory string and look at one count; no I/O fault, no pending state, no binary format, no restored sketch beyond one insert",
 [HP,PF,CM,EN],[("derived serde implementations",HP+", "+PF+", "+CM+", "+EN)],[REP,REG],["serde Serialize/Deserialize of both sketch types","count() after restore"])
add("C04","A failed operation leaves every sketch as it was",
 "If an insert is aborted because the caller's hashing code panics, a merge is refused because the precisions differ, or a snapshot cannot be written because the writer fails, then the sketches involved estimate, and behave under all later operations, as if the failed call had never been made. A refused merge reports the incompatible-precision error.",
 ["fault_sequences","crash_points","histories"],
 "every position in a history at which an insert is aborted (while building, feeding or finishing the hasher), a merge is refused or a writer fails, and every continuation",
 "one test checks the error value of a refused merge; none looks at the sketch afterwards, none lets user code panic or a writer fail",
 [HP,PF],[("hash computed before any state is touched",HP+": insert_impl; "+PF+": insert_impl"),("precision comparison first in merge",HP+": merge; "+PF+": merge"),("serialisation through a shared reference",HP+": derive(Serialize)")],[REP,REG],["count() and later behaviour after the failed call"])
add("C05","Sketches are independent of one another",
 "An operation changes at most the one sketch it is invoked on: the source of a merge, clones made earlier or later, and sketches used by other threads are unaffected, even when a call is suspended inside the caller's hashing or I/O code while other calls run. Each sketch gives the estimates it would give if its operations were the only ones in the process.",
 ["schedules","histories"],
 "every interleaving, at operation boundaries and inside hashing, reading and writing callbacks, of the operations of several threads (including nested calls made by hashing code) on several sketches, their clones and shared merge sources of any types and precisions",
 "every test uses one or two sketches on one thread, one call at a time; no test clones a sketch or looks at a merge source afterwards",
 [HP,PF,CM],[("all state lives in the sketch; merge takes the source by shared reference",HP+": merge; "+PF+": merge"),("derived Clone is deep",HP+": derive(Clone); "+CM+": derive(Clone)")],[REP,REG],["count() of every live sketch"])
add("C06","Every estimate is the one the published algorithm gives for the values held",
 "After any history of completed inserts (through every entry point and borrowed form), merges, clones, snapshots and restarts, the estimate is the value the documented algorithm prescribes for exactly the values whose insert or merge completed. For HyperLogLog: 5-bit ranks over the low 32 hash bits, linear counting and large-range correction; for HyperLogLog++: 64-bit hashes, linear counting over 25-bit prefixes until the compressed form outgrows the register array, then 6-bit ranks, thresholded linear counting and empirical bias correction.",
 ["histories","fault_sequences","inputs"],
 "every history of operations with crashes, restarts and failed calls, every hash output, every precision, every cardinality from zero to beyond five times the register count",
 "tests look at a handful of registers and truncated counts of at most 10 values at precisions 4, 7 and 16; 12 of 15 (13) precisions and all cardinality ranges beyond linear counting are never counted",
 [HP,PF,CM,EN,CO],[("index/rank extraction",HP+": insert_impl, encode_hash, decode_hash; "+PF+": insert_impl"),("estimators",HP+": count, estimate_bias, threshold; "+PF+": count; "+CM+": HyperLogLogCommon"),("empirical data",CO)],[REP,REG],["count()"])
add("C07","Estimates in a faulty fleet stay close to the true number of distinct values",
 "With a well-mixing hasher, the estimate reported by any node of a fleet, after any mixture of repeated values, redelivered and rerouted merges, crashes and restarts from snapshots, differs from the number of distinct values whose effects it holds by at most eight standard errors (1.04/sqrt(2^precision), relative; plus 4 percent of the value for HyperLogLog, whose published form is biased by up to that much) plus two; for precisions 4 to 6, whose few registers give a far from normal distribution, it lies between n/4 - 2 and 8n + 2 instead. While a HyperLogLog++ sketch holds at most 2^precision/10 distinct values (2^precision/3 from precision 15 on; well inside its compact form) the difference is at most six times n/sqrt(2^26), plus four, at every precision.",
 ["histories","fault_sequences","inputs"],
 "every fleet history and fault sequence over uniformly hashed distinct values; every precision",
 "tests compare truncated counts of at most 10 values with fixed hashes; no test compares an estimate of a large multiset with the truth",
 [HP,PF,CM,CO],[("estimators and bias correction",HP+": count; "+PF+": count"),("duplicate insensitivity",CM+": set_greater; "+HP+": merge_sparse")],[REP,REG],["count() against the harness' own count of distinct values"])
add("C08","A sketch's memory stays bounded however long it is used",
 "However many values are inserted, sketches merged in, estimates taken or snapshots restored, and in whatever order, the heap memory a sketch holds between calls never exceeds 64 bytes per register (2^precision registers) plus 16 KiB, and no call's transient peak exceeds twice that.",
 ["histories","schedules"],
 "every history of operations of any length, in particular histories with no estimate in between, and every precision",
 "no test measures memory, and none inserts more than 103 values into one sketch",
 [HP,EN,CM],[("pending set flushed when it outgrows a fraction of the register array",HP+": insert_impl, merge"),("switch to registers when the compact list outgrows them",HP+": merge_sparse")],[("pending set","codes not yet in the compact list",HP+": tmpset"),("compact list","difference-encoded codes",EN+": DifIntVec")],["the process allocator (a counting allocator in the harness)"])
add("C09","Builds with different features agree and exchange snapshots",
 "Every supported build (default, const-loop, and for the original HyperLogLog the no_std build with alloc, with and without const-loop) compiles, gives the same estimates (to within rounding of the last digits) for the same history, and loads snapshots saved by any other build as the same sketch.",
 ["configurations","histories","fault_sequences"],
 "every mixture of builds in a fleet exchanging snapshots over a faulty network, every history",
 "the tests run each std feature set on its own and never the no_std build; nothing compares two builds",
 [LI,CM,PF,HP,LG],[("feature-gated estimator loop",CM+": estimate_raw_plus, rawlut_impls!"),("own logarithm without std",LG),("feature-gated modules",LI)],[REG],["count() and snapshots of all builds, linked into one process"])
add("C10","Per-process randomness never influences estimates",
 "Replaying the same history of operations with the same user-supplied hasher in another process or thread gives bit-for-bit the same estimates, including after merges and snapshot exchange between such processes: the process's random hash seeds, and hence internal iteration orders, have no influence.",
 ["configurations","histories","schedules"],
 "every value of the operating system's randomness seen by the process and its threads, every history and precision",
 "the test process uses whatever random seed it got and never compares two processes; a dependence on set iteration order shows only for particular seeds and sizes",
 [HP],[("codes sorted before they are compressed",HP+": merge_sparse"),("order-insensitive register maximum",CM+": set_greater")],[("pending set","hash set with randomly seeded iteration order",HP+": tmpset")],["count() bit patterns"])
add("C11","Every call on a sketch completes and every estimate is a finite number",
 "On a successfully created sketch no sequence of inserts, estimates, merges of equal precision, clones, saves and loads of undamaged snapshots panics, aborts or hangs, for any 64-bit hash values the user's hasher may return, however adversarial. Every estimate is finite and not negative, zero for an empty sketch and at least one half once a value is held.",
 ["inputs","histories","fault_sequences"],
 "every history over every sequence of 64-bit hash outputs, every accepted precision, builds with and without overflow checks",
 "tests use about 60 hand-picked hash values, nearly all at precision 16; saturated sketches, extreme codes and transitions at other precisions are never reached",
 [HP,PF,CM,EN,CO],[("rank and index arithmetic",HP+": encode_hash, decode_hash; "+PF+": insert_impl"),("variable-length coding",EN),("estimator case split",HP+": count; "+PF+": count")],[REP,REG],["return of every call","count()"])
add("C12","The evaluation tool reports success only for complete, correct results",
 "When the evaluation tool exits with status zero, every output file it was asked for exists and is complete, and for given hash files holds exactly one line per input value with the running estimate of the library, whatever short or interrupted reads and writes occurred. If a read, write or open failed for good, or an input line is no number, the exit status is not zero, and after a crash or failure a rerun without faults yields the complete files, for input files with distinct base names.",
 ["fault_sequences","crash_points","inputs"],
 "every sequence of short, interrupted and failing system calls on the input and output files, every crash point, both implementations and all modes of the tool",
 "the tool has no tests",
 [EV],[("line reader with unwrap",EV+": load"),("buffered writer with explicit flush and unwrap",EV+": save")],[],["exit status and output files of the evl binary"])
# Not claimed: see MANIFEST not_applicable.
add("C13","Construction accepts exactly the documented precisions",
 "Creating a sketch succeeds for precisions 4 to 16 (HyperLogLog) and 4 to 18 (HyperLogLog++) and fails with the invalid-precision error for every other value.",
 ["inputs"],"all 256 precision values, both implementations",
 "no test creates a sketch with an invalid precision",
 [HP,PF],[("bounds check",HP+": new; "+PF+": new")],[],["new()"])
add("C14","The bias tables equal the published empirical data",
 "Every raw-estimate and bias entry for every precision equals the value published with the HyperLogLog++ paper.",
 ["inputs"],"all entries of all 15 precisions","tests look at seven interpolated values",
 [CO],[("constant tables",CO)],[],["count() in the bias-corrected range"])
add("C15","The built-in logarithm is accurate for every input",
 "Without std, the logarithm used by the estimators is within one unit in the last place of the real logarithm for every positive double, and handles zero, negatives, infinities and NaN as documented.",
 ["inputs"],"all 2^64 double bit patterns","the function is not compiled in any tested configuration",
 [LG],[("polynomial approximation",LG+": log")],[],["count() in no_std builds"])
if __name__=="__main__":
    out=os.path.join(os.path.dirname(os.path.abspath(__file__)),"..","properties.jsonl")
    with open(out,"w") as f:
        for p in P: f.write(json.dumps(p,ensure_ascii=False)+"\n")
    try:
        import jsonschema
        s=json.load(open("/root/.vp/PROPERTIES.schema.json"))
        for p in P: jsonschema.validate(p,s)
    except ImportError: pass
    print(len(P),"properties")
