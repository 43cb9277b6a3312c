CONC = "TLA+ spec + TLC trace validation of schedules explored on the real code"
GRAPH = "TLA+ spec model-checked with TLC; every transition replayed on the real code"
SEQ = "TLA+ spec; TLC validates histories recorded from the real code"
SC = " Assumes sequentially consistent memory between instrumented operations; bounded programs, schedules and preemptions."
NOTE = {
 "C10": (GRAPH + "; " + SEQ, "The reference model is model-checked exhaustively at small bounds and each of its transitions is executed on the real resources; longer random histories are recorded from the real code and accepted or refused by TLC. Alignments up to 4096, one thread per resource."),
 "C11": (CONC, "Every recorded concurrent history of the real pool must linearise in the specification." + SC),
 "C15": (CONC + "; state graph replay", "Histories of the real latch and watch, explored to a preemption bound and at random, must be behaviours of the specification; the usage counter's whole bounded state graph is replayed." + SC),
 "C22": (SEQ, "The specification defines well-formedness and every conversion; its laws are model-checked, and the real functions are run on all short byte strings over representative bytes and on random long ones, every answer judged by TLC."),
 "C16": (SEQ, "The byte format is specified in TLA+ on byte sequences (laws model-checked: round trip, prefix-freeness, shortest form); every kind is written at every remaining capacity and every reader is run on generated, truncated and mutated bytes, each answer judged by TLC. Decimal coefficients encoded in fewer than 8 bytes with negative sign in full form are not fed to the reader."),
 "C20": (CONC + "; " + SEQ, "Histories of the real record stream (several readers and writers, end, close, move) explored to a preemption bound and at random must linearise in the specification; records and cursors are driven by long operation lists with every value kind against every fetch kind." + SC),
 "C21": (SEQ, "The specification describes what a descriptor tree must expose; generated plug-in/package/service/function/column trees are built with the real classes and everything they expose is judged by TLC."),
 "C06": (CONC, "Acquisitions and releases are modelled step by step; the specification's own laws are model-checked, and histories of the real table manager (threads explored to a preemption bound, and long random single-thread ones) must be behaviours of it." + SC),
 "C07": (CONC, "References, delete requests and maintenance are modelled step by step, with the physical removal as an observed event; laws (nothing in use removed, at most once, only marked) are model-checked and the real code's histories validated, with refusing and failing stores." + SC + " One maintenance run at a time."),
 "C08": (SEQ, "The rights algebra is specified and its laws model-checked; the real action sets and per-user tables are driven by exhaustive short and random long lists of operations, every answer judged by TLC."),
 "C14": (CONC, "The three maps are one state of the specification; histories of the real manager, with a lock-accurate model of the concurrent map so that deadlocks show, must be behaviours of it." + SC),
}
NOTE["C02"] = (CONC, "The allowed life-cycle edges come from the documented diagram; every edge and non-edge is tried in every state, and histories of concurrent status changes and error reports on the real transaction and request contexts must be behaviours of the specification." + SC)
_TX = "The real request, job, task, step and commit code runs on stand-ins for the engine, the compiler and the worker pool; client threads, workers, the engine and the durability daemon are interleaved to a preemption bound and at random (also at every memory access), and TLC accepts or refuses every recorded history"
NOTE["C01"] = (CONC, _TX + "; in the specification commits, aborts and statements race over one decision, the laws (one decision, nobody inside when it is carried out, nobody enters afterwards, nothing stuck) are model-checked." + SC)
NOTE["C03"] = (CONC, _TX + "; acknowledgements are admitted only after the announced marker, exactly once, and every waiting commit must have been answered at the end." + SC)
NOTE["C04"] = (CONC, _TX + "; tasks may fail, throw and yield, statements may be refused or fail to resolve; completion happens once, after all runs, with the right result, and the job table is empty at the end." + SC)
NOTE["C05"] = (CONC, _TX + "; step graphs with main and sub inputs of up to four steps: activation, preparation, consumption and deactivation only in the order the graph allows." + SC)
NOTE["C09"] = (CONC, "The real sequence manager, definitions, metadata store and storage wrappers run on an in-memory stand-in for the engine with committed and durable layers; transactions, durability points and restarts are interleaved and every value, bound and recovered value judged by TLC. Draws of one transaction are serialised and transactions that define or drop sequences commit." + SC)
NOTE["C12"] = (CONC, "The real pool, seats, channel adapter, writers, process executor, task contexts and tasks run against a stand-in for the client's channel; tasks write, yield, fail and throw, seats are moved and given back in any order, and every creation, write, commit and release is an event the specification admits or refuses." + SC + " A seat that holds a writer is not overwritten.")
NOTE["C19"] = (CONC, "The real session containers, large-object admission, registration and datastore access run on stand-ins for the relay service and the datastore; openings, disposals, pools and registrations are events the specification admits or refuses, its laws (one session, one pool, released last, never reopened) are model-checked." + SC + " One task is evaluated by one thread at a time.")
NOTE["C13"] = (CONC, "The real stores, result store writers and the whole forward exchange (flow, sinks, writers, sources, readers) are driven with records of every column type; parallel writers are explored to a preemption bound and at random, long single-threaded histories cross page boundaries, and every history must be a behaviour of the specification, whose own laws are model-checked." + SC)
NOTE["C17"] = (SEQ, "The real exchanges, with both readers, get generated record sets of every column type over several flows, sinks and sources, with small and full-size runs; TLC judges every delivered group against the multiset of written records. The specification's laws (the obvious delivery is accepted, losing, repeating or reordering anything is not) are model-checked.")
NOTE["C18"] = (SEQ, "The real aggregate exchange with every incremental function, value stores and COUNT(DISTINCT) get generated records; TLC computes each function over the multiset of written records and compares. That partial aggregation composes, and that answers are determined, is model-checked on the specification.")
NOTE["C23"] = (SEQ, "The specification computes the bytes of every value and the value of any bytes; the real coders get generated rows of every type, order and nullability through both routes, with small buffers, truncated and altered bytes, and TLC compares bytes, values, positions and refusals. That the specified bytes order as SQL values, delimit themselves and decode back is model-checked on the specification.")
NOTE["C24"] = (SEQ, "The specification defines every operation over exact numbers of any size and over characters (its arithmetic, pattern matching, coding and logic are model-checked against their defining laws); the real evaluator gets generated expressions over every type with values at the edges of their ranges, and TLC judges the value of every inner node from the values of its operands. Floating point results are judged to a relative tolerance near their precision.")
NOTE["C25"] = (SEQ, "The specification defines the value of every conversion over exact numbers of any size, calendar dates and characters, for each loss policy (that written values read back, that cutting keeps characters whole and that rounding is the nearest in its direction is model-checked); the real cast evaluator, assignment conversion and parameter application get generated values at the edges of ranges and well-formed and malformed text, and TLC judges every answer. Parsing of dates and times follows the stand-in of the missing library.")
NA = {}
