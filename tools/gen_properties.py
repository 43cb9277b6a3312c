#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one property per line). Edit here, then run."""
import json,os
P=[]
def p(id,title,statement,over,qtext,why,files,mech,state=None,observe=None):
    P.append({"id":id,"title":title,"statement":statement,
      "quantifier":{"over":over,"text":qtext},"why_tests_cant":why,
      "anchors":{"files":files,"state":[dict(zip(("name","meaning","where"),s)) for s in (state or [])],
        "mechanism":[dict(zip(("name","where"),m)) for m in mech],
        "observe_at":observe or [],"hook_needed":None}})
S="src/jogasaki/"
p("C01","A transaction terminates at most once under concurrent commit and abort",
 "For one transaction, of all the commit and abort requests that arrive at most one takes effect; a commit is accepted only while no task of the transaction's statements is running, otherwise it is turned into an abort. An abort (requested or converted) that finds tasks running is carried out exactly once, after the last of them has finished, and neither an abort nor a commit is carried out on the storage engine while any is still running. After termination has begun, newly arriving statements, commits and aborts are refused and do no work.",
 ["schedules","histories"],"every interleaving of statement start/finish, commit and abort requests on a transaction",
 "Needs interleavings of lock-free counter updates that no existing test (none of the stable ones touches transactions) can force.",
 [S+"transaction_context.cpp",S+"transaction_context.h",S+"scheduler/flat_task.cpp",S+"executor/executor.cpp"],
 [("termination_manager CAS loop","src/jogasaki/transaction_context.cpp"),("last worker performs abort",S+"scheduler/flat_task.cpp")],
 [("termination state word","count of running tasks plus going-to-commit / going-to-abort bits",S+"transaction_context.h")],
 ["results of try_set_going_to_commit / try_set_going_to_abort / try_increment / decrement"])
p("C02","Reported transaction status follows the allowed life cycle; first error sticks",
 "The status reported for a transaction only ever moves along the allowed life-cycle edges and never leaves a terminal state. The error recorded for a failed transaction or request is the first one set; later errors never replace it.",
 ["schedules","histories"],"every sequence and interleaving of status changes and error reports",
 "No stable test drives transaction status or concurrent error reports.",
 [S+"transaction_state.cpp",S+"transaction_context.cpp",S+"request_context.cpp"],
 [("transition table",S+"transaction_state.cpp"),("first-wins atomic error pointer",S+"transaction_context.cpp")])
p("C03","A durable commit is acknowledged only once its data is durable, and exactly once",
 "A commit that asked to be acknowledged when stored is acknowledged only after the reported durability point has reached the commit's own marker, and every such commit waiting when the point reaches it is acknowledged. Each commit request is answered exactly once, the transaction then reports the status that was acknowledged (available, stored or aborted), and the durability point never appears to go backwards.",
 ["schedules","histories"],"every interleaving of commits registering for durability and durability notifications, including simultaneous notifications",
 "Races between registration, instant update and marker notification need specific schedules; no test in the stable set covers this.",
 [S+"durability_manager.cpp",S+"durability_manager.h",S+"durability_callback.cpp",S+"durability_common.cpp"],
 [("wait heap guarded by in-use flag",S+"durability_manager.cpp"),("marker comparison",S+"durability_manager.h")],
 [("current durability marker","latest known durable point",S+"durability_manager.h"),("wait list","commits not yet durable",S+"durability_manager.h")])
p("C04","A request completes exactly once, after all of its tasks have finished",
 "Each submitted request runs its completion callback exactly once, only after every task belonging to it has finished, and everything waiting for the request is then released. This holds also when tasks fail, yield, or finish simultaneously.",
 ["schedules","fault_sequences"],"every interleaving of task completion and rescheduling within a job",
 "Exactly-once completion depends on atomics raced by worker threads; stable tests do not run jobs.",
 [S+"scheduler/job_context.cpp",S+"scheduler/job_context.h",S+"scheduler/flat_task.cpp",S+"scheduler/task_scheduler.cpp"],
 [("task counter and completing flag",S+"scheduler/job_context.cpp"),("teardown task",S+"scheduler/flat_task.cpp")])
p("C05","Query steps run only after the steps they depend on, and every step finishes",
 "While a query plan executes, a step starts consuming only when every upstream step it waits for has completed, each step's state only moves forward, and no task of a step runs before the step is prepared or after it completed. When all tasks have reported, every step has been completed and deactivated exactly once and the query is torn down exactly once.",
 ["programs","schedules"],"every step graph and every order of task completion events",
 "Plans in tests are few and their event orders fixed; none is in the stable set.",
 [S+"scheduler/dag_controller_impl.cpp",S+"scheduler/step_state_table.cpp",S+"scheduler/step_state_table.h"],
 [("state machine per step",S+"scheduler/dag_controller_impl.cpp")])
p("C06","DDL and DML on the same table exclude each other; acquisition is all-or-nothing",
 "A table (storage) held exclusively by a definition change cannot be held by anyone else, and one held for data access cannot be taken exclusively. Acquiring a set of tables either takes all of them or leaves every one as it was, and everything taken is given back exactly once when its holder ends.",
 ["schedules","histories"],"every sequence and interleaving of shared/exclusive acquisitions and releases over a set of tables",
 "Needs multi-step histories with partial failure and concurrent acquisitions; no stable test covers storage locks.",
 [S+"storage/storage_manager.cpp",S+"storage/storage_manager.h",S+"storage/unique_lock.cpp",S+"storage/shared_lock.cpp",S+"storage/storage_list.h"],
 [("storage_control lock counter",S+"storage/storage_manager.h"),("rollback on partial acquisition",S+"storage/storage_manager.cpp")])
p("C07","Dropped table data is deleted once, and only after its last user is gone",
 "Data of a table whose deletion has been requested is physically removed only when none of the transactions that referred to it when its deletion was requested does so any more. Every such table is eventually removed, exactly once, and a table with no deletion request is never removed.",
 ["schedules","histories"],"every history of references, releases, delete requests and maintenance runs",
 "Depends on ordering of reference release and maintenance; not covered by stable tests.",
 [S+"storage/maintenance_storage.cpp",S+"storage/reference_scope.cpp",S+"storage/storage_manager.cpp",S+"storage/storage_manager.h"],
 [("reference counting",S+"storage/reference_scope.cpp"),("maintenance sweep",S+"storage/maintenance_storage.cpp")])
p("C08","A user can perform exactly the actions the granted privileges imply",
 "A user is allowed an action set on a table exactly when the actions granted to that user together with the publicly granted ones cover it, where the control privilege covers every action. Granting and revoking change the rights of the named user only, revoking control removes all of them, and no other right is affected.",
 ["histories","inputs"],"every sequence of grants, revokes and checks over users, actions and public rights",
 "The rights lattice with control and public rights has many combinations; stable tests exercise none.",
 [S+"auth/action_set.cpp",S+"auth/authorized_users_action_set.cpp",S+"auth/action_set.h",S+"storage/storage_manager.h"],
 [("action set algebra",S+"auth/action_set.cpp"),("per-user map",S+"auth/authorized_users_action_set.cpp")])
p("C09","Sequence values are unique, in bounds, in order, and survive restart",
 "Values drawn from a sequence are never handed out twice before the sequence cycles, follow its start, increment, bounds and cycle rule, and a non-cycling sequence that is exhausted fails instead of wrapping. After a committed transaction's updates are made durable and the system restarts, the sequence continues from the latest durable value.",
 ["schedules","histories","crash_points"],"every interleaving of value requests and every history of commits and restarts",
 "Concurrency and restart are out of reach of the stable tests, none of which touches sequences.",
 [S+"executor/sequence/sequence.cpp",S+"executor/sequence/info.cpp",S+"executor/sequence/manager.cpp",S+"executor/sequence/metadata_store.cpp"],
 [("versioned value CAS",S+"executor/sequence/sequence.cpp"),("pending updates flushed at commit",S+"executor/sequence/manager.cpp")])
p("C10","Memory resources never hand out overlapping or misaligned memory",
 "Every block handed out by a paged memory resource is aligned as requested, lies inside pages owned by that resource, and does not overlap any other block that is still live. Returning memory (checkpoint rewind, front discard, end of the resource) frees exactly the blocks it covers, leaves all others intact, and gives back each page to the pool exactly once.",
 ["histories","inputs"],"every history of allocations of any size/alignment, checkpoints, rewinds and releases",
 "Page-boundary, alignment and rewind combinations form an unbounded space; the repository's own tests of these resources are not in the stable set.",
 [S+"memory/fifo_paged_memory_resource.cpp",S+"memory/lifo_paged_memory_resource.cpp",S+"memory/monotonic_paged_memory_resource.cpp",S+"memory/details/page_allocation_info.cpp",S+"memory/block_memory_resource.h",S+"memory/page_pool.cpp",S+"utils/checkpoint_holder.h"],
 [("page_allocation_info",S+"memory/details/page_allocation_info.cpp")])
p("C11","A pooled memory page has at most one owner at any time",
 "A page obtained from the shared page pool belongs to exactly one owner until it is given back, under any number of concurrent users. A page given back is reused or freed exactly once, and none is lost.",
 ["schedules"],"every interleaving of concurrent page acquisitions and releases",
 "Single-threaded tests cannot produce concurrent acquire/release.",
 [S+"memory/page_pool.cpp",S+"memory/page_pool.h"],[("concurrent free page stacks",S+"memory/page_pool.cpp")])
p("C12","Result-set writers stay within the limit and each has one user at a time",
 "At any time the number of writers in use for one query never exceeds the configured capacity, one writer is never used by two tasks at once, and a returned writer can be acquired again. A task gives its writer back however it ends, and every record it wrote reaches the client. Every writer actually created is flushed and released exactly once when the pool is closed, and none is created for a seat never used.",
 ["schedules","histories"],"every interleaving of seat acquisition, use, return and pool release",
 "Needs concurrent tasks contending for seats; not covered by stable tests.",
 [S+"executor/io/writer_pool.cpp",S+"executor/io/writer_seat.cpp",S+"executor/process/impl/process_executor.cpp",S+"executor/process/impl/task_context.cpp",S+"executor/io/data_channel_writer.cpp",S+"executor/io/record_channel_adapter.cpp",S+"scheduler/flat_task.cpp"],[("seat queue",S+"executor/io/writer_pool.cpp")])
p("C13","Record stores and forward exchanges return every stored record once, in order, unchanged",
 "Records put in an intermediate record store, queue, one-record store or result store are read back exactly once, in insertion order and with unchanged contents, including nulls and variable-length values whose source has since been reused; this holds across page boundaries and interleaved pushes and pops. Every record written to a forward exchange is delivered exactly once, unchanged and in its sink's order to that sink's source, until the exchange's limit is reached: of all records written in all sinks exactly the first ones up to the limit are accepted, and a source is empty exactly when nothing accepted is left unread. Partitions of a result store are independent of each other, also when filled by parallel tasks.",
 ["histories","schedules","inputs"],"every interleaving of pushes and pops, every record type, size and count, and every interleaving of parallel writers of one exchange or result store",
 "Page boundaries, layouts and parallel writers are unbounded; stable tests cover none of the stores.",
 [S+"data/fifo_record_store.cpp",S+"data/iterable_record_store.cpp",S+"data/record_store.cpp",S+"data/small_record_store.cpp",S+"data/result_store.cpp",S+"executor/process/result_store_writer.cpp",S+"executor/exchange/forward/flow.cpp",S+"executor/exchange/forward/input_partition.cpp",S+"executor/exchange/forward/reader.cpp",S+"executor/exchange/forward/sink.cpp",S+"executor/exchange/forward/source.cpp",S+"executor/exchange/forward/writer.cpp",S+"accessor/record_copier.cpp"],
 [("paged storage of fixed-size records",S+"data/iterable_record_store.cpp"),("shared count of written records against the limit",S+"executor/exchange/forward/writer.cpp"),("deep copy of variable-length fields",S+"accessor/record_copier.cpp")])
p("C14","Names and keys of tables resolve consistently and lookups always return",
 "Looking up a table or index by name, by storage key or by identifier gives the entry currently registered under it, with the key derived from its name when it has none of its own, and gives nothing once its deletion was requested (name) or carried out (key, identifier). Every lookup returns, whatever definitions are added or removed at the same time, and removing one entry never makes another, newly added one with the same name unreachable.",
 ["schedules","histories"],"every sequence and interleaving of additions, delete requests, removals and lookups",
 "Consistency of three concurrent maps, and freedom from deadlock between them, depend on interleavings no test produces.",
 [S+"storage/storage_manager.cpp",S+"storage/storage_manager.h"],
 [("entry, name and key maps",S+"storage/storage_manager.cpp")])
p("C15","Waiting on a latch or watched value never misses its release",
 "A thread waiting for a latch returns once, and only once, the latch has been released (or its time limit passed), whichever of waiting and releasing came first. A thread waiting for a watched value to change returns if and only if the value differs from the one it gave, and a notification after the change always wakes it; a usage counter reports exactly the number of live holders.",
 ["schedules"],"every interleaving of waits, releases, stores and notifications",
 "The stable tests run one fixed timing per case using sleeps; lost wake-ups need particular schedules.",
 [S+"utils/latch.h",S+"utils/latch.cpp",S+"utils/waitable_atomic.h",S+"utils/use_counter.cpp"],
 [("condition variable with predicate",S+"utils/latch.cpp"),("empty lock before notify",S+"utils/waitable_atomic.h")])
p("C16","Result-set bytes round-trip exactly and a refused write leaves nothing behind",
 "Every value written in the result-set format (end marks, null, integers, floats, decimals, character, octet and bit strings, date and time values, intervals, rows, arrays, large-object references) occupies a self-delimiting, shortest-form byte sequence that reads back as the same kind and the same value, leaving the read position just behind it. A write that does not fit in the remaining buffer is refused and neither moves the write position nor reports success; truncated or malformed input is refused with the read position unchanged and never yields a value.",
 ["inputs"],"every value of every kind, every remaining buffer size and every byte sequence as input",
 "The value ranges, the boundary lengths of the variable-length integers and the malformed inputs are far beyond samples; none of the stable tests covers the serializer.",
 [S+"serializer/base128v.cpp",S+"serializer/value_output.cpp",S+"serializer/value_input.cpp",S+"serializer/value_writer.h"],
 [("variable-length integers",S+"serializer/base128v.cpp"),("kinds and embedded small values",S+"serializer/details/value_io_constants.h"),("capacity check before writing",S+"serializer/value_output.cpp")])
p("C17","A group exchange delivers every record once, in complete and ordered groups",
 "Every record written to any sink of a group exchange is delivered, once and unchanged, in the group of its key: each key forms exactly one group, at exactly one source, and two exchanges with the same key types and number of sources deliver equal keys at the same source. A source delivers its groups in ascending key order (NULL first, NaN last), and the members of a group in the requested order of the sort keys; a group limit keeps exactly the first members in that order. The exchange reports empty input exactly when nothing was written. This holds for every reader implementation, and however the records are spread over sinks, partitions and sorted runs.",
 ["inputs","histories"],"every set of records of every column type, keys, sort order, limit, number of sinks and sources, and size of the sorted runs",
 "Run boundaries, merging of many runs, nulls, NaN and limits interact; stable tests cover none of the exchanges.",
 [S+"executor/exchange/group/flow.cpp",S+"executor/exchange/group/group_info.cpp",S+"executor/exchange/group/input_partition.cpp",S+"executor/exchange/group/priority_queue_reader.cpp",S+"executor/exchange/group/sorted_vector_reader.cpp",S+"executor/exchange/group/sink.cpp",S+"executor/exchange/group/source.cpp",S+"executor/exchange/group/writer.cpp",S+"executor/exchange/shuffle/pointer_table.cpp",S+"executor/partitioner.cpp",S+"executor/comparator.h",S+"executor/compare_info.cpp",S+"executor/hash.h",S+"executor/less.h"],
 [("merge of sorted pointer tables",S+"executor/exchange/group/priority_queue_reader.cpp"),("hash partitioning by key",S+"executor/partitioner.cpp")])
p("C18","Aggregation gives the result of the whole group, however it was split up",
 "For each key an aggregate exchange delivers exactly one record, at one source, in ascending key order, holding for each function the value over all records of that key written to all sinks, however they were spread and however often partial results were flushed: COUNT(*) counts records, COUNT counts non-null values, SUM, AVG, MAX and MIN ignore NULL and are NULL when nothing else is there. A query without grouping on empty input delivers one record with count 0 and NULL for the rest. Stores of argument values give back every value and NULL in insertion order, also after being reset and reused, and COUNT(DISTINCT) is the number of different non-null values.",
 ["inputs","histories"],"every set of records of every column type, keys, functions, number of sinks and sources, size of hash tables and of value stores",
 "Partial aggregation, flushes, nulls and page boundaries interact; stable tests cover none of it.",
 [S+"executor/exchange/aggregate/flow.cpp",S+"executor/exchange/aggregate/aggregate_info.cpp",S+"executor/exchange/aggregate/input_partition.cpp",S+"executor/exchange/aggregate/reader.cpp",S+"executor/exchange/aggregate/sink.cpp",S+"executor/exchange/aggregate/source.cpp",S+"executor/exchange/aggregate/writer.cpp",S+"executor/function/builtin_functions.cpp",S+"executor/function/incremental/builtin_functions.cpp",S+"executor/function/incremental/aggregate_function_info.cpp",S+"executor/function/value_generator.cpp",S+"data/value_store.h"],
 [("pre, mid and post aggregation phases",S+"executor/exchange/aggregate/aggregate_info.cpp"),("hash table of keys flushed to sorted runs",S+"executor/exchange/aggregate/input_partition.cpp")])
p("C23","Keys order as their values and decode back",
 "The bytes of an index key compare, byte by byte, exactly as the rows of SQL values they stand for, column after column, each ascending or descending, NULL before every value (after, when descending), CHAR and BINARY padded, NaN one value above all numbers, the two zeros equal. No complete key is the beginning of another one. Whatever was written decodes to the same value (padded, rescaled and normalised), from a record or a single value alike, and skipping it moves exactly as far. Values that do not fit (too long, not exact in the column's scale, too many digits, text with NUL) are refused and nothing else is; truncated or malformed bytes are reported as corruption and never read past their end; buffers are never overrun.",
 ["inputs","histories"],"every list of column types, lengths, precisions and orders, every value and NULL, every truncation, buffer size and earlier use of the thread",
 "A wrong byte breaks ranges, uniqueness or stored data, and only for particular values; stable tests cover none of the coders.",
 [S+"kvs/coder.cpp",S+"kvs/readable_stream.h",S+"kvs/readable_stream.cpp",S+"kvs/writable_stream.h",S+"kvs/writable_stream.cpp",S+"utils/coder.cpp",S+"utils/decimal.cpp",S+"data/any.h"],
 [("order-preserving integer, float and string encodings",S+"kvs/writable_stream.h"),("decimal encoding",S+"kvs/writable_stream.cpp"),("nullable fields",S+"kvs/coder.cpp")])
p("C19","Large objects: one session per task, genuine references only, one pool per transaction",
 "Each task opens at most one large-object transfer session, only when it needs one and with its own transaction's identity; all evaluations of the task share it and it is disposed exactly once. A large object returned by a function is accepted only with a genuine reference tag for that object and transaction or session, and one living in the session is registered in the datastore before use. Everything a transaction registers, also from parallel tasks, goes into its one pool, which is released exactly once when the transaction is gone.",
 ["schedules","histories","inputs"],"every interleaving of evaluations, registrations, disposals and ends of tasks and transactions; every reference, provider and tag",
 "Parallel tasks of one transaction registering data, and forged or stale tags, cannot be forced by tests; none of the stable tests covers these parts.",
 [S+"relay/blob_session_container.cpp",S+"relay/blob_session_container.h",S+"executor/expr/lob_processing.cpp",S+"datastore/assign_lob_id.cpp",S+"datastore/register_lob.cpp",S+"datastore/find_path_by_lob_id.cpp",S+"datastore/get_lob_data.cpp",S+"utils/assign_reference_tag.cpp",S+"executor/process/impl/work_context.cpp",S+"transaction_context.cpp",S+"executor/io/data_channel_writer.cpp"],
 [("lazy creation",S+"relay/blob_session_container.cpp"),("tag validation",S+"executor/expr/lob_processing.cpp"),("pool of the transaction",S+"datastore/register_lob.cpp")])
p("C20","A user-defined-function record stream delivers every record once, in order",
 "Records pushed to a function result stream are delivered to the consumer exactly once and in order, end-of-stream is reported only after all of them, and after closing nothing more is delivered; a blocked consumer is always woken by a push, end or close. The values of a record are read back in the order and with the types and nulls they were added, each read consuming exactly one value.",
 ["schedules","histories","inputs"],"every interleaving of push, end, close and next with or without timeouts; every record content",
 "Stable tests contain no test of these streams; wake-up races need specific schedules.",
 [S+"udf/generic_record_impl.cpp",S+"udf/generic_record_impl.h"],[("mutex-guarded queue",S+"udf/generic_record_impl.cpp")])
p("C21","Plug-in validation reports exactly the duplicated functions and messages",
 "Given any set of plug-in description files, the analysis lists every remote function and every message with exactly the files that define and refer to it, and each unreadable file as an error without affecting the others. Validation rejects the set exactly when two functions share a name, and reports exactly the messages defined by more than one file.",
 ["inputs","programs"],"every set of descriptor files with nested messages, packages and services",
 "The input space is every combination of files; stable tests contain none.",
 [S+"udf/descriptor/descriptor_analyzer.cpp",S+"udf/descriptor/descriptor_reader.cpp",S+"udf/descriptor/validation/message_duplicate_validator.cpp",S+"udf/descriptor/validation/rpc_duplicate_validator.cpp"],
 [("full-name construction",S+"udf/descriptor/descriptor_analyzer.cpp")])
p("C22","Text conversions accept exactly well-formed input and keep contents",
 "Sanitising a byte string keeps every well-formed printable character and escapes every other byte, so its output is always well-formed. Hexadecimal and base64 decoding accept exactly well-formed input and invert encoding; character-width detection never looks past the end of the given text and trimming removes exactly the blanks at that end.",
 ["inputs"],"every byte string",
 "Stable tests sample a few strings; the automaton over all byte classes and truncation points is not covered.",
 [S+"utils/sanitize_utf8.cpp",S+"utils/utf8_utils.cpp",S+"utils/base64_utils.cpp",S+"utils/hex_to_octet.cpp",S+"utils/string_utils.cpp",S+"utils/string_manipulation.cpp",S+"utils/convert_control_characters.cpp"],
 [("byte-class decoding",S+"utils/sanitize_utf8.cpp")])
p("C24","Scalar expressions and built-in functions give the value SQL defines",
 "Every operator, comparison, LIKE, CASE, COALESCE and built-in function gives the value SQL defines for the values of its operands, whether those are literals, host variables or columns of this or an enclosing block. A NULL operand gives NULL (except where SQL says otherwise); AND, OR and the IS predicates follow three-valued logic; CASE and COALESCE stop at the first match. Integer and decimal results are exact, floating-point results correct to rounding; a result that does not exist or does not fit (division by zero, ABS, ROUND or division out of range) is reported as an error, and an operand's error becomes the expression's, never NULL, a wrong value or a crash. LIKE, SUBSTRING, POSITION and the length functions count characters, not bytes. The current date and time are those of the transaction's start in the configured zone.",
 ["inputs"],"every expression over every type, value, NULL and error, every pattern and escape, every text, and every place a value can come from",
 "Extreme integers, 38-digit decimals, infinities and NaN, multi-byte characters under wildcards, and nesting are beyond samples; stable tests cover no expression.",
 [S+"executor/expr/evaluator.cpp",S+"executor/function/builtin_scalar_functions.cpp",S+"executor/conv/unify.cpp",S+"executor/conv/parameter_apply.cpp",S+"executor/less.h",S+"executor/equal_to.h",S+"utils/as_any.cpp",S+"utils/utf8_utils.cpp",S+"executor/process/impl/variable_table.cpp"],
 [("promotion and arithmetic",S+"executor/expr/evaluator.cpp"),("LIKE matching",S+"executor/expr/evaluator.cpp"),("built-in functions",S+"executor/function/builtin_scalar_functions.cpp")])
p("C25","Casts and assignment conversions keep the value or report that they cannot",
 "CAST between any two supported types, and the conversion of a value stored in a column, give the same value in the target type whenever it has one. When it has none the outcome is the one the request's loss policy names: the nearest value towards zero, below or above, NULL, or an error; without a policy a value is never changed silently. Text reads as a number, date or time only when all of it is one, ignoring spaces around it, and writing a value as text and reading it back returns the value. Character and octet targets hold at most their declared length: CHAR and BINARY are padded to it, only padding may be cut silently when storing, and a character is never split. NULL stays NULL and an unsupported pair is refused. No input ends the process.",
 ["inputs"],"every value, text and octet string, every pair of types with length, precision and scale, and every loss policy",
 "The edges of ranges, 38-digit decimals, multi-byte characters at a length limit, malformed text and the combinations with each policy are beyond samples; stable tests cover no cast.",
 [S+"executor/expr/details/cast_evaluation.cpp",S+"executor/expr/details/decimal_context.cpp",S+"executor/expr/details/common.h",S+"executor/conv/assignment.cpp",S+"executor/conv/create_default_value.cpp",S+"executor/conv/parameter_apply.cpp"],
 [("numeric narrowing",S+"executor/expr/details/cast_evaluation.cpp"),("length handling",S+"executor/expr/details/cast_evaluation.cpp"),("assignment conversion",S+"executor/conv/assignment.cpp")])
if __name__=='__main__':
    here=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    with open(here+'/properties.jsonl','w') as f:
        for x in sorted(P,key=lambda x:x["id"]): f.write(json.dumps(x)+"\n")
    print(len(P))
