from vlib import *
from hist import *

SRC = """executor/io/writer_pool.cpp executor/io/writer_seat.cpp executor/io/record_channel_adapter.cpp executor/io/data_channel_writer.cpp
executor/process/impl/process_executor.cpp executor/process/impl/task_context.cpp executor/process/impl/task_context_pool.cpp executor/process/abstract/task_context.cpp
api/impl/request_context_factory.cpp scheduler/flat_task.cpp scheduler/serial_task_scheduler.cpp scheduler/stealing_task_scheduler.cpp scheduler/hybrid_task_scheduler.cpp utils/convert_control_characters.cpp utils/latch.cpp utils/use_counter.cpp scheduler/job_context.cpp scheduler/task_scheduler.cpp scheduler/statement_scheduler.cpp
scheduler/statement_scheduler_impl.cpp scheduler/dag_controller.cpp scheduler/dag_controller_impl.cpp scheduler/step_state_table.cpp
transaction_state.cpp transaction_context.cpp request_context.cpp request_logging.cpp error/error_info.cpp error/error_info_factory.cpp
storage/storage_manager.cpp storage/reference_scope.cpp storage/shared_lock.cpp storage/unique_lock.cpp auth/action_set.cpp auth/authorized_users_action_set.cpp
meta/external_record_meta.cpp meta/record_meta.cpp meta/impl/record_layout_creator.cpp serializer/value_input.cpp serializer/value_input_exception.cpp serializer/value_output.cpp serializer/base128v.cpp model/flow_repository.cpp request_statistics.cpp
accessor/record_ref.cpp accessor/text.cpp executor/process/io_exchange_map.cpp memory/lifo_paged_memory_resource.cpp memory/page_pool.cpp memory/details/page_allocation_info.cpp""".split()


def behaviour(r):
    parts = []
    for _ in range(r.choice([1, 1, 1, 2, 2, 3])):
        parts.append("".join(r.choice("wwwn") for _ in range(r.choice([1, 1, 2]))))
    k = r.random()
    if k < .12:
        parts[-1] = parts[-1][:1] + "x"
    elif k < .2:
        parts[-1] = parts[-1][:1] + "f"
    return "/".join(parts)


def program(r):
    k = r.choice([1, 1, 1, 2, 2, 3])
    lim = ["K=%d M=%d" % (k, r.choice([1, 2, 5])), "K=- M=%d" % k][r.random() < .3]
    n = r.choice([1, 2, 2, 3])
    none = r.random() < .08
    c, h, e = (r.choice([0, 1]), r.choice([0, 1]), r.choice([0, 1, 1])) if none else (1, 1, 1 if r.random() < .93 else 0)
    beh = [behaviour(r) for _ in range(n)]
    if not (c and h and e):
        beh = [re.sub("[wf]", "n", b) for b in beh]
    ths = [["run"] for _ in range(n)]
    while len(ths) > 1 and r.random() < .25:
        a = ths.pop()
        ths[-1] += a
    if c and h and r.random() < .4:
        s = "a"
        ops = []
        for _ in range(r.choice([1, 1, 2])):
            ops.append("acq " + s)
            for _ in range(r.choice([0, 1, 2])):
                ops.append(r.choice(["use ", "use ", "has ", "res "]) + s)
            if r.random() < .3:
                d = "b" if s == "a" else "a"
                ops += ["mv %s %s" % (s, d), r.choice(["res ", "has "]) + s]
                if r.random() < .5:
                    ops.append("use " + d)
                s = d
            if r.random() < .2:
                ops.append("mk " + s)
            ops.append("rel " + s)
            if r.random() < .5:
                ops.append(r.choice(["res ", "has "]) + s)
        ths.append(ops)
    ref = r.choice([1, 2]) if r.random() < .1 else 0
    return "%s C=%d H=%d E=%d R=%d P=%s : %s | after ; cap ; fin" % (lim, c, h, e, ref, ",".join(beh), " | ".join(" ; ".join(t) for t in ths))


PROGRAMS = [
    "K=1 M=5 C=1 H=1 E=1 R=0 P=w,w : run | run | after ; cap ; fin",
    "K=1 M=5 C=1 H=1 E=1 R=0 P=w/w,w : run | run | after ; cap ; fin",
    "K=2 M=1 C=1 H=1 E=1 R=0 P=w,w/w,w : run | run | run | after ; cap ; fin",
    "K=- M=2 C=1 H=1 E=1 R=0 P=w,n,w : run | run | run | after ; cap ; fin",
    "K=1 M=1 C=1 H=1 E=1 R=0 P=wx,w : run | run | after ; cap ; fin",
    "K=1 M=1 C=1 H=1 E=1 R=1 P=w,w : run | run | after ; cap ; fin",
    "K=2 M=1 C=1 H=1 E=1 R=0 P=w : run | acq a ; use a ; mv a b ; use b ; has a ; res a ; rel b ; res b ; has b | after ; cap ; fin",
    "K=1 M=1 C=1 H=1 E=0 R=0 P=n/n,n : run | run | acq a ; use a ; rel a | after ; cap ; fin",
    "K=1 M=1 C=0 H=1 E=1 R=0 P=n/n,n : run | run | after ; cap ; fin",
    "K=1 M=1 C=1 H=0 E=1 R=0 P=n/n,n : run | run | after ; cap ; fin",
]


def check(chk):
    T = chk.thorough
    for cap, tasks in [(1, 2), (2, 2), (1, 3), (2, 3)][: 4 if T else 2]:
        chk.model(lambda: model_check("WPoolMC", "SPECIFICATION Spec\nCONSTANTS Cap = %d\n Tasks = %d\nINVARIANT Bounded OneUser Kept AllDone\nPROPERTY ReleasedOnce\nCHECK_DEADLOCK FALSE\n" % (cap, tasks), chk.workdir, heap="6g"), "writers: specification laws (%d seats, %d tasks)" % (cap, tasks))
    kw = dict(plain_harness=True, protos="headers", libs=("-lglog", "-ltbb", "-lprotobuf", "-lnuma"), ldflags=("-no-pie", "-Wl,--unresolved-symbols=ignore-all"),
              pch=("jogasaki/request_context.h", "jogasaki/error/error_info_factory.h", "jogasaki/scheduler/flat_task.h"))
    r = chk.rng
    progs = PROGRAMS + [program(r) for _ in range(400 if T else 60)]
    if check_conc(chk, "wpool", ["wpool_h.cpp"], SRC, progs, "WPoolTrace", lincfg("WInit", "Do", "Silent", "Never"), "writers", quick=(2, 900, 120, 2), thorough=(3, 20000, 3000, 30), mem_quick=(1, 60, 100, 1.5), mem_thorough=(2, 2000, 5000, 30), cap=1500, **kw):
        chk.assumptions += ["sequentially consistent memory between instrumented operations", "the operators of a task are a stand-in that writes given records", "bounded programs, schedules and preemptions"]
