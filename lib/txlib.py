from vlib import *
from hist import *

SRC = """transaction_state.cpp transaction_context.cpp request_context.cpp error/error_info.cpp error/error_info_factory.cpp request_logging.cpp
storage/storage_manager.cpp storage/reference_scope.cpp storage/shared_lock.cpp storage/unique_lock.cpp auth/action_set.cpp auth/authorized_users_action_set.cpp
executor/executor.cpp executor/common/graph.cpp executor/common/port.cpp executor/common/step.cpp executor/common/task.cpp executor/common/execute.cpp
scheduler/flat_task.cpp scheduler/dag_controller.cpp scheduler/dag_controller_impl.cpp scheduler/statement_scheduler.cpp scheduler/statement_scheduler_impl.cpp scheduler/step_state_table.cpp
scheduler/task_scheduler.cpp scheduler/task_factory.cpp scheduler/job_context.cpp scheduler/stealing_task_scheduler.cpp
commit_common.cpp durability_common.cpp durability_callback.cpp durability_manager.cpp utils/cancel_request.cpp utils/latch.cpp utils/use_counter.cpp
api/impl/request_context_factory.cpp api/impl/executable_statement.cpp api/impl/prepared_statement.cpp plan/executable_statement.cpp plan/mirror_container.cpp
executor/io/record_channel_adapter.cpp executor/io/data_channel_writer.cpp executor/io/writer_pool.cpp executor/io/writer_seat.cpp model/flow_repository.cpp request_statistics.cpp
memory/lifo_paged_memory_resource.cpp memory/page_pool.cpp memory/details/page_allocation_info.cpp
scheduler/hybrid_task_scheduler.cpp scheduler/serial_task_scheduler.cpp kvs/error.cpp utils/external_log_utils.cpp utils/convert_control_characters.cpp api/transaction_handle.cpp""".split()
KW = dict(pch=("jogasaki/request_context.h", "jogasaki/api/impl/prepared_statement.h", "jogasaki/executor/common/graph.h", "jogasaki/error/error_info_factory.h", "jogasaki/storage/storage_manager.h"), plain_harness=True, protos="headers", libs=("-lglog", "-ltbb", "-lprotobuf", "-lnuma", "-lboost_thread"), ldflags=("-no-pie", "-Wl,--unresolved-symbols=ignore-all"))

CFG = lincfg("GInit", "Do", "Silent", "Never")


def tx(chk, progs, label, **kw):
    chk.assumptions += ["sequentially consistent memory between instrumented operations", "the transaction engine, the statement compiler and the worker pool are stand-ins",
                        "bounded programs, schedules and preemptions"]
    kw.setdefault("quick", (2, 250, 80, 3))
    kw.setdefault("mem_quick", (1, 60, 120, 2))
    kw.setdefault("thorough", (3, 4000, 2000, 40))
    kw.setdefault("mem_thorough", (2, 1000, 4000, 40))
    return check_conc(chk, "tx", ["tx_h.cpp"], SRC, progs, "SchedTrace", CFG, label, **kw, **KW)


def laws(chk, sets, label):
    for s in [sets] if isinstance(sets, str) else sets:
        chk.model(lambda: model_check("SchedMC", "SPECIFICATION Spec\nCONSTANTS Set = \"%s\"\nINVARIANT AtMostOnce InOrder NoStuck\nPROPERTY Alone Closed OneDecision Durable AnsweredOnce DoneOnce\nCHECK_DEADLOCK FALSE\n" % s, chk.workdir, heap="6g"), label)


def shape(r, n=None, tasks=2):
    out = []
    for i in range(n or r.choice([1, 2, 2, 3, 3, 4])):
        s = str(r.choice([1, 1, 2] if tasks == 2 else [1, 2, 3]))
        mains = [u for u in range(i) if r.random() < (.8 if i == 1 else .45)]
        subs = [u for u in range(i) if u not in mains and r.random() < .3]
        out.append(s + ("<" + "+".join(map(str, mains)) if mains else "") + ("^" + "+".join(map(str, subs)) if subs else ""))
    return ",".join(out)


def beh(r, sh, p=.35, kinds="yyeex"):
    keys = []
    for i, s in enumerate(sh.split(",")):
        keys += ["%d.%d" % (i, k) for k in range(int(s[0]))]
        if "^" in s:
            keys += ["%d.%d" % (i, 100 + k) for k in range(len(s.split("^")[1].split("+")))]
    b = [r.choice(kinds) + k for k in keys if r.random() < p]
    bad = [x for x in b if x[0] in "ex"]
    b = [x for x in b if x[0] == "y"] + bad[:1]
    return ",".join(b) or "-"


def programs(r, focus, n):
    out = []
    while len(out) < n:
        txs = [1] if focus not in ("dur",) and r.random() < .8 else [1, 2] if r.random() < .7 else [1, 2, 3]
        marks = {t: r.choice([3, 5, 5, 7]) for t in txs}
        init = ["W=%d" % r.choice([2, 2, 2, 3, 1])]
        conf = "".join(c for c in "tdcoh" if r.random() < (.5 if focus == "dur" and c in "co" else .18))
        if conf:
            init.append("C=" + conf)
        for t in txs:
            init.append("T%d=%s%s" % (t, r.choice(["", "", "s"]), "ok%d" % marks[t] if r.random() < .85 else "err"))
        if focus == "dur" or r.random() < .1:
            init.append("D=" + ",".join(str(r.choice([2, 3, 4, 5, 6, 7])) for _ in range(r.choice([1, 2, 3]))))
        J = [0]
        jobs = []
        stored = set()

        def new():
            J[0] += 1
            jobs.append(J[0])
            return J[0]

        def one():
            t = r.choice(txs)
            w = {"term": "dag write write custom prep commit commit abort abort state xl empty", "dur": "commit commit commit commit marker marker write dur abort state",
                 "jobs": "dag dag write write custom custom prep prep empty wait wait abort commit xl", "steps": "dag dag dag dag wait commit abort"}[focus].split()
            k = r.choice(w)
            if k == "dag":
                sh = shape(r) if focus == "steps" else shape(r, r.choice([1, 1, 2]))
                if focus == "term":
                    sh = r.choice(["1", "2", "2", "1,1<0"])
                return "dag %d %d %s %s %s" % (t, new(), sh, r.choice("iiisn"), beh(r, sh))
            if k == "write":
                return "write %d %d %s" % (t, new(), r.choice(["-", "-", "e0.0", "x0.0"])) + (" sync" if r.random() < .1 else "")
            if k == "custom":
                return "custom %d %d %s %s" % (t, new(), r.choice("isn"), r.choice(["-", "y0.0", "-", "e0.0", "x0.0"]))
            if k == "prep":
                return "prep %d %d %s" % (t, new(), r.choice(["write -", "write -", "write e0.0", "fail", "empty"]))
            if k == "empty":
                return "empty %d %d" % (t, new())
            if k == "commit":
                j, c = new(), r.choice("as" if focus != "dur" else "assss")
                if c == "s":
                    stored.add(j)
                return "commit %d %d %s" % (t, j, c)
            if k == "wait":
                ok = [j for j in jobs if j not in stored]  # a commit that waits for the durable point is announced only when the clients are idle
                return "wait %d" % r.choice(ok) if ok else None
            if k == "abort":
                return "abort %d" % t
            if k == "state":
                return "state %d" % t
            if k == "dur":
                return "dur %d" % r.choice([3, 5, 7])
            if k == "marker":
                return "marker"
            return "xl"
        ths = []
        xl = False
        for _ in range(r.choice([1, 2, 2, 3] if focus != "steps" else [1, 1, 2])):
            ops = [x for x in (one() for _ in range(r.choice([1, 2, 2, 3]))) if x]
            if "xl" in ops:
                ops = [x for x in ops if x != "xl"]
                if not xl:
                    xl = True
                    ops = ["xlock"] + ops + ["xunlock"]
            if ops:
                ths.append(" ; ".join(ops))
        if not ths or len(jobs) > 4 or not jobs and focus != "dur":
            continue
        out.append(" ".join(init) + " : " + " | ".join(ths))
    return out
