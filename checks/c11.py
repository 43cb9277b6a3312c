from vlib import *
from hist import *

PROGS = ["pool 0 1 0 : acquire ; release | acquire ; release", "pool 0 1 1 : acquire | acquire", "pool 0 1 2 : acquire ; release ; acquire | acquire ; release | acquire",
         "pool 1 1 0 : acquire ; release ; acquire ; release | acquire ; acquire ; release", "pool 0 2 2 : acquire ; release | acquire ; release ; acquire",
         "pool 0 1 1 : acquire ; give ; acquire | xrelease ; acquire | acquire", "pool 0 1 1 : brandnew ; release | acquire ; release | brandnew",
         "pool 0 2 1 : acquire ; give | xrelease ; acquire ; node 1 ; acquire | acquire ; release ; acquire"]


def rnd(chk, n):
    r = chk.rng
    return ["pool %d %d %d : %s" % (r.random() < 0.2, r.choice([1, 1, 2]), r.randrange(3), " | ".join(
        " ; ".join(r.choice(["acquire", "acquire", "release", "release", "brandnew", "give", "xrelease", "node %d" % r.randrange(2)]) for _ in range(r.choice([2, 3, 5])))
        for _ in range(r.choice([2, 3])))) for _ in range(n)]


def check(chk):
    T = chk.thorough
    check_conc(chk, "pool", ["pool_h.cpp"], ["memory/page_pool.cpp"], PROGS + rnd(chk, 80 if T else 24), "PagePoolTrace", lincfg("PInit", "PApply"), "page pool", mem=False,
               libs=("-lglog", "-ltbb", "-lnuma"), ldflags=["-Wl,--wrap=mmap,--wrap=munmap,--wrap=numa_num_configured_nodes,--wrap=numa_node_of_cpu"])
    chk.assumptions += ["tbb::concurrent_queue operations are atomic (each is one scheduling point)", "sequentially consistent memory"]
