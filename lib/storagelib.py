"""the table manager: harness, scenarios and checks shared by C06, C07 and C14"""
from vlib import *
from hist import *

SRC = ["storage/storage_manager.cpp", "storage/unique_lock.cpp", "storage/shared_lock.cpp", "storage/reference_scope.cpp", "storage/maintenance_storage.cpp",
       "auth/action_set.cpp", "auth/authorized_users_action_set.cpp"]
CFG = lincfg("GInit", "GApply", "GTau", "Never")
LIB = dict(protos="headers", libs=("-lglog", "-ltbb", "-lprotobuf"))


def ent(i, name=None, key="-", prim=1, pe=0, orig="-"):
    return "%d,%s,%s,%d,%d,%s" % (i, name if name is not None else "n%d" % i, key, prim, pe, orig)


def conc(chk, name, programs, label, **kw):
    return check_conc(chk, name, ["storage_h.cpp"], SRC, programs, "StorageTrace", CFG, label, **dict(LIB, **kw))


def model(chk, inv, quick=5, thorough=6):
    chk.model(lambda: model_check("StorageMC", "SPECIFICATION Spec\nCONSTANTS NS = 2\n MaxOps = %d\nINVARIANTS %s\nCHECK_DEADLOCK FALSE\n" % (thorough if chk.thorough else quick, inv), chk.workdir, heap="14g"), "tables: specification laws")
