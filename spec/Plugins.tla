------------------------------ MODULE Plugins ------------------------------
(* C21: what a set of plug-in description files says, and when it is refused.
   A file is [st, protos]: st is "ok", "missing" or "corrupt".  A proto is [name, pkg, msgs, svcs]; a message [name,
   fields, nested] with fields [msg, abs, ty]; a service [name, methods]; a method [name, in, out], types [abs, ty]. *)
EXTENDS Naturals, Sequences, FiniteSets, TLC

Range(s) == {s[i] : i \in 1..Len(s)}
Dotted(a, b) == IF a = "" THEN b ELSE a \o "." \o b
\* the full name of a message: a dot, then package, enclosing messages and own name separated by dots
Full(pkg, path) == "." \o Dotted(pkg, path)
RECURSIVE Defs(_, _, _), Fields(_)
\* names of the messages a message and what it encloses define
Defs(m, pkg, outer) == LET p == Dotted(outer, m.name) IN
  {Full(pkg, p)} \cup UNION {Defs(m.nested[i], pkg, p) : i \in 1..Len(m.nested)}
TypeName(t) == IF t.abs THEN t.ty ELSE "." \o t.ty
Fields(m) == {TypeName(f) : f \in {g \in Range(m.fields) : g.msg /\ g.ty # ""}} \cup UNION {Fields(m.nested[i]) : i \in 1..Len(m.nested)}
Defines(p) == UNION {Defs(m, p.pkg, "") : m \in Range(p.msgs)}
Methods(p) == UNION {Range(sv.methods) : sv \in Range(p.svcs)}
Refers(p) == UNION {Fields(m) : m \in Range(p.msgs)}
             \cup UNION {{TypeName(t) : t \in {u \in {x.in, x.out} : u.ty # ""}} : x \in Methods(p)}

RECURSIVE Cat(_)
Cat(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o Cat(Tail(ss))
Protos(files) == Cat([i \in 1..Len(files) |-> IF files[i].st = "ok" THEN files[i].protos ELSE <<>>])
Rpcs(ps) == Cat([i \in 1..Len(ps) |-> Cat([j \in 1..Len(ps[i].svcs) |->
              [k \in 1..Len(ps[i].svcs[j].methods) |->
                LET sv == ps[i].svcs[j] m == sv.methods[k] IN
                <<ps[i].name, sv.name, m.name, "/" \o Dotted(ps[i].pkg, sv.name) \o "/" \o m.name>>]])])
Messages(ps) == LET P == Range(ps)
                    names == UNION {Defines(p) \cup Refers(p) : p \in P} IN
  {<<n, {p.name : p \in {q \in P : n \in Defines(q)}}, {p.name : p \in {q \in P : n \in Refers(q)}}>> : n \in names}
Bad(files) == SelectSeq([i \in 1..Len(files) |-> <<i, files[i].st>>], LAMBDA x : x[2] # "ok")
Refused(rs) == \E i, j \in 1..Len(rs) : i < j /\ rs[i][3] = rs[j][3]

AsSet(v) == {<<v[i][1], Range(v[i][2]), Range(v[i][3])>> : i \in 1..Len(v)}
PInit(a) == 0
PStep(s, o, v) ==
  LET files == o.a[1]
      ps == Protos(files)
      rs == Rpcs(ps)
      ms == Messages(ps)
      dup == {x \in ms : Cardinality(x[2]) > 1} IN
  IF /\ v.errors = Bad(files)
     /\ v.rpcs = rs
     /\ AsSet(v.msgs) = ms /\ Len(v.msgs) = Cardinality(ms)
     /\ v.refused = Refused(rs)
     /\ AsSet(v.dups) = dup /\ Len(v.dups) = Cardinality(dup)
  THEN {s} ELSE {}
============================================================================
