------------------------------- MODULE MCNet --------------------------------
(* A store of tensors shared between modules implements the life of          *)
(* networks.  Cells hold versions; a module refers to its parameters,        *)
(* statistics and expanded filters by cell.  Parameters are changed in place *)
(* (the optimiser) or replaced, a training pass changes the statistics in    *)
(* place; a copy and an export get cells of their own.  With Alias = TRUE an *)
(* export refers to the cells of its network: then the refinement fails      *)
(* (checked separately as a negative control).                               *)
EXTENDS Net, FiniteSets, TLC
CONSTANTS V, MaxObjs, MaxSnaps, MaxStat, MaxSteps, Alias
VARIABLES st, cells, refs, n, born
vars == <<st, cells, refs, n, born>>
New(k) == [j \in 1 .. k |-> Len(cells) + j]
Init == /\ st = NStart /\ cells = <<0, 0, -1>> /\ refs = <<[w |-> 1, s |-> 2, c |-> 3]>> /\ n = 0
        /\ born = << <<>> >>
Ref(i) == refs[i]
Copied(i) == cells \o << cells[Ref(i).w], cells[Ref(i).s], cells[Ref(i).c] >>
Own == [w |-> Len(cells) + 1, s |-> Len(cells) + 2, c |-> Len(cells) + 3]
Store(op) ==
  LET r == Ref(op.i) o == st.objs[op.i] IN
  CASE op.o = "train" -> cells' = [cells EXCEPT ![r.c] = -1] /\ refs' = refs
    [] op.o = "eval" -> cells' = (IF o.mode = "train" THEN Append(cells, cells[r.w]) ELSE cells)
                        /\ refs' = (IF o.mode = "train" THEN [refs EXCEPT ![op.i].c = Len(cells) + 1] ELSE refs)
    [] op.o = "update" -> IF op.how = 1 THEN cells' = Append(cells, op.v) /\ refs' = [refs EXCEPT ![op.i].w = Len(cells) + 1]
                          ELSE cells' = [cells EXCEPT ![r.w] = op.v] /\ refs' = refs
    [] op.o = "pass" -> cells' = [cells EXCEPT ![r.s] = st.ns + 1] /\ refs' = refs
    [] op.o = "load" -> LET s == st.snaps[op.s] IN
         cells' = [cells EXCEPT ![r.w] = s.w, ![r.s] = s.s, ![r.c] = IF o.mode = "eval" THEN s.c ELSE @] /\ refs' = refs
    [] op.o \in {"copy", "again"} -> cells' = Copied(op.i) /\ refs' = Append(refs, Own)
    [] op.o = "export" ->
         LET c == IF o.mode = "train" THEN cells[r.w] ELSE cells[r.c] IN
         IF Alias THEN /\ cells' = Append(cells, c)
                       /\ refs' = Append([refs EXCEPT ![op.i].c = Len(cells) + 1], [w |-> r.w, s |-> r.s, c |-> Len(cells) + 1])
         ELSE /\ cells' = [Copied(op.i) EXCEPT ![Own.c] = c] \o <<c>>
              /\ refs' = Append([refs EXCEPT ![op.i].c = Len(cells) + 4], Own)
    [] OTHER -> UNCHANGED <<cells, refs>>
Next == n < MaxSteps /\ \E op \in { x \in NOps(st, V, MaxObjs, MaxSnaps, MaxStat) : x.o \notin {"look", "cast"} /\ (x.o = "update" => x.how < 2) } :
   /\ Store(op) /\ st' = NApply(st, op) /\ n' = n + 1
   /\ born' = IF op.o = "export" THEN Append(born, Value(ToEval(st.objs[op.i])))
              ELSE IF op.o = "load" /\ st.objs[op.i].kind = "plain" THEN [born EXCEPT ![op.i] = Value(st.snaps[op.s])]
              ELSE IF op.o \in {"copy", "again"} THEN Append(born, born[op.i]) ELSE born
(* the store computes what the life of networks says *)
Refines == \A i \in 1 .. Len(st.objs) :
   /\ cells[refs[i].w] = st.objs[i].w /\ cells[refs[i].s] = st.objs[i].s
   /\ (Determined(st.objs[i]) => cells[refs[i].c] = st.objs[i].c)
(* an exported module computes for ever what its network computed in evaluation mode when it was exported *)
Frozen == \A i \in 1 .. Len(st.objs) : st.objs[i].kind = "plain" => Value(st.objs[i]) = born[i] /\ st.objs[i].c # -1
Separate == \A i, j \in 1 .. Len(refs) : i # j => {refs[i].w, refs[i].s, refs[i].c} \cap {refs[j].w, refs[j].s, refs[j].c} = {}
=============================================================================
