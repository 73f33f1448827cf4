--------------------------------- MODULE MC ---------------------------------
(* Model checking: every sequence of calls from an alphabet, up to a      *)
(* depth, from a start set by some calls.                                 *)
(*                                                                        *)
(* The specification alone decides what happens; the state and action     *)
(* properties are checked on everything reached. Each transition is       *)
(* printed as "=> <indices of the calls>", for the harness to carry out   *)
(* on the real program (and module Judge to compare).                     *)
EXTENDS Steps, Wire, Json, IOUtils

In == ndJsonDeserialize(IOEnv.TRACE)
Root == In[1]
PK == Root.pk
NameOf(x) == IF x \in DOMAIN PK THEN PK[x] ELSE "?" \o x
Budget == atoi(IOEnv.BUDGET)
Depth == Root.depth

\* a call of the alphabet, its arguments decoded
Parse(it) ==
  IF it.k = "tick" THEN it
  ELSE LET tagb == it.c.d # <<>>
           ix == IF tagb THEN Tags[it.c.d[1]] ELSE "?"
       IN [k |-> "call", ix |-> ix, accs |-> it.c.accs, refs |-> it.refs,
           a |-> Decode(ix, Tail(it.c.d), NameOf)]
Setup == [i \in 1..Len(In[2].setup) |-> Parse(In[2].setup[i])]
Alpha == [i \in 1..Len(In[2].alpha) |-> Parse(In[2].alpha[i])]

-----------------------------------------------------------------------------
\* orders are named by their place in the book
RefsOk(it, w) ==
  \A j \in 1..Len(it.refs) :
     /\ w["m0"].k = "market"
     /\ it.refs[j].k <= Len(Side(w["m0"], it.refs[j].side))
At(it, w, j) == Side(w["m0"], it.refs[j].side)[it.refs[j].k]
Args(it, w) ==
  IF it.refs = <<>> THEN it.a
  ELSE IF "ids" \in DOMAIN it.a
  THEN [it.a EXCEPT !.ids = [j \in 1..Len(it.refs) |->
          [it.a.ids[j] EXCEPT !.px = At(it, w, j).px, !.seq = At(it, w, j).seq]]]
  ELSE [it.a EXCEPT !.px = At(it, w, 1).px, !.seq = At(it, w, 1).seq]
Call(it, w, slot, ts) ==
  [ix |-> it.ix, accs |-> it.accs, a |-> Args(it, w), slot |-> slot, ts |-> ts]

RECURSIVE SetUp(_, _, _, _)
SetUp(w, slot, ts, i) ==
  IF i > Len(Setup) THEN [w |-> w, slot |-> slot, ts |-> ts]
  ELSE LET it == Setup[i]
       IN IF it.k = "tick" THEN SetUp(w, (slot ++ it.ds), (ts ++ it.dt), i + 1)
          ELSE SetUp(Exec(w, Call(it, w, slot, ts)).acc, slot, ts, i + 1)
Start0 == SetUp(Root.acc, Root.slot, Root.ts, 1)

-----------------------------------------------------------------------------
VARIABLES w, slot, ts,
          depth,    \* calls and ticks so far
          path,     \* which
          last      \* the last call and its outcome: <<>> or <<[c, e]>>
vars == <<w, slot, ts, depth, path, last>>

\* the number of past instructions matters to nothing but the log headers
Blind(v) == IF v["m0"].k = "market" THEN [v EXCEPT !["m0"].mseq = Z] ELSE v
View == <<Blind(w), slot, ts>>

Init ==
  /\ w = Start0.w /\ slot = Start0.slot /\ ts = Start0.ts
  /\ depth = 0 /\ path = "" /\ last = <<>>
  /\ TLCSet(1, 0)

Spend == TLCGet(1) < Budget /\ TLCSet(1, TLCGet(1) + 1)
Take(i) ==
  /\ depth < Depth
  /\ IF Alpha[i].k = "tick" THEN TRUE ELSE RefsOk(Alpha[i], w)
  /\ Spend
  /\ depth' = depth + 1
  /\ path' = IF path = "" THEN ToString(i) ELSE path \o "." \o ToString(i)
  /\ PrintT("=> " \o path')

Tick(i) ==
  /\ Alpha[i].k = "tick"
  /\ Take(i)
  /\ slot' = (slot ++ Alpha[i].ds) /\ ts' = (ts ++ Alpha[i].dt)
  /\ w' = w /\ last' = <<>>

Do(i) ==
  /\ Alpha[i].k = "call"
  /\ Take(i)
  /\ LET c == Call(Alpha[i], w, slot, ts)
         e == Exec(w, c)
     IN /\ w' = e.acc
        /\ last' = <<[c |-> c, e |-> [ok |-> e.ok, ev |-> e.ev, ret |-> e.ret]]>>
  /\ UNCHANGED <<slot, ts>>

Next == \E i \in 1..Len(Alpha) : Tick(i) \/ Do(i)
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
Live0 == MarketsOf(w)
Vaults == \A x \in Live0 : InvVaults(w, x)
Locked == \A x \in Live0 : InvLocked(w[x])
Book == \A x \in Live0 : InvBook(w[x], slot, ts)
Issued == \A x \in Live0 : InvIssued(w[x])
Config == \A x \in Live0 : InvConfig(w, x)
Seats == \A x \in Live0 : InvSeats(w[x])

Ahead == IOEnv.LEAVE = "1"
Leaves == Ahead => \A x \in Live0 : \A t \in DOMAIN w[x].tr : CanLeave(w, x, t, slot, ts)
Winds == Ahead => \A x \in Live0 : CanWind(w, x, slot, ts)

Stepwise == [][last' # <<>> =>
                 LET b == Broken(w, last'[1].c, last'[1].e, w')
                 IN b = {} \/ (PrintT(<<"!!", path', b>>) /\ FALSE)]_vars
=============================================================================
