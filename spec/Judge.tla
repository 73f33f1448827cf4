------------------------------- MODULE Judge --------------------------------
(* Judges traces recorded from the real program.                          *)
(*                                                                        *)
(* The trace is a forest of observed worlds; TLC walks it. At every call  *)
(* the specification computes, from the observed world before, the one    *)
(* allowed outcome, and every difference from what was observed is        *)
(* reported together with the properties it violates. The state and action*)
(* properties are evaluated on the observed worlds and calls.             *)
(*                                                                        *)
(* One line per finding:  "@@ <node> <components> <properties> <detail>"  *)
(* and per call:          "## <instruction> <ok> <why> <tags>"            *)
EXTENDS View, Steps, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
Verbose == IOEnv.VERBOSE = "1"

VARIABLES id,    \* node of the trace
          w,     \* the observed world there
          pk,    \* its table of addresses
          good   \* FALSE: the world makes no sense, what follows is not judged

vars == <<id, w, pk, good>>
View == id

-----------------------------------------------------------------------------
RECURSIVE Join(_)
Join(S) == IF S = {} THEN "" ELSE LET x == CHOOSE x \in S : TRUE
                                  IN IF S = {x} THEN x ELSE x \o "," \o Join(S \ {x})
Text(S) == IF S = {} THEN "-" ELSE Join(S)
Say(n, comps, props, detail) ==
  IF comps = {} THEN TRUE
  ELSE PrintT("@@ " \o ToString(n) \o " " \o Text(comps) \o " " \o Text(props) \o " " \o detail)

NameOf(x) == IF x \in DOMAIN pk THEN pk[x] ELSE "?" \o x

-----------------------------------------------------------------------------
(* Differences between the expected and an observed outcome of a call     *)
Upd(n) == IF DOMAIN n.acc = {} THEN w ELSE n.acc @@ w

AdminFields == {"auth", "succ"}
MarketDiff(a, b) ==
  IF ~IsMarket(a) \/ ~IsMarket(b) THEN {"account"}
  ELSE {f \in {"lam", "len", "st", "mseq", "oseq", "bids", "asks", "tr", "unc", "col", "auth", "succ",
               "fr", "size", "bm", "qm", "bls", "qls", "tqa", "raw", "T", "B", "fee", "own"} : a[f] # b[f]}
Component(f) ==
  CASE f \in {"bids", "asks"} -> "book"
    [] f \in {"unc", "col"} -> "fees"
    [] f \in {"auth", "succ"} -> "auth"
    [] f \in {"size", "bm", "qm", "bls", "qls", "tqa", "raw", "T", "B", "fee"} -> "config"
    [] f \in {"len", "own", "account"} -> "account"
    [] OTHER -> f
AccDiff(x, a, b) ==
  IF a = b THEN {}
  ELSE IF a.k = "market" \/ b.k = "market" THEN {Component(f) : f \in MarketDiff(a, b)}
  ELSE IF a.k # b.k \/ a.own # b.own THEN {IF a.k = "seat" \/ b.k = "seat" THEN "seat" ELSE "account"}
  ELSE (IF a.lam # b.lam /\ ~(a.k = "tok" /\ a.nat /\ a.amt # b.amt) THEN {"lam"} ELSE {})
       \cup CASE a.k = "tok" -> IF a.amt # b.amt THEN {"tok"} ELSE IF a.lam = b.lam THEN {"account"} ELSE {}
              [] a.k = "seat" -> IF [a EXCEPT !.lam = Z] # [b EXCEPT !.lam = Z] THEN {"seat"} ELSE {}
              [] OTHER -> IF a.lam = b.lam THEN {"account"} ELSE {}

WorldDiff(names, exp, obs) ==
  UNION {IF x \in DOMAIN exp THEN AccDiff(x, exp[x], obs[x]) ELSE {"account"} : x \in names}

(* the log: headers, counts, numbering and the events                     *)
RECURSIVE Flat(_, _)
Flat(log, f) == IF log = <<>> THEN <<>> ELSE Head(log)[f] \o Flat(Tail(log), f)
IsIota(idx) == \A i \in 1..Len(idx) : idx[i] = i - 1
MaxBatch == 1280 - 34
LogDiff(n, c, e, seq) ==
  LET log == n.res.log
      okHdr == /\ log # <<>>
               /\ \A i \in 1..Len(log) :
                    /\ log[i].good
                    /\ log[i].ix = n.c.d[1] /\ log[i].seq = seq
                    /\ log[i].ts = c.ts /\ log[i].slot = c.slot
                    /\ log[i].market = MarketName(c) /\ log[i].signer = Signer(c)
                    /\ log[i].total = Len(log[i].ev)
                    /\ log[i].len <= MaxBatch
  IN IF \E i \in 1..Len(log) : ~log[i].good THEN {"hdr"}
     ELSE (IF okHdr THEN {} ELSE {"hdr"})
          \cup (IF Flat(log, "ev") = e.ev THEN {} ELSE {"ev"})
          \cup (IF IsIota(Flat(log, "idx")) THEN {} ELSE {"evidx"})

-----------------------------------------------------------------------------
(* Which properties a difference violates. k describes the call: ix, what *)
(* the specification says of it (e), the components that differ (d), the  *)
(* arguments, and whether it came from a builder.                         *)
PlaceIx == {"Swap", "SwapFF", "PlaceLimit", "PlaceLimitFF"}
MultiIx == {"Multi", "MultiFF"}
FreeIx == {"SwapFF", "PlaceLimitFF", "MultiFF", "ReduceFF", "CancelAllFF", "CancelUpToFF", "CancelByIdFF"}
TokIx == {"Swap", "PlaceLimit", "Multi", "Reduce", "CancelAll", "CancelUpTo", "CancelById",
          "Withdraw", "Deposit", "EvictSeat", "ForceCancel", "CollectFees"}
CancelIx == {"Reduce", "ReduceFF", "CancelAll", "CancelAllFF", "CancelUpTo", "CancelUpToFF",
             "CancelById", "CancelByIdFF"}
SeatIx == {"RequestSeat", "RequestSeatAuthorized", "ChangeSeatStatus"}
AuthIx == {"NameSuccessor", "ClaimAuthority", "ChangeMarketStatus", "ChangeSeatStatus",
           "RequestSeatAuthorized", "EvictSeat", "ForceCancel", "ChangeFeeRecipient"}
NeedSeatIx == {"SwapFF", "PlaceLimit", "PlaceLimitFF", "Multi", "MultiFF", "Deposit"}
GatedIx == PlaceIx \cup MultiIx \cup {"Reduce", "CancelAll", "CancelUpTo", "CancelById", "Withdraw",
                                      "Deposit", "RequestSeat"}
Leaving == {"refused", "failed", "tr", "tok", "book", "st", "seat", "fees", "account", "lam"}

Blame(n, c, e) ==
  LET ix == c.ix
      d == e.diff
      obs == n.res
      arg == OrderArgOk(c.a)
      place == ix \in PlaceIx /\ arg
      kind == IF place THEN c.a.kind ELSE ""
      obsEv == IF \A i \in 1..Len(obs.log) : obs.log[i].good THEN Flat(obs.log, "ev") ELSE <<>>
      saw(t) == (\E i \in 1..Len(obsEv) : obsEv[i].t = t) \/ (\E i \in 1..Len(e.ev) : e.ev[i].t = t)
      got(s) == (d \cap s) # {}
      tag(s) == (e.tags \cap s) # {}
      was(s) == "accepted" \in d /\ e.why \in s
      m == IF HasAcc(c, 3) /\ MarketName(c) \in DOMAIN w THEN w[MarketName(c)] ELSE [k |-> "raw"]
      st == IF m.k = "market" THEN m.st ELSE ""
      money == {"tr", "tok", "book", "ev", "evidx", "fees", "refused", "accepted"}
      P(p, cond) == IF cond THEN {p} ELSE {}
  IN UNION {
    P("C04", kind \in {"L", "IOC"} /\ (saw("Fill") \/ got({"book", "refused"})) /\ got(money)),
    P("C05", kind = "IOC" /\ got(money)),
    P("C06", got({"fees"}) \/ (kind \in {"L", "IOC"} /\ saw("Summary") /\ got({"tr", "tok", "ev", "refused"}))),
    P("C07", ix \in {"CollectFees", "ChangeFeeRecipient"} \/ got({"fr"})),
    P("C08", (kind = "PO" \/ ix \in MultiIx)
             /\ (tag({"cross", "amend", "expired"}) \/ saw("Fill") \/ was({"pocross"})
                 \/ got({"refused", "book", "ev"}))),
    P("C09", tag({"self"})),
    P("C10", tag({"expired", "stale", "tif"}) \/ saw("Expired")
             \/ (place /\ (c.a.lvs # <<>> \/ c.a.lvt # <<>>))),
    P("C11", ix \in CancelIx),
    P("C12", ix \in FreeIx /\ (got({"tok", "tr", "lam"}) \/ was({"funds", "tokens"}) \/ got({"refused"}))),
    P("C13", ix \in TokIx /\ (got({"tok", "tr", "fees"}) \/ was({"tokens", "funds", "frozen"}) \/ got({"refused"}))),
    P("C14", tag({"full", "evict"}) \/ saw("Evict")),
    P("C15", was({"auth"}) \/ got({"auth"}) \/ (ix \in AuthIx /\ (got({"refused"}) \/ was({"signer", "acct"})))
             \/ ix \in {"NameSuccessor", "ClaimAuthority"}),
    P("C16", was({"status", "transition"}) \/ got({"st"}) \/ ix = "ChangeMarketStatus"
             \/ (ix \in GatedIx /\ st # "AC" /\ got({"refused"}))),
    P("C17", was({"seat", "seatstatus", "unregistered"})
             \/ (ix \in NeedSeatIx /\ was({"acct", "owner", "signer", "market"})) \/ (ix \in NeedSeatIx \cup {"Swap"} /\ got({"refused"}))),
    P("C18", ix \in SeatIx \/ got({"seat"})),
    P("C19", ix \in {"EvictSeat", "ForceCancel"}),
    P("C20", was({"acct", "market", "signer", "log", "tag", "seat", "seataddr", "vaultaddr", "exists",
                  "readonly", "lamports", "recipient", "auth", "owner"})),
    P("C21", got({"ev", "hdr", "evidx"}) \/ (got({"refused"}) /\ Len(e.ev) >= 15)),
    P("C22", got({"oseq", "mseq", "ret"}) \/ (got({"hdr"}) /\ ~got({"refused"}))
             \/ (got({"book", "ev"}) /\ saw("Place"))),
    P("C23", tag({"silent", "skip"}) \/ (place /\ c.a.fs)
             \/ was({"overflow", "price", "size", "tokens", "funds", "pocross", "bookfull", "minfill",
                     "selfabort", "seats", "seqlimit", "zero", "lots", "tick", "locked"})
             \/ ("refused" \in d /\ ix \in MultiIx) \/ got({"failed"})),
    P("C24", ix \in MultiIx),
    P("C25", ix = "Init" \/ got({"config"})),
    P("C26", tag({"close"}) \/ (ix = "ChangeMarketStatus" /\ arg /\ c.a.st = "TO") \/ was({"market"})
             \/ (got({"account", "lam"}) /\ ix \notin {"Init"} \cup SeatIx)),
    P("C27", was({"decode"}) \/ (ix \in PlaceIx /\ Len(n.c.d) < 40)
             \/ (ix \in PlaceIx /\ got({"refused"}) /\ Partial(Tail(n.c.d)))),
    P("C29", tag({"full", "seats"}) \/ was({"seats", "bookfull", "sizes", "length"})
             \/ (ix = "Init" /\ got({"refused", "config"})) \/ IOEnv.MODE = "sizes"),
    P("C30", Has(n, "b")),
    P("C33", Has(n, "x") /\ n.x = "leave" /\ got(Leaving)),
    P("C34", Has(n, "x") /\ n.x = "wind" /\ got(Leaving)),
    P("C35", e.bys),
    P("C36", was({"decode", "tag"}) \/ (Has(n, "x") /\ n.x = "bytes" /\ d # {})),
    P("hang", "hang" \in d) }

\* whether something differs that belongs to nobody the call is about
Bystander(c, e, obs, names) ==
  LET mn == MarketName(c)
      us == {Signer(c), Subject(w, c)}
      both == mn \in DOMAIN obs /\ mn \in DOMAIN e.acc /\ IsMarket(obs[mn]) /\ IsMarket(e.acc[mn])
      a == e.acc[mn]
      b == obs[mn]
      theirs(q) == SelectSeq(q, LAMBDA o : o.tr \notin us)
      rows(m) == {<<x, m.tr[x]>> : x \in DOMAIN m.tr \ us}
  IN /\ HasAcc(c, 4) /\ mn \in DOMAIN w
     /\ \/ \E x \in names : x \in DOMAIN e.acc /\ x \in DOMAIN w /\ e.acc[x] # obs[x] /\ Foreign(w, c, x)
        \/ both /\ (rows(a) # rows(b) \/ theirs(a.bids) # theirs(b.bids) \/ theirs(a.asks) # theirs(b.asks))

JudgeCall(n) ==
  LET tagb == n.c.d # <<>>
      ix == IF tagb THEN Tags[n.c.d[1]] ELSE "?"
      c == [ix |-> ix, accs |-> n.c.accs, slot |-> n.c.slot, ts |-> n.c.ts,
            a |-> Decode(ix, Tail(n.c.d), NameOf)]
      e == Exec(w, c)
      obs == Upd(n)
      names == {c.accs[i].n : i \in 1..Len(c.accs)} \cup DOMAIN n.acc
      seq == IF ix # "Init" THEN w[MarketName(c)].mseq ELSE Z
      diff == IF n.res.err = "hang" THEN {"hang"}
              ELSE IF e.ok /\ ~n.res.ok THEN {"refused"}
              ELSE IF ~e.ok /\ n.res.ok THEN {"accepted"} \cup WorldDiff(names, e.acc, obs)
              ELSE IF ~e.ok THEN IF WorldDiff(names, w, obs) = {} THEN {} ELSE {"failed"}
              ELSE WorldDiff(names, e.acc, obs) \cup LogDiff(n, c, e, seq)
                   \cup (IF n.res.ret = e.ret THEN {} ELSE {"ret"})
      bd == IF ~Has(n, "b") THEN {}
            ELSE LET x == Built(n.b.f, n.b.in)
                 IN (IF x.ix = ix THEN {} ELSE {"b:instruction"})
                    \cup (IF x.a = c.a THEN {} ELSE {"b:arguments"})
                    \cup (IF x.accs = n.b.accs THEN {} ELSE {"b:accounts"})
                    \cup (IF n.b.prog = "phoenix" THEN {} ELSE {"b:program"})
      det(S) == "ix=" \o ix \o " expected=" \o (IF e.ok THEN "ok" ELSE e.why) \o " got="
             \o (IF n.res.ok THEN "ok" ELSE "failed " \o n.res.err) \o " tags=" \o Text(e.tags)
             \o (IF Verbose THEN " args=" \o ToString(c.a) \o " EXP "
                   \o ToString([x \in {y \in names : y \notin DOMAIN w \/ y \notin DOMAIN obs \/ e.acc[y] # obs[y]} |->
                                  <<IF x \in DOMAIN e.acc THEN e.acc[x] ELSE "none", obs[x]>>])
                   \o " EV " \o ToString(<<e.ev, n.res.log>>) \o " RET " \o ToString(<<e.ret, n.res.ret>>)
                   \o (IF Has(n, "b") THEN " BUILT " \o ToString(<<Built(n.b.f, n.b.in), n.b.accs>>) ELSE "")
                 ELSE "")
      \* the properties of a step, judged on what was observed alone
      readable == \A i \in 1..Len(n.res.log) : n.res.log[i].good
      step == IF n.res.err # "hang" /\ readable
              THEN Broken(w, c, [ok |-> n.res.ok, ev |-> Flat(n.res.log, "ev"), ret |-> n.res.ret], obs)
              ELSE {}
      sub == IF ix \in PlaceIx /\ OrderArgOk(c.a) THEN "." \o c.a.kind ELSE ""
  IN /\ PrintT("## " \o ix \o sub \o " " \o (IF n.res.ok THEN "ok" ELSE "no") \o " "
               \o (IF e.why = "" THEN "-" ELSE e.why) \o " " \o Text(e.tags))
     /\ Say(n.id, diff, Blame(n, c, [diff |-> diff, bys |-> diff # {} /\ Bystander(c, e, obs, names)] @@ e), det(diff))
     /\ Say(n.id, bd, {"C30"}, det(bd))
     /\ IF step = {} THEN TRUE ELSE Say(n.id, {"step"}, step, det(step))

-----------------------------------------------------------------------------
(* State properties, wherever an instruction changed the market or a vault*)
Clock(n) == IF n.k = "call" THEN [slot |-> n.c.slot, ts |-> n.c.ts] ELSE [slot |-> U64MAX, ts |-> U64MAX]
Touched(n, obs) ==
  {x \in MarketsOf(obs) : x \in DOMAIN n.acc \/ obs[x].bm.vault \in DOMAIN n.acc \/ obs[x].qm.vault \in DOMAIN n.acc}
Held(x, old, P(_)) == x \in MarketsOf(old) => P(old)
Newly(n, obs, Inv(_, _)) ==
  \E x \in Touched(n, obs) : ~Inv(obs, x) /\ (x \in MarketsOf(w) => Inv(w, x))
JudgeState(n, obs) ==
  LET ck == Clock(n)
      vaults(v, x) == InvVaults(v, x)
      locked(v, x) == InvLocked(v[x])
      book(v, x) == InvBook(v[x], ck.slot, ck.ts)
      issued(v, x) == InvIssued(v[x])
      config(v, x) == InvConfig(v, x)
      seats(v, x) == InvSeats(v[x])
      at == "state ix=" \o (IF n.k = "call" /\ n.c.d # <<>> THEN Tags[n.c.d[1]] ELSE n.k)
      show(x) == at \o (IF Verbose THEN " " \o ToString([y \in DOMAIN n.acc |-> n.acc[y]]) ELSE "")
      one(p, name, Inv(_, _)) == IF Newly(n, obs, Inv) THEN Say(n.id, {name}, {p}, show(0)) ELSE TRUE
  IN /\ one("C01", "inv:vaults", vaults)
     /\ one("C02", "inv:locked", locked)
     /\ one("C03", "inv:book", book)
     /\ one("C22", "inv:issued", issued)
     /\ one("C25", "inv:config", config)
     /\ one("C29", "inv:seats", seats)

-----------------------------------------------------------------------------
(* Probes of the client library                                           *)
JudgeProbe(n) ==
  CASE n.k = "ladder" ->
         LET m == w[n.m]
             slot == Opt(n.slot, Z)
             ts == Opt(n.ts, Z)
             b == Ladder(m.bids, n.levels, slot, ts)
             a == Ladder(m.asks, n.levels, slot, ts)
             bad == IF n.got = <<>> THEN {"ladder"}
                    ELSE LET g == n.got[1]
                         IN IF g.bids = b /\ g.asks = a /\ g.tbids = b /\ g.tasks = a THEN {} ELSE {"ladder"}
         IN IF ~IsMarket(m) THEN TRUE
            ELSE /\ PrintT("## ladder ok - -")
                 /\ Say(n.id, bad, {"C28"}, ToString(<<n.levels, slot, ts, b, a>>))
    [] n.k = "decode" ->
         LET x == DOrder(n.d)
         IN /\ PrintT("## decode " \o (IF "bad" \in DOMAIN x THEN "no" ELSE "ok") \o " - -")
            /\ Say(n.id, IF x = n.got THEN {} ELSE {"decode"}, {"C27"}, ToString(<<n.d, x, n.got>>))
    [] n.k = "create" ->
         LET x == Create(n.in)
             g == n.got
             \* system program: create account, 32-bit tag, lamports, length, owner
             bad == IF (x = <<>>) # (g = <<>>) THEN {"create"}
                    ELSE IF x = <<>> THEN {}
                    ELSE IF /\ g[1].prog = x[1].prog /\ g[1].accs = x[1].accs
                            /\ Len(g[1].d) = 52 /\ LE(g[1].d, 1, 4) = Z
                            /\ LE(g[1].d, 5, 8) = x[1].lam /\ LE(g[1].d, 13, 8) = x[1].len
                            /\ NameOf(LE(g[1].d, 21, 32)) = x[1].own
                         THEN {} ELSE {"create"}
         IN /\ PrintT("## create " \o (IF x = <<>> THEN "no" ELSE "ok") \o " - -")
            /\ Say(n.id, bad, {"C30", "C29"}, ToString(<<n.in, x, n.got>>))
    [] n.k = "builtn" -> Say(n.id, {"builtn"}, {"C30"}, n.f)
    [] n.k = "packet" ->
         LET x == Constructed(n.f, n.in)
         IN /\ PrintT("## packet ok " \o n.f \o " -")
            /\ Say(n.id, IF x = n.got THEN {} ELSE {"packet"}, {"C30"}, ToString(<<n.f, x, n.got>>))
    [] n.k = "size" ->
         LET want(v) == IF <<v.b, v.a, v.s>> \in Sizes THEN <<BodyLen(v.b, v.a, v.s)>> ELSE <<>>
             bad == {i \in 1..Len(n.v) : n.v[i].got # want(n.v[i])}
         IN /\ PrintT("## size ok - -")
            /\ Say(n.id, IF bad = {} THEN {} ELSE {"size"}, {"C29"}, ToString({n.v[i] : i \in bad}))
    [] n.k = "view" ->
         LET m == w[n.m]
             g == n.got[1]
             x == MarketView(m, [i \in 1..Len(g.px) |-> g.px[i][1]], n.slot, n.ts)
             bad == IF n.got = <<>> THEN {"unreadable"}
                    ELSE {f \in DOMAIN x : x[f] # g[f]} \cup (IF FEq(TradersView(m), g.tr) THEN {} ELSE {"tr"})
         IN IF ~IsMarket(m) THEN TRUE
            ELSE /\ PrintT("## view ok - -")
                 /\ Say(n.id, {"view:" \o f : f \in bad},
                        {"C31"} \cup (IF "unreadable" \in bad THEN {"C29"} ELSE {}), ToString(<<bad, m, n.got>>))
    [] n.k = "desc" ->
         LET p == n.in
             g == n.got[1]
             x == OrderView(p, n.np, n.slot, n.ts)
             bad == IF n.got = <<>> THEN {"refused"}
                    ELSE {f \in DOMAIN x : x[f] # g[f]} \cup (IF DOrder(g.d) = p THEN {} ELSE {"bytes"})
         IN /\ PrintT("## desc." \o p.kind \o " ok - -")
            /\ Say(n.id, {"desc:" \o f : f \in bad},
                   {"C31"} \cup (IF "bytes" \in bad THEN {"C27", "C30"} ELSE {}), ToString(<<bad, p, n.got>>))
    [] n.k = "small" ->
         LET o == n.o
             bad == (IF {<<n.steps[i][1], n.steps[i][2]>> : i \in 1..Len(n.steps)} = StatusSteps THEN {} ELSE {"transitions"})
                    \cup (IF n.st = StatusTexts /\ n.ss = SeatTexts THEN {} ELSE {"statuses"})
                    \cup (IF n.cmp = RankOf(n.a, n.b) /\ n.eq = (n.a = n.b) THEN {} ELSE {"rank"})
                    \cup (IF n.got = [sz |-> o.sz, lvs |-> Shown(o.lvs), lvt |-> Shown(o.lvt),
                                      exp |-> Expired(o, n.slot, n.ts), tr |-> N(3)] THEN {} ELSE {"order"})
         IN /\ PrintT("## small ok - -")
            /\ Say(n.id, {"small:" \o f : f \in bad}, {"C31"}, ToString(n))
    [] n.k = "mpacket" ->
         LET x == BatchOf(n.f, n.in)
             ok == DMulti(n.d) = x /\ n.foc = (x.beh \in {1, 3}) /\ n.skip = (x.beh \in {2, 3})
         IN /\ PrintT("## mpacket ok " \o n.f \o " -")
            /\ Say(n.id, IF ok THEN {} ELSE {"mpacket"}, {"C30", "C31"}, ToString(<<n.f, x, DMulti(n.d), n.foc, n.skip>>))
    [] n.k = "left" ->        \* after everybody was let out: who was to be paid was
         LET m == w[n.m]
             xs == {n.pay[i].x : i \in 1..Len(n.pay)}
             got(x) == LET f(e) == IF e.x = x THEN ((e.a ++ e.b) ** e.ls) ELSE Z
                           had == n.pay[CHOOSE i \in 1..Len(n.pay) : n.pay[i].x = x].had
                       IN (had ++ SumNums([i \in 1..Len(n.pay) |-> f(n.pay[i])]))
             bad == {"unpaid:" \o x : x \in {y \in xs : w[y].k # "tok" \/ w[y].amt # got(y)}}
                    \cup (IF n.gone THEN IF m.k = "market" THEN {"there"} ELSE {}
                          ELSE IF /\ m.k = "market" /\ n.t \in DOMAIN m.tr /\ m.tr[n.t] = ZeroState
                                  /\ n.t \notin OwnersOf(m.bids) \cup OwnersOf(m.asks)
                               THEN {} ELSE {"kept"})
         IN /\ PrintT("## left." \o (IF n.gone THEN "wind" ELSE "leave") \o " ok - -")
            /\ Say(n.id, bad, {IF n.gone THEN "C34" ELSE "C33"}, ToString(<<n.m, n.t, n.pay>>))
    [] n.k = "qty" ->
         LET bad == {i \in 1..Len(n.v) : n.v[i].got # Arith(n.v[i].f, n.v[i].x, n.v[i].y)}
         IN /\ PrintT("## qty ok - -")
            /\ Say(n.id, IF bad = {} THEN {} ELSE {"qty"}, {"C32"}, ToString({n.v[i] : i \in bad}))
    [] OTHER -> TRUE

-----------------------------------------------------------------------------
Judged(n, obs) ==
  /\ IF n.k = "call" THEN JudgeCall(n) ELSE JudgeProbe(n)
  /\ (n.k \in {"call", "jump"} /\ DOMAIN n.acc # {}) => JudgeState(n, obs)

\* observed markets that cannot be read or make no sense
Nonsense(n) ==
  {x \in DOMAIN n.acc : n.acc[x].k = "broken" \/ (IsMarket(n.acc[x]) /\ ~Sane(n.acc[x]))}
NonsenseProps(a) ==
  IF a.k = "broken" THEN {"C01", "C02", "C03", "C04", "C11", "C21", "C22", "C25", "C29"}
  ELSE (IF OrdersSane(a, "B") /\ OrdersSane(a, "A") THEN {} ELSE {"C02", "C03"})
       \cup (IF a.B # Z /\ a.T # Z /\ a.bls # Z /\ a.qls # Z THEN {} ELSE {"C25"})

Init == \E i \in 1..Len(Trace) :
          /\ Trace[i].par = 0
          /\ id = i /\ w = Trace[i].acc /\ pk = Trace[i].pk /\ good = TRUE

Next == \E j \in 1..Len(Trace[id].kids) :
  LET n == Trace[Trace[id].kids[j]]
      bad == Nonsense(n)
  IN /\ id' = n.id
     /\ w' = Upd(n)
     /\ pk' = pk
     /\ good' = (good /\ bad = {})
     /\ IF ~good THEN TRUE
        ELSE IF bad # {} /\ n.k = "poke" THEN TRUE
        ELSE IF bad # {}
        THEN /\ Say(n.id, {"nonsense"}, UNION {NonsenseProps(n.acc[x]) : x \in bad},
                    ToString([x \in bad |-> n.acc[x]]))
             /\ n.k = "call" => JudgeCall(n)
        ELSE Judged(n, Upd(n))

Spec == Init /\ [][Next]_vars
=============================================================================
