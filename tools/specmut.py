#!/usr/bin/env python3
"""Mutations of the specification itself: does its model checking notice?

The properties (Props, Leave, Steps) say what must hold without the operators
that say what happens (Engine, Phoenix). Each entry below plants one plausible
mistake in the latter and lets TLC explore small worlds; a mistake that no
property notices is one the program could share with the specification.

    tools/specmut.py [NAME...]      needs .build (run any check first)
"""
import concurrent.futures as cf
import os
import re
import shutil
import subprocess
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
JAVA = os.environ.get("OVERRIDES", "/verif/.build/java")
CP = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar:" + JAVA
WORK = "/tmp/specmut"
E, P = "Engine.tla", "Phoenix.tla"

# name: (property, worlds, file, old, new)
M = {
 "none": ("", "book take self", E, "", ""),
 "unlock-nothing": ("C02", "book cancel", E, "SetTr(y, t, [st EXCEPT !.bl = (@ -- n), !.bf = (@ ++ n)])", "SetTr(y, t, [st EXCEPT !.bf = (@ ++ n)])"),
 "fee-floor": ("C06", "take fees", E, "FeeLots(m, adj) == CeilDiv(FeeOn(m, adj), m.B)", "FeeLots(m, adj) == (FeeOn(m, adj) // m.B)"),
 "fee-one-more": ("C06", "take fees", E, "FeeLots(m, adj) == CeilDiv(FeeOn(m, adj), m.B)", "FeeLots(m, adj) == (One ++ (FeeOn(m, adj) // m.B))"),
 "fee-not-kept": ("C01", "take fees", E, "x7 == Log([x6 EXCEPT !.m.unc = (@ ++ fee),", "x7 == Log([x6 EXCEPT !.m.unc = @,"),
 "fee-on-all": ("C06", "take book", E, "fee == FeeLots(m, w.ma)", "fee == FeeLots(m, w.ma ++ One)"),
 "expired-at-limit": ("C10", "ttl", E, "\\/ (o.lvs # Z /\\ (o.lvs \\prec slot))", "\\/ (o.lvs # Z /\\ (o.lvs \\preceq slot))"),
 "never-expires-by-time": ("C10", "ttl", E, "\\/ (o.lvt # Z /\\ (o.lvt \\prec ts))", "\\/ FALSE"),
 "stale-order-placed": ("C10", "ttl", E, "ELSE IF PacketExpired(p0, slot, ts) THEN Nothing(Tag(x3, \"stale\"))", "ELSE IF FALSE THEN Nothing(x3)"),
 "tie-in-front": ("C03", "book", E, "LET n == Len(SelectSeq(b, LAMBDA r : ~Better(s, o.px, r.px)))\n  IN SubSeq(b, 1, n) \\o <<o>>", "LET n == Len(SelectSeq(b, LAMBDA r : Better(s, r.px, o.px)))\n  IN SubSeq(b, 1, n) \\o <<o>>"),
 "takes-beyond-limit": ("C04", "book take", E, "IN IF ~Reaches(tk.s, tk.lim, o.px) THEN w\n", "IN IF FALSE THEN w\n"),
 "stops-at-equal-price": ("C04", "book take", E, "Reaches(s, lim, px) == IF s = \"B\" THEN (px \\preceq lim) ELSE (lim \\preceq px)", "Reaches(s, lim, px) == IF s = \"B\" THEN (px \\prec lim) ELSE (lim \\prec px)"),
 "stops-after-one": ("C04", "book take", E, "!.ml = (@ -- One), !.done = ~full,", "!.ml = (@ -- One), !.done = TRUE,"),
 "self-fill": ("C09", "self", E, "ELSE IF o.tr = tk.t /\\ tk.stb = \"AB\"\n        THEN", "ELSE IF FALSE\n        THEN"),
 "self-cancel-half": ("C09", "self", E, "Tag(ReduceAt(x, os, 1, o.sz), \"self\")", "Tag(ReduceAt(x, os, 1, One), \"self\")"),
 "self-decrement-free": ("C09", "self", E, "IN Walk([w EXCEPT !.x = Need(y, AdjFits(m, o.px, n), \"overflow\"),\n                               !.base = SatSub(@, n),", "IN Walk([w EXCEPT !.x = Need(y, AdjFits(m, o.px, n), \"overflow\"),\n                               !.base = @,"),
 "maker-paid-taker-price": ("C13", "book take", E, "[mk EXCEPT !.bl = (@ -- n), !.qf = (@ ++ q)]", "[mk EXCEPT !.bl = (@ -- n), !.qf = (@ ++ q ++ One)]"),
 "maker-keeps-base": ("C01", "book take", E, "[mk EXCEPT !.ql = (@ -- q), !.bf = (@ ++ n)]", "[mk EXCEPT !.ql = (@ -- q), !.bf = @]"),
 "budget-ignores-fee": ("C05", "take", E, "LET d == IF s = \"B\" THEN (U64MAX ++ MaxFee(m))", "LET d == IF s = \"B\" THEN U64MAX"),
 "minimum-ignored": ("C05", "take", E, "THEN IF ~minOk THEN Nothing(Tag(Bad(x7, \"minfill\"), \"minfill\"))", "THEN IF FALSE THEN Nothing(Tag(Bad(x7, \"minfill\"), \"minfill\"))"),
 "ioc-rests": ("C05", "take book", E, "THEN IF ~minOk THEN Nothing(Tag(Bad(x7, \"minfill\"), \"minfill\"))\n             ELSE Settle(x7, t, p0, ins, Z, Z, out, <<>>)", "THEN IF ~minOk THEN Nothing(Tag(Bad(x7, \"minfill\"), \"minfill\"))\n             ELSE IF posts /\\ Registered(x7.m, t) /\\ p0.px # <<>> THEN Settle(po.x, t, p0, ins, po.posted, po.used, out, po.id) ELSE Settle(x7, t, p0, ins, Z, Z, out, <<>>)"),
 "match-limit-plus-one": ("C05", "take book", E, "ml |-> Opt(p0.ml, U64MAX)", "ml |-> IF p0.ml = <<>> THEN U64MAX ELSE (p0.ml[1] ++ One)"),
 "no-match-limit": ("C05", "take book", E, "ml |-> Opt(p0.ml, U64MAX)", "ml |-> U64MAX"),
 "post-only-crosses": ("C03", "batch book", E, "ELSE [x |-> x, cross |-> <<Head(b).px>>]", "ELSE [x |-> x, cross |-> <<>>]"),
 "amend-to-best": ("C03", "batch book", E, "IF s = \"B\" THEN (best -- One) ELSE (best ++ One)", "best"),
 "amend-wrong-way": ("C08", "batch book", E, "IF s = \"B\" THEN (best -- One) ELSE (best ++ One)", "IF s = \"B\" THEN (best -- One) ELSE (best ++ N(2))"),
 "reject-flag-ignored": ("C08", "batch book", E, "IN IF p0.rej THEN Bad(y, \"pocross\")", "IN IF FALSE THEN Bad(y, \"pocross\")"),
 "evict-locked-stays": ("C02", "cap", E, "ELSE Tag(Tag(Unlock(Log(y, EvEvict(o.tr, o.seq, o.px, o.sz)), o.tr, s, o.px, o.sz), \"evict\"), \"full\")", "ELSE Tag(Tag(Log(y, EvEvict(o.tr, o.seq, o.px, o.sz)), \"evict\"), \"full\")"),
 "evict-for-equal": ("C14", "cap", E, "IN IF ~Better(s, px, o.px) THEN Tag(Bad(x, \"bookfull\"), \"full\")", "IN IF Better(s, o.px, px) THEN Tag(Bad(x, \"bookfull\"), \"full\")"),
 "evict-best": ("C14", "cap", E, "o == b[Len(b)]\n      y == [x EXCEPT !.m = SetSide(@, s, SubSeq(b, 1, Len(b) - 1))]", "o == b[1]\n      y == [x EXCEPT !.m = SetSide(@, s, Tail(b))]"),
 "full-book-grows": ("C03", "cap", E, "x1 == IF Full(x0.m, s) THEN EvictFor(x0, s, px) ELSE x0", "x1 == x0"),
 "number-reused": ("C22", "book", E, "!.tr = [@ EXCEPT ![t] = st2], !.oseq = (@ ++ One)]]", "!.tr = [@ EXCEPT ![t] = st2], !.oseq = @]]"),
 "bid-number-plain": ("C03", "book", E, "SeqFor(s, n) == IF s = \"B\" THEN (U64MAX -- n) ELSE n", "SeqFor(s, n) == n"),
 "lock-partial": ("C02", "book", E, "[st EXCEPT !.bf = (@ -- free), !.bl = (@ ++ lock)]", "[st EXCEPT !.bf = (@ -- free), !.bl = (@ ++ lock -- One)]"),
 "free-funds-twice": ("C01", "funds", E, "st1 == IF s = \"B\" THEN [st EXCEPT !.qf = (@ -- f)] ELSE [st EXCEPT !.bf = (@ -- f)]", "st1 == st"),
 "tif-forgotten": ("C10", "ttl", E, "o == [px |-> px, seq |-> seq, tr |-> t, sz |-> n, lvs |-> lvs, lvt |-> lvt]\n      lock", "o == [px |-> px, seq |-> seq, tr |-> t, sz |-> n, lvs |-> lvs, lvt |-> Z]\n      lock"),
 "cancels-others": ("C11", "cancel", E, "IN IF i = 0 \\/ o.tr # t THEN CancelIds(x, t, Tail(ids), rel)", "IN IF i = 0 THEN CancelIds(x, t, Tail(ids), rel)"),
 "cancel-all-one-side": ("C11", "cancel", P, "LET Ids(m) == IdsOf(Own(m, \"B\", Signer(c)), \"B\") \\o IdsOf(Own(m, \"A\", Signer(c)), \"A\")", "LET Ids(m) == IdsOf(Own(m, \"B\", Signer(c)), \"B\")"),
 "up-to-the-wrong-way": ("C11", "cancel", E, "(IF a.side = \"B\" THEN (a.tl[1] \\preceq o.px) ELSE (o.px \\preceq a.tl[1]))", "(IF a.side = \"B\" THEN (o.px \\preceq a.tl[1]) ELSE (a.tl[1] \\preceq o.px))"),
 "up-to-uncounted": ("C11", "cancel", E, "IN IdsOf(First(lim, a.nc), a.side)", "IN IdsOf(lim, a.side)"),
 "up-to-unsearched": ("C11", "cancel", E, "LET seen == First(Side(m, a.side), a.ns)", "LET seen == Side(m, a.side)"),
 "by-id-wrong-side-cancels": ("C11", "cancel", P, "LET good == SelectSeq(c.a.ids, LAMBDA d : d.side = SideOfSeq(d.seq))", "LET good == [i \\in 1..Len(c.a.ids) |-> [c.a.ids[i] EXCEPT !.side = SideOfSeq(c.a.ids[i].seq)]]"),
 "reduce-others": ("C11", "cancel", P, "ELSE IF o.tr # t THEN Refuse(w, \"owner\", {\"owner\"})", "ELSE IF FALSE THEN Refuse(w, \"owner\", {\"owner\"})"),
 "reduce-pays-request": ("C01", "cancel", P, "n == Min(a.sz, o.sz)\n            x == Tag(ReduceAt", "n == a.sz\n            x == Tag(ReduceAt"),
 "claim-keeps": ("C01", "funds", E, "IN [x |-> SetTr(x, t, [st EXCEPT !.qf = (@ -- qq), !.bf = (@ -- bb)]),", "IN [x |-> SetTr(x, t, [st EXCEPT !.qf = (@ -- qq)]),"),
 "cancel-pays-all-free": ("C11", "cancel funds", E, "IN [x |-> SetTr(x, t, [st EXCEPT !.qf = (@ -- qq), !.bf = (@ -- bb)]),\n      rel |-> [q |-> qq, b |-> bb]]", "IN [x |-> SetTr(x, t, [st EXCEPT !.qf = Z, !.bf = Z]),\n      rel |-> [q |-> st.qf, b |-> st.bf]]"),
 "withdraw-half": ("C33", "funds", P, "[q |-> Opt(c.a.q, st.qf), b |-> Opt(c.a.b, st.bf)], 5)", "[q |-> Opt(c.a.q, (st.qf // N(2))), b |-> Opt(c.a.b, st.bf)], 5)"),
 "withdraw-when-asked": ("C33", "funds", P, "[q |-> Opt(c.a.q, st.qf), b |-> Opt(c.a.b, st.bf)], 5)", "[q |-> Opt(c.a.q, Z), b |-> Opt(c.a.b, Z)], 5)"),
 "deposit-unpulled": ("C01", "funds", P, "PullIn([x |-> x3, w |-> w], c, 6, m, a.q, a.b), <<>>)", "PullIn([x |-> x3, w |-> w], c, 6, m, a.q, Z), <<>>)"),
 "trade-while-post-only": ("C16", "status", P, "x1 == IF r.x.ok /\\ r.trade /\\ ~CrossAllowed(m.st)", "x1 == IF FALSE"),
 "batch-while-paused": ("C16", "status", P, "IN IF ~PostAllowed(m.st) THEN Refuse(w, \"status\", {\"status\"})\n     ELSE IF ~SeatRecOk(w, c, 5, MarketName(c), t) THEN Refuse(w, \"seat\", {\"seat\"})\n     ELSE IF w[Nm(c, 5)].st # \"AP\" THEN Refuse(w, \"seatstatus\", {\"seat\"})\n     ELSE IF iv # 0", "IN IF FALSE THEN Refuse(w, \"status\", {\"status\"})\n     ELSE IF ~SeatRecOk(w, c, 5, MarketName(c), t) THEN Refuse(w, \"seat\", {\"seat\"})\n     ELSE IF w[Nm(c, 5)].st # \"AP\" THEN Refuse(w, \"seatstatus\", {\"seat\"})\n     ELSE IF iv # 0"),
 "reduce-only-when-open": ("C33", "status", P, "IN IF ~ff /\\ ~ReduceAllowed(m.st) THEN", "IN IF ~ff /\\ ~PostAllowed(m.st) THEN"),
 "place-unapproved": ("C17", "seat", P, "ELSE IF w[Nm(c, 5)].st # \"AP\" THEN Refuse(w, \"seatstatus\", {\"seat\"})\n     ELSE IF iv # 0 /\\ ~VaultsOk(w, c, iv, m, t) THEN Refuse(w, \"acct\", {})\n     ELSE IF ~OrderArgOk(c.a)", "ELSE IF iv # 0 /\\ ~VaultsOk(w, c, iv, m, t) THEN Refuse(w, \"acct\", {})\n     ELSE IF ~OrderArgOk(c.a)"),
 "deposit-unapproved": ("C17", "seat", P, "ELSE IF w[Nm(c, 5)].st # \"AP\" THEN Refuse(w, \"seatstatus\", {\"seat\"})\n     ELSE IF ~VaultsOk(w, c, 6, m, t)", "ELSE IF ~VaultsOk(w, c, 6, m, t)"),
 "seat-of-another": ("C20", "seat forge", P, ("/\\ r.market = mn /\\ r.trader = t\n", "/\\ Nm(c, i) = SeatAddr(mn, t)\n"), ("/\\ r.market = mn\n", "\n")),
 "pays-anyone": ("C20", "forge seat", P, "/\\ TokOk(w, c, i, m.bm.mint, owner)\n", "/\\ w[Nm(c, i)].k = \"tok\"\n"),
 "evict-approved": ("C19", "seat close", P, "ELSE IF w[Nm(c, 6)].st = \"AP\" THEN Refuse(w, \"seatstatus\", {\"seat\"})", "ELSE IF FALSE THEN Refuse(w, \"seatstatus\", {\"seat\"})"),
 "evict-with-orders": ("C19", "seat close", P, "ELSE IF st.ql # Z \\/ st.bl # Z THEN Refuse(w, \"locked\", {\"locked\"})", "ELSE IF st.ql # Z THEN Refuse(w, \"locked\", {\"locked\"})"),
 "evict-unpaid": ("C01", "seat close", P, "[q |-> st.qf, b |-> st.bf]), <<>>)", "[q |-> st.qf, b |-> Z]), <<>>)"),
 "forced-by-anyone": ("C19", "gov", P, "IN IF m.auth # Signer(c) THEN Refuse(w, \"auth\", {\"auth\"})\n     ELSE IF ~HasAcc(c, 5) THEN Refuse(w, \"acct\", {})\n     ELSE IF ~SeatRecOk", "IN IF ~HasAcc(c, 5) THEN Refuse(w, \"acct\", {})\n     ELSE IF ~SeatRecOk"),
 "successor-by-anyone": ("C15", "gov", P, "IN IF m.auth # Signer(c) THEN Refuse(w, \"auth\", {\"auth\"})\n     ELSE IF ~OrderArgOk(c.a) THEN Refuse(w, \"decode\", {})\n     ELSE Done(w, c, Start([m EXCEPT !.succ", "IN IF ~OrderArgOk(c.a) THEN Refuse(w, \"decode\", {})\n     ELSE Done(w, c, Start([m EXCEPT !.succ"),
 "claim-by-anyone": ("C15", "gov", P, "IN IF m.succ # Signer(c) THEN Refuse(w, \"auth\", {\"auth\"})", "IN IF FALSE THEN Refuse(w, \"auth\", {\"auth\"})"),
 "claim-by-name": ("C15", "gov", P, "Start([m EXCEPT !.succ = c.a.succ])", "Start([m EXCEPT !.succ = c.a.succ, !.auth = c.a.succ])"),
 "status-by-successor": ("C15", "gov status", P, "IN IF m.auth # Signer(c) THEN Refuse(w, \"auth\", {\"auth\"})\n     ELSE IF ~OrderArgOk(c.a) THEN Refuse(w, \"decode\", {})\n     ELSE IF <<m.st, nx>>", "IN IF Signer(c) \\notin {m.auth, m.succ} THEN Refuse(w, \"auth\", {\"auth\"})\n     ELSE IF ~OrderArgOk(c.a) THEN Refuse(w, \"decode\", {})\n     ELSE IF <<m.st, nx>>"),
 "any-transition": ("C16", "status", P, "ELSE IF <<m.st, nx>> \\notin StatusSteps THEN Refuse(w, \"transition\", {})", "ELSE IF m.st = nx THEN Refuse(w, \"transition\", {})"),
 "close-with-traders": ("C26", "close", P, "ELSE IF DOMAIN m.tr # {} THEN Refuse(w, \"traders\", {\"close\"})", "ELSE IF FALSE THEN Refuse(w, \"traders\", {\"close\"})"),
 "close-with-fees": ("C26", "close", P, "ELSE IF m.unc # Z THEN Refuse(w, \"fees\", {\"close\"})", "ELSE IF FALSE THEN Refuse(w, \"fees\", {\"close\"})"),
 "seat-approved-at-once": ("C18", "seat", P, "trader |-> t, st |-> \"NA\"]", "trader |-> t, st |-> \"AP\"]"),
 "any-seat-step": ("C18", "seat", P, "ELSE IF ~same /\\ <<seat.st, nx>> \\notin SeatSteps THEN", "ELSE IF FALSE THEN"),
 "seat-status-by-anyone": ("C15", "gov", P, "IN IF m.auth # Signer(c) THEN Refuse(w, \"auth\", {\"auth\"})\n     ELSE IF ~HasAcc(c, 5) THEN Refuse(w, \"acct\", {})\n     ELSE IF seat.k", "IN IF ~HasAcc(c, 5) THEN Refuse(w, \"acct\", {})\n     ELSE IF seat.k"),
 "too-many-traders": ("C29", "seat cap", P, "ELSE IF SeatsFull(m) THEN Tag(Bad(Start(m), \"seats\"), \"seats\")", "ELSE IF FALSE THEN Tag(Bad(Start(m), \"seats\"), \"seats\")"),
 "fees-collected-twice": ("C07", "fees", P, "!.m.col = (@ ++ m.unc), !.m.unc = Z]", "!.m.col = (@ ++ m.unc)]"),
 "fees-to-anyone": ("C07", "fees", P, "TokOk(w, c, 5, m.qm.mint, m.fr)", "w[Nm(c, 5)].k = \"tok\" /\\ w[Nm(c, 5)].mint = m.qm.mint"),
 "recipient-unasked": ("C07", "fees", P, "ELSE IF m.unc # Z /\\ ~(HasAcc(c, 6)", "ELSE IF FALSE /\\ ~(HasAcc(c, 6)"),
 "merge-across-limits": ("C24", "batch", P, "SameKey(o, r) == o.px = r.px /\\ o.lvs = r.lvs /\\ o.lvt = r.lvt", "SameKey(o, r) == o.px = r.px"),
 "merge-forgets-size": ("C24", "batch", P, "THEN Mg([acc EXCEPT ![Len(acc)].sz = (@ ++ o.sz)], Tail(rest))", "THEN Mg(acc, Tail(rest))"),
 "crossed-lists": ("C24", "batch", P, "ELSE IF (Best(a.asks, \"A\", U64MAX) \\preceq Best(a.bids, \"B\", Z)) THEN", "ELSE IF (Best(a.asks, \"A\", U64MAX) \\prec Best(a.bids, \"B\", Z)) THEN"),
 "batch-unsorted": ("C24", "batch", P, "bs == Merge(SortBy(a.bids, \"B\"))", "bs == Merge(a.bids)"),
 "batch-owes-last": ("C01", "batch", P, "!.q = IF s = \"B\" THEN (@ ++ r.dep) ELSE @,", "!.q = IF s = \"B\" THEN r.dep ELSE @,"),
 "silent-drops-all": ("C24", "silent batch", P, "THEN PlaceAll([z EXCEPT !.x = Tag(@, \"skip\")], t, Tail(os), s, a, ff, c)", "THEN z"),
 "silent-when-enough": ("C23", "silent", P, "short == IF p.side = \"A\" THEN (ab \\prec p.bl)\n", "short == IF p.side = \"A\" THEN (ab \\preceq p.bl)\n"),
 "silent-anyway": ("C23", "silent", P, "ELSE IF p.fs /\\ short THEN", "ELSE IF p.fs THEN"),
 "fail-keeps-state": ("C23", "book", P, "IN IF ~x.ok THEN Refuse(w, x.why, x.tags)\n", "IN IF ~x.ok THEN [Refuse(w, x.why, x.tags) EXCEPT !.acc = w1]\n"),
 "log-uncounted": ("C22", "book", P, "Commit(w, c, y.x, [y.w EXCEPT ![MarketName(c)] = Bump(y.x.m)], ret)", "Commit(w, c, y.x, [y.w EXCEPT ![MarketName(c)] = y.x.m], ret)"),
 "init-shared-mint": ("C25", "init", P, "qv # VaultAddr(mn, Nm(c, 6)) \\/ bv = qv", "qv # VaultAddr(mn, Nm(c, 6))"),
 "init-any-fee": ("C25", "init", P, "ELSE IF ~(a.fee \\preceq BPS) THEN Refuse(w, \"feerate\", {\"init\"})", "ELSE IF FALSE THEN Refuse(w, \"feerate\", {\"init\"})"),
 "init-any-tick": ("C25", "init", P, "ELSE IF (a.tick %% a.nb) # Z THEN", "ELSE IF FALSE THEN"),
 "init-any-lots": ("C25", "init", P, "ELSE IF (unit %% a.nb) # Z \\/ (qunit %% a.nq) # Z THEN", "ELSE IF (unit %% a.nb) # Z THEN"),
 "init-active": ("C25", "init", P, "len |-> r.len, st |-> \"PO\",", "len |-> r.len, st |-> \"AC\","),
 "malformed-accepted": ("C36", "bytes wire", P, "Reducing(w, c, ff, Body(_)) ==\n  LET m == w[MarketName(c)]\n  IN IF ~ff /\\ ~ReduceAllowed(m.st) THEN Refuse(w, \"status\", {\"status\"})\n     ELSE IF ~ff /\\ ~VaultsOk(w, c, 5, m, Signer(c)) THEN Refuse(w, \"acct\", {})\n     ELSE IF ~OrderArgOk(c.a) THEN Refuse(w, \"decode\", {})", "Reducing(w, c, ff, Body(_)) ==\n  LET m == w[MarketName(c)]\n  IN IF ~ff /\\ ~ReduceAllowed(m.st) THEN Refuse(w, \"status\", {\"status\"})\n     ELSE IF ~ff /\\ ~VaultsOk(w, c, 5, m, Signer(c)) THEN Refuse(w, \"acct\", {})\n     ELSE IF ~OrderArgOk(c.a) THEN Done(w, c, Start(m), <<>>)"),
}


def run(name, theme, v):
    prop, _, f, old, new = M[name]
    d = f"{WORK}/{name}-{theme}-{v}"
    shutil.rmtree(d, ignore_errors=True)
    shutil.copytree(f"{HERE}/spec", d)
    text = open(f"{d}/{f}").read()
    for o, n in zip(old, new) if isinstance(old, tuple) else [(old, new)] if old else []:
        if text.count(o) != 1:
            return f"the edit fits {text.count(o)} places"
        text = text.replace(o, n)
    open(f"{d}/{f}", "w").write(text)
    world = f"{WORK}/{theme}-{v}.json"
    env = dict(os.environ, TRACE=world, BUDGET=os.environ.get("BUDGET", "2500"), LEAVE=str(int(prop in ("C33", "C34"))))
    with open(d + ".out", "w") as o:
        try:
            subprocess.run(["java", "-Xss512m", "-Xmx3000m", "-XX:+UseSerialGC", "-cp", CP,
                            "-Dtlc2.overrides.TLCOverrides=tlc2.overrides.TLCOverrides:NumOverrides", "tlc2.TLC", "-workers", "1",
                            "-nowarning", "-noGenerateSpecTE", "-metadir", d + ".meta", "-config", "MC.cfg", "MC.tla"],
                           cwd=d, env=env, stdout=o, stderr=subprocess.STDOUT, timeout=600)
        except subprocess.TimeoutExpired:
            pass
    shutil.rmtree(d, ignore_errors=True)
    shutil.rmtree(d + ".meta", ignore_errors=True)
    out = open(d + ".out", errors="replace").read()
    os.remove(d + ".out")
    ids = set(re.findall(r'"(C\d\d)"', " ".join(re.findall(r'<< ?"!!",[^>]*>>', out.replace("\n", " ")))))
    inv = set(re.findall(r"Invariant (\w+) is violated", out))
    err = [] if ids or inv or "No error has been found" in out else [l for l in out.split("\n") if "rror" in l][:1] or ["no verdict"]
    return " ".join(sorted(ids | inv) + err)[:160]


def main():
    sys.stdout.reconfigure(line_buffering=True)
    names = sys.argv[1:] or list(M)
    os.makedirs(WORK, exist_ok=True)
    exe = os.environ.get("PHX", "/verif/.build/target/debug/phx")
    jobs = []
    vs = [int(x) for x in os.environ.get("VARIANTS", "0 1 2").split()]
    for n in names:
        for th in M[n][1].split():
            for v in vs:
                w = f"{WORK}/{th}-{v}.json"
                if not os.path.exists(w):
                    subprocess.run([exe, "model", th, str(v), "0", "0", w], check=True, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
                jobs.append((n, th, v))
    got = {n: [] for n in names}
    with cf.ThreadPoolExecutor(int(os.environ.get("JOBS", "7"))) as ex:
        fut = {ex.submit(run, *j): j for j in jobs}
        for f in cf.as_completed(fut):
            n, th, v = fut[f]
            got[n].append((th, v, f.result()))
    survived = 0
    for n in names:
        hits = sorted({h for _, _, r in got[n] for h in r.split()} ) if all(" " not in r or r for _, _, r in got[n]) else []
        caught = any(r for _, _, r in got[n])
        bad = n == "none"
        if not caught and not bad:
            survived += 1
        print(f"{'ok' if caught != bad else 'SURVIVES' if not bad else 'ALARM'}\t{n}\t{M[n][0]}\t{' '.join(hits)}")
    print(f"{len(names)} mutations, {survived} unnoticed")
    shutil.rmtree(WORK, ignore_errors=True)


if __name__ == "__main__":
    main()
