------------------------------ MODULE T_Peers -------------------------------
EXTENDS Replay, Peers
TStart(t) == {Fresh}
Set(q) == {q[i] : i \in DOMAIN q}
\* what can be seen of a state
Shows(st, e) ==
  /\ Set(e.reg) = {[p |-> p, sid |-> st.reg[p].sid, a |-> st.reg[p].a, out |-> st.reg[p].out] : p \in Registered(st)}
  /\ Len(e.reg) = Cardinality(Registered(st)) /\ e.count = Len(e.reg) /\ e.kept = Len(e.reg)
  /\ Set(e.banned) = {a \in Addrs : Banned(st, a)}
  /\ Set(e.known) = {st.known[s] : s \in {t \in Socks : st.known[t].a # 0}}
  /\ Len(e.known) = Cardinality({t \in Socks : st.known[t].a # 0}) /\ e.size = Len(e.known)
\* the sessions ended, the addresses dialled and the messages sent
Did(e, off, dial, sent) == Set(e.off) = off /\ Set(e.dial) = dial /\ Len(e.dial) = Cardinality(dial) /\ Set(e.sent) = sent /\ Len(e.sent) = Cardinality(sent)
Quiet(e) == Did(e, {}, {}, {})
To(e, Q) == {t \in Q : Shows(t, e)}
\* the addresses that were tried once more than in s
Tried(s, e) == {x \in Socks : \E k \in Set(e.known) : SockOf[k.a] = x /\ k.n > s.known[x].n}
Rounds(s, e, plus) ==
  LET s1 == AfterCons(s) IN
  {Round(s, Tried(s1, e) \cap CanDial(s1), Tried(s1, e) \cap CanTry(AfterPeers(s1, Tried(s1, e) \cap CanDial(s1))), x) :
     x \in {y \in OwnChoice(s) :
       LET SA == Tried(s1, e) \cap CanDial(s1)
           SF == Tried(s1, e) \cap CanTry(AfterPeers(s1, SA))
           t == Round(s, SA, SF, y)
       IN RoundOk(s, SA, SF) /\ Did(e, {}, ((t.dialing \ s.dialing) \cup (t.feel \ s.feel)) \cup plus, {})}}
TSteps(s, e) ==
  CASE e.op = "open" -> IF Did(e, IF Refused(s, e.a, e.out) THEN {s.sids + 1} ELSE {}, {}, {}) THEN To(e, {Opened(s, e.a, e.out)}) ELSE {}
    [] e.op = "close" -> IF Quiet(e) THEN To(e, {Closed(s, e.sid)}) ELSE {}
    [] e.op = "broke" -> IF Did(e, {e.sid}, {}, {}) THEN To(e, Broke(s, e.sid)) ELSE {}
    [] e.op = "ban" -> IF Did(e, IF On(s, e.p) THEN {s.reg[e.p].sid} ELSE {}, {}, {}) THEN To(e, BanPeer(s, e.p, e.d)) ELSE {}
    [] e.op = "cons" -> IF Quiet(e) THEN To(e, {[s EXCEPT !.cons = CASE e.h = "tag" -> @ \cup {e.p} [] e.h = "untag" -> @ \ {e.p} [] OTHER -> {e.p, e.q}]}) ELSE {}
    [] e.op = "fail" -> IF Quiet(e) THEN To(e, {Failed(s, e.a, e.h = "self")}) ELSE {}
    [] e.op = "felt" -> IF Did(e, {e.sid}, {}, {}) THEN To(e, {Felt(s, e.sid)}) ELSE {}
    [] e.op = "hear" -> IF Quiet(e) THEN To(e, {Heard(s, e.a)}) ELSE {}
    [] e.op = "wait" -> IF Quiet(e) THEN To(e, {[s EXCEPT !.now = @ + e.d]}) ELSE {}
    [] e.op = "round" -> To(e, Rounds([s EXCEPT !.now = @ + 10], e, {}))
    [] e.op = "start" -> To(e, Rounds(Restarted(s), e, {6}))
    [] e.op = "query" ->
         LET got == {SockOf[a] : a \in Set(e.res)}
             fine == /\ Set(e.res) = AddrOf(s, got) /\ Len(e.res) = Cardinality(Set(e.res))
                     /\ CASE e.h = "attempt" -> Picked(s, got, CanDial(s), e.n)
                          [] e.h = "feel" -> Picked(s, got, CanTry(s), e.n)
                          [] e.h = "tell" -> Picked(s, got, CanTell(s), e.n)
                          [] OTHER -> got = ByPeer(s, PeerOf[e.a])
         IN IF fine /\ Quiet(e) THEN To(e, {s}) ELSE {}
    [] e.op = "cast" -> LET P == {e.p, e.q} IN
         IF Did(e, {}, AddrOf(s, NamedSocks(s, P)), {s.reg[p].sid : p \in P \cap Registered(s)}) THEN To(e, {Cast(s, P)}) ELSE {}
    [] e.op = "fill" -> IF e.ok THEN {s} ELSE {}
    [] OTHER -> {}
TExpect(s, e) == [reg |-> {<<p, s.reg[p]>> : p \in Registered(s)}, known |-> {s.known[x] : x \in {t \in Socks : s.known[t].a # 0}}, now |-> s.now,
                  ban |-> s.ban, dialing |-> s.dialing, feel |-> s.feel, cons |-> s.cons, tries |-> s.tries]
=============================================================================
