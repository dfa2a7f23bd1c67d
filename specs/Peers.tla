------------------------------- MODULE Peers --------------------------------
(***************************************************************************)
(* What a node keeps about its peers: the sessions it has accepted, the     *)
(* addresses it knows, those it is dialling, and the bans.                  *)
(*                                                                         *)
(* There are eight addresses of seven peers.  Addresses 1 and 2 share an IP *)
(* address, 3 and 4 (of different peers) share IP and port, 1 and 5 are of  *)
(* the same peer, 6 is that of the bootstrap node and 7 is an IPv6 address. *)
(* Times are in seconds.                                                    *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets

Addrs == 1..8
Peers == 1..7
PeerOf == <<1, 2, 3, 4, 1, 5, 6, 7>>
IpOf == <<1, 1, 3, 3, 5, 6, 7, 8>>
SockOf == <<1, 2, 3, 3, 5, 6, 7, 8>>
Ips == {1, 3, 5, 6, 7, 8}
Socks == {1, 2, 3, 5, 6, 7, 8}
Boot == 5
MaxAll == 4
MaxIn == 2
MaxOut == MaxAll - MaxIn

Day == 86400
Begin == 1000000
None == [a |-> 0, lc |-> 0, lt |-> 0, n |-> 0]
Nobody == [sid |-> 0, a |-> 0, out |-> FALSE]
Fresh == [now |-> Begin, reg |-> [p \in Peers |-> Nobody], open |-> {}, ban |-> [i \in Ips |-> 0],
          known |-> [s \in Socks |-> None], dialing |-> {}, feel |-> {}, cons |-> {}, self |-> {}, tries |-> 0, sids |-> 0]

On(st, p) == st.reg[p].sid # 0
Registered(st) == {p \in Peers : On(st, p)}
Trusted(st, p) == p = Boot \/ p \in st.cons
Banned(st, a) == st.ban[IpOf[a]] > st.now
Full(st, out) == \/ Cardinality(Registered(st)) >= MaxAll
                 \/ Cardinality({p \in Registered(st) : st.reg[p].out = out}) >= (IF out THEN MaxOut ELSE MaxIn)
Session(st, sid) == CHOOSE x \in st.open : x.sid = sid

\* ---- the known addresses
Add(st, a, lc) == IF st.known[SockOf[a]].a # 0 /\ lc <= st.known[SockOf[a]].lc THEN st
                  ELSE [st EXCEPT !.known[SockOf[a]] = [a |-> a, lc |-> lc, lt |-> 0, n |-> 0]]
Forget(st, a) == [st EXCEPT !.known[SockOf[a]] = None]
Mark(st, S) == [st EXCEPT !.known = [s \in Socks |-> IF s \in S THEN [@[s] EXCEPT !.lt = st.now, !.n = @ + 1] ELSE @[s]]]
Recent(st, k) == k.lt >= st.now - 60
Usable(st, k) == /\ k.a # 0
                 /\ \/ Recent(st, k)
                    \/ ~(k.lc = 0 /\ k.n >= 3) /\ ~(st.now - k.lc > 7 * Day /\ k.n >= 10)
Is(st, s) == st.known[s]
\* which may be dialled, tried out, or told to others
CanDial(st) == {s \in Socks : Usable(st, Is(st, s)) /\ ~On(st, PeerOf[Is(st, s).a]) /\ Is(st, s).lc > st.now - 3 * Day /\ Is(st, s).lc <= st.now - 15}
CanTry(st) == {s \in Socks : Usable(st, Is(st, s)) /\ ~On(st, PeerOf[Is(st, s).a]) /\ ~Recent(st, Is(st, s)) /\ Is(st, s).lc <= st.now - 3 * Day}
CanTell(st) == {s \in Socks : Usable(st, Is(st, s)) /\ (On(st, PeerOf[Is(st, s).a]) \/ Is(st, s).lc > st.now - 7 * Day)}
ByPeer(st, p) == {s \in Socks : Usable(st, Is(st, s)) /\ PeerOf[Is(st, s).a] = p /\ Is(st, s).lc > st.now - 3 * Day /\ Is(st, s).lc <= st.now - 15}
\* a choice of at most k of them, of different IPs; an IP all of whose known addresses are eligible is not left out
Ip(st, s) == IpOf[Is(st, s).a]
Picked(st, sel, elig, k) ==
  /\ sel \subseteq elig /\ Cardinality(sel) <= k
  /\ \A x, y \in sel : x # y => Ip(st, x) # Ip(st, y)
  /\ Cardinality(sel) < k => \A s \in elig : (\A t \in Socks : (Is(st, t).a # 0 /\ Ip(st, t) = Ip(st, s)) => t \in elig) => \E x \in sel : Ip(st, x) = Ip(st, s)
AddrOf(st, S) == {Is(st, s).a : s \in S}

\* ---- sessions
Refused(st, a, out) == a \notin st.feel /\ ~Trusted(st, PeerOf[a]) /\ (Banned(st, a) \/ Full(st, out))
Opened(st, a, out) ==
  LET sid == st.sids + 1
      st1 == [st EXCEPT !.sids = sid, !.dialing = @ \ {a}, !.open = @ \cup {[sid |-> sid, a |-> a, out |-> out]}]
  IN IF a \in st.feel \/ Refused(st, a, out) THEN st1 ELSE [st1 EXCEPT !.reg[PeerOf[a]] = [sid |-> sid, a |-> a, out |-> out]]
Closed(st, sid) == LET x == Session(st, sid) IN
  [st EXCEPT !.open = @ \ {x}, !.feel = @ \ {x.a}, !.reg[PeerOf[x.a]] = Nobody]
\* bans that follow one another: the end of the last, or the later of the two
Ban(st, a, d) == {[Forget(st, a) EXCEPT !.ban[IpOf[a]] = u] : u \in {st.now + d, IF st.ban[IpOf[a]] > st.now + d THEN st.ban[IpOf[a]] ELSE st.now + d}}
\* a session that breaks a protocol
Broke(st, sid) == LET R == {p \in Peers : st.reg[p].sid = sid} IN
  IF R = {} THEN {st} ELSE Ban(st, st.reg[CHOOSE p \in R : TRUE].a, 300)
BanPeer(st, p, d) == IF On(st, p) THEN Ban(st, st.reg[p].a, d) ELSE {st}
Failed(st, a, self) == [st EXCEPT !.feel = @ \ {a}, !.dialing = @ \ {a}, !.self = IF self THEN @ \cup {a} ELSE @]
\* an outbound session on which the feeler protocol opens: its address works
Felt(st, sid) == LET x == Session(st, sid) IN IF x.out /\ ~Banned(st, x.a) THEN Add(st, x.a, st.now) ELSE st
Heard(st, a) == IF Banned(st, a) THEN st ELSE Add(st, a, 0)

\* ---- dialling
\* dial addresses S for use, or to try them out; what is dialled is D(..)
ToDial(st, S) == {a \in S : ~On(st, PeerOf[a]) /\ a \notin st.feel /\ a \notin st.dialing}
Dial(st, S) == [st EXCEPT !.dialing = @ \cup ToDial(st, S)]
Feel(st, S) == [st EXCEPT !.feel = @ \cup ToDial(st, S)]
Room(st) == LET n == Cardinality({p \in Registered(st) : st.reg[p].out}) IN IF n >= MaxOut THEN 0 ELSE MaxOut - n
ConsSocks(st) == UNION {ByPeer(st, p) : p \in st.cons \ Registered(st)}
AfterCons(st) == Dial(Mark(st, ConsSocks(st)), AddrOf(st, ConsSocks(st)))
BootToo(st) == Room(st) > 0 /\ st.tries = 3 /\ ~On(st, Boot)
Number(st) == IF BootToo(st) THEN Room(st) - 1 ELSE Room(st)
AfterPeers(st, S) ==
  LET st1 == Dial(Mark(st, S), AddrOf(st, S))
      st2 == IF BootToo(st) THEN Dial(st1, {6}) ELSE st1
  IN [st2 EXCEPT !.tries = IF Room(st) = 0 \/ st.tries = 3 THEN 0 ELSE st.tries + 1]
AfterFeel(st, S) == Feel(Mark(st, S), AddrOf(st, S))
\* one round: the validators, SA for use, SF to try out, and x, seen by others as the node's own (0: none is)
Round(st, SA, SF, x) == LET st3 == AfterFeel(AfterPeers(AfterCons(st), SA), SF) IN IF x = 0 THEN st3 ELSE Dial(st3, {x})
RoundOk(st, SA, SF) ==
  LET st1 == AfterCons(st) st2 == AfterPeers(st1, SA) IN
  /\ IF Number(st1) = 0 THEN SA = {} ELSE Picked(st1, SA, CanDial(st1), Number(st1))
  /\ Picked(st2, SF, CanTry(st2), 10)
OwnChoice(st) == IF st.self = {} THEN {0} ELSE st.self

\* a message to the peers P: sent to those connected, the others are dialled
NamedSocks(st, P) == UNION {ByPeer(st, p) : p \in P \ Registered(st)}
Cast(st, P) == Mark(st, NamedSocks(st, P))
\* start: the bootstrap node is dialled, and a first round follows
Restarted(st) == Dial([st EXCEPT !.reg = [p \in Peers |-> Nobody], !.open = {}, !.dialing = {}, !.feel = {}, !.cons = {}, !.self = {}, !.tries = 0], {6})
=============================================================================
