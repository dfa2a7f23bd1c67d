------------------------------ MODULE MC_Peers ------------------------------
EXTENDS Peers, TLC, Json
CONSTANTS DEPTH, SMALL
VARIABLES st, script, turn
Init == st = [Dial(Fresh, {6}) EXCEPT !.tries = 1] /\ script = <<>> /\ turn = 0
Op(o, a, n, h) == /\ Len(script) < DEPTH
                  /\ script' = Append(script, [o |-> o, a |-> a, n |-> n, h |-> h])
                  /\ turn' = IF SMALL THEN 0 ELSE RandomElement(0..13)
T(S) == SMALL \/ turn \in S
AddrsX == IF SMALL THEN {1, 2, 3, 4, 6} ELSE Addrs
AOpen == T({0, 1, 2}) /\ Cardinality(st.open) < 6 /\ \E a \in AddrsX, out \in BOOLEAN :
           /\ PeerOf[a] \notin {PeerOf[x.a] : x \in st.open}
           /\ (SMALL => st.sids < 3)
           /\ Op("open", a, IF out THEN 1 ELSE 0, "") /\ st' = Opened(st, a, out)
AClose == T({3}) /\ \E x \in st.open : Op("close", 0, x.sid, "") /\ st' = Closed(st, x.sid)
ABroke == T({4}) /\ \E x \in st.open : Op("broke", 0, x.sid, "") /\ st' \in Broke(st, x.sid)
ABan == T({5}) /\ \E p \in IF SMALL THEN {1, 2} ELSE Peers, d \in IF SMALL THEN {600} ELSE {20, 600, 4 * Day} : Op("ban", p, d, "") /\ st' \in BanPeer(st, p, d)
ATag == T({6}) /\ \E p \in IF SMALL THEN {1} ELSE Peers \ {Boot}, h \in {"tag", "untag"} : Op(h, p, 0, "") /\ st' = [st EXCEPT !.cons = IF h = "tag" THEN @ \cup {p} ELSE @ \ {p}]
ATags == ~SMALL /\ T({6}) /\ \E p, q \in Peers : Op("tags", p, q, "") /\ st' = [st EXCEPT !.cons = {p, q}]
AFail == ~SMALL /\ T({7}) /\ \E a \in st.dialing \cup st.feel, h \in {"io", "io", "self"} : Op("fail", a, 0, h) /\ st' = Failed(st, a, h = "self")
AFelt == T({8}) /\ \E x \in st.open : Op("felt", 0, x.sid, "") /\ st' = Felt(st, x.sid)
AHear == T({9, 2}) /\ \E a \in AddrsX : Op("hear", a, 0, "") /\ st' = Heard(st, a)
AWait == T({10}) /\ \E d \in IF SMALL THEN {20, 400} ELSE {1, 16, 70, 400, Day, 3 * Day, 8 * Day} : (SMALL => st.now < Begin + 800) /\ Op("wait", 0, d, "") /\ st' = [st EXCEPT !.now = @ + d]
Now(s) == [s EXCEPT !.now = @ + 10]
\* the model follows one of the possible choices: scripts only, the judge allows all
First(S, k) == IF k = 0 THEN {} ELSE LET U == {s \in S : \A t \in S : Ip(st, s) = Ip(st, t) => s <= t} IN {s \in U : Cardinality({t \in U : t < s}) < k}
ARound == T({11, 12}) /\ Op("round", 0, 0, "") /\
  LET s0 == Now(st) s1 == AfterCons(s0)
      SA == First(CanDial(s1), Number(s1)) s2 == AfterPeers(s1, SA) SF == First(CanTry(s2), 10)
  IN st' = Round(s0, SA, SF, CHOOSE x \in OwnChoice(s0) : TRUE)
AQuery == ~SMALL /\ T({13}) /\ \E h \in {"attempt", "feel", "tell", "bypeer"}, n \in {1, 2, 50}, a \in Addrs : Op("query", a, n, h) /\ UNCHANGED st
ACast == ~SMALL /\ T({12}) /\ \E p, q \in Peers : Op("cast", p, q, "") /\ st' = Cast(st, {p, q})
ARestart == ~SMALL /\ T({7}) /\ Op("restart", 0, 0, "") /\ st' = Restarted(st)
ASkip == ~SMALL /\ Len(script) < DEPTH /\ turn' = RandomElement(0..13) /\ UNCHANGED <<st, script>>
Next == AOpen \/ AClose \/ ABroke \/ ABan \/ ATag \/ ATags \/ AFail \/ AFelt \/ AHear \/ AWait \/ ARound \/ AQuery \/ ACast \/ ARestart \/ ASkip
\* accepted sessions are open, one for each peer, and the limits hold for those not trusted
Sound == \A p \in Registered(st) : [sid |-> st.reg[p].sid, a |-> st.reg[p].a, out |-> st.reg[p].out] \in st.open /\ PeerOf[st.reg[p].a] = p
\* an address is known for one peer, in its own place, and not while it is banned for what it did
Placed == \A s \in Socks : st.known[s].a # 0 => SockOf[st.known[s].a] = s
NotBoth == st.dialing \cap st.feel = {}
Limits == [][\A p \in Peers : (~On(st, p) /\ On(st', p)) => (Trusted(st, p) \/ (~Banned(st, st'.reg[p].a) /\ Cardinality(Registered(st)) < MaxAll))]_st
BanOthers == [][\A i \in Ips : st'.ban[i] # st.ban[i] => st.reg # [p \in Peers |-> Nobody]]_st
Emit == Len(script) = DEPTH => PrintT("@@GEN " \o ToJson([script |-> script]))
View == <<st, Len(script)>>
=============================================================================
