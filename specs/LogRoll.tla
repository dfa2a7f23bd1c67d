------------------------------ MODULE LogRoll -------------------------------
(* Log streams: records go to the active file of the stream their target    *)
(* belongs to; a file that outgrew the limit is set aside under a name of   *)
(* its own that carries the date.                                           *)
EXTENDS Integers, Sequences, FiniteSets, TLC

\* a stream: the records of the active file, and of every file set aside with the date of that
Empty == [active |-> <<>>, arch |-> {}]
Write(s, id) == [s EXCEPT !.active = Append(@, id)]
\* a file without records may be set aside or not, and is then of no account
Roll(s, d) == [active |-> <<>>, arch |-> s.arch \cup {[date |-> d, recs |-> s.active]}]
Bag(s) == {a \in s.arch : a.recs # <<>>}

\* modules: the longest configured module that is a whole prefix of the target decides; levels 0 off .. 5 trace
IsPrefix(p, t) == Len(p) <= Len(t) /\ \A i \in 1..Len(p) : p[i] = t[i]
Metrics == <<<<109, 101, 116, 114, 105, 99, 115>>>>
Cli == <<<<99, 108, 105>>>>
Rules(cfg) == {[name |-> cfg.modules[i].name, level |-> cfg.modules[i].level, to |-> "axon"] : i \in 1..Len(cfg.modules)}
              \cup {[name |-> Metrics, level |-> IF cfg.metrics THEN 5 ELSE 0, to |-> "metrics"], [name |-> Cli, level |-> 5, to |-> "cli"]}
Rule(cfg, target) == LET h == {r \in Rules(cfg) : IsPrefix(r.name, target)} IN
  IF h = {} THEN [name |-> <<>>, level |-> cfg.filter, to |-> "axon"]
  ELSE CHOOSE r \in h : \A q \in h : Len(q.name) <= Len(r.name)
\* where a record goes: to a stream, or nowhere
Sink(cfg, target, level) == LET r == Rule(cfg, target) IN IF level <= r.level THEN r.to ELSE "nowhere"
=============================================================================
