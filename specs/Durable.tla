------------------------------ MODULE Durable -------------------------------
(* A directory of files on a disk that may lose power: names and contents   *)
(* are volatile until they are synced.  What may be found afterwards.       *)
EXTENDS Integers, Sequences, FiniteSets, TLC

\* files: inode -> [data, safe] where safe are the bytes last synced, <<-1>> if never
\* names, sure: name -> inode, now and as last synced with the directory; older: every inode the name had since
New == [ino |-> <<>>, names |-> <<>>, sure |-> <<>>]
NameOf(tab, n) == LET h == {i \in 1..Len(tab) : tab[i].n = n} IN IF h = {} THEN 0 ELSE tab[CHOOSE i \in h : TRUE].i
SetName(tab, n, i) == Append(SelectSeq(tab, LAMBDA x : x.n # n), [n |-> n, i |-> i])
DelName(tab, n) == SelectSeq(tab, LAMBDA x : x.n # n)
\* sure is a sequence of <<name, inode>> that a name may turn out to have
Apply(s, e) ==
  CASE e.do = "create" ->
         LET i == Len(s.ino) + 1 IN
         [ino |-> Append(s.ino, [data |-> <<>>, safe |-> <<-1>>]), names |-> SetName(s.names, e.f, i), sure |-> Append(s.sure, [n |-> e.f, i |-> i])]
    [] e.do = "trunc" -> [s EXCEPT !.ino[NameOf(s.names, e.f)].data = <<>>, !.ino[NameOf(s.names, e.f)].safe = <<-1>>]
    [] e.do = "write" -> [s EXCEPT !.ino[NameOf(s.names, e.f)].data = @ \o e.data]
    [] e.do = "sync" -> LET i == NameOf(s.names, e.f) IN [s EXCEPT !.ino[i].safe = s.ino[i].data]
    [] e.do = "rename" -> LET i == NameOf(s.names, e.f) IN
         [s EXCEPT !.names = SetName(DelName(s.names, e.f), e.g, i), !.sure = Append(@, [n |-> e.g, i |-> i])]
    [] e.do = "unlink" -> [s EXCEPT !.names = DelName(s.names, e.f), !.sure = Append(@, [n |-> e.f, i |-> 0])]
    [] e.do = "syncdir" -> [s EXCEPT !.sure = s.names]
    [] OTHER -> s
\* the contents a name may have after a power loss; <<-1>> is anything at all, <<-2>> no file
Found(s, n) == LET is == {s.sure[k].i : k \in {k \in 1..Len(s.sure) : s.sure[k].n = n}} IN
  (IF is = {} THEN {<<-2>>} ELSE {})
  \cup {IF i = 0 THEN <<-2>> ELSE IF s.ino[i].safe = s.ino[i].data THEN s.ino[i].data ELSE <<-1>> : i \in is}
=============================================================================
