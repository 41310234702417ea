------------------------------- MODULE Cache -------------------------------
(* The document cache.  Parsing is a pure function of the document and the   *)
(* operation name; the cache remembers results by length, with a bound on    *)
(* the entries of one length and on the number of lengths, and may forget    *)
(* anything at any time.  The answer of a request must be Parse(doc, target) *)
(* whatever the history is.                                                  *)
(*                                                                           *)
(* TLC explores all histories of up to SIZE requests and prints every one of *)
(* them, they are replayed on the real cache (CacheGen in the harness) with  *)
(* concrete documents.                                                       *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json, IOUtils

Size == atoi(IOEnv.SIZE)

CapEntries == 2
CapLens == 2

\* D1 and D2 have the same length, D3 as well but is malformed, D4 is longer and has operations of other names
Doc(id) ==
  CASE id = "D1" -> [id |-> id, len |-> 1, ok |-> TRUE, ops |-> <<"X", "Y">>]
    [] id = "D2" -> [id |-> id, len |-> 1, ok |-> TRUE, ops |-> <<"Y", "X">>]
    [] id = "D3" -> [id |-> id, len |-> 1, ok |-> FALSE, ops |-> <<>>]
    [] id = "D4" -> [id |-> id, len |-> 2, ok |-> TRUE, ops |-> <<"X">>]
    [] OTHER -> [id |-> id, len |-> IF SubSeq(id, 1, 1) = "S" THEN 1 ELSE 3, ok |-> TRUE, ops |-> <<"Z">>]
DocIds == {"D1", "D2", "D3", "D4"}
Targets == {"", "X", "Y", "Z"}

\* what parsing gives: the operation that is executed (0: none) or an error
IdxOf(d, t) == IF t = "" THEN Len(d.ops) ELSE IF \E j \in DOMAIN d.ops : d.ops[j] = t THEN CHOOSE j \in DOMAIN d.ops : d.ops[j] = t ELSE 0
Parse(id, t) == LET d == Doc(id) IN IF ~d.ok THEN <<"error", id>> ELSE <<"ok", id, IdxOf(d, t)>>

VARIABLES cache,  \* set of lengths -> sequence of entries
          last, hist
vars == <<cache, last, hist>>

Lens == DOMAIN cache
Entries(l) == IF l \in Lens THEN cache[l] ELSE <<>>
Hits(id, t) == {j \in DOMAIN Entries(Doc(id).len) : Entries(Doc(id).len)[j].id = id /\ Entries(Doc(id).len)[j].target = t}
Put(c, e, l) ==
  LET old == IF l \in DOMAIN c THEN c[l] ELSE <<>>
      kept == IF Len(old) = CapEntries THEN SubSeq(old, 1, CapEntries - 1) ELSE old
  IN [k \in DOMAIN c \cup {l} |-> IF k = l THEN <<e>> \o kept ELSE c[k]]
Drop(c, ls) == [k \in DOMAIN c \ ls |-> c[k]]

\* the answer when the cache is asked, and the caches that may result
Answer(c, id, t) == LET l == Doc(id).len
                        es == IF l \in DOMAIN c THEN c[l] ELSE <<>>
                        h == {j \in DOMAIN es : es[j].id = id /\ es[j].target = t}
                    IN IF h # {} THEN es[CHOOSE j \in h : \A k \in h : j <= k].res ELSE Parse(id, t)
After(c, id, t) ==
  LET l == Doc(id).len
      es == IF l \in DOMAIN c THEN c[l] ELSE <<>>
      hit == \E j \in DOMAIN es : es[j].id = id /\ es[j].target = t
      e == [id |-> id, target |-> t, res |-> Parse(id, t)]
  IN IF hit \/ ~Doc(id).ok THEN {c}
     ELSE IF Cardinality(DOMAIN c) = CapLens THEN {Put(Drop(c, {x}), e, l) : x \in DOMAIN c}
     ELSE {Put(c, e, l)}

\* (the answer does not depend on which caches are possible, so one of them is followed per step)
Request ==
  /\ Len(hist) < Size
  /\ \E id \in DocIds, t \in Targets :
       /\ last' = <<id, t, Answer(cache, id, t)>>
       /\ cache' \in After(cache, id, t)
       /\ hist' = Append(hist, id \o t)
\* many other documents of the length of D1: everything of that length is forgotten
FloodSame ==
  /\ Len(hist) < Size /\ hist # <<>> /\ hist[Len(hist)] # "SAME"
  /\ LET F(c, k) == Put(c, [id |-> "S" \o ToString(k), target |-> "", res |-> Parse("S" \o ToString(k), "")], 1)
     IN cache' = F(F(cache, 1), 2)
  /\ hist' = Append(hist, "SAME") /\ last' = <<"S2", "", Parse("S2", "")>>
\* documents of many other lengths: anything may be forgotten
FloodLens ==
  /\ Len(hist) < Size /\ hist # <<>> /\ hist[Len(hist)] # "LENS"
  /\ cache' \in {Drop(cache, ls) : ls \in SUBSET DOMAIN cache}
  /\ hist' = Append(hist, "LENS") /\ last' = <<"L", "", Parse("L", "")>>
Emit ==
  /\ Len(hist) = Size
  /\ PrintT("CASE " \o ToJson(hist))
  /\ hist' = Append(hist, "END") /\ UNCHANGED <<cache, last>>

Init == cache = <<>> /\ last = <<"L", "", Parse("L", "")>> /\ hist = <<>>
Next == Request \/ FloodSame \/ FloodLens \/ Emit
Spec == Init /\ [][Next]_vars

\* the cache cannot be noticed
Invisible == last[3] = Parse(last[1], last[2])
EntriesRight == \A l \in Lens : \A j \in DOMAIN cache[l] : LET e == cache[l][j] IN Doc(e.id).len = l /\ Doc(e.id).ok /\ e.res = Parse(e.id, e.target)
Bounded == \A l \in Lens : Len(cache[l]) <= CapEntries /\ Cardinality(Lens) <= CapLens + 1
NoDuplicates == \A l \in Lens : \A j, k \in DOMAIN cache[l] : j # k => cache[l][j].id # cache[l][k].id \/ cache[l][j].target # cache[l][k].target
\* only the history matters for what is printed
View == <<hist, cache>>
Inv == Invisible /\ EntriesRight /\ Bounded /\ NoDuplicates
=============================================================================
