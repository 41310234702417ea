------------------------------ MODULE ParserGen ------------------------------
(* All viable token prefixes of a few tokens in every part of a document,   *)
(* each completed, cut off, continued with every wrong token or with one    *)
(* token left out.  The automaton of Parser is checked against the grammar  *)
(* written as productions, and every sequence is printed for replay.        *)
(* SIZE: number of free tokens.  CONF is not used.                          *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils

VARIABLES g
P == INSTANCE Parser WITH C <- [text |-> <<>>], m <- [pc |-> "none"]
Size == atoi(IOEnv.SIZE)

Places == { <<>>, <<"{">>, <<"{", "name", "(">>, <<"{", "name", "(", "name", ":">>, <<"query", "(">>, <<"query", "(", "$", "name", ":">>,
            <<"mutation", "name", "(", "$", "name", ":", "name", "=">>, <<"{", "name", "@">>, <<"{", "...">>, <<"{", "...", "on">>,
            <<"fragment">>, <<"fragment", "name", "on", "name">>, <<"query", "name", "@">>, <<"{", "name", ":">>,
            <<"{", "name", "(", "name", ":", "[">>, <<"{", "name", "(", "name", ":", "{">>, <<"{", "name", "{">>, <<"{", "name", "}">>,
            <<"{", "name", "(", "name", ":", "int", ")">>, <<"{", "...", "name">>, <<"{", "...", "{", "name", "}">> }

RECURSIVE Feeds(_, _)
\* the automaton over a whole sequence: its stack or "no"/"any"
Feeds(stack, toks) == IF toks = <<>> THEN P!To(stack) ELSE LET r == P!Feed(stack, Head(toks)) IN IF r.r = "ok" THEN Feeds(r.s, Tail(toks)) ELSE r
Verdict(toks) == LET r == Feeds(<<"Doc">>, toks) IN IF r.r # "ok" THEN r.r ELSE P!Feed(r.s, "eof").r

-----------------------------------------------------------------------------
(* a shortest completion                                                     *)
Least(sym) ==
  CASE sym \in {"NAME", "FRAGNAME", "LIT"} -> <<"name">>
    [] sym = "OP" -> <<"query">>
    [] sym = "VarDef1" \/ sym = "VarDef" -> <<"$", "name", ":", "name">>
    [] sym = "Type" -> <<"name">>
    [] sym = "Arg1" \/ sym = "Arg" -> <<"name", ":", "int">>
    [] sym = "SelSet" -> <<"{", "name", "}">>
    [] sym = "Sel1" \/ sym = "Sel" \/ sym = "Spread" -> <<"name">>
    [] sym = "Value" \/ sym = "Const" -> <<"int">>
    [] sym \in P!NTs -> <<>>
    [] OTHER -> <<sym>>
RECURSIVE Complete(_)
Complete(stack) == IF stack = <<>> THEN <<>> ELSE Least(Head(stack)) \o Complete(Tail(stack))

-----------------------------------------------------------------------------
(* The grammar as in the GraphQL specification: End(nt, s, i) is the set of *)
(* positions behind the phrases that start at i                              *)
RECURSIVE Ends(_, _, _), SeqEnds(_, _, _), Star(_, _, _)
Seq2(S0, nt, s) == UNION {Ends(nt, s, j) : j \in S0}
SeqEnds(nts, s, S0) == IF nts = <<>> THEN S0 ELSE SeqEnds(Tail(nts), s, Seq2(S0, Head(nts), s))
Star(nt, s, S0) == LET S1 == S0 \cup Seq2(S0, nt, s) IN IF S1 = S0 THEN S0 ELSE Star(nt, s, S1)
Opt(nt, s, S0) == S0 \cup Seq2(S0, nt, s)
Ends(nt, s, i) ==
  LET one(K) == IF i <= Len(s) /\ s[i] \in K THEN {i + 1} ELSE {}
      names == P!NameLike
      \* tail(S0): S0 closed by directives, an optional selection set ...
      dirs(S0) == Star("Directive", s, S0)
  IN
  CASE nt = "Document" -> Star("Definition", s, {i})
    [] nt = "Definition" -> Ends("SelectionSet", s, i) \cup Ends("Operation", s, i) \cup Ends("Fragment", s, i)
    [] nt = "Operation" -> Seq2(dirs(Opt("VariableDefinitions", s, Opt("Name", s, one(P!Ops)))), "SelectionSet", s)
    [] nt = "Fragment" -> SeqEnds(<<"FragmentName", "on", "Name", "SelectionSet">>, s, one({"fragment"}))
    [] nt = "VariableDefinitions" -> Seq2(Star("VariableDefinition", s, Seq2(one({"("}), "VariableDefinition", s)), ")", s)
    [] nt = "VariableDefinition" -> Opt("DefaultValue", s, SeqEnds(<<"Variable", ":", "Type">>, s, {i}))
    [] nt = "DefaultValue" -> Seq2(one({"="}), "ConstValue", s)
    [] nt = "Type" -> LET base == one(names) \cup SeqEnds(<<"Type", "]">>, s, one({"["})) IN Opt("!", s, base)
    [] nt = "SelectionSet" -> Seq2(Star("Selection", s, Seq2(one({"{"}), "Selection", s)), "}", s)
    [] nt = "Selection" -> Ends("Field", s, i) \cup Ends("Spread", s, i) \cup Ends("Inline", s, i)
    [] nt = "Field" -> LET named == one(names) \cup SeqEnds(<<":", "Name">>, s, one(names)) IN
                       Opt("SelectionSet", s, dirs(Opt("Arguments", s, named)))
    [] nt = "Spread" -> dirs(Seq2(one({"..."}), "FragmentName", s))
    [] nt = "Inline" -> LET dots == one({"..."}) IN Seq2(dirs(dots \cup SeqEnds(<<"on", "Name">>, s, dots)), "SelectionSet", s)
    [] nt = "Directive" -> Opt("Arguments", s, Seq2(one({"@"}), "Name", s))
    [] nt = "Arguments" -> Seq2(Star("Argument", s, Seq2(one({"("}), "Argument", s)), ")", s)
    [] nt = "Argument" -> SeqEnds(<<":", "AnyValue">>, s, one(names))
    [] nt = "Variable" -> Seq2(one({"$"}), "Name", s)
    [] nt = "AnyValue" -> Ends("Variable", s, i) \cup one(names \cup {"int", "float", "string"})
                          \cup Seq2(Star("AnyValue", s, one({"["})), "]", s) \cup Seq2(Star("Argument", s, one({"{"})), "}", s)
    [] nt = "ConstValue" -> one(names \cup {"int", "float", "string"})
                            \cup Seq2(Star("ConstValue", s, one({"["})), "]", s) \cup Seq2(Star("ConstField", s, one({"{"})), "}", s)
    [] nt = "ConstField" -> SeqEnds(<<":", "ConstValue">>, s, one(names))
    [] nt = "Name" -> one(names)
    [] nt = "FragmentName" -> one(names \ {"on"})
    [] OTHER -> one({nt})
Derivable(toks) == Len(toks) + 1 \in Ends("Document", toks, 1)

-----------------------------------------------------------------------------
(* g: toks, stack, left, pc, end                                             *)
Init == \E p \in Places : g = [toks |-> p, stack |-> Feeds(<<"Doc">>, p).s, left |-> Size, pc |-> "grow", why |-> ""]
Grow == /\ g.pc = "grow" /\ g.left > 0
        /\ \E k \in P!Kinds : LET r == P!Feed(g.stack, k) IN
             r.r = "ok" /\ g' = [g EXCEPT !.toks = Append(@, k), !.stack = r.s, !.left = @ - 1]
Finish(toks, why) == g' = [g EXCEPT !.toks = toks, !.pc = "done", !.why = why]
Completed == g.pc = "grow" /\ Finish(g.toks \o Complete(g.stack), "completed")
CutOff == g.pc = "grow" /\ P!Feed(g.stack, "eof").r = "no" /\ Finish(g.toks, "cut")
WrongToken == g.pc = "grow" /\ \E k \in P!Kinds : P!Feed(g.stack, k).r = "no" /\ Finish(Append(g.toks, k) \o Complete(g.stack), "wrong")
LeftOut == g.pc = "grow" /\ \E k \in P!Kinds \ P!Keywords : LET r == P!Feed(g.stack, k) IN r.r = "ok" /\ Finish(g.toks \o Complete(r.s), "left out")
Emit == /\ g.pc = "done" /\ PrintT("CASE " \o ToJson(g.toks)) /\ g' = [g EXCEPT !.pc = "emitted"]
Stop == g.pc = "emitted" /\ UNCHANGED g
Next == Grow \/ Completed \/ CutOff \/ WrongToken \/ LeftOut \/ Emit \/ Stop
Spec == Init /\ [][Next]_g

\* every prefix the automaton takes can be completed, and nothing else is accepted than the grammar derives
Viable == g.pc = "grow" => Verdict(g.toks \o Complete(g.stack)) = "ok"
Exact == g.pc = "done" => LET v == Verdict(g.toks) IN v # "any" => ((v = "ok") <=> Derivable(g.toks))
AsMeant == g.pc = "done" /\ g.why \in {"cut", "wrong"} => Verdict(g.toks) = "no"
GenInv == Viable /\ Exact /\ AsMeant
=============================================================================
