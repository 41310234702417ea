------------------------------ MODULE ExecObs ------------------------------
(* Comparison of what the executor machine mm did with what was observed of  *)
(* the real code, o.  mask: the observations that are compared.              *)
EXTENDS Naturals, Sequences, TLC

\* ---- comparison
\* nopath: the response has only the data, what is known of the errors is what the call returned
ErrEq(e, o, nopath) == (nopath \/ e.path = o.path) /\ (e.msg = "*" \/ e.msg = o.msg)
ErrsEq(es, os, nopath) == Len(es) = Len(os) /\ \A j \in DOMAIN es : ErrEq(es[j], os[j], nopath)
TrEq(e, o) == e.path = o.path /\ e.parent = o.parent /\ e.field = o.field /\ e.ret = o.ret
TracesEq(es, os) == Len(es) = Len(os) /\ \A j \in DOMAIN es : TrEq(es[j], os[j])
\* the entry of the enclosing field is the first later one that is less deep
Encl(es, j) == LET S0 == {l \in DOMAIN es : l > j /\ es[l].d < es[j].d} IN
               IF S0 = {} THEN 0 ELSE CHOOSE l \in S0 : \A k \in S0 : l <= k
TimesOk(es, os, dur) ==
  \A j \in DOMAIN es :
    /\ os[j].start >= 0 /\ os[j].end >= os[j].start
    /\ LET l == Encl(es, j) IN
       IF l = 0 THEN os[j].end <= dur + 1
       ELSE os[l].start <= os[j].start + 1 /\ os[j].end <= os[l].end + 1

DiffOf(mm, o, tracing, mask) ==
  LET InMask(x) == \E j \in DOMAIN mask : mask[j] = x IN
  IF o.crash # "" THEN IF mm.crash /\ o.crash = "panic: resolver panic" THEN "" ELSE "crash: " \o o.crash
  ELSE IF mm.crash THEN "the resolver panic was lost"
  ELSE IF o.env # "" /\ InMask("env") THEN "envelope: " \o o.env
  ELSE IF o.env # "" THEN ""
  ELSE IF InMask("out") /\ mm.out # o.out THEN "data"
  ELSE IF InMask("okout") /\ mm.errs = <<>> /\ mm.out # o.out THEN "data"
  ELSE IF InMask("errs") /\ ~ErrsEq(mm.errs, o.errs, o.nopath) THEN "errors"
  ELSE IF InMask("errs") /\ Len(mm.errs) > 0 /\ mm.out # o.out THEN "data next to errors"
  ELSE IF InMask("haserr") /\ (mm.errs = <<>>) # (o.errs = <<>>) THEN "presence of errors"
  ELSE IF InMask("calls") /\ mm.calls # o.calls THEN "resolver calls"
  ELSE IF InMask("ctxs") /\ mm.ctxs # o.ctxs THEN "context seen by resolvers"
  ELSE IF InMask("reads") /\ mm.reads # o.reads THEN "request values read"
  ELSE IF InMask("args") /\ mm.args # o.args THEN "arguments received"
  ELSE IF InMask("trace") /\ (tracing /\ ~o.nopath) # o.traced THEN "presence of the trace"
  ELSE IF InMask("trace") /\ o.traced /\ ~TracesEq(mm.trace, o.trace) THEN "trace entries"
  ELSE IF InMask("trace") /\ o.traced /\ ~TimesOk(mm.trace, o.trace, o.durus) THEN "trace times"
  ELSE ""
=============================================================================
