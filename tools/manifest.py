#!/usr/bin/env python3
# writes MANIFEST.json from the list of claimed checks below
import json, os
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = {json.loads(l)["id"]: json.loads(l) for l in open(root + "/properties.jsonl")}
EXEC = "TLA+ executor specification (spec/Exec.tla): TLC enumerates all small documents and worlds (ExecGen), which are replayed on the code; TLC trace validation (ExecTrace) of these and of seeded random requests"
LVL = "Model checking of the specification within small bounds plus trace validation of the real code on every enumerated and sampled request: a violation is a request whose observed answer the specification does not allow. Trusts the specification's reading of the property, the harness's universe of Go types and TLC."
claimed = {i: (EXEC, LVL) for i in ["C01", "C04", "C05", "C08", "C12", "C13", "C16", "C17", "C19", "C20"]}
ARGS = "TLA+ specification of argument binding (spec/Args.tla, digit-exact arithmetic): TLC enumerates schemas x literals x variables (ArgsGen) that are replayed on the code; TLC trace validation (ArgsTrace) of these and of seeded random schemas and requests"
claimed.update({i: (ARGS, LVL) for i in ["C06", "C07", "C24"]})
PARSE = "TLA+ lexer and pushdown automaton (spec/Parser.tla), checked by TLC against the grammar written as productions on every viable token prefix (ParserGen); these sequences (completed, cut off, with every wrong token, with a token left out) and seeded random, damaged documents are run on the code and their verdicts and error locations validated by TLC (ParserTrace)"
claimed.update({"C03": (PARSE, LVL)})
SESS = "TLA+ session specification (spec/SessionTrace.tla over spec/Exec.tla: every request of a history is answered by the executor machine alone) and cache specification (spec/Cache.tla, all histories of its bounded instance explored by TLC); histories enumerated from the specification and seeded random ones run on one schema, TLC validates every request's observation, which is read back after the last request"
claimed.update({i: (SESS, LVL) for i in ["C09", "C10", "C22", "C23"]})
POOL = "TLA+ pool specification (spec/Pool.tla: TLC explores all interleavings of the bounded pool of schema copies); its behaviours and longer random ones are replayed on real copies with the resolvers held at their calls, and freely running pools under the race detector; TLC validates every request's observation (SessionTrace)"
claimed.update({"C11": (POOL, LVL)})
LEAF = "TLA+ specification of leaf encoding (spec/Leaf.tla: UTF-8 and JSON string decoding, exact arithmetic for integers and IEEE floats, civil calendar); TLC enumerates all short texts over the boundary bytes and checks the specification against independent definitions (LeafGen); TLC trace validation (LeafTrace) of every value the real code wrote"
claimed.update({"C15": (LEAF, LVL)})
HTTP = "TLA+ specification of HTTP request decoding (spec/Http.tla); TLC enumerates all methods, content types and body shapes over small alphabets (HttpGen), which are made concrete and replayed on HandleRequest with seeded random ones; TLC trace validation (HttpTrace) of every response against direct resolution of the requests the specification says are denoted"
claimed.update({"C18": (HTTP, LVL)})
SCHEMA = "TLA+ specification of schema definition (spec/Schema.tla: Go type definitions to the GraphQL schema, its refusals, its introspection and the fields its types have); TLC enumerates small definitions (SchemaGen), which become Go source that is compiled against the code; TLC trace validation (SchemaTrace) of the verdict, introspection, execution and test helpers on these and on seeded random definitions"
claimed.update({i: (SCHEMA, LVL) for i in ["C14", "C21", "C25"]})
ENV = "TLA+ specification of the form of answers (spec/Envelope.tla: JSON and the envelope read from bytes, errors against those returned), checked by TLC on all answers written by its productions and on damaged ones (EnvelopeGen); TLC enumerates kinds of documents, variables, names and entry points, which with seeded random, damaged and hostile requests are made on the real code, several on one schema with an ordinary request after them; TLC trace validation (EnvelopeTrace) of every answer"
claimed.update({"C02": (ENV, LVL)})
exec(open(root + "/tools/claimed.py").read()) if os.path.exists(root + "/tools/claimed.py") else None
na = globals().get("na", {})
m = {"version": 1, "setup_cmd": "bash bin/setup", "hooks": {"guard": "verif", "enable": "no hooks are needed: the checks only use the public API, and build /repo as it is", "source_commits": []},
     "checks": [], "not_applicable": []}
for i in sorted(props):
    if i in claimed:
        t, l = claimed[i]
        m["checks"].append({"property": i, "quick_cmd": f"bash bin/check {i}", "thorough_cmd": f"VERIF_TIER=thorough bash bin/check {i}", "technique": t, "level": "model_checking", "level_note": l})
    else:
        m["not_applicable"].append({"property": i, "reason": na.get(i, "check under construction")})
json.dump(m, open(root + "/MANIFEST.json", "w"), indent=1)
