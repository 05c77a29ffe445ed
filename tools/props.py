import json
P=[]
def prop(id,title,statement,over,qtext,why,files,mech,state=None,observe=None):
    d=dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=a,where=b) for a,b in mech]))
    if state: d["anchors"]["state"]=[dict(name=a,meaning=b,where=c) for a,b,c in state]
    d["anchors"]["observe_at"]=observe or ["Marshal","Unmarshal"]
    d["anchors"]["hook_needed"]=None
    assert len(title)<=80,(id,len(title))
    P.append(d)
E="internal/encoder/";D="internal/decoder/"
encPool=("ctxPool","pooled encoder contexts: output buffer, key buffers, recursion bookkeeping, reused across calls and goroutines",E+"context.go")
encCache=("cachedEncoderMap","compiled encoders by type, shared by all goroutines",E+"compile_cache.go, "+E+"compile.go")
decCache=("cachedDecoderMap","compiled decoders by type, shared by all goroutines",D+"compile.go")
decPool=("runtimeContextPool","pooled decoder contexts; the private input copy of the running call",D+"context.go, unmarshal.go")
prop("C01","Concurrent Marshal calls give what each value denotes",
 "Whatever other goroutines do with the library at the same time, a Marshal call returns exactly an encoding of its own argument (correct lengths, counts, keys and values; map entries in any order) or the error that argument deserves. No interleaving makes bytes, errors or bookkeeping of one call show up in another, makes a call panic, block or crash, or causes a data race inside the library.",
 ["schedules","inputs"],"all interleavings of any number of Marshal (and occasional failing or Unmarshal) calls by several goroutines, over all supported argument types",
 "The tests call Marshal from one goroutine almost everywhere; pooled contexts, lazily compiled and cached encoders are shared process wide, so only particular interleavings of get/put/compile expose a leak between calls.",
 ["marshal.go",E+"context.go",E+"buffer.go",E+"compile.go",E+"compile_cache.go",E+"struct.go",E+"map.go"],
 [("pooled context taken per call, result copied out before it is returned to the pool","marshal.go, "+E+"context.go"),("copy-on-write type cache",E+"compile_cache.go")],[encPool,encCache],["Marshal"])
prop("C02","Concurrent Unmarshal calls give what each input denotes",
 "Whatever other goroutines do with the library at the same time, an Unmarshal call stores into its destination exactly what its own input denotes for that type, or returns an error when the input is not acceptable for it. No interleaving mixes inputs, destinations, errors or callbacks of different calls, makes a call panic, block or crash, or causes a data race inside the library.",
 ["schedules","inputs"],"all interleavings of Unmarshal calls (well formed and damaged inputs, fresh and reused destinations) by several goroutines",
 "The tests decode from one goroutine; decoder contexts, buffers and compiled decoders are shared and only interleavings at those points can mix calls.",
 ["unmarshal.go",D+"context.go",D+"compile.go",D+"struct.go",D+"map.go",D+"slice.go",D+"interface.go"],
 [("private copy of the input per call","unmarshal.go"),("decoders hold no per call state",D+"*.go")],[decCache,decPool],["Unmarshal"])
prop("C03","First uses of a type may race and still all be correct",
 "When several goroutines use a type (plain, embedded in others, recursive, mutually recursive, unsupported, created at run time) for the first time in a process, at the same moment and in either direction, every call gives the same result as in a process where the type was used before. No call sees a half-built codec, panics, fails spuriously, blocks for ever or races on memory, also when a process is killed and restarted at any point in between.",
 ["schedules","programs","crash_points"],"all interleavings of first uses of overlapping sets of types, starting from a fresh process state",
 "Each type is compiled once per process; a test can race one first use per type and run, and the go test process compiles types one after the other long before anything runs in parallel.",
 [E+"compile.go",E+"compile_cache.go",D+"compile.go",E+"struct.go",D+"struct.go"],
 [("compiled privately, then published by one atomic store; recursive types are resolved through placeholders",E+"compile.go, "+D+"compile.go")],[encCache,decCache])
prop("C04","Shared arguments are only read, at any concurrency",
 "Marshal only reads its argument and everything reachable from it (including spare capacity of slices), and Unmarshal only reads the input bytes it is given (including bytes behind them in the same array); so any number of concurrent calls may share arguments and inputs, without data race and each with the correct result. This holds also when a callback fails, panics or stalls in some of the calls, and when an application writes to the values it decoded or to the bytes an UnmarshalPHP received.",
 ["schedules","inputs","fault_sequences"],"all interleavings of calls sharing values and input slices",
 "Tests never share an argument between goroutines; writes which restore the old content, or go to spare capacity, are invisible to a test which compares results.",
 ["marshal.go","unmarshal.go",E+"interface.go",E+"map.go",E+"slice.go",D+"bytes.go",D+"string.go",D+"unmarshal_php.go"],
 [("values are read through pointers, never written",E+"*.go"),("the input is copied before it is scanned","unmarshal.go")],[encPool,decPool])
prop("C05","Failed, panicked or abandoned calls leave no trace behind",
 "The result of a call depends on its arguments only, not on the history of the process: after any sequence of earlier calls that failed, whose callbacks returned errors, panicked or ended their goroutine, that were given cyclic values, unsupported types or damaged inputs, and however often that was repeated, every later call returns exactly what it would return in a fresh process, be it a value, bytes or an error with the same text; and an error once returned does not change any more. In particular no acyclic value is reported as recursive, no cyclic value is let through, and no later call fails or carries foreign bytes because of them.",
 ["histories","fault_sequences"],"all histories of calls with failures of every kind, followed by any calls",
 "State survives calls in pooled contexts and type caches; tests make at most a few calls after a failure and never repeat failures thousands of times.",
 ["marshal.go",E+"context.go",E+"compile_cache.go",E+"struct_reflect.go",E+"marshal_php.go",D+"context.go","unmarshal.go"],
 [("contexts are reset when they are taken or given back, also after a panic","marshal.go, "+E+"context.go"),("recursion bookkeeping is undone on every way out",E+"ptr.go, "+E+"map.go, "+E+"slice.go")],[encPool,decPool])
prop("C06","Bytes returned by Marshal belong to the caller alone",
 "The slice Marshal returned never changes unless its owner changes it, whatever later or concurrent calls do; and what the owner does with it, up to its full capacity (overwrite, append), never influences any other result. The same holds for the bytes a MarshalPHP method returned to the library: the library copies them before the call returns, never writes to them or behind them, and does not need them afterwards.",
 ["histories","schedules"],"all histories and interleavings of calls together with writes and appends by the owners of earlier results",
 "Aliasing with a pooled buffer shows only when a particular later call reuses the buffer; tests look at a result once, directly after the call.",
 ["marshal.go",E+"buffer.go",E+"context.go",E+"marshal_php.go"],
 [("the result is copied out of the pooled buffer","marshal.go"),("MarshalPHP output is appended to the buffer",E+"marshal_php.go")],[encPool],["Marshal"])
prop("C07","Decoded values belong to the caller alone",
 "Everything reachable from a decoded value (strings, byte slices with their full capacity, maps, interfaces, pointers) is independent of the input slice, of pooled memory, of other calls and of its own other parts: overwriting the input after the call, writing or appending to one decoded byte slice, or any later call never changes a decoded value. The same holds for bytes an UnmarshalPHP method kept, wrote to or appended to.",
 ["histories","schedules"],"all histories and interleavings of calls with overwritten inputs, writes and appends to decoded slices",
 "The decoder avoids copies with unsafe strings and slices; an alias shows only when somebody writes to one side later.",
 ["unmarshal.go",D+"bytes.go",D+"string.go",D+"unsafe.go",D+"unmarshal_php.go",D+"slice.go",D+"interface.go",D+"context.go"],
 [("one private copy of the input per call, decoded slices capped at their length","unmarshal.go, "+D+"bytes.go")],[decPool],["Unmarshal"])
prop("C08","MarshalPHP is called once per value and its failures surface intact",
 "During a Marshal call every MarshalPHP method is called exactly once for every value holding it that the argument reaches, and its bytes, whatever they are, stand verbatim in the output. Nil pointers in struct fields and in interfaces, and nil pointers to types whose method has a value receiver, are encoded as null without a call. When one returns an error, of whatever kind and also together with bytes, the call stops there and returns no bytes and an error wrapping it, with no later MarshalPHP call; when one panics or ends its goroutine, that happens to the caller and nobody else; in all cases no other call is affected.",
 ["fault_sequences","inputs","schedules"],"all values with Marshalers anywhere in them, all placements of an error, panic or Goexit among the callbacks, several goroutines",
 "Tests use one Marshaler per case and one failure; which of several callbacks fails, in which container, and what the next call sees is a fault sequence.",
 [E+"marshal_php.go",E+"marshal.go",E+"compile.go",E+"interface.go",E+"struct.go",E+"map.go",E+"slice.go"],
 [("errors are returned through every encoder",E+"*.go"),("output is appended only when MarshalPHP succeeded",E+"marshal_php.go")],[encPool],["Marshal","MarshalPHP"])
prop("C09","UnmarshalPHP gets each raw value once, in order; failures surface intact",
 "During an Unmarshal call every UnmarshalPHP method meant by the input is called exactly once, in document order, with exactly the raw bytes of its value, and the values it sets are found in the destination. When one returns an error, of whatever kind, the call stops there and returns an error wrapping it, which the library does not write to; when one panics or ends its goroutine, that happens to the caller and nobody else; in all cases neither the input, the other values nor other calls are affected, even when the method writes to, appends to or keeps the bytes it got.",
 ["fault_sequences","inputs","schedules"],"all inputs with Unmarshalers anywhere in the destination, all placements of a fault among the callbacks, several goroutines",
 "Tests use one Unmarshaler per case; extents of raw values depend on nesting and on what surrounds them, and failures in the middle of a document are not tested in sequence.",
 [D+"unmarshal_php.go",D+"struct.go",D+"map.go",D+"slice.go",D+"context.go"],
 [("the extent of a value is found by skipping over it",D+"context.go, "+D+"unmarshal_php.go")],[decPool],["Unmarshal","UnmarshalPHP"])
prop("C10","Callbacks may call the library again, or stall, and block nobody",
 "MarshalPHP and UnmarshalPHP methods may call Marshal and Unmarshal themselves, to any depth, on the same or other types, and both the inner and the outer calls give correct results. While a callback does not return, all other calls of all goroutines still complete: the library holds no lock and no exclusive resource while it runs user code.",
 ["schedules","histories","programs"],"all interleavings of calls whose callbacks re-enter the library or stall for any time, also as first use of the types",
 "A deadlock or a shared context needs a callback that is inside the library while another call runs; tests have no re-entrant callbacks and no stalls.",
 [E+"marshal_php.go",D+"unmarshal_php.go",E+"context.go",E+"compile_cache.go",D+"compile.go","marshal.go","unmarshal.go"],
 [("each call has its own context; the caches are lock free",E+"compile_cache.go, "+D+"compile.go")],[encPool,encCache,decCache])
prop("C11","Cyclic values are rejected, acyclic ones are not, always in bounded time",
 "Marshal of a value that contains itself (through pointers, maps, slices, interfaces or any mix of them, with a cycle of any length, reached after any acyclic prefix) returns an error instead of recursing for ever or overflowing the stack. A value without a cycle is encoded however deeply it nests and however often it shares parts. Both hold again and again in the same process and from several goroutines.",
 ["inputs","histories","schedules"],"all shapes and lengths of cycles and of acyclic sharing, in any order of calls",
 "Cycle detection starts only beyond a nesting threshold and uses pooled bookkeeping; tests have a few fixed shapes, each called once.",
 [E+"context.go",E+"ptr.go",E+"map.go",E+"slice.go",E+"interface.go",E+"struct.go",E+"error.go"],
 [("depth counter, and a set of visited addresses beyond a threshold",E+"context.go")],[encPool],["Marshal"])
prop("C12","A record torn by a crash is never taken for a complete one",
 "If a crash leaves only a strict prefix of a record, cut at any byte, Unmarshal of it returns an error: for every destination type, with fresh or used destinations, also when the bytes missing are still present in memory behind the slice. It neither panics nor reads beyond the slice.",
 ["crash_points","inputs"],"every record of every supported type and every crash point inside its write",
 "Tests contain a few truncated literals; the crash point ranges over every byte of every record, and the decoder is hand written per type with its own bounds.",
 ["unmarshal.go",D+"context.go",D+"int.go",D+"uint.go",D+"float.go",D+"string.go",D+"bytes.go",D+"struct.go",D+"map.go",D+"slice.go",D+"array.go",D+"interface.go",D+"unmarshal_php.go"],
 [("input copied with a terminating zero byte, every scanner checks for it","unmarshal.go, "+D+"*.go")],[decPool],["Unmarshal"])
prop("C13","A record with stale bytes behind it is never accepted",
 "If a shorter record overwrites a longer one without truncation, or anything else is left behind a complete record, Unmarshal of the whole returns an error: for every destination type and every non-empty tail, whether or not the tail is itself well formed.",
 ["crash_points","inputs"],"every record followed by every tail: the rest of an older record, a second record, single bytes",
 "Tests have a few trailing byte cases for few types; the end of a value is computed by each decoder on its own.",
 ["unmarshal.go",D+"*.go",D+"context.go"],
 [("the position after the top level value must be the end of the input","unmarshal.go")],[decPool],["Unmarshal"])
prop("C14","Damaged records are rejected or read as what they say, without panic or hang",
 "For any bytes, in particular records with flipped bits, lost, repeated, swapped or stale sectors, and altered lengths, counts, indices or type letters, Unmarshal returns after work in proportion to the length of the input: with an error, or with exactly the value these bytes denote for the destination; with an error also when there is no destination, because it is nil, a nil pointer or not a pointer. It never panics, crashes the process, overflows the stack or reads foreign memory, and it takes no memory for data that is only declared but not there: what it allocates is in proportion to the input as well, apart from a fixed amount for list indices which are left out.",
 ["fault_sequences","inputs"],"all sequences of storage faults on all records, into all supported destination types",
 "A fuzz test checks for panics only, on few destinations; that the accepted values are the denoted ones needs an independent model.",
 ["unmarshal.go",D+"context.go",D+"interface.go",D+"map.go",D+"slice.go",D+"array.go",D+"struct.go",D+"string.go",D+"int.go"],
 [("bounds checks in every scanner, nesting limit, no allocation by declared size alone",D+"*.go")],[decPool],["Unmarshal"])
prop("C15","Values exchanged through a store survive crashes and restarts",
 "A value written as a record by one process and read by another, of the same type or as a generic value, comes back as what the writer encoded, whatever mix of types and programs uses the store and wherever processes crash and restart. A read after a crash gives the old or the new value where the store is atomic, and an error or a denoted value where a torn or stale record remained; it never gives a value nobody wrote a record for.",
 ["crash_points","histories","schedules"],"all histories of writes and reads by several clients over a simulated disk with atomic and non-atomic writes, crashes at any point, restarts with fresh library state",
 "Tests round trip values within one process only, one at a time; here encoder and decoder run in different process lives, with different caches, after arbitrary histories.",
 ["marshal.go","unmarshal.go",E+"struct.go",E+"map.go",D+"struct.go",D+"map.go",D+"interface.go",E+"float.go",D+"float.go"],
 [("the encoder's output is in the language of the decoder",E+"*.go, "+D+"*.go")],[encCache,decCache])
prop("C16","A destination used before ends up as documented, whatever it held",
 "Unmarshal into a variable that already holds something (from earlier successful or failed calls, or set by the application) gives what the input denotes on top of it: fields, keys and elements named by the input are replaced, fields the input does not name are kept, slices are made anew so that earlier copies of them keep their content, maps and pointers are reused or allocated as documented, and null resets. A failed call never damages memory outside the destination and the destination stays usable.",
 ["histories","inputs"],"all histories of Unmarshal calls into the same variables with different, partial, null-containing and damaged inputs",
 "Tests decode into zero values almost everywhere; what earlier contents do to the next call is a property of histories.",
 ["unmarshal.go",D+"struct.go",D+"map.go",D+"slice.go",D+"array.go",D+"ptr.go",D+"interface.go"],
 [("each decoder replaces or merges by its kind",D+"*.go")],None,["Unmarshal"])
prop("C17","Every map entry is encoded exactly once, in any iteration order",
 "Whatever order the entries of a map come in, which differs from run to run, its encoding declares their number and holds every entry exactly once with its own key and its own value, at every level of nested maps, structs and slices, and with scratch space reused between entries and calls. Decoding such an encoding gives an equal map whatever order its entries are in.",
 ["schedules","inputs","histories"],"all iteration orders of all maps in all supported positions",
 "Map order is random; a test sees one order per run and mostly maps of one or two entries, where key and value buffers cannot get mixed up.",
 [E+"map.go",E+"map_reflect.go",D+"map.go",E+"context.go"],
 [("key and value scratch space from the call's context, reset per entry",E+"map.go, "+E+"context.go")],[encPool])
prop("C18","Cost and retained memory of a call do not grow with the process's age",
 "Repeating the same calls, successful or failing, any number of times takes the same amount of work each time once the types are known, and does not make retained memory grow: pools and caches hold no more than the types and largest values in use require, and keep nothing of earlier arguments, errors or inputs alive in growing number.",
 ["histories"],"all histories which repeat a fixed set of calls, including failing ones",
 "Tests run a call a few times; growth shows only over long histories and particularly after failures.",
 [E+"context.go",E+"buffer.go",E+"compile_cache.go",D+"compile.go",D+"context.go","marshal.go","unmarshal.go"],
 [("type caches filled once per type; contexts reset between uses",E+"context.go, "+E+"compile_cache.go")],[encPool,encCache,decCache])
def na(id,title,statement,qtext,why,files,mech): prop(id,title,statement,["inputs"],qtext,why,files,mech)
na("C19","Encodings are canonical PHP: numbers, lengths, keys",
 "For every supported value the output is what PHP's unserialize accepts as that value: byte lengths of strings, shortest exact decimal floats with NAN, INF and -INF, booleans as 0 or 1, element counts. The format does not depend on the Go representation of the same value.",
 "all supported values","Tests check samples; number formatting ranges over 2^64 floats and integers.",
 [E+"float.go",E+"int.go",E+"uint.go",E+"string.go",E+"bool.go"],[("strconv formatting",E+"float.go")])
na("C20","Numbers which do not fit are rejected, never wrapped",
 "Decoding an integer or float into a narrower or unsigned type returns an error when the value does not fit, for every width and at every position, and never stores a wrapped or truncated number.",
 "all numbers and all numeric destination types","Tests check a few boundary values per width.",
 [D+"int.go",D+"uint.go",D+"float.go",D+"array.go"],[("range check per kind",D+"int.go, "+D+"uint.go")])
na("C21","Struct tags and field rules mean the same to encoder and decoder",
 "Field names, the options omitempty and string, the tag \"-\", unexported fields and embedding rules select the same fields under the same keys in both directions, for every struct type.",
 "all struct types and tags","Tests have a fixed set of struct types.",
 ["internal/runtime/struct_field.go",E+"struct.go",D+"struct.go"],[("shared tag parser","internal/runtime/struct_field.go")])
na("C22","Unsupported types are refused at the entry, not misread",
 "A type that cannot be represented is answered with an error naming it, in either direction and however deep inside of another type, and never with partial output, a panic or wrong data; a nil or non-pointer destination is refused.",
 "all Go types","Tests list some unsupported types at top level.",
 [E+"compile.go",D+"compile.go",D+"invalid.go","unmarshal.go"],[("compile time type switch",E+"compile.go, "+D+"compile.go")])
with open("/verif/properties.jsonl","w") as f:
    for p in P: f.write(json.dumps(p,ensure_ascii=False)+"\n")
checks=[]
race={"C01","C02","C03","C04"}
for p in P:
    if p["id"]>"C18": continue
    checks.append(dict(property=p["id"],quick_cmd=f"./check.sh {p['id']} quick",thorough_cmd=f"./check.sh {p['id']} thorough",
      technique="deterministic simulation: seeded search over schedules, histories and injected faults against a reference model"+(", also under the race detector" if p["id"] in race else ""),
      level="exploration",
      level_note="Sampled seeds, each an exactly repeatable run of the real library under a simulated scheduler; sync.Pool, locks, map order, callbacks and storage are simulated. Trusts the reference model (sim/harness/ref) and the instrumenter; switches tasks between statements only. A clean batch is evidence, not proof."))
na=[]
R={"C19":"A pure function of one value: no schedule, fault, time or history takes part, so simulation would only dress up input generation. (The encodings seen in the runs of C01-C17 are compared with the model all the same.)",
"C20":"A pure function of one number and one type; nothing for a simulator to decide.",
"C21":"A pure function of one struct type; nothing for a simulator to decide.",
"C22":"A pure function of one type; nothing for a simulator to decide. (First uses of unsupported types in racing calls belong to C03.)"}
for k in sorted(R): na.append(dict(property=k,reason=R[k]))
M=dict(version=1,setup_cmd="cd sim && HOME=${HOME:-/root} GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOWORK=off PATH=/opt/veriftools/go1.26.10/bin:$PATH go build -o /dev/null ./cmd/driver && chmod +x ../check.sh",
 hooks=dict(guard="none in /repo: the instrumentation is generated into a temporary directory and applied with go build -overlay",enable="check.sh: sim/cmd/instr rewrites the working tree's sources into an overlay",source_commits=[]),
 checks=checks,not_applicable=na,notes="See DESIGN.md. Replay a violation with ./check.sh ID quick --replay FILE. known-findings.txt lists repaired defects.")
json.dump(M,open("/verif/MANIFEST.json","w"),indent=1); open("/verif/MANIFEST.json","a").write("\n")
