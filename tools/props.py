"""Source of truth for properties.jsonl (run: python3 tools/props.py > properties.jsonl)."""
import json
P = []
def prop(id, title, statement, over, text, why, files, mech):
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text},
              "why_tests_cant": why,
              "anchors": {"files": files,
                          "mechanism": [{"name": n, "where": w} for n, w in mech]}})
U = "unpythonic/"

prop("M01", "Memoized functions compute each argument key exactly once",
     "For a memoized function, each distinct call (argument binding) runs the body at most once, however many threads call it concurrently and in whatever interleaving, and every caller of that key gets the very same result object. If the body raises, that same exception instance is raised to every caller of that key and the body is not retried. Calls that bind the same arguments in equivalent ways (positional, by name, via defaults) share one entry, and calls with different bindings never do.",
     ["schedules", "histories"],
     "all thread interleavings (bounded preemptions) of concurrent calls and all call sequences up to a depth",
     "Unit tests call from one thread; a lost update or duplicated computation needs a specific preemption between the check and the store.",
     [U + "fun.py", U + "arity.py"],
     [("memoize (per-instance lock, success/failure record)", U + "fun.py"), ("argument tuplification into a canonical key", U + "arity.py")])

prop("M02", "Memoized generators replay one shared sequence to every consumer",
     "Every iterator obtained from a memoized generator function (same arguments) or memoized iterable yields exactly the sequence the underlying source produces, from its start, no matter how many iterators exist, how their advances interleave, or from which threads. The underlying source is created once per argument key and advanced at most once per position, on demand only, and an exception it raises at a position is raised again to every iterator that reaches that position.",
     ["schedules", "histories"],
     "all interleavings of advances of several iterators, sequentially and under all thread schedules within a preemption bound",
     "Tests consume iterators one after another in one thread; duplicated or lost items need interleaved advances at particular points.",
     [U + "gmemo.py"],
     [("gmemoize / imemoize / fimemoize", U + "gmemo.py"), ("shared memo with lock", U + "gmemo.py")])

prop("M03", "Symbols and singletons have exactly one identity per process",
     "At any time there is at most one live interned symbol with a given name and at most one live instance of a singleton class, regardless of thread interleaving, of when earlier instances are garbage collected, and of copying or pickling; looking an existing one up never fails. Uninterned symbols are unique per creation and survive a pickle round trip as themselves. Attempting to build a second instance of a singleton class is an error and leaves the existing instance intact.",
     ["schedules", "histories"],
     "all interleavings of constructions, drops, copies and pickle round trips",
     "Identity bugs only show up when two threads race or when the last reference dies between two steps.",
     [U + "symbol.py", U + "singleton.py"],
     [("sym / gensym", U + "symbol.py"), ("Singleton and its metaclass", U + "singleton.py")])

prop("D01", "Dynamic variables follow dynamic extent in each thread",
     "A dynamic variable read returns the innermost binding currently in effect in the reading thread (else the global default, else an attribute error), and leaving a binding block by any route restores exactly the bindings in effect before it. Rebinding updates the innermost existing binding only, never creates a name, and never becomes visible to another thread's own bindings; a view over the environment always reflects the current state. Threads start from the bindings of the main thread and their own blocks never leak out.",
     ["histories", "schedules"],
     "all sequences of enter/exit/raise/rebind/read/view operations up to a depth, in one and in two interleaved threads",
     "There are unboundedly many nestings of bind, update and exceptional exit; tests show a few.",
     [U + "dynassign.py"],
     [("dyn, let, update, make_dynvar, asdict, thread-local scope stacks", U + "dynassign.py")])

prop("D02", "Conditions and restarts resolve to the dynamically right handler",
     "Signaling runs the matching handlers of the signaling thread from the dynamically innermost outwards, in declaration order within one block and as established when the signal was sent, without unwinding; a handler that returns declines. Invoking a restart unwinds exactly to the innermost established restart of that name and makes its return value the value of that block, and a signal nobody handles does what its protocol says (return, warn, or raise the error). After any exit the handler and restart stacks are as they were before, and other threads are never affected.",
     ["programs", "schedules"],
     "all programs of nested handler and restart blocks, signals and invocations up to a size, compared with a reference interpreter, and two such programs interleaved",
     "Handler scoping is a property of arbitrary nesting shapes; the tests contain a dozen hand-picked ones.",
     [U + "conditions.py"],
     [("handlers, restarts, signal, error, cerror, warn, invoke, find_restart", U + "conditions.py")])

prop("D03", "Escapes land at exactly the right place",
     "A throw or escape-continuation call unwinds to the dynamically innermost matching catch point and makes that block return the thrown value, runs every cleanup in between, and never disturbs catch points with other tags. A throw that no live catch point matches is an error at the point of throw when its catch block has been exited. Ordinary exceptions pass through catch points unchanged.",
     ["programs"],
     "all programs of nested catches, escape continuations, throws, cleanups and ordinary raises up to a size",
     "Correct targeting depends on the nesting shape and on tags; tests cover a handful of nestings.",
     [U + "ec.py"],
     [("catch / throw / call_ec", U + "ec.py")])

prop("D04", "Exception utilities mirror the statements they stand for",
     "The expression forms of raise and try/except/else/finally, and exception remapping in both its forms, behave for every combination of body outcome, handler list, and handler outcome exactly as the corresponding Python statements would: same handler chosen, same value or exception (including chaining), cleanup run exactly once. An exception no handler matches propagates.",
     ["programs"],
     "all combinations of body outcome, handler specifications, handler arity and outcome, else and finally presence, mapping contents",
     "The tests exercise about ten combinations out of thousands.",
     [U + "excutil.py"],
     [("raisef, tryf, reraise, reraise_in", U + "excutil.py")])

prop("T01", "Trampolined code equals direct recursion in constant stack",
     "A program of mutually tail-calling functions written with trampolining and jumps computes the same result, side effects and exceptions as the same program written with ordinary calls, for every way of passing positional and named arguments and of mixing jumps, plain calls and trampolined functions, including jump targets that are trampolined, curried, memoized or bound methods. Chains of any length run in bounded stack depth, and the same holds for generators that hand over to one another in tail position.",
     ["programs"],
     "all small mutually recursive programs over jump/call/return choices, compared with direct recursion, and long chains with a bounded stack",
     "Equivalence over arbitrary call shapes cannot be enumerated by hand-written tests.",
     [U + "tco.py", U + "gtco.py"],
     [("trampolined / jump", U + "tco.py"), ("gtco / gtrampolined", U + "gtco.py")])

prop("T02", "Functional loops equal their imperative counterparts",
     "Each loop construct (plain, over an iterable, and their breakable versions) produces the same final value and the same sequence of body calls as the imperative loop it stands for, for every pattern of loop, skip, continue, break, early return and extra positional or named arguments, and for empty iterables. The iterable is consumed exactly as far as the loop ran.",
     ["programs"],
     "all action scripts of the loop body up to a length, for all four constructs and iterable lengths",
     "The space of per-iteration actions grows exponentially with loop length; tests fix one action pattern each.",
     [U + "fploop.py"],
     [("looped, looped_over, breakably_looped, breakably_looped_over", U + "fploop.py")])

prop("T03", "Fixpoint detection terminates cyclic recursion with least effort",
     "A pure function wrapped for fixpoint detection returns the same value as the plain function whenever the plain recursion terminates, and returns the declared bottom (with the function name and arguments passed to it when it is callable) as soon as it re-enters a call with arguments already in progress in the same thread. No call leaves stale in-progress state behind, whether it returns or raises, so later calls behave as first calls; the same holds in the tail-call-optimizing variant.",
     ["programs", "histories"],
     "all call graphs on a few states with chosen bottoms, all sequences of calls on them, including raising nodes",
     "Stale in-progress marks only show for particular graph shapes and call histories.",
     [U + "fix.py"],
     [("fix / fixtco", U + "fix.py")])

prop("F01", "Curried calls agree with the direct call for every split of arguments",
     "For every function signature and every way of splitting an argument list into successive partial calls, a curried function waits exactly until its required arguments are present and then gives the same result as the direct call with all the arguments. Surplus positional arguments are passed through on the right of the result (applied to it when it is callable) as documented, surplus that cannot be consumed at the top level is an error, and an argument that cannot fit the signature is reported as a type error.",
     ["inputs", "programs"],
     "all signatures up to 4 parameters over all parameter kinds, all argument lists, all partitions into successive calls",
     "The number of signature, argument and partition combinations is exponential; tests pick about twenty.",
     [U + "fun.py", U + "arity.py"],
     [("curry, partial", U + "fun.py"), ("signature binding and arity inspection", U + "arity.py")])

prop("F02", "Composition and argument utilities satisfy their defining equations",
     "Left and right compositions and pipes (eager and lazy, single- and multi-value, function and object forms) apply every function exactly once in the stated order, mapping structured return values onto positional and named arguments of the next function, and give the same result as writing the nested calls by hand. Argument flipping, rotation, selection, constant/identity functions and boolean combinators satisfy their defining equations for every arity, and lazy pipes perform no call before being run and never share state between branches.",
     ["programs", "histories"],
     "all chains up to a length over an alphabet of functions with varied arity and return shapes, all association and branching orders",
     "Composition laws quantify over all chains and return shapes.",
     [U + "fun.py", U + "seq.py", U + "funutil.py"],
     [("compose/to families, flip, rotate, tokth, withself, notf, andf, orf", U + "fun.py"), ("pipe, piped, lazy_piped, begin, do", U + "seq.py"), ("Values, call, callwith", U + "funutil.py")])

prop("F03", "Multiple dispatch picks the most recently defined matching method",
     "A call of a generic function runs exactly the most recently registered multimethod whose full signature (positional, named, variadic, defaults) accepts the arguments by type, no matter the order, module or inheritance level of registration, and raises a type error when none does. Augmenting a generic never changes calls that the new method does not match; method lookup on classes follows the resolution order; a type-checked single function accepts exactly what its annotations accept.",
     ["histories", "inputs"],
     "all registration histories over an alphabet of signatures crossed with all argument tuples, compared with a reference dispatcher",
     "Dispatch order is a property of the whole registration history times the argument space.",
     [U + "dispatch.py", U + "typecheck.py"],
     [("generic, augment, typed", U + "dispatch.py"), ("method resolution", U + "dispatch.py")])

prop("F04", "Run-time type checks decide the type's meaning",
     "Checking a value against a type specification answers whether the value belongs to the set that specification denotes, compositionally for unions, tuples, containers, mappings, callables, type variables and any nesting of these; checking never consumes or modifies the value. The same value is never accepted by a container specification if some element violates the element type.",
     ["inputs"],
     "all type expressions up to a nesting depth over a base alphabet crossed with all values up to a size, compared with an independent set-theoretic reference",
     "Types nest without bound and interact; tests check single layers.",
     [U + "typecheck.py"],
     [("isoftype", U + "typecheck.py")])

prop("S01", "Slices, views and functional updates agree with sequence semantics",
     "Indexing, slicing, containment and assignment through sequence views (of any nesting depth) act exactly as the same operation on the live underlying sequence, including after that sequence is mutated or resized. A functional update returns a new sequence or mapping equal to what in-place assignment would have produced, never touches the original, and reads replacement data lazily, at most once per item; slice membership agrees with range membership.",
     ["inputs", "histories"],
     "all slices and nestings over all small sequences, interleaved with all small mutation histories, compared with plain lists",
     "Slices have an unbounded parameter space (signs, None, steps, out of range) times nesting times mutation.",
     [U + "collections.py", U + "fup.py", U + "slicing.py"],
     [("roview, view, ShadowedSequence, in_slice, index_in_slice", U + "collections.py"), ("fupdate", U + "fup.py"), ("fup, islice notation", U + "slicing.py")])

prop("S02", "Container types keep their value semantics",
     "Immutable mappings never change after construction, equal and hash equal exactly when their contents do, and functional updates leave sources untouched; boxes, optional boxes and thread-local boxes always deliver the last value sent in (per thread where applicable) and compare as documented; a shim always forwards to the current content of its box. Mapping a function over a container visits every element once and preserves the container type, in place exactly for mutable containers.",
     ["histories", "schedules", "inputs"],
     "all operation sequences up to a depth against plain-Python models, in one and two threads",
     "Aliasing and staleness errors need particular operation histories.",
     [U + "collections.py"],
     [("frozendict, box, Some, ThreadLocalBox, Shim, unbox, mogrify", U + "collections.py")])

prop("S03", "Cons structures behave as their list and tree abstractions",
     "Linked lists and binary trees built from cons cells round-trip with Python sequences, and every list operation (construct, append, reverse, zip, map, access compositions, comparison, hashing, iteration schemes, pickling) agrees with the operation on the corresponding Python tuple or nested pair. Cells are immutable, the empty list is unique, and malformed structures are reported as type errors rather than silently misread.",
     ["inputs"],
     "all cons structures up to a size, all operations and accessor paths up to depth 4",
     "Shapes of trees grow exponentially; tests use three-element lists.",
     [U + "llist.py"],
     [("cons, ll, llist, lappend, lreverse, lzip, member, c[ad]+r", U + "llist.py")])

prop("S04", "Folds, scans and unfolds satisfy their recursive definitions",
     "Every fold, scan, map, zip and unfold variant (left/right, short/long, with or without initial value, several inputs) yields exactly the sequence or value its recursive definition yields, with the combining function called in that order and the right number of times. The last partial result of a scan equals the corresponding fold, inputs are read lazily where a lazy result is promised, and empty inputs follow the definition.",
     ["inputs", "programs"],
     "all tuples of inputs up to a length, all variants and options, with a non-commutative, non-associative combining operation, compared with reference recursions",
     "Variants times input length combinations times options is large; order errors are invisible with commutative test operations.",
     [U + "fold.py", U + "it.py"],
     [("foldl, foldr, reducel, reducer, scanl, scanr, rscanl, unfold, prod, running_minmax", U + "fold.py")])

prop("S05", "Iterator utilities compute their specification lazily",
     "Every iterator utility yields exactly the items its definition states for every finite input and parameter, reads no more of its input than the items requested require, and never replays or drops items of the source. Splits and windows partition or cover the input exactly, duplicates elimination keeps first occurrences, and utilities that stop at a condition leave the rest of the input unread.",
     ["inputs", "histories"],
     "all inputs up to a length over a small alphabet, all parameters, all consumption histories, compared with reference implementations and a consumption counter",
     "Laziness and off-by-one errors depend on consumption order, length and parameter combinations.",
     [U + "it.py", U + "slicing.py", U + "misc.py"],
     [("it batteries: map/zip families, take/drop/split, window, chunked, flatten, uniqify, inn, iindex, find, partition, within, interleave, subset, powerset", U + "it.py"), ("islice", U + "slicing.py"), ("Popper, CountingIterator, slurp", U + "misc.py")])

prop("S06", "Mathematical sequences follow their closed form",
     "A sequence specification that denotes a constant, cyclic, arithmetic, geometric or power sequence yields exactly the terms of that sequence (finite ones ending exactly at the stated last term), and a specification that denotes none is rejected. Termwise arithmetic, Cauchy products and diagonal reductions over finite or infinite sequences equal the term-by-term definition, with the operand order preserved, and the integer partition generators yield exactly the valid partitions, each once.",
     ["inputs"],
     "all specifications over small integers and rationals, all operator and operand-kind combinations, all n up to a bound",
     "Specification recognition quantifies over all number tuples.",
     [U + "mathseq.py", U + "numutil.py"],
     [("s, imathify and operators, cauchyprod, diagonal_reduce, fibonacci, triangular, primes", U + "mathseq.py"), ("partition_int family, almosteq, ulp", U + "numutil.py")])

prop("B01", "Run-time binding constructs scope names correctly",
     "The function forms of let, letrec, sequential evaluation and their decorator forms give each name the value its binding rules prescribe: parallel bindings cannot see each other, recursive ones see all earlier ones, bodies see all, inner scopes shadow outer ones, and assignment affects exactly the innermost environment owning the name. Environments keep their bindings, finalization, freezing of the name set and assign-once rules under every sequence of operations.",
     ["programs", "histories"],
     "all binding programs up to a size and all environment operation sequences up to a depth, against a reference model",
     "Shadowing and ordering errors depend on program shape.",
     [U + "env.py", U + "let.py", U + "lispylet.py", U + "assignonce.py", U + "seq.py"],
     [("env", U + "env.py"), ("let/letrec/dlet/blet", U + "let.py"), ("ordered let", U + "lispylet.py"), ("assignonce", U + "assignonce.py"), ("begin/do/do0/assign", U + "seq.py")])

prop("B02", "Nondeterministic evaluation enumerates exactly the solutions",
     "A nondeterministic program of choices, dependent bindings, guards and a result expression yields exactly the tuple of results, in order and with multiplicity, of the equivalent nested loops, in both the function and the macro form. The list monad underneath satisfies its algebraic laws.",
     ["programs"],
     "all programs of up to 4 lines over an alphabet of choice, dependent choice, guard, plain expression lines and result, in both forms, compared with nested loops",
     "Binding visibility and order depend on the shape of the line list.",
     [U + "amb.py", U + "syntax/forall.py"],
     [("forall, choice, insist, deny, MonadicList", U + "amb.py"), ("forall macro", U + "syntax/forall.py")])

prop("L01", "Lazy evaluation forces each promise at most once and only when needed",
     "In lazified code an argument or binding is evaluated only if its value is used, at most once, and in that case the program gives the same result, output order of the forced computations and exceptions as strict call-by-name with sharing; unused diverging or raising arguments have no effect. Explicit promises cache their value or exception, forcing passes through containers and non-promises unchanged, and strict functions called from lazified code receive plain values.",
     ["programs"],
     "all small programs over function calls, nested arguments, let bindings, conditionals, containers and raising arguments, compared with a reference call-by-need interpreter",
     "Over-forcing and double forcing show only for particular program shapes.",
     [U + "lazyutil.py", U + "syntax/lazify.py"],
     [("Lazy, force, maybe_force_args", U + "lazyutil.py"), ("lazify, lazyrec, lazy macros", U + "syntax/lazify.py")])

prop("L02", "Captured continuations resume the rest of the computation",
     "Inside a continuations block, invoking a captured continuation with values runs the rest of the capturing function body after the capture point, with those values bound to its targets (including starred and conditional forms), any number of times and after the original call has returned, each run independent and returning its value to the invoker's continuation. A function whose continuation is never captured behaves exactly as it would without the block, tail chains run in constant stack, and the default continuation returns values unchanged.",
     ["programs"],
     "all small programs with capture points in sequence, branches and nested calls and all resume histories up to a depth, compared with a reference interpreter",
     "Multi-shot resumption histories are unbounded; tests contain a few classic examples.",
     [U + "syntax/tailtools.py"],
     [("continuations, call_cc, chain_conts", U + "syntax/tailtools.py")])

prop("L03", "Tail-call and implicit-return macros preserve program meaning",
     "Adding automatic tail-call optimization and/or implicit return to a block of function definitions and lambdas leaves every result, side effect order and exception unchanged relative to the plain program (with explicit returns in tail position), for all tail-position shapes: conditionals, boolean operators, sequencing forms, nested and exception-handling statements. Tail calls in every such position run in bounded stack depth.",
     ["programs"],
     "all tail-position program shapes up to a depth, both macros alone and combined, compared with the plain program, plus long chains",
     "Tail position is defined recursively over the syntax; tests sample a few shapes.",
     [U + "syntax/tailtools.py"],
     [("autoreturn, tco macros", U + "syntax/tailtools.py")])

prop("L04", "Binding macros are lexically scoped",
     "The let family, do family, their decorator and block forms resolve every name reference and assignment to the binding that lexical scoping prescribes (innermost enclosing binding form or the surrounding Python scope), in the evaluation order of the form, in every supported surface syntax, with the surrounding Python variables unaffected unless assigned there. Local names in sequencing forms are visible from their definition onward and gone after deletion.",
     ["programs"],
     "all nestings of binding forms up to a size with reads, assignments, lambdas and local definitions, in every surface syntax, compared with a reference interpreter",
     "Scoping correctness quantifies over all nestings and shadowings.",
     [U + "syntax/letdo.py", U + "syntax/letdoutil.py", U + "syntax/scopeanalyzer.py", U + "syntax/simplelet.py"],
     [("let/letseq/letrec/dlet/blet/do macros", U + "syntax/letdo.py"), ("surface syntax", U + "syntax/letdoutil.py"), ("scope analysis", U + "syntax/scopeanalyzer.py")])

prop("L05", "Function-notation macros preserve meaning",
     "Automatic currying, prefix call notation, multi-expression, named, quick and environment-backed lambdas produce functions with the same results as the hand-written plain equivalents, for every nesting of these notations, and conditional-expression macros evaluate exactly the branch their conditions select. Names, parameters and defaults of functions are preserved as documented.",
     ["programs"],
     "all small expressions in each notation and pairwise nestings, compared with hand-expanded plain Python",
     "Notations compose arbitrarily; tests show each alone.",
     [U + "syntax/autocurry.py", U + "syntax/prefix.py", U + "syntax/lambdatools.py", U + "syntax/ifexprs.py"],
     [("autocurry", U + "syntax/autocurry.py"), ("prefix", U + "syntax/prefix.py"), ("multilambda, namedlambda, fn, quicklambda, envify", U + "syntax/lambdatools.py"), ("aif, cond", U + "syntax/ifexprs.py")])

prop("L06", "Syntactic substitution and implicit reference resolve by their rules",
     "Local syntactic bindings replace exactly the marked names, templates and blocks inside their form, left to right and innermost scope first, with all parameters of a template substituted by its arguments at once, and nothing outside the form. Implicit attribute reference resolves each loaded name to the attribute of the innermost object that has it, else to the ordinary variable, and leaves the targets of assignments and deletions alone.",
     ["programs"],
     "all small programs over templates, nested forms and names, compared with hand-expanded plain Python",
     "Substitution order and scope errors need particular name and nesting combinations.",
     [U + "syntax/letsyntax.py", U + "syntax/autoref.py"],
     [("let_syntax, abbrev", U + "syntax/letsyntax.py"), ("autoref", U + "syntax/autoref.py")])

prop("N01", "Message framing survives any chunking and resynchronizes after junk",
     "Whatever sequence of messages is encoded and concatenated, and however the byte stream is cut into reads, the decoder returns exactly those message bodies in order, then the end-of-stream result, with no byte lost between messages. Bytes before a valid header that do not form one are skipped, malformed headers never crash the decoder or swallow a following valid message, and a truncated last message yields the end-of-stream result.",
     ["inputs", "fault_sequences"],
     "all message lists up to a size with all junk insertions and truncation points, under all ways of cutting the stream into reads (all cut positions for short streams, all single and double cuts for streams straddling the buffer limit)",
     "Tests feed messages in fixed-size chunks; framing bugs depend on where a read ends.",
     [U + "net/msg.py", U + "net/util.py"],
     [("encodemsg, decodemsg, MessageDecoder", U + "net/msg.py"), ("ReceiveBuffer, sources, recvall, netstringify", U + "net/util.py")])

prop("N02", "REPL control channel and sessions answer every request and stay isolated",
     "On the control channel every well-formed request gets exactly one reply in order, with success exactly when the named command and its parameters are valid in the current pairing state, and invalid requests are refused without ending the session. Background jobs deliver their value or exception to exactly one collector once finished, whatever the timing, and standard streams redirected per session deliver each session's output to that session only, completely and in order. A session ends whenever its client quits or disconnects, at whatever point of its input or output, and a failed attempt to start the server leaves nothing behind.",
     ["histories", "schedules"],
     "all request histories up to a length, all interleavings of sessions, all disconnection points of an input, and all schedules of job start, completion and collection",
     "Pairing state and job timing races depend on history and scheduling.",
     [U + "net/server.py", U + "net/client.py", U + "net/common.py", U + "net/ptyproxy.py"],
     [("ControlSession request loop", U + "net/server.py"), ("bg / fg", U + "net/server.py"), ("ControlClient", U + "net/client.py"), ("ApplevelProtocolMixin", U + "net/common.py")])

prop("X01", "The test framework counts every test exactly once",
     "For every program of test assertions, test blocks, explicit fails, errors and warnings, stray signals and exceptions in nested test sets, the reported run, fail, error and warning counts of each set equal the true outcomes, each counted once in its own set and in every enclosing one. A failing or erroring assertion never stops the rest of the set, terminating ends the whole session immediately, and post-processing callbacks run once per reported problem, innermost setting first.",
     ["programs"],
     "all programs up to a size over assertion kinds and outcomes in nested test sets, compared with a reference counter",
     "A test framework cannot be settled by its own passing tests.",
     [U + "test/fixtures.py", U + "syntax/testingtools.py"],
     [("session, testset, counters, terminate, catch_signals", U + "test/fixtures.py"), ("test, test_signals, test_raises, fail, error, warn, the", U + "syntax/testingtools.py")])

if __name__ == "__main__":
    import re
    for p in P:
        assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
        print(json.dumps(p))
