import json
P=[]
def p(id,title,st,over,qt,why,files,mech,state=None,obs=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state:a["state"]=state
    if obs:a["observe_at"]=obs
    a["hook_needed"]=None
    P.append({"id":id,"title":title,"statement":st,"quantifier":{"over":over,"text":qt},"why_tests_cant":why,"anchors":a})
I="include/"
p("P01","Each call reaches exactly the stub of the method that was called",
 "Every call through the object handed out by a mock performs the behaviour recorded for exactly that virtual method on exactly that mock, for any supported class shape (up to a thousand virtual methods; inherited, overloaded, const-, volatile- or reference-qualified methods; a virtual destructor at any position) and any order of stubbing. A method that was never stubbed is reported as unexpected and never runs another method's behaviour.",
 ["programs","inputs","histories"],"all single-inheritance class shapes, all subsets and orders of stubbed methods, any number of mocks of the same or different classes alive together",
 "Tests use a handful of classes with a few methods; a wrong slot computation or handler lookup shows only for particular positions, class sizes, qualifier combinations, stubbing orders or pairs of live mocks.",
 [I+"mockutils/VTUtils.hpp",I+"mockutils/VirtualOffestSelector.hpp",I+"mockutils/DynamicProxy.hpp",I+"mockutils/MethodProxyCreator.hpp",I+"mockutils/gcc/VirtualTable.hpp",I+"mockutils/FakeObject.hpp",I+"fakeit/Mock.hpp",I+"fakeit/MockImpl.hpp",I+"fakeit/Prototype.hpp"],
 [("virtual slot discovery",I+"mockutils/VTUtils.hpp"),("proxy to handler lookup",I+"mockutils/DynamicProxy.hpp"),("cloned virtual table",I+"mockutils/gcc/VirtualTable.hpp")])
p("P02","Recorded actions run in order and exactly as often as declared",
 "Within one stubbing, successive calls it serves perform the recorded actions in the order they were written, each exactly as many times as declared (the Always forms without end), also when actions throw or call back into the same mocked method. Once all actions of the stubbing are used up, further calls it would serve are reported as unexpected.",
 ["histories","programs"],"all sequences of Return, Do, Throw, quantified and Always actions of any length, and all call histories including nested calls made from inside actions",
 "The guarantee is about every prefix of every action list under every interleaving with throwing and re-entrant actions; tests fix a few short lists.",
 [I+"fakeit/ActionSequence.hpp",I+"fakeit/Action.hpp",I+"fakeit/StubbingProgress.hpp",I+"fakeit/Quantifier.hpp",I+"fakeit/WhenFunctor.hpp",I+"fakeit/FakeFunctor.hpp"],
 [("action queue",I+"fakeit/ActionSequence.hpp"),("repeat counters",I+"fakeit/Action.hpp"),("fluent recording",I+"fakeit/StubbingProgress.hpp")])
p("P03","The most recent matching stubbing serves each call",
 "A call is served by the most recently recorded stubbing of that method whose argument condition accepts the call's arguments, and every other stubbing keeps its remaining actions. If that stubbing has no action left the call is unexpected; it never falls back to an older stubbing. A stubbing statement abandoned because an exception passes through it records nothing.",
 ["histories","inputs"],"all overlapping sets of unconditional, value, matcher and predicate stubbings recorded before, between and inside calls, and all argument values",
 "Which stubbing wins depends on recording order, overlap of conditions and what has been consumed; the number of combinations is far beyond listed examples.",
 [I+"fakeit/RecordedMethodBody.hpp",I+"fakeit/MethodMockingContext.hpp",I+"fakeit/invocation_matchers.hpp",I+"fakeit/WhenFunctor.hpp"],
 [("stubbing selection",I+"fakeit/RecordedMethodBody.hpp"),("commit or abandon of a stubbing statement",I+"fakeit/WhenFunctor.hpp")])
p("P04","Argument conditions accept exactly the values they describe",
 "Each argument condition (plain value, Eq, Ne, Lt, Le, Gt, Ge, the C-string comparisons, ApproxEq, Any, the wildcard, a predicate) accepts an argument exactly when the stated relation holds between the argument and the expected value, and a condition on several arguments accepts exactly when every position does, giving the same answer in stubbing and in verification. The expected values are those at the moment the condition was written, even if the variable used is later changed or destroyed.",
 ["inputs"],"all argument types with the needed operators and all values, including limits, NaN, signed zeros, empty and prefix strings, null pointers, mixed expected and actual types, and every argument position",
 "The relation must hold over whole value domains and for each argument position; tests sample one or two values per matcher.",
 [I+"fakeit/argument_matchers.hpp",I+"fakeit/invocation_matchers.hpp",I+"fakeit/MatchersCollector.hpp",I+"mockutils/TupleDispatcher.hpp",I+"mockutils/type_utils.hpp"],
 [("typed comparison matchers",I+"fakeit/argument_matchers.hpp"),("conjunction over arguments",I+"fakeit/invocation_matchers.hpp"),("matcher creation per argument",I+"fakeit/MatchersCollector.hpp")])
p("P05","Stub code and history see exactly the arguments the caller passed",
 "Stub actions, predicates and spied methods receive exactly the arguments of the call: equal values for by-value parameters and the caller's own object for reference and pointer parameters, so that writes made by stub code are seen by the caller and rvalue arguments can be moved from. By-value arguments stay recorded unchanged for later verification unless stub code itself took them by reference and changed them.",
 ["inputs","programs"],"all parameter lists (any number of parameters; scalars, enums, pointers, classes of any size or alignment, lvalue, const and rvalue references, move-only types) and all values",
 "Forwarding goes through several template layers that behave differently per parameter category; only a wide sweep over types, positions and value patterns exercises each path.",
 [I+"mockutils/MethodProxyCreator.hpp",I+"fakeit/RecordedMethodBody.hpp",I+"fakeit/ActualInvocation.hpp",I+"mockutils/TupleDispatcher.hpp",I+"fakeit/DomainObjects.hpp",I+"mockutils/type_utils.hpp",I+"fakeit/Action.hpp"],
 [("argument forwarding",I+"mockutils/MethodProxyCreator.hpp"),("argument storage",I+"fakeit/ActualInvocation.hpp"),("argument unpacking",I+"mockutils/TupleDispatcher.hpp")])
p("P06","The caller receives exactly the stubbed result",
 "A call returns exactly what was stubbed: an equal value for by-value results on every call served, the very same object for reference and pointer results, a move-only result once, and a stubbed exception arrives with its exact type and value. Faked methods and value-less Return give zero, null or a default-constructed value, and report the documented error when the result type has no default.",
 ["inputs","programs"],"all result types (scalars, enums, pointers, classes of any size, references, move-only, const-qualified, void) and all ways of stubbing a result, including several values and quantified values in one statement",
 "Results travel through copies, captured lambdas and calling conventions that differ per result category; each category and repetition has to be driven and compared.",
 [I+"fakeit/StubbingProgress.hpp",I+"fakeit/Action.hpp",I+"fakeit/MethodMockingContext.hpp",I+"mockutils/DefaultValue.hpp",I+"mockutils/MethodProxyCreator.hpp",I+"fakeit/Quantifier.hpp"],
 [("result capture",I+"fakeit/StubbingProgress.hpp"),("default results",I+"mockutils/DefaultValue.hpp"),("assignment stubbing",I+"fakeit/MethodMockingContext.hpp")])
p("P07","Output-argument stubbing writes exactly the designated arguments",
 "ReturnAndSet and AlwaysReturnAndSet return the given result and assign the given values to exactly the designated arguments, counted from the first argument or named by placeholder in any order. Reference and pointer arguments of the caller receive the value on every call served, and all other arguments keep their values.",
 ["inputs","programs"],"all parameter lists mixing pointer, reference and plain parameters, all subsets and orders of designated arguments, all values, repeated calls",
 "Index arithmetic over argument packs goes wrong only for particular counts, orders or mixtures of pointer and reference parameters.",
 [I+"fakeit/StubbingProgress.hpp",I+"fakeit/Quantifier.hpp"],
 [("argument assignment",I+"fakeit/StubbingProgress.hpp")])
p("P08","A call without recorded behaviour is always reported",
 "A call that no recorded behaviour accepts (method never stubbed, arguments rejected, or actions used up) never returns normally, whatever the method's parameter and result types. It is announced exactly once to every registered event handler and then to the testing framework, stating the kind of problem and, for a stubbed method, its name and argument values, and unless one of these throws the caller gets the unexpected-call exception; the mock stays fully usable afterwards.",
 ["histories","inputs","programs"],"all method signatures, all points of a mock's life, repeated and nested unexpected calls, with and without handlers that throw",
 "An unexpected call is reached through any signature and at any moment (never stubbed, exhausted, after reset, inside an action); tests only try a few int methods.",
 [I+"fakeit/RecordedMethodBody.hpp",I+"fakeit/MockImpl.hpp",I+"fakeit/FakeitContext.hpp",I+"fakeit/ActionSequence.hpp",I+"fakeit/FakeitEvents.hpp",I+"fakeit/FakeitExceptions.hpp"],
 [("unmatched call path",I+"fakeit/RecordedMethodBody.hpp"),("never stubbed call path",I+"fakeit/MockImpl.hpp"),("event dispatch",I+"fakeit/FakeitContext.hpp")])
p("P09","Verification passes exactly when the required number of matches occurred",
 "A verification passes exactly when the number of non-overlapping, earliest-first occurrences of its pattern in the chronological list of calls considered meets the stated count: exactly n, at least n, once, twice, never, any, or at least once when no count is given. Terms joined by + or repeated by * must be consecutive calls; terms separated by commas may have other calls between them.",
 ["histories","inputs"],"all call histories over several mocks, all patterns built from methods, argument conditions, +, * and commas, and all counts including zero",
 "Correct counting is a statement about all histories and patterns; hand-written tests cover short ones and miss boundary, overlap and backtracking situations.",
 [I+"fakeit/MatchAnalysis.hpp",I+"fakeit/SequenceVerificationExpectation.hpp",I+"fakeit/SequenceVerificationProgress.hpp",I+"fakeit/Sequence.hpp",I+"fakeit/VerifyFunctor.hpp"],
 [("pattern search",I+"fakeit/MatchAnalysis.hpp"),("count decision",I+"fakeit/SequenceVerificationExpectation.hpp"),("pattern composition",I+"fakeit/Sequence.hpp")])
p("P10","Verification looks at the complete, chronological call history",
 "The history considered by a verification holds every call accepted by a recorded stubbing exactly once, ordered by when the calls were made across all mocks (an outer call before calls made from inside its action), and no rejected call. By default it consists of all calls on the mocks named in the pattern; explicit sources given with Using restrict it to exactly those sources, and verifying never adds, drops or reorders calls.",
 ["histories"],"all interleavings of calls over several mocks and methods, including nested, throwing and exhausted calls, long histories, and all choices of sources",
 "Order and completeness over arbitrary interleavings of several mocks cannot be enumerated by examples; errors appear only for long, nested or mixed histories.",
 [I+"fakeit/Invocation.hpp",I+"fakeit/SortInvocations.hpp",I+"fakeit/ActualInvocationsSource.hpp",I+"fakeit/RecordedMethodBody.hpp",I+"fakeit/UsingFunctor.hpp",I+"fakeit/UsingProgress.hpp",I+"fakeit/VerifyFunctor.hpp",I+"fakeit/MockImpl.hpp"],
 [("call ordinals",I+"fakeit/Invocation.hpp"),("ordering",I+"fakeit/SortInvocations.hpp"),("source selection",I+"fakeit/ActualInvocationsSource.hpp")])
p("P11","Only calls covered by a passed verification count as verified",
 "A no-other-invocations check passes exactly when every call in its scope was part of a pattern occurrence counted by an earlier passed verification. A failed verification covers nothing, and verifications restricted to unverified calls consider exactly the calls not covered so far.",
 ["histories"],"all interleavings of calls, passing and failing verifications, restricted verifications and no-other-invocations checks over mocks and single methods",
 "The verified state accumulates over a history of passing and failing statements; tests exercise one or two statements.",
 [I+"fakeit/VerifyNoOtherInvocationsVerificationProgress.hpp",I+"fakeit/VerifyNoOtherInvocationsFunctor.hpp",I+"fakeit/UnverifiedFunctor.hpp",I+"fakeit/SequenceVerificationExpectation.hpp",I+"fakeit/MatchAnalysis.hpp",I+"fakeit/ActualInvocationsSource.hpp"],
 [("marking of matched calls",I+"fakeit/SequenceVerificationExpectation.hpp"),("unverified filter",I+"fakeit/ActualInvocationsSource.hpp"),("no other invocations",I+"fakeit/VerifyNoOtherInvocationsVerificationProgress.hpp")])
p("P12","Every verification statement delivers its verdict exactly once",
 "A failing verification statement raises exactly one failure when the statement ends, after all its qualifiers have been applied; a passing one raises none. Used as a boolean the statement yields the same verdict and raises nothing, invalid counts are refused with an error, and a statement abandoned because another exception passes through it raises nothing.",
 ["histories","fault_sequences"],"all verification forms and verdicts, used as statement, as boolean or negated, in normal flow, inside destructors running during unwinding, and inside stub actions",
 "Verdicts are delivered from destructors of shared temporaries; duplicated, lost or early delivery depends on how the statement is used and on exceptions in flight.",
 [I+"fakeit/SequenceVerificationProgress.hpp",I+"fakeit/SequenceVerificationExpectation.hpp",I+"fakeit/VerifyNoOtherInvocationsVerificationProgress.hpp",I+"fakeit/ThrowFalseEventHandler.hpp",I+"mockutils/smart_ptr.hpp",I+"mockutils/Macros.hpp"],
 [("deferred verification",I+"fakeit/SequenceVerificationExpectation.hpp"),("shared ownership of the pending check",I+"mockutils/smart_ptr.hpp"),("exception in flight test",I+"mockutils/Macros.hpp")])
p("P13","Failure reports state what was expected and what really happened",
 "The report of a failed verification gives the source location of the statement, the expected pattern as written, the expected count and its kind, the true number of matches, and the considered calls in chronological order with their method names and argument values (the first fifty when there are more). The report of a no-other-invocations failure lists exactly the uncovered calls in chronological order.",
 ["histories","inputs"],"all patterns, counts, histories of any length around the listing limit, and printable and unprintable argument types and values",
 "The report must agree with the real history for all histories and patterns; tests compare a dozen fixed messages.",
 [I+"fakeit/DefaultEventFormatter.hpp",I+"fakeit/FakeitEvents.hpp",I+"mockutils/Formatter.hpp",I+"mockutils/TuplePrinter.hpp",I+"fakeit/ActualInvocation.hpp",I+"fakeit/api_macros.hpp","config/standalone/StandaloneFakeit.hpp"],
 [("event formatting",I+"fakeit/DefaultEventFormatter.hpp"),("argument printing",I+"mockutils/Formatter.hpp"),("location capture",I+"fakeit/api_macros.hpp")])
p("P14","Failure events reach handlers, adapter and formatter as configured",
 "Every failure event is delivered exactly once to each registered event handler in registration order and then to the active testing-framework adapter, carrying the true event data; a custom adapter or formatter is used from when it is set until it is reset, and then the built-in one again. Removing the handlers stops delivery to them, and a handler that throws stops later delivery and its exception reaches the caller.",
 ["histories","configurations"],"all histories of registering, clearing, setting and resetting handlers, adapters and formatters mixed with passing and failing checks and unexpected calls, in every shipped integration",
 "Configuration is global state changed over time; mistakes show only after particular sequences of set, reset and failure.",
 [I+"fakeit/FakeitContext.hpp",I+"fakeit/DefaultFakeit.hpp",I+"fakeit/EventHandler.hpp",I+"fakeit/EventFormatter.hpp",I+"fakeit/FakeitEvents.hpp","config/catch/CatchFakeit.hpp"],
 [("event fan-out",I+"fakeit/FakeitContext.hpp"),("custom adapter and formatter",I+"fakeit/DefaultFakeit.hpp")])
p("P15","Each framework integration turns failures into that framework's failures",
 "Under every shipped test-framework integration a failed verification or an unexpected call makes the running test fail in that framework's own reporting, once per failure, with the complete failure report, while passing checks report nothing and the tests that follow run normally. For verifications the location of the verification statement is reported too (except under Qt Test, NUnit and Microsoft's framework, whose integrations do not pass it on).",
 ["configurations","histories"],"all shipped integrations whose framework is available (or can be stood in for by its documented interface), all failure kinds, several failing and passing tests in one run",
 "The repository's tests run under a single framework only; the other integrations are merely compiled.",
 ["config/standalone","config/gtest","config/catch","config/boost","config/doctest","config/tpunit","config/cute","config/mettle","config/qtest","config/mstest"],
 [("framework adapters","config/")])
p("P16","Spying is transparent and ends with the mock",
 "A spied method runs the real object's implementation with the caller's arguments, gives back its result, exception and side effects, and is recorded for verification, while methods never mentioned to the mock keep their original behaviour and stubbed ones are overridden. When the mock is reset or destroyed every method of the object behaves as if it had never been spied, and the object's data is never altered by the mock.",
 ["histories","programs"],"all mixtures of spied, stubbed and untouched methods, real methods that call each other, recurse, throw or mutate state, derived objects viewed through a base, repeated spying of one object",
 "Transparency has to hold over arbitrary call graphs between real and replaced methods and at every moment of spying; tests use independent one-line methods.",
 [I+"fakeit/SpyFunctor.hpp",I+"fakeit/SpyWithoutVerifyFunctor.hpp",I+"fakeit/SpyingContext.hpp",I+"fakeit/MockImpl.hpp",I+"mockutils/DynamicProxy.hpp",I+"mockutils/gcc/VirtualTable.hpp"],
 [("delegation to the original",I+"fakeit/MockImpl.hpp"),("temporary unhooking",I+"mockutils/DynamicProxy.hpp"),("restoring the object",I+"mockutils/DynamicProxy.hpp")])
p("P17","Reset and history clearing bring back exactly the promised state",
 "After Reset a mock behaves like a freshly created one: no stubbing, no history, untouched methods unexpected (or original for a spied object), and everything can be stubbed, called and verified again, including the destructor. After clearing the invocation history no earlier call is seen by any verification while all stubbings, their progress and the object's data stay as they were; other mocks are unaffected.",
 ["histories"],"all histories of stubbing, calling, verifying, clearing and resetting repeated any number of times on fakes and spies",
 "Leftover state from before a reset shows only when particular features are used again afterwards in a particular order.",
 [I+"fakeit/MockImpl.hpp",I+"mockutils/DynamicProxy.hpp",I+"fakeit/RecordedMethodBody.hpp",I+"mockutils/FakeObject.hpp",I+"fakeit/Mock.hpp"],
 [("reset",I+"mockutils/DynamicProxy.hpp"),("clear",I+"fakeit/MockImpl.hpp")])
p("P18","Mocked objects survive deletion and mocked destructors behave as methods",
 "Destroying or deleting the object of a mock through its virtual destructor is harmless any number of times while the mock lives and has no effect unless the destructor was stubbed; a stubbed destructor runs its recorded actions per destruction, is recorded and can be verified like any method. Smart pointers to the object, including ones captured in recorded arguments or actions of the same mock, may be released in any order, also while the mock is being reset or destroyed or its history cleared, without double destruction or invalid access.",
 ["histories","programs"],"all positions of the destructor among the virtual methods, all ownership graphs between production smart pointers, recorded arguments and the mock, all release orders",
 "Ownership cycles and release orders are combinatorial and errors are memory errors that plain tests do not observe.",
 [I+"fakeit/MockImpl.hpp",I+"mockutils/gcc/VirtualTable.hpp",I+"mockutils/DynamicProxy.hpp",I+"mockutils/FakeObject.hpp",I+"fakeit/MethodMockingContext.hpp"],
 [("destructor slots",I+"mockutils/gcc/VirtualTable.hpp"),("teardown order",I+"fakeit/MockImpl.hpp")])
p("P19","The mock object is a faithful instance of its type",
 "The object of a mock reports the mocked class as its dynamic type, can be cast to the class and all its bases and back but not to unrelated types, has correct alignment, and its data members start zeroed, hold independent values per mock, and keep what is written to them across calls. A data member stubbed with constructor arguments is constructed from them and destroyed exactly once.",
 ["programs","inputs"],"all single-inheritance hierarchies, data layouts, alignments and member types, any number of live mocks",
 "Layout, alignment and type information are decided per class by low-level code; only a sweep over shapes with memory checking shows errors.",
 [I+"mockutils/FakeObject.hpp",I+"mockutils/gcc/VirtualTable.hpp",I+"mockutils/gcc/is_simple_inheritance_layout.hpp",I+"mockutils/DynamicProxy.hpp",I+"fakeit/StubbingImpl.hpp",I+"fakeit/Mock.hpp"],
 [("object layout",I+"mockutils/FakeObject.hpp"),("type information",I+"mockutils/gcc/VirtualTable.hpp"),("data member stubbing",I+"mockutils/DynamicProxy.hpp")])
p("P20","No memory error, leak or double destruction in any mock lifetime",
 "Any sequence of documented operations on mocks, ending with destruction of the mocks in any order, performs no invalid memory access or other undefined behaviour and leaks nothing. Every value the framework copied or moved into itself (arguments, results, expected values, functors, exceptions) is destroyed exactly once, at the latest when its mock is reset or destroyed or the statement holding it ends.",
 ["histories","programs"],"all histories of stubbing, abandoned stubbing, calling, verifying, resetting and destroying over several mocks with instrumented payload types",
 "Memory errors and leaks do not make a plain test fail; they need instrumented runs over many different histories.",
 [I+"fakeit/MethodMockingContext.hpp",I+"fakeit/ActionSequence.hpp",I+"fakeit/RecordedMethodBody.hpp",I+"mockutils/smart_ptr.hpp",I+"mockutils/Destructible.hpp",I+"mockutils/DynamicProxy.hpp",I+"mockutils/gcc/VirtualTable.hpp",I+"fakeit/invocation_matchers.hpp",I+"mockutils/DefaultValue.hpp"],
 [("ownership of recorded objects",I+"fakeit/MethodMockingContext.hpp"),("pending verification ownership",I+"mockutils/smart_ptr.hpp"),("table memory",I+"mockutils/gcc/VirtualTable.hpp")])
p("P21","Exceptions from user code pass through and leave mocks consistent",
 "An exception thrown by a stub action, predicate, comparison, spied method, event handler, or by copying or moving an argument, result or expected value reaches the caller unchanged. Afterwards every mock involved behaves as the operations completed so far prescribe: an action that started is consumed and its call recorded, anything interrupted earlier has no effect, and nothing is leaked or destroyed twice.",
 ["fault_sequences","histories"],"a fault at every point where user code is invoked during stubbing, calling, verifying and reporting, alone and repeatedly",
 "Each of the many points where user code runs is a fault point; tests throw from a handful of actions.",
 [I+"fakeit/RecordedMethodBody.hpp",I+"fakeit/ActionSequence.hpp",I+"mockutils/Finally.hpp",I+"fakeit/WhenFunctor.hpp",I+"fakeit/MatchersCollector.hpp",I+"fakeit/StubbingProgress.hpp",I+"fakeit/FakeitContext.hpp",I+"mockutils/DynamicProxy.hpp"],
 [("clean-up on unwinding",I+"mockutils/Finally.hpp"),("consumption on throw",I+"fakeit/ActionSequence.hpp"),("matcher construction",I+"fakeit/MatchersCollector.hpp")])
p("P22","Mocks used by different threads do not affect each other",
 "When each mock is used by one thread at a time, any number of threads may create, stub, call, verify, reset and destroy their own mocks concurrently without data races, and every thread observes the results it would observe alone. The chronological order of calls is unique and consistent with each thread's program order and with synchronisation between threads.",
 ["schedules","histories"],"all interleavings of threads that each own their mocks, including hand-over of mocks between synchronised threads",
 "Tests are single threaded; races need concurrent schedules and a race detector.",
 [I+"fakeit/Invocation.hpp",I+"fakeit/DomainObjects.hpp",I+"fakeit/FakeitContext.hpp",I+"fakeit/MockImpl.hpp",I+"mockutils/DefaultValue.hpp",I+"mockutils/MethodInvocationHandler.hpp"],
 [("process-wide call counter",I+"fakeit/Invocation.hpp"),("process-wide method counter",I+"fakeit/DomainObjects.hpp"),("shared defaults",I+"mockutils/DefaultValue.hpp")])
p("P23","The single-header distributions behave like the modular sources",
 "For every test-framework configuration, the shipped single header and the one the generator script produces from the current sources are self-contained, compile, and give the same observable behaviour (results, exceptions, verdicts and reports) as the modular headers for any program.",
 ["configurations","programs"],"all shipped configurations, shipped and freshly generated headers, a broad deterministic workload of programs",
 "Tests compile against the modular headers only.",
 ["generate_fakeit_single_header.py","single_header","config","include"],
 [("header amalgamation","generate_fakeit_single_header.py"),("shipped amalgamations","single_header/")])
p("P24","Behaviour is the same under every supported compiler setting",
 "The same program gives the same observable behaviour (results, exceptions, verdicts, reports apart from implementation-defined type names) with each supported compiler, language standard from C++11 on, and supported optimisation level.",
 ["configurations","programs"],"GCC and Clang, C++11 to C++20, -O0 and -O1 (and higher for Clang where the README allows it)",
 "The test-suite is built in one configuration; conditional code for other standards and compilers is never run.",
 [I+"mockutils/Macros.hpp",I+"fakeit/StubbingProgress.hpp",I+"mockutils/type_utils.hpp",I+"mockutils/gcc",I+"fakeit/Quantifier.hpp","README.md"],
 [("standard-dependent code paths",I+"mockutils/Macros.hpp"),("compiler-dependent code paths",I+"mockutils/gcc")])
with open("/verif/properties.jsonl","w") as f:
    for x in P: f.write(json.dumps(x,ensure_ascii=False)+"\n")
import os
try:
    import jsonschema
except ImportError: jsonschema=None
s=json.load(open("/root/.vp/PROPERTIES.schema.json"))
for x in P:
    try: jsonschema and jsonschema.validate(x,s)
    except Exception as e: print(x["id"],str(e)[:300])
    assert len(x["title"])<=80,x["id"]
    n=x["statement"].count(". ")+1
    if n>3: print("long",x["id"],n)
    for fl in x["anchors"]["files"]:
        if not os.path.exists("/repo/"+fl): print("nofile",x["id"],fl)
