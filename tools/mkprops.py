#!/usr/bin/env python3
# writes properties.jsonl (kept in a generator so that the text stays reviewable)
import json,os
V=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P=[]
def p(id,title,statement,over,qtext,why,files,mech,state=None,observe=None):
    a={"files":files,"mechanism":[{"name":m,"where":files[0]} for m in mech]}
    if state: a["state"]=[{"name":x,"where":files[0]} for x in state]
    if observe: a["observe_at"]=observe
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":qtext},"why_tests_cant":why,"anchors":a})

W="src/NarWorkingCycle.rs"; PR="src/NarProc.rs"; IN="src/NarInputFacade.rs"; N="src/Nar.rs"; G="src/NarGoalSystem.rs"; M="src/NarMem.rs"; S="src/NarServer.rs"
p("P01","Every command completes; reasoning threads never block each other",
 "Under every interleaving of the command thread with the background reasoning threads, every input line and command runs to completion: the process never reaches a state in which threads wait for each other forever, and no single command keeps running forever.",
 ["schedules","histories"],"every sequence of commands and Narsese lines, every thread interleaving, any stall of any thread",
 "a deadlock needs a particular interleaving of lock requests; the tests never run a command against a busy worker",
 [W,PR,G,IN,N],["shared read-write locks","bounded work channel to the deriver and the evidence store","locks taken for reading while another reader of the same lock is held"],
 observe=["return of each command","scheduler: no runnable thread","scheduler step count per command"])
p("P02","No input line, however malformed, kills the session",
 "Whatever line a user, file or client supplies (malformed or non-ASCII Narsese, out-of-range or garbage truth values, unknown or incomplete commands, bad arguments) and whatever was said before, the line is either processed or rejected with a message; it never terminates the thread that processes input, now or at a later command.",
 ["inputs","histories","schedules"],"every line of text at every point of every session, every random draw and interleaving",
 "the crash can come many commands later, in a sort or unwrap that only meets the bad value for some histories and random draws; tests feed well-formed lines only",
 [IN,N,"src/NarseseParser.rs",PR,G,"src/OpLib.rs","src/NarModuleNlp3.rs","src/ModNlpA.rs"],["command dispatch by prefix","Narsese parsing","validation of truth values"],
 observe=["panic in the input thread","later lines still processed"])
p("P03","Background workers outlive every input and stop with the reasoner",
 "No input, random draw or interleaving makes a background reasoning thread die while its reasoner is in use, so accepted work is always eventually carried out; and once a reasoner is dropped all its background threads end.",
 ["inputs","histories","schedules"],"every history of inputs and steps, every random draw, every interleaving, drop at any moment",
 "a worker that dies silently is not visible to a unit test, and the crashing random draw or belief mix is rare",
 [W,PR,"src/NarInfProcedural.rs"],["deriver worker loop","evidence store worker loop","channel hang-up as stop signal"],
 observe=["panic in a background thread","thread list after drop"])
p("P04","Server: every line of every client is processed once, in order",
 "Each complete line a connected client sends is handed to the reasoner exactly once and in the order that client sent it, also when it closes its connection right after sending, and no failure, garbage, reset or slowness of one client or one connection attempt stops the server from accepting connections and serving the other clients.",
 ["schedules","fault_sequences","inputs"],"any number of clients, any interleaving, fragmentation, aborted accepts, connection errors, resets and stalls",
 "tests never start the server; loss, duplication and isolation only show under connection faults and concurrent clients",
 [S,IN],["accept loop","per-connection task","queue of lines into the reasoner thread"],
 observe=["lines reaching the reasoner","new connections accepted after faults"])
p("P05","Server: broadcasts reach each client once, in order and intact",
 "Every answer or command result broadcast after a client connected is delivered to that client (when it next sends a line) exactly once, in broadcast order and as one intact line, unless the client fell more than fifty messages behind, in which case only the oldest are skipped; the server never retains more than fifty undelivered messages.",
 ["schedules","fault_sequences","histories"],"any number of clients and messages, any interleaving of delivery with new answers, short writes, slow and failing clients",
 "duplicates, gaps and torn lines appear only with several rounds, partial writes or a lagging client",
 [S],["message ids and per-client cursor","bounded broadcast history","socket writes"],
 state=["broadcast history","per-client cursor"],observe=["bytes received by each client"])
p("P06","Answers fit the question, are backed by a belief, and only improve",
 "Every answer reported for a question is a judgement that matches the question's pattern and carries the truth value of a statement the reasoner was told or has derived, the successive answers to one question have strictly increasing expectation, and every registered listener receives every reported answer exactly once.",
 ["histories","schedules","inputs"],"every set of beliefs and questions, every interleaving of the asking thread with the deriver threads",
 "two threads try to answer the same question concurrently; only a race or a longer history exposes a repeated, worse or mismatched answer",
 [W,"src/NarUnify.rs"],["best-answer expectation kept per question","answer attempts from the cycle and from the worker","global answer handlers"],
 observe=["answer handlers","TRACE answer lines"])
p("P07","A question that a held belief answers gets answered in time",
 "Once a question (eternal or event form, declarative or about a temporal relation) that names at least one concept has been accepted and a belief matching it is held, the reasoner reports an answer at least as good as the best matching belief within a bounded number of cycles (250 with up to eight open questions), whatever other beliefs exist and whatever happened before.",
 ["histories","schedules","inputs"],"every order of questions and beliefs, every interleaving and random draw, bounded by 200 cycles with at most five open questions",
 "liveness over random question sampling; tests do not ask questions through the input interface",
 [W,N],["question sampling each cycle","scan of beliefs of the question's concepts"],
 observe=["answer handlers after N cycles"])
p("P08","Evidence is never counted twice",
 "The evidential base of every belief, task and answer is a set of distinct evidence items each of which was really given as input, every input gets its own item, and no conclusion or revision ever combines two statements that share an item.",
 ["histories","schedules"],"every history of told statements and derivations, every interleaving of told and derived updates",
 "double counting appears after several derivation and revision rounds or when two threads revise the same belief",
 [W,"src/NarStamp.rs",M,N],["stamp overlap check","stamp merge","stamp id counter"],
 observe=["stamps of all beliefs and tasks after each quiescent point"])
p("P09","Truth values stay valid whatever is fed in",
 "Every truth value the reasoner holds or reports for a belief, task, goal or answer has a frequency in [0,1] and a confidence in [0,1) and is a number, for every input including out-of-range, infinite and not-a-number truth values.",
 ["inputs","histories","schedules"],"every input truth value, every sequence of revisions and derivations",
 "an invalid value propagates through later revisions and derivations and only then shows",
 ["src/Tv.rs","src/NarseseParser.rs",N,W,G,"src/NarSentence.rs"],["truth functions","count based evidence","validation of input truth values"],
 observe=["all stored and printed truth values"])
p("P10","Every belief follows from what was told by a NAL rule",
 "Each belief or task the reasoner holds is either a statement it was told, the revision of two of its statements with disjoint evidence, or the conclusion of one of its documented inference rules from one or two statements it held, with the truth value and the evidence that rule prescribes.",
 ["histories","schedules","inputs"],"every knowledge base of bounded size, every order of premises and interleaving of the two inference threads and the input thread",
 "tests check single rule applications in one premise order; premises are chosen by attention, split over two threads and revised concurrently",
 [W,"src/Tv.rs","src/NarUnify.rs","src/Term.rs"],["single premise rules","two premise rules in both premise orders","revision","split of secondaries over two threads"],
 observe=["difference of memory between quiescent points, against an independent rule set"])
p("P11","Memory stays bounded however long it runs",
 "However long and with whatever input the reasoner runs, its stores respect their configured limits: beliefs per concept, concepts, working tasks, active goals, recent-event window, evidence per statement and complexity of declarative statements, so that an endless stream of judgements, events and goals does not make these stores grow without bound.",
 ["histories","schedules"],"every stream of inputs and steps",
 "limits are enforced periodically on several structures; only long runs show one that is missed",
 [M,W,G,PR,"src/NarStamp.rs"],["periodic trimming of tasks, concepts, goals, event trace","belief table truncation","stamp truncation","complexity filter"],
 observe=["sizes of all stores at trim points"])
p("P12","A told judgement is kept, pooled and indexed",
 "After a judgement is accepted, every concept named by one of its subterms holds a belief with that statement whose evidence includes it, as long as that concept's belief table is not full, statements about the same thing with independent evidence are pooled into one belief with the pooled truth value, and a working task can be found through every subterm while it is pending.",
 ["histories","schedules"],"every sequence of told judgements, concurrent derivations of the same statement, every interleaving",
 "loss or failure to pool needs a race between telling and deriving or a specific order of revisions",
 [W,M],["revise-or-store","belief tables by expectation and by usage","task index by term"],
 observe=["belief tables and task index at quiescent points"])
p("P13","Temporal knowledge counts exactly what was observed",
 "Every learned relation of the form condition, operation, consequence names events that really happened in that order within the recent-event window, its positive count equals the evidence of the distinct observations merged into it, counts never decrease, positives never exceed the total, and no sampled observation is counted twice or lost, except that one sharing evidence (the id of an event, which is its time) with what is already counted is left out.",
 ["histories","schedules"],"every sequence of events and executed operations, every random draw, every interleaving of the store worker with the reasoning step",
 "sampling of observations is random and storing is done by another thread; only whole histories can be checked against what happened",
 [PR,M],["event trace","evidence store worker: revise or add","interval table"],
 observe=["evidence beliefs at quiescent points against the recorded event history"])
p("P14","An unmet prediction is penalised exactly once, a met one never",
 "When an operation was executed because of a learned relation, then if the predicted consequence is perceived by its deadline (is among the latest events at a step up to it) the relation receives no negative evidence for it, and if not it receives exactly one piece of negative evidence, at the deadline.",
 ["histories","schedules"],"every timing of the consequence relative to the deadline, several predictions in flight, every interleaving with the store worker updating the same relation",
 "off-by-one deadlines, double penalties and lost updates need exact timing or a race",
 [PR],["anticipated events in flight","deadline from interval table","negative confirmation"],
 observe=["count of negative evidence per relation after each step"])
p("P15","Only registered operations run, and only for a reason",
 "The reasoner only calls operations that are registered, at most one decision per step, and outside of babbling (enabled, and only operations that allow it, without further arguments) only when a relation whose expected desire exceeds the decision threshold has that operation, its condition was just perceived (among the two latest events, unless operations themselves are goals or conditions) and its consequence is wanted; each call is reported and recorded as an event exactly once.",
 ["histories","schedules","configurations"],"every mix of taught and learned relations, goals, registered and unregistered operations, babbling on and off, every random draw",
 "decisions come out of random goal derivation and prediction; a wrong execution needs specific goal and evidence mixes",
 [PR,G,"src/OpLib.rs","src/TermUtils.rs"],["decision threshold","op lookup by name","babbling","active set of op goals"],
 observe=["calls of instrumented operations, printed executions, event trace"])
p("P16","A known way to a goal is taken within a bounded number of steps",
 "If a relation (or a chain of up to three relations) leading from a perceived condition through registered operations to an active goal is known with sufficient confidence, then, once faults stop and on a machine fast enough to derive goals at all, an operation of a known way open in that situation is executed within a bounded number of steps (150 here), whatever other goals and relations between events are present.",
 ["histories","schedules","fault_sequences"],"every order of telling relation, event and goal, every random draw, clock jumps and stalls that end",
 "liveness over randomised goal derivation under a time budget measured with a clock; tests cannot bound it",
 [PR,G,"src/NarInfProcedural.rs"],["goal derivation within a time budget","forward prediction","decision making"],
 observe=["first call of the expected operation"])
p("P17","Interactive session: each line once, in order, until quit or end of input",
 "An interactive session processes and echoes every line of its input exactly once and in order, repeats the previous line for an empty one, survives transient read errors, and ends on the quit command and at end of input instead of spinning.",
 ["inputs","fault_sequences"],"every input stream, split into reads arbitrarily, with interrupted and failed reads and end of input anywhere",
 "tests do not drive standard input; fragmentation, errors and end of input are never exercised",
 ["src/NarInteractive.rs",IN],["read loop","echo","repeat of last input","quit flag"],
 observe=["echoed lines","termination"])
p("P18","Loading a file applies its lines exactly as typed, and always ends",
 "Loading a Narsese file has the effect of entering its lines one by one in order, stops at a quit line, skips nothing but undecodable lines; a read error may end the loading but the lines read completely before it are applied; the reasoner stays usable when the file is missing or unreadable, and loading terminates for every file and every read error.",
 ["inputs","fault_sequences"],"every file content (including undecodable bytes, missing final newline, carriage returns), short reads, interrupted, transient and persistent read errors",
 "short reads and persistent errors do not occur in tests",
 ["src/NarUtilReadn.rs",IN],["line iterator over file","error handling per line"],
 observe=["state after load against state after typing the same lines","termination"])
p("P19","Flush and query commands act atomically against background reasoning",
 "The flush command removes all pending work and leaves beliefs, questions and later work intact; listing commands change nothing and report a state that existed; and time and cycle counters advance by exactly one per step, under every interleaving with background derivation.",
 ["schedules","histories"],"every interleaving of commands with the deriver, every history",
 "a half-applied flush or a listing that disturbs state is only visible against concurrent derivation",
 [W,IN,N],["task list and task index","cycle counter","procedural time"],
 observe=["task list, task index, beliefs, counters around each command"])
p("P20","A stored language model survives a crash or is absent, never half",
 "When the trained language network is saved and the process or disk fails at any point of the save, a later load yields either the complete old or the complete new network (or, when there was no old one, a reported error), never a mixture, and a later save succeeds; a language command issued without a usable model (missing, damaged or foreign file) is rejected without stopping the session.",
 ["crash_points","fault_sequences"],"every crash point and write error during a save, every later load and language command",
 "needs a crash between individual storage operations",
 ["src/ModNlpA.rs","src/NarModuleNlp3.rs"],["model database file","save sequence","load at command time"],
 observe=["model loaded after the crash"])
p("P21","The bundled environments run to completion",
 "The bundled closed-loop environments (pong, memory-stress, tic-tac-toe) run their full number of steps to the end for every random seed and interleaving, and their simulated worlds stay within their own rules; the question benchmark ends within its cycle limit and reports an answer exactly when one was announced.",
 ["schedules","configurations"],"every random seed, every interleaving of the store worker, any clock speed",
 "long randomised runs against worker threads; no test runs an environment",
 ["src/Reasoner1Entry.rs","src/ProcChaosEntry.rs","src/ProcTicTacToe.rs","src/EnvPong3.rs"],["environment loop","op callbacks"],
 observe=["completion, panics, world state"])
p("P25","Told judgements are taken up, and what follows from them is derived",
 "While judgements wait to be worked on, every reasoning cycle takes one of them up; and once a told judgement has been taken up, every conclusion which it yields alone, or together with any other told and taken-up judgement sharing a subterm (as long as not more than 50 tasks share that subterm), in one step of the documented rules and up to the complexity limit, is held as a belief resting on exactly that evidence as soon as the background work has settled, whatever the interleaving of telling, cycles and background derivation and however slow the workers are, unless the belief table of its concept is full; and what was derived or pooled becomes a task in turn, which is taken up and yields its conclusions in the same way.",
 ["schedules","histories"],"every set of told judgements (up to a few dozen), every interleaving of telling, cycles and background derivation, stalls, random draws",
 "completeness of the selection and of the work queue: a conclusion is lost only with a full queue, a particular selection order or a race, never in a test that waits for one answer",
 [W,M],["selection of the primary task by credit","selection of secondaries by subterm","queue to the deriver","storing of conclusions"],
 observe=["pending tasks around each cycle","beliefs at quiescent points against the one-step closure by the reference rules"])
p("P26","The program does what its mode and its arguments ask for",
 "Started with 'it' and files, the program applies the files in the given order (missing ones are skipped), ends without reading standard input if one of them says quit, and otherwise continues with the interactive session on the same reasoner, so that questions about what the files told are answered; 'srv' serves clients; the question benchmarks evaluate every file with a fresh reasoner, one result per file and round in order, none where no answer was found, and their summary agrees with these results; the tic-tac-toe profile runs to its end.",
 ["inputs","schedules","configurations"],"every list of files and input lines, missing files, read errors and short reads, every interleaving with the workers",
 "no test starts the program; whether two files share a reasoner or a quit in a file is honoured shows only in whole runs with several files",
 ["src/bin/main.rs","src/NarUtilReadn.rs","src/NarInteractive.rs","src/Eval.rs"],["mode dispatch","loading of the files","interactive session","benchmark loop"],
 observe=["output of the program, lines taken from standard input, end of the program"])
p("P27","Built-in operations have their whole effect exactly once per call",
 "A call of a built-in or registered operation has its whole effect exactly once: execute-and-inject calls the registered operations it lists in order (anything else is skipped) and then injects its event; the relation operation tells its relation once with its own item of evidence; an operation is called with the values which the perceived event bound to its variables and the call is recorded as an event; an 'and'-sequence in the second place of the relation is told as the intersection of both; malformed arguments have no effect and no call disturbs a later one.",
 ["histories","schedules","inputs"],"every sequence of told relations, events and goals that leads to operations, nested and malformed argument lists, every interleaving with the workers",
 "the effects are spread over trace, memory and other operations and depend on bindings and on earlier calls; no test calls these operations",
 ["src/OpLib.rs",PR,G],["execute-and-inject","relation operation","binding of variables in operation arguments"],
 observe=["calls of instrumented operations","injected events","told beliefs and their stamps"])
p("P28","Goals are given or follow from given ones, and are kept while useful",
 "A given goal is held at once. Every goal the reasoner holds was given, or is the first element of a held goal sequence, or the antecedent of a held relation whose consequent was a goal (or the operation a chosen relation calls for), with the truth value and the evidence which that rule prescribes, never combining evidence with itself. Goals are given up only for lack of room (20), the least useful (expectation times desirability, decaying with age) first; a goal stops being wanted exactly when its event is the latest one perceived at a step.",
 ["histories","schedules"],"every sequence of given goals, told and learned relations, events and steps, every interleaving with the worker that stores relations",
 "derived goals depend on random selection, on relations whose evidence changes meanwhile and on what was forgotten before; a test sees one such history",
 [G,"src/NarInfProcedural.rs",PR,"src/Tv.rs"],["goal derivation","goal deduction truth function","limit of the goal memory","satisfaction by events"],
 observe=["goals at each release of the goal system's lock and around each step"])
p("P29","What is forgotten is worth least, what is worked on is worth most",
 "A belief, task or concept is forgotten only for lack of room, and then the least valuable goes: a full belief table (20) gives up the beliefs with the lowest expectation, the ranking by usage those with the lowest usefulness (use count over recency; a judgement is used whenever it is taken up or considered together with the one taken up), and a told judgement whose statement is not yet held is refused only by a full table of which every belief is at least as expected; when concepts are limited (3000, temporal 1000) those whose best belief has the lowest expectation go; when working tasks are limited (30, every 111 cycles) those with the lowest credit go (or whose credit is negligible), and each cycle takes up the pending task with the highest credit (base credit and a fifth of the question credit, decaying with age, scaled by the attention it inherited, which never exceeds that of the task it was derived from), whatever the interleaving of telling, cycles and background derivation.",
 ["schedules","histories"],"every sequence of told judgements, questions, relations and cycles that fills a store, every interleaving with the workers",
 "stores fill only in long runs and the ranking depends on concurrent use, revision and credit; no test fills one",
 [M,W,"src/NarSentence.rs",PR],["ordering and truncation of belief tables","limit of concepts","limit of tasks","selection by credit"],
 observe=["tables, tasks and concepts at each release of their locks","tables after each told judgement"])
p("P30","Of the ways open to it the reasoner takes the most promising, at once",
 "In each step, if held goal sequences whose condition is one of the two latest events (or plans of up to two relations that start at the latest event) end in an operation and promise more than the decision threshold, the one with the highest expectation is decided for in that step, unless its operation is already a goal; of the operations that are wanted because of a relation the one with the highest expectation above the threshold is done in that step if it is registered, and what is wanted but not done stays wanted while there is room.",
 ["histories","schedules"],"every mix of told and learned relations, goals of different desire, events and steps, every random draw, every interleaving with the worker that stores relations",
 "which way is best changes with every observation, unmet prediction and goal; tests have a single way",
 [PR,G],["choice among goal sequences by state","choice among two latest events","prediction based plans","choice among wanted operations"],
 observe=["goals before and during each step","calls of operations"])
p("P31","An input line does exactly what it says, at once, and nothing else",
 "Whatever the background threads do meanwhile, when a line has been entered exactly what it asks for has happened, once: a told event is the latest of the recent events, at the current time; a told judgement, question or goal is there with its own statement, truth value and item of evidence; the cycles or the step asked for were carried out; the operation named is registered, none is lost; babbling is on or off as last said; quitting is requested by the quit command only; listings, comments, empty, unknown and unparsable lines change none of these.",
 ["inputs","schedules","histories"],"every sequence of lines of every kind, every interleaving with the derivation, answering and learning threads",
 "tests enter a few lines and look at one effect; that nothing else changes, for every line after every history and while work goes on, is not looked at",
 ["src/NarInputFacade.rs","src/Nar.rs","src/NarseseParser.rs"],["command dispatch","input of terms","parsing of truth value and tense"],
 observe=["operations, settings, counters, recent events, questions, goals and tasks before and after each line"])
p("P22","Narsese printing and parsing agree",
 "Printing a parsed statement and parsing it again yields the same statement and truth value.",
 ["inputs"],"every statement of the grammar","input space is unbounded",
 ["src/NarseseParser.rs","src/Term.rs"],["parser","printer"])
p("P23","Unification is sound and its substitution makes terms equal",
 "Whenever two terms unify, applying the returned substitution makes them equal, and a variable is never bound to two different terms.",
 ["inputs"],"every pair of terms","input space is unbounded",
 ["src/NarUnify.rs"],["recursive unification","substitution"])
p("P24","Neural network and vision kernels compute their definitions",
 "The gradients, activations and convolutions of the learning and vision modules equal their mathematical definitions.",
 ["inputs"],"every weight and input vector","input space is continuous",
 ["src/ad.rs","src/Nn.rs","src/mlutils.rs","src/ModVisionB.rs","src/ModVisionC.rs","src/ModVisionD.rs"],["automatic differentiation","convolution"])
with open(os.path.join(V,"properties.jsonl"),"w") as f:
    for x in P:
        assert len(x["title"])<=80,x["title"]
        f.write(json.dumps(x,ensure_ascii=False)+"\n")
print(len(P))
