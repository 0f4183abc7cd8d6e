#!/usr/bin/env python3
# writes MANIFEST.json
import json,os
V=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T="deterministic simulation: seeded search over schedules and faults"
C={
"P01":"random schedules and stalls of the command thread against both workers; violated by a deadlock or a command that does not return within the step cap",
"P02":"grammar-based and corrupted lines in random sessions with random draws at their extremes; violated by a panic of the input thread",
"P03":"as P02, watching the background threads; drop of the reasoner at random points",
"P04":"simulated TCP clients with fragmentation, aborted accepts, resets, short reads; line history compared with what the clients sent",
"P05":"simulated TCP clients, short writes, lagging clients; per-client delivery compared with the broadcast history",
"P06":"answer histories of all listeners compared with the recorded beliefs and an own matcher",
"P07":"bounded liveness after faults stop, own matcher and expectation",
"P08":"stamps of all recorded beliefs, tasks and answers compared with the input history",
"P09":"truth values of everything recorded, at every lock release and answer",
"P10":"each recorded belief and task re-derived by an independent reference implementation of the documented rules",
"P11":"store sizes checked against the configured limits while long sessions run",
"P12":"told judgements looked up in every concept after background work settled, reference revision",
"P13":"learned relations compared with the recorded history of events and store requests under random interleavings of the store worker",
"P14":"deadlines of anticipations and negative evidence counted against the recorded events, several in flight, races with the store worker",
"P15":"calls of instrumented operations compared with told and learned relations, goals and the trace by a reference decision rule",
"P16":"bounded liveness: random knowledge, distractors, goals and faults which end; the first operation of the known way must be called within 150 steps",
"P17":"the interactive session on a simulated standard input with short reads, interruptions and transient errors; processed lines and effects compared with the input",
"P18":"loading on a simulated file with short reads, interruptions, transient and persistent errors; state compared with a twin which was given the lines one by one",
"P19":"state before and after flush and query commands compared, flush at random points of background derivation",
"P20":"saves of the network on a simulated disk below SQLite and std::fs (crash at any operation with lost, torn and reordered unsynced writes, full disk, errors), then load; language commands on missing, damaged and foreign model files",
"P21":"whole environment runs with random draws, stalls and clock jumps; a model of each world follows its printed history; bounded progress",
"P25":"progress and completeness: each cycle takes up pending work; one-step closure of the told and taken-up judgements by the reference rules, each conclusion must be held once background work has settled; the same for every derived or pooled task which was taken up; small sets with distractors and crowds that fill the work queue",
"P26":"the program's own main run in the simulator with files (also missing ones) and a simulated standard input; sessions compared with the same lines entered one by one on a fresh reasoner, questions about what the files told, results of the benchmarks against the answers announced",
"P27":"calls, injected events and told relations of the built-in operations compared with a reference that follows the event history; nested and malformed arguments, bound variables, random interleavings",
"P28":"every held goal re-derived by reference rules from the given goals and all states of the relations (recorded at each lock release), forgetting and satisfaction compared with utilities recomputed from history",
"P29":"belief tables, working tasks and concepts compared at each lock release with what they held before: expectation, usefulness and credit recomputed; told statements against the full tables that refuse them; use counts and attention around each cycle",
"P30":"in each step the decision and the operation done compared with a reference choice over the goals held before the step and all states of the relations; several ways open at once whose worth changes with experience, random draws and interleavings with the store worker",
"P31":"state which only the input thread changes (operations, settings, counters, recent events, questions, goals, told tasks) compared before and after each line with a reference reading of the line, while the background threads work under random schedules and stalls",
}
NA={
"P22":"printing and parsing are pure functions of their input: no schedule, time, I/O or fault for a simulation to vary",
"P23":"unification is a pure function of two terms: no schedule, time, I/O or fault for a simulation to vary",
"P24":"numeric kernels are pure functions of their input: no schedule, time, I/O or fault for a simulation to vary",
}
TODO=[]
checks=[{"property":k,"quick_cmd":"bash tools/check.sh %s quick"%k,"thorough_cmd":"bash tools/check.sh %s thorough"%k,
 "technique":T,"level":"exploration","level_note":v+". Samples schedules, inputs and faults; a clean run is evidence, not proof. Trusts the simulator's stand-ins for std, locks, rand and async-std."} for k,v in sorted(C.items())]
na=[{"property":k,"reason":v} for k,v in sorted(NA.items())]+[{"property":k,"reason":"scenario not built yet"} for k in TODO if k not in C]
m={"version":1,"hooks":{"guard":"cfg(narsim)","enable":"tools/rustc-wrap.sh passes --cfg narsim to rustc for the crate nar20_1 in the harness build (tools/build.sh)","source_commits":["a854d8f5381dfb75420d1a1c08462fa5533310ed"]},"setup_cmd":"bash tools/build.sh","checks":checks,"not_applicable":na}
json.dump(m,open(os.path.join(V,"MANIFEST.json"),"w"),indent=1)
