#!/usr/bin/env python3
"""Writes ../properties.jsonl from the table below (one place to edit the wording)."""
import json, os

P = []

def prop(id, title, statement, over, text, why, files, mech, observe, state=None):
    anchors = dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                   observe_at=observe, hook_needed=None)
    if state:
        anchors['state'] = [dict(name=n, meaning=m, where=w) for n, m, w in state]
    assert len(title) <= 80, title
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=text), why_tests_cant=why, anchors=anchors))

prop('C01', "Every trial vector obeys the DE/x/1/bin recipe",
  "Each challenger the optimizer evaluates equals, coordinate by coordinate, either the target's value or the donor value base + F*(r0 - r1) brought into bounds, where base, r0 and r1 are the members at three distinct positions other than the target's and F lies within the scale-factor range in force for that generation. At least one coordinate always comes from the donor, and every other coordinate does so independently with probability CR. The base is the best member (the runner-up when the target is itself the best) by default, a uniformly random member with randomBase true, and a rank-biased one with fractional randomBase; r0 and r1 are uniformly random.",
  ["inputs", "configurations", "histories"],
  "Every generation of every run: dimensions 1 to 10 or more, CR from 0 to 1 inclusive, F single or range, adaptive or not, all base modes, bounds tight enough for reflection or not.",
  "test_challenge looks at one challenge and asserts only that something changed for the better; no test reconstructs a donor from the members or counts crossover frequencies.",
  ["ade/de.py", "ade/population.py", "ade/individual.py"],
  [("DifferentialEvolution.challenge", "ade/de.py"), ("DifferentialEvolution.crossover", "ade/de.py"), ("Population.sample", "ade/population.py"), ("Individual arithmetic", "ade/individual.py")],
  ["argument of the user's evaluation function", "population members just before the evaluation"])

prop('C02', "Evaluation completion order never changes what a challenge is built from",
  "Whatever order and delay evaluations finish in, each challenger is built only from the members a one-challenge-at-a-time run in position order would have used: at every position it draws on, it sees the outcome of this generation's challenge there if that position comes before its own target's, and the member left by the previous generation otherwise. A challenge never draws on a position whose own earlier challenge is still undecided.",
  ["schedules", "configurations"],
  "All completion orders and delays of asynchronous evaluations within and across generations, any population size and base mode.",
  "The suite runs evaluations with fixed delays in one completion order and checks only the end result; it cannot enumerate completion orders or relate a challenger to the version of the members it used.",
  ["ade/de.py", "ade/population.py"],
  [("one lock per population position, all four requested at once", "ade/population.py:Population.lock"), ("lock/release discipline of a challenge", "ade/de.py:DifferentialEvolution.challenge")],
  ["argument of the user's evaluation function", "order in which the harness fires evaluation results", "population contents at generation ends"])

prop('C03', "A position changes hands only to its own strictly better challenger",
  "During a run the member at a position is replaced if and only if a challenger made for that position evaluated to a strictly lower SSE, and then by exactly that challenger; None, infinity and NaN count as the worst possible SSE. Hence no position's SSE and not the best SSE ever worsens, ties keep the incumbent, and every member's SSE is what the evaluation function returned for exactly that member's values.",
  ["inputs", "schedules", "histories"],
  "All sequences of evaluation results (ties, zero, denormal, huge, infinite, NaN, None, integer, numpy scalars, float-like objects) in any completion order.",
  "Tests use smooth objective functions with finite values; ties, NaN, None or infinities mixed into a live run are never fed in, and per-position monotonicity is not observed.",
  ["ade/de.py", "ade/individual.py", "ade/population.py"],
  [("tournament in challenge", "ade/de.py:DifferentialEvolution.challenge"), ("Individual comparison and SSE property", "ade/individual.py"), ("item assignment", "ade/population.py:Population.__setitem__")],
  ["values passed to and returned by the evaluation function", "population contents after every evaluation"])

prop('C04', "Each generation challenges every position once and generations never overlap",
  "In each generation every position is challenged exactly once, costing exactly one evaluation unless its trial vector violates a constraint (then none), and no evaluation of a generation starts before all evaluations of the previous one have finished. The per-generation callback is called once per completed generation with 0, 1, 2 and so on, after all of that generation's challenges are settled. The population object counts every finished evaluation exactly once.",
  ["schedules", "configurations", "histories"],
  "All completion orders, generation counts, constraint patterns and base modes.",
  "Tests count total evaluations of one seed with one delay; they do not watch the boundary between generations, nor which position each evaluation belongs to.",
  ["ade/de.py", "ade/individual.py"],
  [("generation loop and DeferredList barrier", "ade/de.py:DifferentialEvolution._run"), ("evaluation counter", "ade/individual.py:Individual.evaluate")],
  ["evaluation function calls and completions", "per-generation callback calls", "population evaluation counter"])

prop('C05', "A run always completes, and a slow evaluation holds up only its dependants",
  "As long as every evaluation and report callback eventually finishes, the run finishes: at any time before its Deferred fires there is an unfinished evaluation, an unfinished report callback or scheduled reactor work, and afterwards no position is left locked. While evaluations are slow, the only challenges of the generation not put under evaluation are those drawing on the target position of an earlier one still under evaluation, or on a position drawn on by an earlier one that is itself still waiting.",
  ["schedules", "configurations", "fault_sequences"],
  "All completion orders and stalls of evaluations and report callbacks, including very large evaluation results and populations whose history roster is full.",
  "A deadlock or needless serialisation appears only for particular completion orders; the suite exercises a few fixed delays and never holds an evaluation back while the rest goes on.",
  ["ade/de.py", "ade/population.py", "ade/history.py", "ade/report.py"],
  [("Population.lock / release", "ade/population.py"), ("early release of base and difference members", "ade/de.py:DifferentialEvolution.challenge"), ("history lock", "ade/history.py"), ("waitForReports", "ade/population.py")],
  ["outstanding evaluations and reactor work at quiescence", "the run's Deferred", "position locks after the run"])

prop('C06', "A run stops exactly when its stopping rules say so",
  "A run performs maxiter generations unless stopped earlier by a rule: it ends at the first generation end where the best SSE is below goalSSE, or, only when adaptive and not bitterEnd, after more than dwellByGrave no-progress generations counted since the last generation judged to have made progress, all with F unable to shrink further. Its Deferred then fires with the population, whose best member has been reported.",
  ["configurations", "histories"],
  "All combinations of maxiter, goalSSE, adaptive, bitterEnd and dwellByGrave, over improving, stagnating and mixed evaluation histories.",
  "Tests only use maxiter; goalSSE, dwellByGrave and bitterEnd are not exercised in any run.",
  ["ade/de.py", "ade/population.py"],
  [("generation loop", "ade/de.py:DifferentialEvolution._run"), ("FManager.limited", "ade/de.py"), ("Population.replacement inquiry", "ade/population.py")],
  ["number of generations evaluated", "best SSE at each generation end", "run Deferred result"])

prop('C07', "Adaptive F stays within its limits and recovers its original range",
  "Whatever sequence of lowering and raising requests arrives, the scale factor (or each end of its range) never exceeds its original value, the lower end is never lowered to or below the critical value sqrt((1-CR/2)/Np), the upper end is never lowered to within three times the lower end, and every drawn F lies in the current range. Lowering never raises and raising never lowers an end, enough raising restores the original exactly, and without adaptation (or with a zero lower end, which stands for the critical value) nothing changes. An adapting object reports itself limited exactly when the last lowering request could not lower anything and no raising request has followed, and a run requests raising after each generation judged to have made progress and lowering after each other one.",
  ["inputs", "histories", "configurations"],
  "All sequences of up/down requests for any F, CR and population size.",
  "Tests walk one or two fixed sequences for a few F values; the bounds are invariants over arbitrary interleavings of up and down.",
  ["ade/de.py"],
  [("FManager.up / down / get", "ade/de.py")],
  ["values returned by the scale-factor object", "its string form", "its limited flag"])

prop('C08', "The evaluation function never sees a vector outside the bounds",
  "Every parameter vector passed to the evaluation function, in setup and in challenges, before and after bounds are changed by loading a saved population with new ones, has each value within its parameter's inclusive bounds. Limiting leaves in-bounds values exactly unchanged, and replaces an out-of-bounds value by its mirror image about the bound it crosses, or, only if that would lie beyond the other bound, by some other value within the bounds. Translation between the unit range and the bounds is linear, and back again gives the same.",
  ["inputs", "configurations", "histories"],
  "All bounds (negative, tiny, huge, integer, degenerate), member configurations, F up to 2 and CR.",
  "One limit test with two parameters and a handful of vectors; no run is observed for containment.",
  ["ade/population.py", "ade/de.py"],
  [("ParameterManager.limit / fromUnity", "ade/population.py"), ("limit call in challenge and setup", "ade/de.py, ade/population.py")],
  ["argument of the evaluation function", "result of limiting"])

prop('C09', "A vector violating any constraint is never evaluated and never a member",
  "Every vector evaluated or admitted to the population satisfies every constraint currently in force, each constraint being consulted with a dict mapping every parameter name to that vector's value; a challenge whose trial vector violates one leaves its target in place at no evaluation cost. Setting constraints replaces all earlier ones, and clearing them lifts all. If no conforming initial vector can be found, setup aborts instead of evaluating or admitting a non-conforming one.",
  ["inputs", "configurations", "histories"],
  "All constraint sets: single callable, sequence, helper-class instance, truthy/falsy results, unsatisfiable ones, changed between setup and run.",
  "Tests check the constraint predicate on isolated vectors, never that a live run keeps every evaluated vector feasible or what happens when constraints cannot be met.",
  ["ade/population.py", "ade/de.py", "ade/constraints.py"],
  [("ParameterManager.passesConstraints", "ade/population.py"), ("getIndividual in setup", "ade/population.py"), ("constraint check in challenge", "ade/de.py")],
  ["argument of the evaluation function", "dict passed to constraints", "population contents"])

prop('C10', "Setup yields exactly the configured number of valid, evaluated members",
  "Setup admits exactly max(20, min(popsize*Nd, 500)) members, each with a finite SSE that the evaluation function returned for exactly its values (unless blank is requested, when nothing is evaluated and every SSE is infinite), never has more than 12 evaluations unfinished, and fires True. Evaluations that give None, infinity or NaN are replaced by fresh candidates. Without constraints and failures the initial vectors of a non-uniform setup form a Latin hypercube, one value in each of the equal-width strata of every parameter, and no individual that was not admitted is announced to report callbacks once one has been admitted.",
  ["schedules", "inputs", "configurations"],
  "All completion orders of initial evaluations, failure patterns, population sizes and dimensions, repeated setups.",
  "Tests run setup with immediate or equally delayed evaluations of one function and check length and best values; overlapping slow evaluations and failing results are not combined.",
  ["ade/population.py", "ade/individual.py"],
  [("Population.setup", "ade/population.py"), ("DeferredTracker concurrency limit", "ade/population.py")],
  ["evaluation function calls and completions", "population contents when setup's Deferred fires", "report callbacks"])

prop('C11', "Best, ranking and worst-eviction always reflect the current SSEs",
  "After any sequence of item assignments, pushes, blacklistings, saves and loads, the population's best member has the minimum SSE, its sorted list is a permutation of the members in non-decreasing SSE order and its best index points at the best member. Pushing an individual evicts a member of maximum SSE and nothing else, and the population's length never changes. Length, iteration, indexing and membership test all tell of the same members.",
  ["histories"],
  "All sequences of public operations on a set-up population.",
  "The sort cache is checked after a couple of fixed operations; invalidation must hold after every possible sequence.",
  ["ade/population.py", "ade/individual.py"],
  [("KS / iSorted cache and its invalidation", "ade/population.py"), ("Population.push", "ade/population.py"), ("Individual.blacklist", "ade/individual.py")],
  ["best, sorted list, best index, indexed items"])

prop('C12', "Index sampling is distinct, honours exclusions and follows the requested bias",
  "A sample of N positions has N distinct positions, none of them excluded, and a request for more than can be had is refused. With randomBase true every eligible position is equally likely; with it false the best eligible one is chosen; for a fraction in between the probability is non-increasing in rank and becomes more uniform as the fraction grows, reaching only the best ranks (up to twice the fraction of the eligible ones) when it is below one half.",
  ["inputs", "configurations"],
  "All population sizes, exclusion sets, sample sizes and randomBase values, over the sampler's randomness.",
  "Tests examine one population size with loose frequency checks for a couple of fractions.",
  ["ade/population.py"],
  [("Population.sample", "ade/population.py"), ("ProbabilitySampler", "ade/population.py")],
  ["returned indices, as sets and as frequencies by rank"])

prop('C13', "Position locks are exclusive, first-come first-served and fully released",
  "A lock request for several positions is granted only when every earlier request for any of them has been released there, requests for the same position are granted in the order made, and requests for free positions are granted at once. Releasing positions wakes exactly the requests that become grantable; requesting one position twice in a call is refused and leaves no lock behind. Once the population is aborted, pending requests get released and new ones are granted immediately.",
  ["schedules", "histories"],
  "All interleavings of lock and release calls over any positions.",
  "One test with two overlapping requests; queueing order and release in the middle of a longer queue are not explored.",
  ["ade/population.py"],
  [("Population.lock / release / abort", "ade/population.py")],
  ["Deferreds returned by lock requests"])

prop('C14', "Aborting at any moment ends the run and leaves the population intact",
  "If the run is aborted at any moment (shutdown of the optimizer, abort of the population, Enter key or a report callback or complaint handler that raises), its Deferred fires with the population at the latest when the evaluations and report callbacks already under way have finished (without waiting for them if the optimizer was shut down, directly or with Enter), without starting any further evaluation of a parameter vector. From the abort on no member is replaced or modified, all Np members remain with the SSEs evaluated for their values, and the population can still be saved, loaded and used for a new run (setting it up again while it is aborted does nothing). An evaluation function told of the shutdown (called with None) cannot affect the population by what it returns, and an abort the user asked for is not logged as an error.",
  ["crash_points", "schedules", "fault_sequences"],
  "Every point between any two events of a run (evaluation start, evaluation finish, report callback, generation end, setup), for each way of aborting.",
  "Tests abort at one instant with one timing; the state in which an abort may catch the locks, evaluations and callbacks is unbounded.",
  ["ade/de.py", "ade/population.py", "ade/report.py", "ade/abort.py"],
  [("DifferentialEvolution.shutdown", "ade/de.py"), ("Population.abort / evalFunc", "ade/population.py"), ("Reporter.abort", "ade/report.py"), ("abort module", "ade/abort.py")],
  ["run Deferred", "evaluation function calls after the abort", "population contents before and after"])

prop('C15', "A fatal evaluation stops everything and never enters the population",
  "If the evaluation function raises, its Deferred fails, or it returns a negative number, or a constraint raises, in setup or in a challenge, operations end: setup fires without True, a run's Deferred fires with the population without starting evaluations of further generations, and what is left can be used for a new run. The offending individual is never a member, is never reported as best, and the other members stay as they were or as their own finished challenges made them.",
  ["fault_sequences", "schedules"],
  "A fatal result at any evaluation, in any of its forms, alone or with others in flight, for any completion order.",
  "Tests make one fixed evaluation fail in one timing.",
  ["ade/individual.py", "ade/de.py", "ade/population.py"],
  [("Individual.evaluate / __bool__", "ade/individual.py"), ("fatal branch of challenge", "ade/de.py"), ("evaluated callback of setup", "ade/population.py")],
  ["setup and run Deferreds", "evaluation calls after the fault", "population contents", "report callbacks"])

prop('C16', "Report callbacks announce each significant improvement once, in order",
  "Every registered report callback is called in registration order with the values and SSE of one evaluated individual and its extra arguments; callback runs never overlap, and when better individuals turn up during a run only the latest is announced next. Successive announced SSEs of one population fall by at least the significance fraction (2 percent by default), except for forced reports, which announce the best member even if equivalent but never repeat the very same individual. When a run ends normally, the last announcement made is the population's best member.",
  ["schedules", "histories", "configurations"],
  "All sequences of reported SSEs and all completion orders and delays of callbacks returning immediately or via a Deferred.",
  "Tests use callbacks with fixed delays and a scripted list of mock individuals; arrivals at every point of a callback run are not explored.",
  ["ade/report.py", "ade/population.py"],
  [("Reporter.newBest / runCallbacks", "ade/report.py"), ("Population.report / waitForReports", "ade/population.py")],
  ["report callback calls and completions"])

prop('C17', "A complaint disqualifies the individual and the previous best stands",
  "When a report callback complains by returning something other than None, the complaint handler (without one, the debugger) is called once with that individual and the complaint, and the individual gets an infinite SSE so that it is ranked last, is replaced by any finite challenger and is not announced again while any member is better. Afterwards only individuals better than the best remaining announced-or-member individual are announced as new best.",
  ["histories", "schedules"],
  "Complaints about any announced individual, at any stage, immediate or delayed, one after another, also while newer improvements are waiting.",
  "One scripted complaint with a mock individual whose disqualification does nothing; the state after a complaint is never followed further.",
  ["ade/report.py", "ade/individual.py", "ade/population.py"],
  [("complaint branch of runCallbacks", "ade/report.py"), ("Individual.blacklist", "ade/individual.py")],
  ["complaint handler calls", "later report callback calls", "population ranking"])

prop('C18', "Improvement ratios and the progress score follow their definition",
  "Comparing an old with a new individual gives None if the old one is better, 0 if the new one is better or equal but within the significance fraction, otherwise the rounded ratio of old to new SSE; a new one that is valid where the old one is not (None, NaN, infinite) gives a very high ratio, and an invalid new one gives 0. The progress score of a generation adds 0.1 for a ratio of 0 and ratio minus one half otherwise, with an additional ratio of 1 for a new overall best. An inquiry resets the score, says yes the first time and whenever the score exceeds the target, and otherwise says yes with a probability rising from zero at score zero to one at the target.",
  ["inputs", "histories"],
  "All pairs of SSEs including zero, equal, infinite and invalid ones; all sequences of recorded ratios and inquiries.",
  "Tests tabulate some ratios with mock individuals; zero and equal SSEs and the score over whole generations are not covered.",
  ["ade/report.py", "ade/population.py"],
  [("Reporter.msgRatio / __call__", "ade/report.py"), ("Population.replacement / _keepStatusQuo", "ade/population.py")],
  ["value returned by reports", "frequency of inquiry outcomes"])

prop('C19', "The history roster stays sorted, truthful, bounded and never loses its lock",
  "After any sequence of additions, removals from the population, population purges and clears, in any overlap, the history lists distinct records in non-decreasing SSE order, never more than its maximum, each one a true (single-precision) copy of an individual that was added and of no other; records are lost only by purging, clearing, or one at a time when the roster is full, and then never a current member's (the new one is left out if all are). Individuals whose SSE is not finite in single precision are ignored, and every operation's Deferred fires.",
  ["histories", "schedules", "inputs"],
  "All operation sequences, with equal SSEs, huge or tiny values, tiny to large roster limits and overlapping operations.",
  "Row allocation and eviction depend on the whole history; tests use a few scripted sequences with well-behaved values.",
  ["ade/history.py"],
  [("History.add / kkr / purge / purgePop / clear", "ade/history.py"), ("ClosestPairFinder", "ade/history.py")],
  ["history iteration, indexing, length", "value-vs-SSE queries"])

prop('C20', "History membership always matches the population, also across save and resume",
  "Whenever no operation is pending, the records the history reports as in the population are exactly the current members with finite SSE (each distinct one once per member), those reported as formerly in the population were members earlier but are not now (or were disqualified), and those reported as never in the population lost their challenge. This continues to hold for replacements made after the population was saved and resumed in another process.",
  ["histories", "schedules", "crash_points"],
  "All runs, replacement sequences and save/load/resume cycles, in the same or another process (with a different hash seed).",
  "No test replaces members after loading, and all tests run in one process with one hash seed.",
  ["ade/history.py", "ade/population.py", "ade/individual.py"],
  [("History.add / notInPop, individual-to-row map", "ade/history.py"), ("Individual.__hash__", "ade/individual.py"), ("Population.__setitem__", "ade/population.py")],
  ["value-vs-SSE queries with inPop, notInPop and neverInPop", "population contents"])

prop('C21', "Analysis queries return exactly the records asked for",
  "A value-versus-SSE query returns, in ascending SSE order and with every parameter aligned with its SSE, exactly the records of the requested class (in, formerly in, never in the population, or all) whose SSE is at most maxRatio times the best recorded SSE, for exactly the requested parameter names. Fraction queries select exactly the records between the two fractions of the SSE range or of the ranking, correlations are ordered by decreasing magnitude and equal the Pearson coefficient, and the line fit is the SSE-weighted least-squares line.",
  ["inputs", "histories", "configurations"],
  "All record sets (including best SSE of zero, equal SSEs and single records), class and ratio settings, name selections.",
  "Tests use a small fixed array with distinct positive SSEs.",
  ["ade/history.py"],
  [("Analysis.value_vs_SSE / Kf12 / Kp12 / corr / correlator / lineFit", "ade/history.py")],
  ["arrays returned by queries"])

prop('C22', "Saving and loading preserves the population, history and resumability",
  "A population loaded from a saved file, in the same or another process, has the same members (values and SSEs bit for bit), names, bounds, constraints, size, settings and history (including changes to it that were still pending) as when it was saved, whatever moment of its life it was saved at, including after an abort. It can be run further with a supplied evaluation function exactly like the original; loading with new bounds brings every member within them and changes nothing else.",
  ["histories", "crash_points", "configurations"],
  "Saves at any quiescent point: after blank or evaluated setup, mid-run, after abort, repeatedly, in this and in another process.",
  "One test saves and loads a blank population and compares sizes; nothing resumes, and nothing crosses a process boundary.",
  ["ade/population.py", "ade/individual.py", "ade/history.py"],
  [("Population.save / load / __getstate__ / __setstate__", "ade/population.py"), ("History.__getstate__ / __setstate__", "ade/history.py")],
  ["loaded population's public contents", "evaluation calls of a resumed run"])

prop('C23', "Constraint helpers judge each vector by its own values only",
  "Each constraint obtained from a constraints object, whether used while iterating or collected first and used later and in any order, passes or fails a parameter dict exactly as its registered method does on its declared parameters, with those declared logarithmic raised to powers of ten and linear ones unchanged, and is satisfied when a declared parameter is absent; appended functions get the dict untransformed. A relations checker passes a dict exactly when every related pair deviates from its line by no more than the allowed error.",
  ["inputs", "configurations", "histories"],
  "All registries (linear, log, both, neither; overlapping names), dict contents and ways of iterating, on one object used many times.",
  "The module has no test at all.",
  ["ade/constraints.py", "ade/population.py"],
  [("Constraints.__iter__ wrappers", "ade/constraints.py"), ("RelationsChecker.__call__", "ade/constraints.py")],
  ["results of the yielded constraint functions", "dicts their registered methods receive"])

prop('C24', "A specs file is read back as exactly what it says",
  "Reading a specs file gives one attribute per named entry whose value is the number, None, boolean or lower-cased text written there, or the list of them when several are given; dict blocks give dicts with one entry per line, nested for colon-separated keys and with digit-only keys as integers, in whatever order and however often blocks and single entries alternate. Comments, trailing comments, blank lines, quotes around names, equals signs and trailing commas have no effect, a nested key outside a dict or a rule line without a name is refused, and a lookup of anything absent gives an empty dict.",
  ["inputs", "programs"],
  "All specs texts in the documented format.",
  "One sample file is parsed and spot-checked.",
  ["ade/specs.py"],
  [("SpecsLoader.read / parseName / parseValue", "ade/specs.py"), ("DictStacker / Specs.get", "ade/specs.py")],
  ["attributes and lookups of the loaded specs object"])

prop('C25', "An abort request runs every registered callback exactly once",
  "When abort is requested, by the Enter key or from the program, every callback registered so far is called exactly once, in registration order, however often the request is repeated; a callback registered afterwards is called once as soon as the reactor runs. Ignoring the keyboard suppresses all calls, and restarting gives a fresh registry that can be aborted again. The console is held until the abort or the end of the program, and then let go.",
  ["histories", "schedules"],
  "All sequences of registrations, abort requests, restarts and ignores, including registrations made from inside an abort callback.",
  "The abort registry is only driven indirectly, by one run that is aborted once.",
  ["ade/abort.py"],
  [("Keyboard.dataReceived, KeyboardHolder.callOnAbort, abortNow, restart", "ade/abort.py")],
  ["calls of registered callbacks"])

prop('C26', "Logging keeps every line whole, in order, and never disturbs a run",
  "Every line of text logged appears in the log complete, on a line of its own and in order, with progress characters only between lines, wherever the output is switched to in between; formatting arguments, blank lines and separators appear as requested, whether a line was written since last asked is told truthfully, and everything can be read from the log file at once. A log whose writing fails is dropped and no exception reaches the caller, so a run gives the same population with any log, a failing one or none.",
  ["inputs", "fault_sequences", "histories"],
  "All sequences of messages, characters and handle switches; write faults at any write.",
  "Only reporter output of short scripted reports is compared; failing handles and switching are not exercised.",
  ["ade/util.py", "ade/report.py"],
  [("Messenger.writeLine / writeChar / __call__", "ade/util.py"), ("Reporter.progressChar", "ade/report.py")],
  ["text received by the log handle", "outcome of a run under a failing handle"])

prop('C27', "Piecewise evaluation order follows measured average durations",
  "Iterating over an evaluation timer yields every ID with a finished call exactly once, in ascending order of the average elapsed time of its finished calls, whether they succeeded or failed. Calls pass arguments and results through unchanged, overlapping calls are timed separately, and updates during an iteration do not disturb it; a pickled copy behaves the same.",
  ["inputs", "schedules", "histories"],
  "All call sequences, durations and overlaps, on a virtual clock.",
  "The timer has no test at all.",
  ["ade/util.py"],
  [("EvalTimer.__call__ / __iter__", "ade/util.py"), ("Picklable", "ade/util.py")],
  ["iteration order, results of timed calls"])

prop('C28', "With xSSE on, each evaluation gets its own target's SSE as cut-off",
  "With the xSSE option every challenger's evaluation receives, as the xSSE keyword, the SSE its target has at that moment, and losing challengers leave no history record; without the option no such keyword is passed and every losing challenger with finite SSE is recorded as never in the population. Setup evaluations never receive the keyword, and the option changes nothing about who wins.",
  ["configurations", "schedules", "inputs"],
  "All runs with the option on or off, any completion order, early-terminating evaluators included.",
  "One test sets the option and checks that evaluation counts drop.",
  ["ade/de.py", "ade/individual.py", "ade/population.py"],
  [("xSSE branch of challenge", "ade/de.py"), ("Individual.evaluate / Population.evalFunc", "ade/individual.py, ade/population.py")],
  ["keywords passed to the evaluation function", "history contents"])

prop('C29', "Individuals compare, combine and hash consistently in every process",
  "Individuals are ordered by SSE alone (None, negative and NaN as infinite) against each other and against numbers, are equal exactly when SSE and values are equal (values alone can be compared with another's or with a sequence), and equal ones have equal hashes, also in another process; hashing works for every SSE. Sums, differences and scalings give new individuals with the element-wise result and no SSE, a copy equals its original and is independent of it, and values are addressable by position or name.",
  ["inputs", "histories"],
  "All values and SSEs: huge, tiny, zero, None, NaN, negative, integers and numpy scalars; pairs, copies and other processes.",
  "Tests check a few finite examples in one process with a fixed hash seed.",
  ["ade/individual.py"],
  [("Individual comparison, arithmetic, hash and copy methods", "ade/individual.py")],
  ["results of operators on individuals"])

prop('C30', "Example extraction never overwrites or damages an existing file",
  "Extracting the examples creates, in the user's example directory, a byte-identical copy of every packaged example source file (Python or C) that is not already there, and leaves every file already present untouched, whatever its content and however often the extraction is repeated; files deleted in between are restored. Nothing is written anywhere else.",
  ["histories", "configurations"],
  "All states of the example directory: absent, empty, partial, modified files, symlinks (also dangling) and directories in place of files; repeated extraction.",
  "Extraction has no test.",
  ["ade/__init__.py", "ade/scripts/examples.py"],
  [("extract_examples", "ade/__init__.py"), ("extract", "ade/scripts/examples.py")],
  ["contents of the example directory and of the home directory before and after"])

prop('C31', "Plots show exactly the records asked for, each figure in its own file",
  "A plot of recorded values shows, for each parameter asked for, one point for each record selected (current members, maximum ratio to the best SSE) and no other, at its value and SSE; an X-Y plot likewise, with markers by quality, and a correlation plot shows the most correlated pairs, all involving the named parameter if there is one, with the correlation and fitted line. Each figure is written to its own numbered file with the size asked for, none is lost, and the plotting script does what its options say.",
  ["inputs", "configurations", "histories"],
  "All recorded histories with any mix of members, former members and losers, any selection, file specification and number of figures, garbage collection at any moment.",
  "Plotting has no assertion in the suite; its tests only display figures.",
  ["ade/history.py", "ade/scripts/pv.py"],
  [("Analysis.plot / plotXY / plotCorrelated", "ade/history.py"), ("Analysis.filePath / makePlotter", "ade/history.py"), ("Runner", "ade/scripts/pv.py")],
  ["figures as they are written, and the files written"])

prop('C32', "Command lines are read exactly as the declared options say",
  "A declared option that is present yields its value converted to the declared default's type, and its default otherwise; flags yield their presence, and positional arguments come in order, can be counted, indexed and iterated over, whether or not any were declared. Every declared description and default appears in the help text, and a function is run only as part of a main program.",
  ["inputs", "configurations"],
  "All declarations of flags, valued options, defaults and positionals, and all command lines made from them, in any order and spelling.",
  "The argument parser is only ever run by the command-line scripts, which have no test.",
  ["ade/args.py"],
  [("Args.__call__, __getattr__, __getitem__", "ade/args.py")],
  ["values and help text obtained for a command line"])

prop('C33', "An image gets one viewer, started as configured, when first written",
  "Watching an image creates the file if absent and leaves an existing one alone; when the image is then written, the first available viewer program is started once, with its configured options (the image's base name substituted) and the path, and its process ID is kept beside the image. None is started while the process named there is alive; a program that complains is followed by the next one and the complaint logged unless asked otherwise, and closing ends the viewer.",
  ["histories", "fault_sequences", "configurations"],
  "All sequences of watching, writing, closing and dying viewers, stale or foreign process ID files, missing, failing or complaining programs.",
  "The image viewer has no test.",
  ["ade/image.py"],
  [("ImageViewer.spawnViewer, processRunning, savePID, termViewer", "ade/image.py"), ("ViewerProtocol", "ade/image.py")],
  ["arguments received by viewer programs, process ID file, signals sent, log"])

prop('C34', "Printed individuals and populations tell the truth",
  "A printed individual shows its SSE and each parameter once, in name order, with its value, marked with one star within 5% of its lower bound and two within 5% of its upper; lines are not longer than 120 characters. A printed population tells its size, lowest and highest SSE and mean evaluation time, and lists the best members in order of SSE with their own values, followed by the best one; an empty one says so.",
  ["inputs", "histories"],
  "All values, bounds, SSEs (also invalid ones), numbers of parameters and members, after replacements and changes of bounds.",
  "Tests look for a few substrings in one printed individual and population.",
  ["ade/population.py", "ade/individual.py"],
  [("ParameterManager.prettyValues / stringValue / sortedNamerator", "ade/population.py"), ("Population.__repr__ / evalTimes", "ade/population.py"), ("Individual.__repr__", "ade/individual.py")],
  ["the printed text"])

prop('C35', "Progress characters say what became of each report",
  "Each report logs exactly the documented character: '*' for the first individual, '!' for a new best, '#', '%' or '?' for invalid or fatal evaluations, 'X' for a failed challenge, '0' for an equivalent SSE, a digit for the rounded ratio (9 for more), and an extra '+' when a successful challenger is the best so far. A violated constraint logs its own character, silent reports none, and lines end after at most 120 characters, counted anew after a line logged by a callback.",
  ["inputs", "histories"],
  "All sequences of reports of one or two individuals with any SSEs, forced or silent, and of line endings in between.",
  "Tests compare the output of a few reports with ordinary SSEs.",
  ["ade/report.py", "ade/population.py"],
  [("Reporter.__call__ / msgRatio / progressChar", "ade/report.py"), ("showFailedConstraint", "ade/population.py")],
  ["text received by the log"])

prop('C36', "What cannot be used is refused, and refusing it changes nothing",
  "Settings and requests that cannot be used are refused with an exception: functions, constraints and callbacks that cannot be called, numbers of bounds, names or values that do not match, crossover or base settings out of range, members that are not individuals or positions that do not exist, duplicate lock requests. A refused attempt, at any moment of a run, changes nothing: the run continues exactly as it would have without it.",
  ["inputs", "schedules", "histories"],
  "All kinds of refused attempts at any evaluation of setup or run, any completion order, with and without constraints and abort.",
  "Two refusals are tested in isolation; what they leave behind is not looked at.",
  ["ade/population.py", "ade/de.py", "ade/individual.py", "ade/report.py", "ade/abort.py"],
  [("Population.__init__ / __setitem__ / setConstraints / lock / sample", "ade/population.py"), ("DifferentialEvolution.__init__", "ade/de.py"), ("Individual.update", "ade/individual.py"), ("Reporter.addCallback", "ade/report.py")],
  ["exceptions, population, history and log of a run with refused attempts and of the same run without"])

prop('C37', "A per-generation callback can fail or stop the run without harm",
  "If the per-generation callback raises, the run's Deferred fails with that very error; if it shuts down the optimizer, aborts the population or the Enter key is pressed during it, the Deferred fires with the population. Either way no further evaluation or callback follows, the members stay as they were at that moment, nothing is left locked, and the population can be saved, loaded and run again. What the callback returns makes no difference.",
  ["fault_sequences", "schedules", "configurations"],
  "Every generation of small runs and random ones of larger runs, every kind of failure or stop, all completion orders, with slow report callbacks.",
  "Tests pass only well-behaved callbacks.",
  ["ade/de.py", "ade/population.py"],
  [("DifferentialEvolution._run, shutdown", "ade/de.py"), ("Population.abort, release", "ade/population.py")],
  ["result of the run's Deferred, calls of the evaluation function and the callback, members, a further run"])

prop('C38', "Objects of the picklable kind come back whole",
  "An object of a class derived from the library's picklable base class comes back from pickling or copying, in every protocol, as the same class with all its public attributes and slots set as they were, including falsy ones, those overriding an attribute of the class, inherited slots and references to itself. Unset slots stay unset, and private attributes, class attributes and methods are not stored.",
  ["inputs"],
  "All combinations of attributes, slots (own and inherited), nesting and pickle protocols; the data objects of the examples.",
  "The base class has no test.",
  ["ade/util.py", "ade/examples/data.py"],
  [("Picklable.__getstate__ / __setstate__", "ade/util.py"), ("EvalTimer", "ade/util.py"), ("Data", "ade/examples/data.py")],
  ["attributes of the object unpickled"])

prop('C39', "Populations and optimizers in one process do not influence each other",
  "When several populations are set up and run in one process at the same time or one after another, each behaves as if it were alone: its evaluation function, constraints, report callbacks and complaint handler are called only for its own parameters and individuals, its members, history, evaluation count and settings come only from its own evaluations, and a copy made by saving and loading is independent of the original. Aborting one of them, a fatal evaluation, a complaint or a failing callback in one leaves the others running normally to their end, whereas the Enter key stops all.",
  ["schedules", "configurations", "fault_sequences"],
  "All pairs and triples of configurations, interleavings of their events, and stops of one at any moment.",
  "Each test uses one population at a time.",
  ["ade/population.py", "ade/de.py", "ade/report.py", "ade/history.py", "ade/individual.py", "ade/abort.py"],
  [("Population.__init__ / clear / lock / abort", "ade/population.py"), ("DifferentialEvolution.shutdown", "ade/de.py"), ("Reporter.callbacks, abort", "ade/report.py"), ("History", "ade/history.py"), ("Keyboard", "ade/abort.py")],
  ["calls of each population's own functions, its members and history, the results of all runs"])

prop('C40', "A full history drops its most redundant expendable record",
  "When a full history makes room for another record, it drops exactly one record, of an individual not currently in the population, and it is one of the two such records that are closest to each other: by the squared differences of their SSEs and parameters, each scaled by the variance of that column over those records, divided by the pair's mean SSE. If there are more than 10000 pairs, a sample of that many is examined, so it is one of the closest few pairs of all. When most of those records were never in the population, one of these goes rather than one that formerly was.",
  ["inputs", "histories", "schedules"],
  "All sequences of additions and departures filling histories of any size, and departures while room is being made.",
  "The tests look at three fixed sets of at most eight rows and never at a history deciding by itself.",
  ["ade/history.py"],
  [("ClosestPairFinder", "ade/history.py"), ("History.add / notInPop / purge", "ade/history.py")],
  ["records in the history before and after an addition"])

prop('C43', "The log viewer shows the significant entries of a log, best one last",
  "The log viewer's table ends with the entry of the log (of those reported and those of a final population) having the lowest SSE, preceded in order of SSE by the entries of up to twice that SSE that differ by more than 1% in SSE or a parameter shown from the one below, the best 40 at most. Each row has the SSE, values and stars the log has for that entry. Shown are the parameters named by glob patterns or ranges such as x1-3, in alphabetical order, or if none are named those with a star in one of the four entries of lowest SSE.",
  ["inputs", "histories"],
  "All logs: any number of entries in any order, on one or several lines, with other output in between, positive and negative values in any notation, with or without final population; any names asked for; logs of real runs.",
  "No test reads a log; the script could not even be started.",
  ["ade/scripts/lgg.py", "ade/report.py", "ade/specs.py"],
  [("RowManager.trim", "ade/scripts/lgg.py"), ("Grepper.filerator / starredNames / globNames", "ade/scripts/lgg.py")],
  ["printed table"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'properties.jsonl')
with open(out, 'w') as fh:
    for p in P:
        fh.write(json.dumps(p) + "\n")
print(len(P), "properties")
