#!/usr/bin/env python3
"""Writes /verif/properties.jsonl and /verif/MANIFEST.json from the definitions below."""
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []      # claimed properties
NA = []     # (property, reason)

def prop(id, title, statement, over, quant, why, files, mech, technique, note, state=None, observe=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, quant=quant, why=why, files=files, mech=mech,
                  technique=technique, note=note, state=state, observe=observe))

def na(id, title, statement, over, quant, why, files, mech, reason):
    prop(id, title, statement, over, quant, why, files, mech, None, reason)
    NA.append((id, reason))

FL = "handlers/flash/"
SL = "handlers/sloggy/"
HF = [FL + "handler.go", FL + "composer.go", FL + "group.go", FL + "extras.go", SL + "handler.go", SL + "composer.go", SL + "group.go"]
ENG = "interprocedural path-sensitive abstract interpretation over SSA (disjunctive dataflow with finite facts and function summaries to a fixpoint), from every reachable handler state"
HN = ("Decided for flash and sloggy from the constructor through every sequence of WithAttrs/WithGroup (reachable abstract handler states to a fixpoint). "
      "Trusted: models of the standard library calls used, the user-supplied writer, replacement function and marshalers behave (do not call back into the handler). ")

prop("H01", "Deriving a handler never changes its parent or its siblings",
     "When a flash or sloggy handler is derived with attributes or a group, the handler it is derived from, every handler derived from it before or later, and the attributes passed by the caller stay as they were. "
     "In particular two handlers derived from the same one never share a buffer or list in which one could overwrite what the other appended.",
     ["histories", "schedules"], "every sequence of WithAttrs and WithGroup calls on handlers of one family, in any order and concurrently",
     "Tests derive a few handlers and log at once; the aliasing of spare slice capacity depends on lengths, capacities and the order of derivations.",
     HF, [{"name": "WithAttrs and WithGroup copy before extending", "where": FL + "handler.go"}, {"name": "same", "where": SL + "handler.go"}],
     "effect and aliasing analysis of slices and buffers: " + ENG, HN)
prop("H02", "Logging through one handler from many goroutines writes no shared memory",
     "Handling a record or asking whether a level is enabled on a flash or sloggy handler never writes memory that other goroutines using the same handler, or handlers derived from it, can reach, unless a lock common to all of them is held.",
     ["schedules"], "every interleaving of Handle and Enabled calls on handlers of one family",
     "The race detector sees only the accesses of the runs made; the absence of unprotected writes must hold for every record and handler.",
     HF, [{"name": "per call composer and line buffer", "where": FL + "composer.go"}, {"name": "mutex shared by derived handlers", "where": SL + "handler.go"}],
     "effect analysis with lock sets: " + ENG, HN)
prop("H03", "Each record is written by exactly one write under a shared lock",
     "A call of a flash or sloggy handler that succeeds passes the whole line to the writer in exactly one Write call, made while holding a lock that all handlers derived from the same one share; a call that fails makes at most one. "
     "The lock is released on every way out, and nothing is left to another goroutine.",
     ["schedules", "inputs", "fault_sequences"], "every record, handler state and writer outcome, and every interleaving with other handlers of the family",
     "Tests write to one buffer from one goroutine; interleaved partial writes, a lock not shared by derived handlers, or a lock kept on an error path need particular schedules or faults.",
     HF, [{"name": "one Write under the mutex at the end of Handle", "where": FL + "handler.go"}, {"name": "same", "where": SL + "handler.go"}],
     "typestate of writer and lock: " + ENG, HN)
prop("H04", "Every line written is one complete JSON object and a newline",
     "Whatever the record, the attributes and groups collected before, and the options, what flash and sloggy pass to the writer is one syntactically complete JSON object (balanced, members separated by single commas, keys followed by values, numbers that JSON has) followed by one newline. "
     "This includes empty groups, groups whose members vanish, attributes removed by the replacement function, and fields that failed to be composed earlier. ",
     ["inputs", "histories", "configurations"], "every record, options value and sequence of WithAttrs/WithGroup calls",
     "Commas and braces depend on combinations of empty groups, removed fields and precomputed prefixes; tests parse only the lines of the combinations they thought of.",
     HF, [{"name": "separator state of the composer", "where": FL + "composer.go"}, {"name": "prefix and suffix of derived handlers", "where": FL + "handler.go"}],
     "abstract interpretation of output construction into transformers of a JSON recogniser: " + ENG, HN + "Values marshalled by encoding/json count as one JSON value; values written by a user's MarshalJSON are quoted by both handlers. An analysis that reaches its step limit is reported here.")
prop("H05", "Text in a line is escaped: no input can break out of its JSON string",
     "Keys, group names, messages and string values reach the line only as properly escaped JSON strings, in flash and in sloggy: no quote, backslash or control character of the text reaches the line bare, and decoding the string gives back exactly the characters of the text.",
     ["inputs"], "every string used as key, group name, message or value, and every handler state",
     "Tests contain a few strings with a few special characters; an unescaped path for one kind of text or an error for one byte value stays unseen.",
     HF, [{"name": "escaping of bytes", "where": FL + "composer.go"}, {"name": "quoting of strings", "where": SL + "composer.go"}],
     "taint analysis to string positions plus finite-domain abstract interpretation (256 byte values) of escaping loops", HN + "Bytes that are not valid UTF-8 are passed on as they are (the documented behaviour of flash).", )
prop("H06", "A handler is enabled exactly for levels at or above its configured minimum",
     "A flash or sloggy handler, and every handler derived from it, reports a level as enabled exactly when it is at or above the minimum level configured at that moment (a minimum that changes later is honoured at once). When no minimum is configured it is Info.",
     ["inputs", "histories", "configurations"], "every level, every level variable and its changes, every derivation",
     "Tests ask for a few levels with a constant minimum; off-by-one comparisons, cached minimums and minimums lost on derivation show only for particular levels and histories.",
     HF, [{"name": "Enabled", "where": FL + "handler.go"}, {"name": "default options", "where": SL + "handler.go"}],
     "outcome classification by order facts: " + ENG, HN)
prop("H07", "Values are resolved before use and read only as what they are",
     "Deferred values are resolved before flash or sloggy write them or decide how to write them, also inside groups, when precomputed for derived handlers, and after the replacement function returned one. A value is never read as a kind it does not have.",
     ["inputs"], "every attribute value of every kind, at every nesting depth",
     "Reading a value as another kind panics or yields garbage for values that tests do not contain (deferred values inside groups, or produced by the replacement function).",
     HF, [{"name": "Resolve in addAttribute", "where": FL + "composer.go"}, {"name": "same", "where": SL + "composer.go"}],
     "kind dataflow: " + ENG, HN)
prop("H08", "No attribute is lost; only empty ones and empty groups are left out",
     "Each attribute given to flash or sloggy, in a record or when deriving, appears in the line, or makes the call fail, or is left out because it is empty, was emptied by the replacement function, or is a group without members to show. "
     "Members of a group without a name appear in place, and an empty attribute or an empty key made of an unnamed group is never written. The attributes of a record are all visited.",
     ["inputs", "histories"], "every record and list of attributes, every nesting of groups",
     "Tests look for a handful of expected fields; an attribute dropped for a particular kind, value or position goes unnoticed.",
     HF, [{"name": "addAttribute and the traversal of the record", "where": FL + "handler.go"}, {"name": "same", "where": SL + "composer.go"}],
     "per attribute path obligations: " + ENG, HN)
prop("H09", "The replacement function sees every field once resolved and its result is used",
     "When a replacement function is configured, flash and sloggy pass it every built-in field and every attribute that is not a group, with the value resolved, before writing it; what is written is what it returned, and nothing of the original value is used after it was replaced. Groups themselves are not passed to it.",
     ["inputs", "configurations"], "every replacement function, record, derivation and nesting of groups",
     "Tests use a few fixed replacement functions on a few fields; a path that bypasses the function or mixes old and new value needs the particular field or kind.",
     HF, [{"name": "call of the replacement function in addAttribute", "where": FL + "composer.go"}, {"name": "same", "where": SL + "composer.go"}],
     "per attribute path obligations and value provenance: " + ENG, HN)
prop("H10", "A record that could not be composed or written is reported as an error",
     "If composing a line or writing it fails, handling the record with flash or sloggy returns an error; success is reported only when the write succeeded. No error on the way is dropped.",
     ["fault_sequences", "inputs"], "every failure of the writer and of marshalling user values, at every place",
     "Tests use writers and values that do not fail.",
     HF, [{"name": "error returns of Handle", "where": FL + "handler.go"}, {"name": "same", "where": SL + "handler.go"}],
     "error flow analysis: " + ENG, HN)
prop("H11", "Recycled objects are never shared, used after recycling, or read stale",
     "Memory that flash takes from and returns to its pools is used only between the two: it is returned at most once, is not used or reachable afterwards, never is memory that a handler or the caller keeps, and no content of an earlier use is visible in a later one.",
     ["schedules", "histories"], "every sequence and interleaving of log calls and derivations",
     "A pool hands out stale or shared objects only under particular interleavings and reuse; single-threaded tests never notice.",
     [FL + "composer.go", FL + "pools.go", FL + "handler.go", FL + "source.go"], [{"name": "pools", "where": FL + "pools.go"}, {"name": "composer reuse", "where": FL + "composer.go"}],
     "pool typestate and escape analysis: " + ENG, HN)
prop("H12", "The caller's options and extras are never modified",
     "Creating flash or sloggy handlers, deriving from them and logging through them never modifies the options and extras passed by the caller, so that one options value can be used for any number of handlers, before, after and concurrently.",
     ["histories", "schedules", "configurations"], "every sequence of constructions sharing options, including nil and partly filled options",
     "Tests build a fresh options value per handler, so defaults written into the caller's value stay invisible.",
     [FL + "handler.go", FL + "extras.go", SL + "handler.go"], [{"name": "defaulting of options", "where": FL + "handler.go"}, {"name": "same", "where": SL + "handler.go"}],
     "effect analysis of constructors and methods: " + ENG, HN)
prop("H13", "Handlers never panic, consult the context, or deadlock on themselves",
     "No record, attribute or derivation makes flash or sloggy panic on its own account, and whatever values the context carries (or when it is absent) the outcome is the same. They never log through the global logger while holding their lock.",
     ["inputs", "histories"], "every record, context, options value and derivation",
     "Tests pass background contexts and ordinary names.",
     HF, [{"name": "group handlers pass themselves on", "where": FL + "group.go"}, {"name": "same", "where": SL + "group.go"}],
     "panic reachability: " + ENG, HN + "Index and nil-dereference panics inside the handlers are covered only as far as the abstract memory decides them.")
prop("H14", "Every line carries message, level, a nonzero time, and the source if wanted",
     "Each line written by flash and sloggy contains the record's message and level (however unusual), its time when that is not zero and never when it is, and the source location when it was asked for and is known and not otherwise; these fields are subject only to the replacement function.",
     ["inputs", "configurations", "histories"], "every record, options value and derivation",
     "Tests cover the four standard levels and records made by a logger; custom levels, zero times and absent program counters are rare.",
     HF, [{"name": "built-in fields in Handle", "where": FL + "handler.go"}, {"name": "level names", "where": FL + "extras.go"}, {"name": "same", "where": SL + "handler.go"}],
     "use obligations on every writing path: " + ENG, HN)

prop("H15", "Handlers and everything derived from them keep the options they were given",
     "A flash or sloggy handler uses exactly the options and extras it was created with: a field that was set keeps its value and a field that was not gets its documented default, whichever others are set, and every handler derived from it by WithAttrs and WithGroup uses the same ones. "
     "The time, level and message of a record are written under the configured keys (the standard ones where none is configured), and flash writes times in the configured format.",
     ["configurations", "histories"], "every combination of set and unset fields and every derivation",
     "Tests configure one or two extras at a time and look at a handler one derivation deep; a default that depends on another field or an option lost on deriving needs the right combination.",
     HF, [{"name": "extras and their defaults", "where": FL + "extras.go"}, {"name": "options", "where": FL + "handler.go"}, {"name": "options", "where": SL + "handler.go"}],
     "configuration dataflow from the constructor and each derivation, key/value pairing on every path: " + ENG, HN)

SM = "path-sensitive abstract interpretation over SSA with views on texts and lists: "
prop("R01", "Replacement functions change exactly the attributes they are documented to",
     "The ReplaceAttr functions built by the replace package (change case, change key, remove key, change by function) change an attribute only when its key equals the configured one (under case folding only if asked to) and its groups pass the configured check, and then change only the part they are for; every other attribute is returned unchanged. "
     "TopCheck holds exactly for no groups and CurrentCheck(name) exactly when the innermost group is name; Multiple applies its functions in order to each other's results and stops only at the empty attribute.",
     ["inputs", "configurations"], "every key, value, list of groups, configuration and list of functions",
     "Tests replace a handful of keys at the top level; a wrong comparison, group check or order shows only for particular keys and nestings.",
     ["replace/change.go", "replace/group.go", "replace/multiple.go"],
     [{"name": "change and remove functions", "where": "replace/change.go"}, {"name": "group checks", "where": "replace/group.go"}, {"name": "Multiple", "where": "replace/multiple.go"}],
     SM + "result of every path against the specification under the facts of that path", "Values of attributes are opaque; loops over groups and functions are covered for every position by a fixpoint.")
prop("R02", "Replacement functions and option constructors share no mutable state",
     "A ReplaceAttr function built by the replace package gives the same result for the same arguments whatever was passed before, and neither changes the list of groups it is passed nor any other memory it shares with other calls, so that handlers may call it concurrently. "
     "The functions of package infra that build handler options return a new options value on every call, which no one else holds.",
     ["histories", "schedules"], "every sequence and interleaving of calls",
     "A memo, a counter or a shared default shows only in later calls or in concurrent ones.",
     ["replace/change.go", "replace/group.go", "replace/multiple.go", "infra/options.go"],
     [{"name": "closures", "where": "replace/change.go"}, {"name": "options constructors", "where": "infra/options.go"}],
     SM + "effects on memory that existed before the call", "")
prop("G01", "The gin writer turns each write into exactly one log record",
     "Each call of Write on a gin writer either logs exactly one record to the default logger and returns the length of the text and no error, or logs none and returns 0 and an error (a debug record about a line that does not parse as traffic is not counted). "
     "The message is the text without line ends, without the prefixes gin puts in front of a line and without its time stamp, unless traffic parsing is on and the text parses: then it is the configured traffic message, with the parsed fields embedded or in the configured group. Nothing else the writer shares with other writes, nor the text passed in, is changed.",
     ["inputs", "histories", "configurations", "schedules"], "every text, options value and sequence of writes",
     "Tests write a dozen lines; texts with several prefixes, unusual lengths and combinations of options are not among them.",
     ["gin/writer.go"], [{"name": "Write", "where": "gin/writer.go"}, {"name": "NewWriter", "where": "gin/writer.go"}],
     SM + "typestate of the record, provenance of the message, effects", "The default logger's handler is trusted.")
prop("G02", "The gin writer logs each line at the level due",
     "A line that parsed as traffic is logged at the configured traffic level (Info if none), any other line at the level named by the last level prefix of the line, where the gin debug prefix means Debug, and at the configured level (Info if none) when the line has no such prefix. A level prefix changes the level of its own line only; a line with an unknown level prefix is refused. Any slog.Leveler may be configured and is asked at the time of the write.",
     ["inputs", "histories", "configurations"], "every text, options value and sequence of writes",
     "Tests use the default and the error level with one prefix each.",
     ["gin/writer.go"], [{"name": "level in Write", "where": "gin/writer.go"}, {"name": "prefix patterns", "where": "gin/writer.go"}],
     SM + "level against the prefixes cut off on the path; prefix patterns compared as regular languages (automata)", "")
prop("G03", "Parsing a gin traffic line gives exactly its fields, or an error",
     "Parsing a text as gin traffic never panics. It returns an error and no fields unless the text consists of four parts separated by bars, the first of which is a decimal number in optional white space; otherwise it returns code (that number), elapsed and client (second and third part without surrounding blanks), and, exactly when the last part consists of two words, method and url (those words, the url without quotes).",
     ["inputs"], "every text",
     "Tests parse one good and two bad lines.",
     ["gin/parser.go"], [{"name": "Parse", "where": "gin/parser.go"}],
     SM + "provenance of every field for each number of parts and words; index bounds; patterns compared as regular languages", "A number too large for 64 bits is refused as the library reports it.")

prop("I01", "Handler creators pass the writer and the configured options through",
     "Every handler creator of the creator packages gives the wrapped handler the caller's writer itself, the configured minimum level (Info when none is configured; libraries with fixed levels get the greatest standard level not above it), the source setting and the replacement function, each as far as the wrapped constructor accepts it. "
     "It returns a new handler on every call and never modifies the options it was given or any state shared between calls. The creator for a deduplication mode makes the handler for that mode.",
     ["inputs", "configurations", "histories"], "every options value with level, source and replacement function present or absent, and every sequence of constructions",
     "Tests construct each handler with the options of one scenario at a time and look at a few lines; several third party handlers cannot even be compiled here.",
     ["creator/samberlogrus/creator.go", "creator/samberzap/creator.go", "creator/chanchalzap/creator.go", "creator/madkinsreplattr/creator.go", "creator/utilzap/conversion.go", "creator/utillogrus/conversion.go", "creator/veqryndedup/creator.go", "creator/svcrunnerjsonlog/creator.go"],
     [{"name": "handler functions of the creators", "where": "creator/samberzap/creator.go"}, {"name": "level conversion", "where": "creator/utilzap/conversion.go"}],
     SM + "values reaching foreign constructor calls against the specification, effects", "What the wrapped libraries do with the options is not analysed. Third party packages that are not in the sandbox are type-checked against stubs.")
prop("I02", "A Creator hands out what its functions make",
     "A creator made from a name and at least one function gives exactly that name, summary and links; without a name or without any function none is made. "
     "Its logger comes from the logger function when there is one, otherwise it is a logger on the handler the handler function makes; its handler comes from the handler function and is absent exactly when there is none, which is what CanMakeHandler tells. Writer and options are passed on unchanged.",
     ["configurations", "inputs"], "every combination of functions present, and all arguments",
     "Tests use creators with a handler function only.",
     ["infra/creator.go"], [{"name": "NewLogger and NewHandler", "where": "infra/creator.go"}],
     SM + "results of every method against the specification", "")

prop("X01", "Map iteration order never reaches an output",
     "Nothing go-slog prints, writes, records as a warning or returns as a list depends on the order in which Go iterates over a map: lists built from a map (tags, names, warnings, fields, handlers) are completely sorted on every path before they are returned, stored, printed or iterated for output, and nothing else that depends on the order (first or last element come across, running text, early cut-off) leaves such a loop. Error texts naming one of several offenders, debug output and diagnostics logged through slog are excepted.",
     ["schedules", "inputs"], "every iteration order the runtime may choose and every map content",
     "The order is random per run: a test sees one order of small maps and passes or fails by luck.",
     ["infra/warning/manager.go", "internal/data/bench.go", "internal/data/warnings.go", "internal/json/field.go", "verify/tests/suite.go", "bench/tests/checks.go", "internal/scoring/score/keeper.go", "cmd/server/chart/score.go"],
     [{"name": "GetWarnings, ShowWarnings, ShowHandlersByWarning, WithWarnings", "where": "infra/warning/manager.go"}, {"name": "tag and warning lists", "where": "internal/data/warnings.go"}],
     "dataflow on SSA: every range over a map, and every loop over a sequence filled in map order, is classified by the effects of its body (interprocedural effect summaries); collected sequences are followed to a sort on every path", "A value compared as a string is taken to identify its element; HTML templates iterate maps in key order by themselves.")

prop("W02", "The warning manager records every warning and answers from what was set",
     "Every warning added to a warning manager is recorded exactly once under the name of the warning, whatever was recorded before: the count of its name rises by one, and one instance with the function name, text and log record given (without its line end) is appended to those recorded, while the records of other names stay as they are. "
     "A warning set by WarnOnly holds afterwards (one that was not predefined is recorded as undefined as well); HasWarning, HasWarnings and SkipTestIf say so exactly when it was set and warnings are in use, SkipTestIf records exactly the skip it reports, for the first such warning. "
     "GetWarnings returns every recorded warning once, by falling level and then by name, and leaves out of the unused warnings just those that were recorded.",
     ["histories", "inputs"], "every sequence of calls on one manager, every warning, text and record",
     "Tests add a few distinct warnings; repetition, equal names, an unused warning next to recorded ones and warnings turned off are not among them.",
     ["infra/warning/manager.go"], [{"name": "AddWarning, WarnOnly, HasWarning, SkipTestIf, GetWarnings", "where": "infra/warning/manager.go"}],
     SM + "results and records after sequences of method calls from the constructor's state, with an unknown history (maps as update chains)", "The order of GetWarnings is decided for up to two recorded and one administrative warning; comparisons are composed from the comparator the code passes to sort. Methods are called one at a time.")

prop("D01", "Benchmark results are recorded under their handler and test, once",
     "Reading benchmark output never panics, and fails only when a number in a result line cannot be parsed or the input cannot be read. Each result line records exactly one record under its handler and its test, the same in the table by handler and in the table by test, holding the runs, ns/op, B/op, allocs/op and MB/s of that line (zero when the line has none; GB/s and TB/s follow from MB/s), and replaces an earlier record only of the same handler and test. "
     "Handler definition lines name handlers, and result lines never overwrite such a name. Warning lines are appended to the text of warnings, one per line; all other lines change nothing. The input is the given reader, without one the file of the -bench flag, without a flag the standard input.",
     ["inputs", "histories"], "every sequence of lines, and everything recorded before a line",
     "Tests parse one recorded file; missing columns, repeated lines, lines in unusual order and numbers out of range are not in it.",
     ["internal/data/bench.go", "internal/data/bench_parser.go"], [{"name": "ParseBenchmarkData", "where": "internal/data/bench_parser.go"}, {"name": "tables by test and handler", "where": "internal/data/bench.go"}],
     SM + "state of both tables after each kind of line from unknown contents (maps as update chains), provenance of every field, typestate of errors, nil dereferences", "The values of the derived GB/s and TB/s are not decided, only what they are computed from.")

prop("D02", "Warning reports are recorded instance by instance",
     "Parsing the output of the warning manager, in whatever order handlers, levels, warnings and instances come in it and whatever was parsed before, records each instance exactly once under its handler (translated by the lookup table), the level and the warning it is listed under, and exactly once under its test: with its text, the further lines of the text and its log record. Each warning knows how often it was listed for which handlers and for which tests; the test prefixes of Go are not part of a test's name. "
     "A handler without warnings is recorded as such and loses nothing parsed before; the summary and links given for a handler of the lookup table are recorded. Empty lines, lines of other programs and lines outside of a report change nothing, nothing after the list of handlers by warning is read, no sequence of lines causes a panic, and an error is returned exactly when reading fails.",
     ["inputs", "histories"], "every text of the parts of a report, and the listed sequences of line kinds of up to twelve lines",
     "Tests parse two recorded reports; repeated names, two parsed inputs, summaries between reports and misplaced lines are not in them.",
     ["internal/data/warnings_parser.go", "internal/data/warnings.go"], [{"name": "ParseWarningData", "where": "internal/data/warnings_parser.go"}, {"name": "tables by handler, test and warning", "where": "internal/data/warnings.go"}],
     SM + "contents of the tables after a sequence of line kinds against the specification (maps as update chains); patterns compared as regular languages with marked groups; nil dereferences", "Sequences are those listed in warnScripts. Which lines match which pattern follows from the kind of the line.")

prop("W04", "The warning report lists everything recorded",
     "ShowWarnings writes to the given writer (standard output if there is none) the line Warnings, with the handler's name if it has one, and below it the line None if nothing was recorded, else for every level with recorded warnings, in falling order, the name of the level, and under it, in the order of their names, each recorded warning once with how often it was recorded, its name and its summary, and below that each instance in the order recorded: its function, its text after a colon if there is one (further lines of the text follow on lines of their own, after a plus sign), and its log record if it has one. Every line starts with the prefix of the manager, and showing a report changes nothing. "
     "ShowHandlersByWarning lists each predefined warning that was shown, by level and name, with each handler that showed it, once and in order of names; it does not panic, whatever was recorded.",
     ["inputs", "histories"], "every name, text and record, for histories of up to three warnings and two handlers",
     "Reports are printed at the end of a test run, tests compare none of them.",
     ["infra/warning/manager.go"], [{"name": "Manager.ShowWarnings", "where": "infra/warning/manager.go"}, {"name": "ShowHandlersByWarning", "where": "infra/warning/manager.go"}],
     SM + "the text written as a sequence of constant and unknown parts, cut into lines and compared with the report specified, for both orders of names and both orders of map iteration; nil dereferences", "Histories are those listed in warningReport.")

prop("W01", "Warnings and levels are registered completely and found again",
     "Each warning level has a name of its own, one word; ParseLevel of that name (or admin for administrative) in upper, lower or mixed case gives the level back, and an error for any other text. LevelOrder lists every level once, falling. "
     "NewWarning makes a warning with the level, name and summary given; for a name already taken it gives the warning made first, unchanged. ByName finds every warning made and only those. "
     "WarningsForLevel, the Warnings method of a level, and Required, Implied, Suggested and Administrative list exactly the warnings of the level made so far, sorted by name, whenever they are asked. The warnings go-slog declares have distinct names and listed levels.",
     ["histories", "inputs"], "every sequence of up to four registrations and queries, with unknown names and every level",
     "Tests register no warnings of their own; a query before a registration, a name used twice or a level without a list shows only in a sequence nobody runs.",
     ["infra/warning/warning.go", "infra/warning/level.go", "infra/warning/benchmark.go", "infra/warning/required.go", "infra/warning/implied.go", "infra/warning/suggested.go", "infra/warning/admin.go"], [{"name": "NewWarning, ByName, WarningsForLevel", "where": "infra/warning/warning.go"}, {"name": "Level, ParseLevel, LevelOrder", "where": "infra/warning/level.go"}],
     SM + "tables (maps as update chains) and results after sequences of registrations and queries; constant tables read from the initialisers", "Warnings are registered one at a time. Sequences are those listed in the check.")

prop("S01", "Pages requested at the same time do not disturb each other",
     "Whatever answering a page request of the server writes into memory that requests share (the data parsed, caches built on first use, package variables) is guarded by a lock, and every other access to it made while answering requests holds that lock too. No request waits for a lock it holds itself, and none keeps a lock after it ends.",
     ["schedules"], "every interleaving of any number of requests, for every page and chart",
     "The server has no tests; a race between two first requests needs both at once, with data just loaded.",
     ["cmd/server/server.go", "internal/data/bench.go", "internal/data/warnings.go", "internal/scoring/score/keeper.go"],
     [{"name": "caches built on first use", "where": "internal/data/bench.go"}, {"name": "page functions and chart cache", "where": "cmd/server/server.go"}],
     "interprocedural effect and lockset analysis on SSA of everything reachable from the request functions, methods named in the page templates included", "Standard library and framework calls are leaves. Locations are told apart by type and field, values made in the request are followed by escape.")

prop("S02", "Every page fits its data, and every link leads to a page",
     "Each page route of the server has a template, and executing it never fails for what it is made of: the template and each sub-template it uses are parsed for that page, every field, method and template function used in them exists on what it is used on, is exported, gets the number and types of arguments it takes and returns one value (and maybe an error); compared values can be compared, ranged values iterated; sub-templates are given every entry they use; html/template accepts the page. "
     "Every absolute link in a page is answered by a route of the server.",
     ["inputs"], "every page, every branch of its template and every data of the types passed",
     "Templates are checked by no compiler: a renamed method shows when the branch that uses it is first executed, and the server has no tests.",
     ["cmd/server/server.go", "cmd/server/text.go", "internal/data/warnings.go", "internal/data/bench.go", "internal/scoring/score/keeper.go"],
     [{"name": "setup, pageFunction, functions", "where": "cmd/server/server.go"}, {"name": "pages and parts", "where": "cmd/server/pages"}],
     SM + "routes, request functions and template texts (which page consists of which texts), then type checking of the parsed templates against the go/types types of their data, link patterns against routes", "Nil pointers and what lists and maps contain are not decided. Links made by scripts are not looked at.")

prop("S03", "A chart shows what was asked for",
     "A request for a bar chart gets, with status 200 and type image/svg+xml, a chart for exactly the test or handler and the benchmark item in its address, titled with the item's long name: one bar per handler with a record for the test (or per test the handler has a record of), from top to bottom in the order of HandlerTags or TestTags, called by its name and as long as the record's value of the item. "
     "Without such records, or for an item that does not exist, no chart is sent. "
     "A request for a score chart gets the chart of exactly the keeper and size in its address, with the keeper's axes. "
     "What was requested before makes no difference: a chart that was kept is only sent for the same test or handler and item, or the same keeper and size.",
     ["inputs", "histories"], "all pairs of requests that differ in test, handler, item, keeper or size, records of unknown contents, every outcome of drawing",
     "The server has no tests, and a chart kept under too short a name shows only when another one was asked for before.",
     ["cmd/server/chart/bar.go", "cmd/server/chart/score.go", "cmd/server/chart/cache.go"],
     [{"name": "Bar, chartTest, chartHandler", "where": "cmd/server/chart/bar.go"}, {"name": "Score, scoreChartSize, Cache", "where": "cmd/server/chart/score.go"}],
     SM + "each request is analysed from every state an earlier one leaves; the chart libraries are modelled by what they are given", "Drawing itself, and where the points of a score chart are, is not decided.")

prop("E01", "No failure is lost",
     "When a call made by the library or the commands (outside the test suites) gives back an error, then on every path on which that error is not nil someone is told: the error, or one made from it, is returned, logged, passed to another function, stored or thrown, or another error is returned or logged, or a result says that it did not work. "
     "An error left in a variable by a callback is told as well, and whoever reads lines to the end asks the scanner whether it stopped because of an error. "
     "Turning a text into another form (strconv, encoding/...) may fail without anyone being told only if what it gave is then not used. "
     "Not meant: printing, writes to buffers in memory, Close, and errors of a kind looked for with errors.Is or errors.As.",
     ["inputs", "faults"], "every call that can fail and every path after it",
     "Tests hardly ever make a call fail; a dropped error shows only as output, data or a page that is incomplete without a word.",
     ["internal/data/setup.go", "internal/data/bench_parser.go", "internal/data/warnings_parser.go", "handlers/flash/handler.go", "handlers/sloggy/handler.go", "cmd/server/server.go", "internal/scoring/keeper/setup.go"],
     [{"name": "data.Setup, scoring.Setup", "where": "internal/data/setup.go"}, {"name": "Handler.Handle", "where": "handlers/flash/handler.go"}, {"name": "pageFunction", "where": "cmd/server/server.go"}],
     "path-sensitive dataflow over the SSA form of every function: the values that hold the error are followed along each path on which it is not nil, to the first instruction that tells", "Telling is any of the listed uses; whether the message is a good one is not decided.")

prop("K01", "Score keepers are found, ordered and filtered as declared",
     "A filter made by NewIncludeFilter keeps exactly the names given and those in the groups given (groups in groups included), one made by NewExcludeFilter exactly all others, however often and in whatever order names and groups overlap; making a filter leaves the groups it is made of as they were. "
     "AddKeeper refuses a keeper whose tag is taken and keeps the first; GetKeeper gives the keeper added under a tag and nil for any other tag; Keepers lists every tag added, once, at any time: sorted, with those that start with '+' last. "
     "Keeper.Setup sets up both axes with the data given and fails if one of them does; afterwards the keeper shows, however often it is set up, exactly the handlers with benchmarks whose name its filter keeps, all if it has none. "
     "scoring/keeper.Setup sets up all keepers it adds: those without '+' leave out exactly the deduplicating handlers and the ReplaceAttr handler, +Dedup shows exactly the deduplicating handlers and slog/JSONHandler, +ReplAttr exactly madkins/replattr and madkins/flash.",
     ["inputs", "histories"], "filters of every shape of names and groups up to depth two, keepers added and listed in every order, every outcome of axis and filter",
     "Tests build two or three filters; a group changed by the filter made of it, a name in two groups or a list not renewed shows on a score page only.",
     ["internal/scoring/score/filter.go", "internal/scoring/score/keeper.go", "internal/scoring/filter/basic.go", "internal/scoring/group/dedup.go", "internal/scoring/keeper/setup.go"],
     [{"name": "Group, filter", "where": "internal/scoring/score/filter.go"}, {"name": "AddKeeper, Keepers, Keeper.Setup", "where": "internal/scoring/score/keeper.go"}, {"name": "Basic, Dedup, ReplAttr", "where": "internal/scoring/filter"}],
     SM + "tables as update chains, answers of filters for listed and unlisted names, lists after each history of adding, text constants the default filters are made of", "Keepers are added one at a time. Shapes and histories are those listed in the check. What axes score is not decided.")

#MORE

def main():
    with open(os.path.join(here, "properties.jsonl"), "w") as f:
        for p in sorted(P, key=lambda p: p["id"]):
            a = {"files": p["files"], "mechanism": p["mech"]}
            if p["state"]: a["state"] = p["state"]
            if p["observe"]: a["observe_at"] = p["observe"]
            f.write(json.dumps({"id": p["id"], "title": p["title"], "statement": p["statement"].strip(),
                "quantifier": {"over": p["over"], "text": p["quant"]}, "why_tests_cant": p["why"], "anchors": a}) + "\n")
    checks = [{"property": p["id"], "quick_cmd": "bash check.sh " + p["id"], "thorough_cmd": "bash check.sh " + p["id"],
               "technique": "static analysis: " + p["technique"], "level": "other", "level_note": p["note"]}
              for p in sorted(P, key=lambda p: p["id"]) if p["technique"]]
    man = {"version": 1, "setup_cmd": "bash setup.sh", "checks": checks,
           "not_applicable": [{"property": i, "reason": r} for i, r in NA],
           "notes": "One analyser (checker/, Go, golang.org/x/tools SSA) loads, type-checks and SSA-builds /repo's working tree on every run and never executes repository code. See DESIGN.md."}
    with open(os.path.join(here, "MANIFEST.json"), "w") as f:
        json.dump(man, f, indent=1); f.write("\n")
main()
