#!/usr/bin/env python3
# Regenerates properties.jsonl (the single source of the property statements).
import json
P=[]
def p(id,title,statement,over,qtext,why,files,mech,state=None,observe=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    if observe: a["observe_at"]=observe
    a["hook_needed"]=None
    assert len(title)<=80,title
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":qtext},"why_tests_cant":why,"anchors":a})

FL="handlers/flash/"; SL="handlers/sloggy/"
p("C01","Every line the flash handler writes is one well-formed JSON object",
 "Whatever the message, keys, group names, attribute values and derivation history of a logger, each record handled by the flash handler produces exactly one line that is a single syntactically valid JSON object: strings are escaped, members are separated by exactly one comma, and every brace that is opened is closed. Byte sequences that are not valid UTF-8 and floats that are not finite never make the line invalid.",
 ["inputs","histories","configurations"],"all records, attribute trees (all kinds, any depth), all byte strings as keys/messages/group names/values, all chains of With/WithGroup, with or without a ReplaceAttr function",
 "Tests log a few dozen fixed records; the escape loop, the comma state and the brace balance have to be right for every byte string and every attribute tree, including ones in which members disappear.",
 [FL+"composer.go",FL+"handler.go",FL+"group.go"],
 [("comma state machine","handlers/flash/composer.go addSeparator/addGroup/addAttribute"),("string escaping","handlers/flash/composer.go addEscaped/addString"),("prefix/suffix assembly","handlers/flash/handler.go Handle/WithAttrs/WithGroup")],
 [("buffer","bytes of the line composed so far","composer.buffer"),("started","a member has been written in the innermost open object","composer.started"),("prefix,suffix","pre-rendered members and open groups; matching closing braces","Handler.prefix/suffix")],["bytes passed to the io.Writer"])
p("C02","Every line the sloggy handler writes is one well-formed JSON object",
 "Whatever the message, keys, group names, attribute values and derivation history of a logger, each record handled by the sloggy handler produces exactly one line that is a single syntactically valid JSON object: strings are quoted with JSON escapes only, members are separated by exactly one comma, and every brace that is opened is closed. Byte sequences that are not valid UTF-8, control characters and floats that are not finite never make the line invalid.",
 ["inputs","histories","configurations"],"all records, attribute trees (all kinds, any depth), all byte strings as keys/messages/group names/values, all chains of With/WithGroup, with or without a ReplaceAttr function",
 "Tests log a few dozen fixed, mostly ASCII records; no test samples control characters, malformed UTF-8, non-finite floats or attribute removal in every position.",
 [SL+"composer.go",SL+"handler.go",SL+"group.go"],
 [("comma state machine","handlers/sloggy/composer.go addAttribute"),("string quoting","handlers/sloggy/composer.go addString"),("prefix/suffix assembly","handlers/sloggy/handler.go Handle/WithAttrs/WithGroup")],
 [("started","a member has been written in the innermost open object","composer.started"),("prefix,suffix","pre-rendered members and open groups; matching closing braces","Handler.prefix/suffix")],["bytes passed to the io.Writer"])
p("C03","Deriving loggers from the flash handler never disturbs other loggers",
 "Adding attributes or a group to a flash logger yields a new logger whose output contains its parent's context followed by its own; the parent, and every other logger derived from the same parent before or after, keeps producing exactly the output it produced before. An empty group name yields a logger with unchanged context.",
 ["histories","inputs"],"all trees of With/WithGroup derivations, in every order of derivation and use, all attribute lists and group names",
 "Sharing of backing arrays shows only for particular sibling derivations, lengths and capacities; tests derive at most one child per parent.",
 [FL+"handler.go",FL+"group.go"],
 [("copy-on-derive of the rendered context","handlers/flash/handler.go WithAttrs/WithGroup"),("open-group list","handlers/flash/handler.go WithGroup")],
 [("prefix,suffix,groups","immutable per-handler context","handlers/flash/handler.go Handler")],["output of sibling and parent loggers"])
p("C04","Deriving loggers from the sloggy handler never disturbs other loggers",
 "Adding attributes or a group to a sloggy logger yields a new logger whose output contains its parent's context followed by its own; the parent, and every other logger derived from the same parent before or after, keeps producing exactly the output it produced before. An empty group name yields a logger with unchanged context.",
 ["histories","inputs"],"all trees of With/WithGroup derivations, in every order of derivation and use, all attribute lists and group names",
 "Sharing of context between siblings shows only for particular derivation trees; tests derive at most one child per parent.",
 [SL+"handler.go",SL+"group.go"],
 [("copy-on-derive of the rendered context","handlers/sloggy/handler.go WithAttrs/WithGroup"),("open-group list","handlers/sloggy/handler.go WithGroup")],
 [("prefix,suffix,groups","immutable per-handler context","handlers/sloggy/handler.go Handler")],["output of sibling and parent loggers"])
p("C05","Flash output carries every attribute once, in order, with its value",
 "For a flash logger without a ReplaceAttr function, the members of the output line are, in order: the time when it is not zero, the level, the message, the source when requested and known, then the logger's own context and the record's attributes, each exactly once with its key and a rendering of its value by kind after resolving LogValuers. Named groups become nested objects, groups with an empty key are inlined, attributes added after a group is opened appear inside it, and empty attributes and groups without attributes are omitted.",
 ["inputs","histories","configurations"],"all records, attribute trees of all value kinds, all derivation chains and extras settings",
 "Tests check single attributes of some kinds in fixed positions; dropping, duplicating, misplacing or misrendering an attribute for a particular kind/position combination is not sampled.",
 [FL+"composer.go",FL+"handler.go",FL+"group.go",FL+"source.go"],
 [("per-kind rendering","handlers/flash/composer.go addAttribute/addAny/addTime"),("member order","handlers/flash/handler.go Handle"),("empty group elision","handlers/flash/group.go Handle, composer.go emptyGroup")],None,["decoded output line"])
p("C06","Sloggy output carries every attribute once, in order, with its value",
 "For a sloggy logger without a ReplaceAttr function, the members of the output line are, in order: the time when it is not zero, the level, the message, the source when requested and known, then the logger's own context and the record's attributes, each exactly once with its key and a rendering of its value by kind after resolving LogValuers. Named groups become nested objects, groups with an empty key are inlined, attributes added after a group is opened appear inside it, and empty attributes and groups without attributes are omitted.",
 ["inputs","histories","configurations"],"all records, attribute trees of all value kinds, all derivation chains",
 "Tests check single attributes of some kinds in fixed positions; dropping, duplicating, misplacing or misrendering an attribute for a particular kind/position combination is not sampled.",
 [SL+"composer.go",SL+"handler.go",SL+"group.go"],
 [("per-kind rendering","handlers/sloggy/composer.go addAttribute/addAny and helpers"),("member order","handlers/sloggy/handler.go Handle"),("empty group elision","handlers/sloggy/group.go Handle, composer.go emptyGroup")],None,["decoded output line"])
p("C07","ReplaceAttr sees each plain attribute with its groups and its result is used",
 "In the flash and sloggy handlers a configured ReplaceAttr function is applied exactly once to every built-in field and every non-group attribute, with the LogValuer-resolved value and with the names of the groups open around it from outermost to innermost (none for built-in fields), and what it returns is what is written. It is never applied to an attribute whose value is a group, and an attribute replaced by the empty attribute is omitted.",
 ["inputs","histories","configurations"],"all records, attribute trees, derivation chains and all ReplaceAttr functions",
 "Tests use a handful of replacement functions at one or two nesting depths; which groups are passed for which attribute is a statement about every tree.",
 [FL+"composer.go",FL+"handler.go",SL+"composer.go",SL+"handler.go"],
 [("replacement call","handlers/flash/composer.go addAttribute"),("replacement call","handlers/sloggy/composer.go addAttribute"),("open group list","WithGroup in handlers/flash/handler.go and handlers/sloggy/handler.go")],
 [("groups","names of the groups opened so far","Handler.groups, composer.groups")],["arguments seen by ReplaceAttr; output line"])
p("C08","Each record reaches the writer as one write made under the logger's lock",
 "Handling a record with the flash or sloggy handler makes exactly one call to the output writer, carrying the complete line including its newline, and makes it while holding a lock shared by all loggers derived from the same handler; the lock is released on every path, a failed write is reported as an error, and a record that cannot be rendered is reported as an error without writing anything partial. Hence concurrent records never interleave or tear.",
 ["schedules","inputs","fault_sequences"],"all interleavings of goroutines using loggers derived from one handler, all records, all write failures",
 "Tests log from one goroutine to an in-memory buffer; interleavings and failing writers are not sampled.",
 [FL+"handler.go",FL+"pools.go",SL+"handler.go",SL+"composer.go"],
 [("mutex around the single write","handlers/flash/handler.go Handle"),("mutex around the single write","handlers/sloggy/handler.go Handle"),("shared mutex","WithAttrs/WithGroup copy the mutex pointer")],
 [("mutex","serialises writes of all derived handlers","Handler.mutex")],["sequence of Write calls"])
p("C09","Level filtering and level names follow the configured options",
 "A flash or sloggy handler is enabled for a level exactly when that level is at or above the configured minimum at that moment (Info when none is configured), for the original and every derived logger. The level written is the configured name for that level in flash, and otherwise the standard name of the level, for every level value including ones between the named constants.",
 ["inputs","configurations","histories"],"all int levels, all Levelers (also ones that change over time), all level-name tables, all derivation chains",
 "Tests use the four named levels only.",
 [FL+"handler.go",FL+"extras.go",SL+"handler.go"],
 [("threshold test","Enabled in both handlers"),("default level","fixOptions in both handlers"),("level names","handlers/flash/extras.go fixExtras, handlers/flash/handler.go Handle")],None,["Enabled result; level member of the line"])
p("C10","Constructing a handler leaves the caller's options untouched and fills defaults",
 "Constructing a flash or sloggy handler never modifies the options, extras or level-name table supplied by the caller, so these can be shared between handlers and goroutines. Every extras field the caller set is honoured as given and every field left empty takes its documented default: the standard keys, the nanosecond RFC 3339 time format and the standard level names.",
 ["configurations","schedules"],"all combinations of set and unset options and extras fields, nil included",
 "Tests construct handlers from fresh literals, so that writes to the caller's structures are invisible, and set one field at a time.",
 [FL+"extras.go",FL+"handler.go",SL+"handler.go"],
 [("default filling","handlers/flash/extras.go fixExtras"),("default filling","fixOptions in both handlers")],None,["caller's structures after construction; keys and formats used in output"])
p("C11","Replacement functions change exactly the attributes they were asked to match",
 "A replacement function built for a key changes an attribute only when its key matches (exactly, or ignoring case when asked) and the group check, if any, accepts the open groups; then it changes only the key, only the value, only the case of the string value, or removes the attribute, as requested. Every other attribute is returned unchanged.",
 ["inputs","configurations"],"all keys, values, group stacks, group checks, change functions, case settings",
 "Table tests sample a few keys; the unchanged-otherwise half is a statement about every other key and group stack.",
 ["replace/change.go","replace/group.go"],
 [("match test","replace/change.go checkFieldGroups"),("builders","replace/change.go ChangeCase/ChangeKey/ChangeValue/RemoveKey"),("group checks","replace/group.go TopCheck/Current")],None,["returned attribute"])
p("C12","Chained replacement functions run in order and stop at removal",
 "A chain of replacement functions applies them in the order given, each to the previous one's result with the same open groups, and stops as soon as one of them returns the empty attribute, which is then the result. An empty chain returns the attribute unchanged.",
 ["inputs","programs"],"all lists of replacement functions of any length, all attributes and group stacks",
 "Tests sample chains of two or three fixed functions.",
 ["replace/multiple.go"],[("loop with early exit","replace/multiple.go Multiple")],None,["returned attribute; calls made"])
p("C13","The Gin writer turns each write into one log record at the right level",
 "Each successful write to the Gin writer produces exactly one record in the default logger and reports all bytes as written; a write that cannot be classified produces no record and an error. The record's level is that of the last level or debug tag leading the line (of the first ten tags), else the writer's configured level; a parsed traffic line is logged at the configured traffic level with the configured message and its fields grouped or embedded as configured. Only a line that was to be parsed and is not a traffic line may add a diagnostic debug record.",
 ["inputs","configurations"],"all written lines, all option combinations and levels",
 "Tests write fixed lines with one option set each and mostly default levels.",
 ["gin/writer.go"],[("tag stripping","gin/writer.go Write"),("option defaults","gin/writer.go NewWriter")],None,["records reaching the default slog handler; result of Write"])
p("C14","Gin traffic parsing extracts exactly the fields of a traffic line",
 "Parsing a line succeeds exactly when it has four bar-separated parts of which the first is a decimal status code that fits an integer. It then yields the status code, elapsed time and client from the first three parts with surrounding blanks removed, in that order, followed by method and URL (quotes removed) when the fourth part consists of exactly two words; otherwise it yields an error and no fields.",
 ["inputs"],"all strings",
 "Tests parse a few recorded lines.",
 ["gin/parser.go"],[("splitting and field extraction","gin/parser.go Parse")],None,["returned fields"])
p("C15","The warning manager accounts for every warning it is given, exactly once",
 "For every sequence of additions the reported count of a warning equals the number of its recorded instances, which are kept in order with the function, text and log record given; nothing is merged across differently named warnings and nothing is lost. Warnings are reported from most to least important level and by name within a level, each once, and an \"unused\" note is dropped exactly when the warning it names did occur.",
 ["histories","inputs"],"all sequences of warning additions, skips and queries",
 "Tests add a few warnings in one order; ordering and counting are statements about every history.",
 ["infra/warning/manager.go"],[("instance recording","infra/warning/manager.go AddWarningFnText"),("ordering and pruning","infra/warning/manager.go GetWarnings")],
 [("warnings","instances by warning name","Manager.warnings")],["GetWarnings, ShowWarnings"])
p("C16","Only warnings switched on for a handler turn failures into warnings",
 "A test failure is turned into a warning only if that very warning was switched on for the manager and warnings are in use; asking about several warnings returns exactly the switched-on ones in the order asked. A test is skipped exactly when one of the named warnings is switched on, and then both the skip and its first cause are recorded.",
 ["histories","inputs","configurations"],"all sets of switched-on warnings, all query lists, both flag settings",
 "Tests switch on one or two warnings.",
 ["infra/warning/manager.go"],[("flags","infra/warning/manager.go WarnOnly/HasWarning/HasWarnings/SkipTestIf")],
 [("warnOnly","names of the warnings switched on","Manager.warnOnly")],["results of the queries and recorded warnings"])
p("C17","Warning names are unique and levels list their warnings completely",
 "Defining a warning under a name already in use returns the existing definition unchanged, and lookup by name finds exactly the defined warnings. The list for a level contains every warning defined at that level, once each, ordered by name, and level names convert to text and back, ignoring case, without loss.",
 ["histories","inputs"],"all sequences of definitions, all names and levels",
 "Tests check the predefined set only.",
 ["infra/warning/warning.go","infra/warning/level.go"],[("registry","infra/warning/warning.go NewWarning/ByName/WarningsForLevel"),("level text","infra/warning/level.go String/ParseLevel")],None,["returned warnings and lists"])
p("C18","Duplicate-field detection counts top-level JSON fields exactly",
 "For every valid JSON object the field counter reports exactly the names occurring at the top level (for the Apex layout, those within its nested fields object as well), each with the number of times it occurs; fields of nested objects, strings containing braces or quotes, and values of any kind do not disturb the count. The duplicate report lists exactly the names that occur more than once, and the benchmark checks flag a log line exactly when there is one.",
 ["inputs"],"all valid JSON objects",
 "Tests count a handful of literals.",
 ["internal/json/field.go","bench/tests/checks.go"],[("recursive descent parser","internal/json/field.go Parse and parse*"),("reports","internal/json/field.go Duplicates/Fields/NumFields"),("benchmark check","bench/tests/checks.go noDuplicates")],None,["Fields, Duplicates, benchmark verification result"])
p("C19","Benchmark data is parsed completely and both views of it agree",
 "Every benchmark result line (naming handler, test and CPU count) yields one record, the latest for its handler and test, reachable under its test and under its handler, with the runs, time, bytes, allocations and throughput printed on that line (zero for those missing); the two views always hold equal records, and throughput in larger units is the same number scaled. Test and handler lists contain every tag that has a record, once each, ordered by display name.",
 ["inputs","histories"],"all benchmark output texts",
 "Tests parse one captured run and look at a few numbers.",
 ["internal/data/bench_parser.go","internal/data/bench.go"],[("line parser","internal/data/bench_parser.go ParseBenchmarkData"),("lists","internal/data/bench.go HandlerTags/TestTags"),("item access","internal/data/bench.go ItemValue")],
 [("byTest,ByHandler","the two indexes of the same records","Benchmarks")],["records and lists returned"])
p("C20","Warning data is parsed completely and all views of it agree",
 "Every warning instance in the parsed output is recorded once under its handler, under its test and in the per-warning counts, at the level and with the text and log record printed for it; later sections and further inputs never remove what was recorded earlier. Parsing never panics, whatever the text.",
 ["inputs","histories"],"all warning output texts, all sequences of parsed inputs",
 "Tests parse captured outputs only.",
 ["internal/data/warnings_parser.go","internal/data/warnings.go"],[("line parser","internal/data/warnings_parser.go ParseWarningData"),("indexes","internal/data/warnings.go findHandler/findTest/FindWarning")],
 [("byTest,ByHandler,ByWarning","three indexes of the same instances","Warnings")],["levels, counts and lists returned"])
p("C21","Range scores lie between 0 and 100 and reward lower values",
 "A value within a recorded range scores between 0 and 100: the lowest recorded value scores 100, the highest 0 (100 when they are equal), and a lower value never scores less than a higher one. A range covers exactly the values added to it, in any order.",
 ["inputs","histories"],"all finite sequences of non-negative values and all queried values in range",
 "Tests evaluate one captured data set.",
 ["internal/scoring/axis/common/range.go"],[("range tracking and scoring","internal/scoring/axis/common/range.go")],[("low,high","extremes of the values added","RangeFloat64, RangeUint64")],["RangedValue, Length"])
p("C22","Averages are weighted means of exactly what was added",
 "The average of a set of scores is the sum of each score times its weight divided by the sum of the weights, over everything added, so that it lies between the smallest and largest score added. Scores with weight zero and empty sub-scores never turn a result to which something else contributed into a non-number.",
 ["inputs","histories"],"all sequences of scores and weights",
 "Tests add a few fixed scores.",
 ["internal/scoring/score/average.go","internal/scoring/axis/benchmarks.go"],[("accumulation","internal/scoring/score/average.go")],None,["Average"])
p("C23","Creators make loggers and handlers through the functions they were given",
 "A creator reports the name, summary and links it was built with, builds handlers only through its handler function, and builds loggers through its logger function when it has one and otherwise from its handler function, passing on the given writer and options unchanged. It claims to be able to make handlers exactly when it can.",
 ["configurations","inputs"],"all combinations of creator functions, writers and options",
 "Tests exercise one combination per creator.",
 ["infra/creator.go","infra/options.go"],[("dispatch","infra/creator.go NewLogger/NewHandler/CanMakeHandler")],None,["calls made to the supplied functions; results"])
with open("/verif/properties.jsonl","w") as f:
    for x in P: f.write(json.dumps(x,ensure_ascii=False)+"\n")
print(len(P))
