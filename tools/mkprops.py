#!/usr/bin/env python3
# Regenerates /verif/properties.jsonl (kept as a script so that the long lines stay editable).
import json,os
P=[]
def prop(id,title,statement,over,text,why,files,mech,state=(),observe=(),hook=None):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,state=[dict(name=a,meaning=b,where=c) for a,b,c in state],
      mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=list(observe),hook_needed=hook)))
JOM="jom/jom.go"; PP="jom/json_map/json_path_parse.go"; AP="jom/json_map/absolute_paths.go.go"; JS="code/js/js.go"; GO="code/go/go.go"; CODE="code/code.go"; RUN="code/run.go"; CLI="json-dom.go"; GL="globals/error.go"

prop("C01","JSONPath text is parsed exactly or rejected",
 "Every JSONPath string is either rejected with an error or turned into exactly the selections that are written in it: each property, index, index list, slice, wildcard, first descent, recursive lookup and filter body appears once, in the written order and with the written value, and a list of n indices multiplies the alternatives by n. No part of an accepted path is ever dropped, merged with a neighbour, truncated because of its length, or reinterpreted as another selector.",
 ["inputs"],"all JSONPath strings (all token sequences and all short character strings over the path alphabet, plus tokens around internal buffer sizes)",
 "The tests parse about 40 hand-written paths; a wrong token boundary or dropped token only shows on particular adjacencies (two filters, negative index, long filter) they do not contain.",
 [PP,AP],[("state machine of tokens and possible successors","fromStateToStates, state.handler, ParseJsonPath in "+PP),("cross product of alternatives","AbsolutePaths.AddToAll in "+AP)],observe=["json_map.ParseJsonPath result and error"])
prop("C02","Reads return exactly the values a path denotes",
 "For every document and every supported JSONPath, a read returns exactly the values denoted by the documented selectors applied left to right, each to the value or list of values the previous one gave, in document order (map entries in alphabetical key order, array elements by index, comma lists in the written order), and a read never invents elements that are not in the document. A read fails with an error, and returns no values, exactly when some step cannot be taken: missing key, index outside the array, slice outside the array, a selector that does not fit the value, or a failing filter.",
 ["inputs"],"all documents up to a size bound times all paths up to a length bound over every selector kind",
 "The tests read a fixed sample document with a few dozen paths; the selectors combine freely and each pair of selector and value type has its own code branch.",
 [JOM],[("per-path evaluation","pathFinder and GetAbsolutePaths in "+JOM)],observe=["JsonPathSelector, MustGet, GetAbsolutePaths"])
prop("C03","Reads are deterministic and leave the document untouched",
 "Reading any path returns the same values in the same order with the same node paths (or the same error) on every execution, whatever the goroutine scheduling and whatever the map iteration order, always terminates, and leaves no goroutine behind. Reading never changes the document.",
 ["schedules","inputs"],"all goroutine interleavings and all map iteration orders of a read, for each document/path scenario",
 "A test run observes one schedule and one random map order per read; the order in which parallel finders deliver only changes under particular interleavings.",
 [JOM],[("parallel finders and result channels","pathFinder, recursiveLookup, GetAbsolutePaths in "+JOM)],observe=["JsonPathSelector result, order, goroutine count, document before/after"])
prop("C04","A set writes exactly the addressed locations",
 "Setting a non-null value through any JSONPath replaces exactly the locations which that path addresses (each selector being applied to every place the previous one reached), creates the final key when it names a missing key of an existing object, and leaves every other key, element, order and length unchanged. When the path addresses nothing (for example a filter that matches nothing, an empty slice or a wildcard over an empty collection) the document is unchanged, and when a path with a single alternative cannot be followed an error is returned and the document is unchanged if the path uses only keys and indices.",
 ["inputs"],"all documents up to a size bound times all paths up to a length bound times scalar and composite values",
 "The tests set a dozen paths in one document and compare the touched part; writing one location too many or too few needs particular shapes (empty arrays, empty slices, nested matches).",
 [JOM],[("recursive setter","SetAbsolutePaths in "+JOM)],observe=["JsonPathSetter, MustSet, SetAbsolutePaths; whole document compared afterwards"])
prop("C05","A delete removes exactly the addressed locations",
 "Deleting through a JSONPath with a single alternative removes exactly the map entries and array elements that the path addresses and nothing else; the surviving elements of every array keep their relative order and the surviving entries keep their values. An index list is applied as successive deletions in written order, and deleting something that is not addressed by anything (missing final key, filter without matches, empty slice) changes nothing.",
 ["inputs"],"all documents up to a size bound times all delete paths up to a length bound",
 "The tests delete at four paths; removing several elements of one array at once, empty ranges and nested matches are index arithmetic the samples do not cover.",
 [JOM],[("delete branch of the recursive setter","SetAbsolutePaths (setterMap, setterArr) in "+JOM)],observe=["MustDelete, JsonPathSetter(path,nil)"])
prop("C06","Stored values are independent copies",
 "A composite value written by a set or a push to one or several locations is stored as independent data in each of them: a later modification of one location through the document never shows up in another location, in the value the caller passed, or in a previously stored copy.",
 ["histories","inputs"],"all sequences of up to n document operations in which values are stored at several places and modified afterwards",
 "Needs a write to several targets followed by a nested write to one of them; the tests never follow a multi-target write by another write.",
 [JOM],[("value placement","setter in SetAbsolutePaths in "+JOM)],observe=["document after histories of MustSet/MustPush"])
prop("C07","The path reported for a value leads back to that value",
 "Every value returned by a read, through any kind of selector, comes with a path of its own which, evaluated again on the unchanged document, yields exactly that value (its elements if it is an array).",
 ["inputs"],"all documents up to a size bound times all paths up to a length bound",
 "The existing test checks the paths of the parser, never the paths attached to returned nodes.",
 [JOM,AP],[("amending node paths when arrays are unwrapped","GetAbsolutePaths in "+JOM)],observe=["JsonPathNode.Absolute re-evaluated with GetAbsolutePaths"])
prop("C08","Push inserts the value at the requested positions only",
 "Pushing a value onto an array addressed by a path with no indices appends it at the end (also when the array is empty); with indices, the resulting array holds the value at exactly the requested distinct positions and all previous elements in their previous order elsewhere, gaps beyond the end being filled with null, whatever the order or duplication of the requested indices. Nothing outside that array changes.",
 ["inputs"],"all arrays up to a length bound times all lists of non-negative indices up to a length bound",
 "Five hand-written pushes are tested; the insert positions interact (order, duplicates, beyond the end).",
 [JOM],[("MustPush","MustPush in "+JOM)],observe=["MustPush then whole document"])
prop("C09","Pop removes and returns exactly the requested elements",
 "Popping from a non-empty array addressed by a path returns exactly the elements at the requested in-range indices in ascending index order, each once, and leaves exactly the remaining elements in their order; with no indices it removes the first element; out-of-range (including negative) indices are ignored and duplicates count once. Nothing outside that array changes.",
 ["inputs"],"all arrays up to a length bound times all index lists (negative, duplicate, unsorted, out of range) up to a length bound",
 "Five hand-written pops are tested; index list handling is a cursor over a sorted list whose corner cases are not sampled.",
 [JOM],[("MustPop","MustPop in "+JOM)],observe=["MustPop result and whole document"])
prop("C10","Any history of document operations equals a plain JSON model",
 "After any sequence of unmarshal, set, delete, push, pop, markup, strip, clone and read operations on a document object, the document marshals to exactly the JSON value that the same operations give on a plain JSON model, in particular when the same object is unmarshalled into repeatedly with object and array roots and when an earlier operation failed. A full clone equals its source, including whether the root is an array; a cleared clone is empty.",
 ["histories"],"all operation sequences up to a depth over a small alphabet of operations, from several start documents",
 "Every test starts from a fresh document and performs one operation; state left over by earlier operations (root kind, stale keys, script bookkeeping) is never exercised.",
 [JOM],[("document object state","JsonMap.insides, traversal, Array in "+JOM)],state=[("Array","whether the root is an array",JOM),("traversal","script bookkeeping of the last scan",JOM)],observe=["Marshal after each step"])
prop("C11","A filter selects exactly the nodes its expression accepts",
 "A filter keeps exactly the entries or elements for which its JavaScript expression is truthy when every @ outside a string literal stands for the current node and every $-path (delimited by white space) outside a string literal stands for the value(s) it selects from the document; text inside string literals is never altered. This holds for single and chained filters, nested brackets and parentheses, mixed quotes and non-ASCII text, and a filter that throws makes the whole read or write fail.",
 ["inputs"],"all filter expressions up to a length bound over the expression alphabet times small collections",
 "Tests use four filters; substitution is textual and its boundaries (quotes, brackets, non-ASCII, several substitutions) are input dependent.",
 [JOM,PP],[("textual substitution and evaluation","filterRunner in "+JOM),("filter token","filter state in "+PP)],observe=["JsonPathSelector, JsonPathSetter, MustDelete with filters"])
prop("C12","Filter evaluation always terminates and timers never hit innocents",
 "Evaluating a filter over any collection terminates: an expression that does not finish within the halting delay for an element yields an error, and expressions that finish in time never fail because of the halting timer of another element, wherever in the execution a timer fires. Once the read has returned and its timers have expired no goroutine or timer of it is left blocked.",
 ["schedules","inputs"],"all positions at which a halting timer can fire relative to the statements of the filter run and to the other timers",
 "Tests never let a filter run for long nor several elements share a VM while a timer fires; the window is a particular interleaving.",
 [JOM],[("halting timer of filters","filterRunner in "+JOM)],observe=["result/error of the read, goroutines left, process still alive"])
prop("C13","Exactly shebang strings and callbacks are treated as scripts",
 "A value is treated as a script if and only if it is a Go callback or a string whose first line is '#//!' followed by a supported language name; the code executed is exactly the text after that line. Every other string is ordinary data, except that a first line '#//!' followed by an unsupported two-character language makes evaluation fail; no value of any other kind is ever treated as a script.",
 ["inputs"],"all strings up to a length bound over the shebang alphabet followed by a body, and all other JSON values",
 "Tests contain only proper scripts and one unsupported language; near-miss first lines are not sampled.",
 [CODE,JOM],[("script recognition","NewFrom in "+CODE)],observe=["code.NewFrom, FindScriptFields, Run"])
prop("C14","Strip removes exactly the script entries",
 "Stripping a document removes every key whose value is a script, at every depth (objects inside objects, arrays and arrays of arrays), and changes nothing else; a document without scripts is unchanged and stripping again changes nothing, also after scripts were added since. Nothing is executed.",
 ["inputs","histories"],"all documents up to a size bound with scripts at any subset of positions, and strip/markup histories",
 "Strip is not covered by any test.",
 [JOM],[("script scan","FindScriptFields, Strip in "+JOM)],observe=["Strip then Marshal"])
prop("C15","Every script runs exactly once, outer first, in key order",
 "Evaluating a document executes every script in it exactly once (objects at any depth, including inside arrays and nested arrays), all scripts of one object in lexicographic key order, and all scripts of an object before any script of the objects inside it. Afterwards no script executed is left in the document, data not touched by a script is unchanged, and evaluating the result again executes nothing and changes nothing; this holds for every map iteration order.",
 ["inputs","schedules","histories"],"all small document trees with scripts at any subset of positions, all map iteration orders, repeated evaluation",
 "Tests run six fixed documents once; order depends on random map iteration and on key sets.",
 [JOM,CODE,RUN],[("script queue and recursion","Run, FindScriptFields in "+JOM)],observe=["log of executed scripts, document after Run"])
prop("C16","A script sees and changes its own scope only",
 "While a script runs, json.trail (or the callback argument) is exactly the current content of the object that contains it (for a root array: the array wrapped under 'array'), and the scope path it is told is the path of that object from the root. Whatever a script does to its scope changes that object only; every other part of the document stays as it was.",
 ["inputs"],"all small document trees, script position and effect kinds",
 "Tests use one depth per example; sibling isolation and paths for nested arrays and deeper levels are not compared.",
 [JOM,JS,GO],[("scope construction","Run in "+JOM),("JOM construction","createJom, deJomIfy in "+JS)],observe=["values observed inside scripts, document after Run"])
prop("C17","Script results are stored faithfully",
 "After a JavaScript script has run, its scope is exactly the JSON form of the final json.trail minus the script itself: added, changed and deleted members at any depth, nulls, nested and empty arrays and objects, strings of any characters, and numbers keep their value, and members the script did not touch are unchanged. A script that leaves json.trail not being an object (or array-wrapped root) makes evaluation fail instead of storing something else.",
 ["inputs","programs"],"all scope documents up to a size bound times all programs of up to n mutation statements",
 "Tests run a dozen fixed scripts with simple values.",
 [JS],[("JSON round trip through the VM","createJom, deJomIfy, RunScript in "+JS)],observe=["Eval output versus the same mutation applied by a plain model"])
prop("C18","Evaluation never crashes and never hides an error",
 "Evaluating any byte string returns: either valid JSON output and no error, or an empty output and a non-nil error, and never panics or terminates the process. If any executed script throws, has a syntax error, panics, overruns the halting delay or names an unsupported language, the error is reported and no output is produced.",
 ["inputs","programs","fault_sequences"],"all short inputs over the hjson alphabet, and every failure kind at every script position of small documents",
 "Tests check one failing document for each of two failure kinds.",
 [JOM,JS,GO,GL],[("panic containment","Eval in "+JOM),("error wrapping","RunScript in "+JS)],observe=["Eval result"])
prop("C19","A JavaScript script is always stopped at the halting delay",
 "A JavaScript script that has not finished when the halting delay expires is stopped wherever it is, and evaluation fails with the halting error; a script that finishes before its timer is never failed by it, nor by the timer of any other script. A script that has finished leaves no goroutine blocked once its timer has expired, and a script counts as finished once its scope has been handed back.",
 ["schedules","programs"],"all statements at which the halting timer can fire, for terminating and non-terminating scripts, and several scripts in a row",
 "One infinite loop is tested, with the timer always firing in the middle of it.",
 [JS],[("interrupt channel and timer","RunScript in "+JS)],observe=["Run result per firing position, goroutines left"])
prop("C20","Go callbacks finish, fail or halt exactly once in every interleaving",
 "For every interleaving of callback, halting timer and caller: if the callback returns before the timer, evaluation continues with its changes and no error; if it panics, that panic value reaches the caller; if it has not returned when the halting delay expires, the halting error is returned at once. The caller never deadlocks, never receives two outcomes, and once callback and timer have finished no goroutine is left blocked.",
 ["schedules"],"all interleavings of the goroutines involved in one and in several successive callbacks, timer firing at any point",
 "Tests see the natural timing only; leak and race windows need the timer to fire around completion.",
 [GO],[("interrupt channel","RunCallback in "+GO)],observe=["result or panic of the callback run, blocked goroutines"])
prop("C21","The same manipulation gives the same document in JS and Go",
 "A sequence of assignments, deletions and reads expressed as a JavaScript script, as Go callback operations, or as direct API calls on the same document leads to the same resulting JSON document.",
 ["programs","inputs"],"all operation sequences up to a length bound over a small operation alphabet, in the three forms",
 "The example tests pair a JS and a Go version of six scenarios; agreement for other programs is not checked.",
 [JS,GO,JOM],[("JOM bridge",JS),("callback runner",GO)],observe=["Marshal after Run in each form"])
prop("C22","json.jsonPathSelector in scripts agrees with the Go API",
 "Inside a JavaScript script, getValues of a selector returns exactly the values the Go read returns on the current json.trail (a single array result being expanded), setValues changes json.trail exactly as the Go set does with the same JSON value, including arrays, nulls and nested objects, and both always work on the current json.trail. Invalid paths and failing reads or writes raise a catchable JSONPathError and leave json.trail unchanged when the path is definite.",
 ["inputs","programs"],"all documents times paths times values up to a bound, and get/set/modify sequences",
 "Tests use two selectors with scalar values.",
 [JS],[("selector bridge","jsonPathSelector, toGo, createJom in "+JS)],observe=["values seen by the script and document after Run"])
prop("C23","Markup stores a script that runs exactly as given",
 "Marking up a path with a supported language name and script text stores, at every location the path addresses and nowhere else, a value that evaluation recognises as a script in that language with exactly that text. An unsupported language name is rejected with an error and the document is unchanged.",
 ["inputs"],"all language names up to a length bound, script texts over a small alphabet, and paths",
 "One markup call with one script is exercised.",
 [JOM,RUN],[("MarkupCode","MarkupCode in "+JOM),("language registry","CheckIfSupported, RegisterLang in "+RUN)],observe=["document after MarkupCode, code.NewFrom of the stored value, Run"])
prop("C24","Documents survive marshal/unmarshal unchanged",
 "Unmarshalling any JSON or hjson object or array and marshalling it gives JSON for the same value, and rendering it as hjson text and unmarshalling that text gives the same value again, for object roots and for array roots. A text whose root is not an object or array, or that is malformed, is rejected with an error.",
 ["inputs"],"all JSON documents up to a size bound with awkward strings and numbers, all short character strings over the JSON alphabet",
 "Tests unmarshal a handful of documents and never re-read rendered text.",
 [JOM],[("root array handling","Unmarshal, Marshal, String in "+JOM)],observe=["Unmarshal, Marshal, String, IsArray"])
prop("C25","Independent documents can be evaluated concurrently",
 "Evaluating, reading, or modifying different documents at the same time from different goroutines gives each document exactly the result it has alone, for every interleaving, without data races, deadlock or crash.",
 ["schedules"],"all interleavings up to a preemption bound of two or three goroutines each working on its own document",
 "Tests are sequential; shared package state is only visible under concurrent use.",
 [JS,PP,JOM,RUN],[("package-level state of the JS runner and parser",JS+", "+PP)],state=[("toBeCloned","document the selector clones",JS),("token regexes","shared regular expressions",PP)],observe=["per-document result, race detector on the same bodies"])
prop("C26","Console output is complete, ordered and on the right stream",
 "Every console.log and console.error call in a script writes exactly one record to the stdout respectively stderr writer, in call order, naming the scope path and source line of the call, followed by each argument's text in order with every line indented; nothing else is written. A json.scopePath overwritten by a non-string makes the call fail.",
 ["programs","inputs"],"all sequences of up to n console calls with argument lists over a value alphabet, at several scopes",
 "Console output is compared in two fixed examples.",
 [JS],[("composePrint and console object",JS)],observe=["ExternalConsoleLogStdout/Stderr"])
prop("C27","The command line tool does what its flags say",
 "For every combination of subcommand and flags the tool prints one result per input, in the order the files are given, equal to what the library gives for that input: eval prints the evaluated JSON; markup strips first when asked, then adds every path-script pair, then evaluates when asked, printing the resulting document otherwise. Missing or invalid flags, unreadable files, malformed input and failing scripts give a non-zero exit status.",
 ["configurations","inputs"],"all combinations of subcommand, flags, files and inputs over a small menu",
 "The command line tool has no tests.",
 [CLI,GL],[("main",CLI),("CliError.Handle",GL)],observe=["stdout and exit status of the built binary"])
prop("C28","Extending alternative paths is an exact cross product",
 "Appending a list of keys to a list of alternative absolute paths yields every existing alternative followed by every key, in order, without changing or sharing any previously built path; with checking enabled an error is reported exactly when some resulting path cannot be followed in the given document.",
 ["inputs","histories"],"all sequences of up to n extensions with lists of 0..3 keys",
 "The single test performs two extensions; sharing between alternatives needs particular slice capacities.",
 [AP],[("AddToAll",AP)],observe=["AbsolutePaths after sequences of AddToAll"])
prop("C32","Every operation has the same outcome every time",
 "Evaluating a document, reading from it through a filter, and writing to it (including writes and evaluations which fail half way) always have the same outcome: the same document, the same values, the same error and the same console output in the same order, whatever order Go happens to iterate maps in and however goroutines are scheduled. In particular the keys of the objects which scripts and filters get come in the same order every time. (The clock and Math.random apart.)",
 ["schedules","inputs"],"all choices of map iteration orders and schedules up to n deviations from the default one, over a menu of scripts, filters and writes; repeated runs over trees of every size",
 "Map iteration order is random per run: a test passes with one order and cannot ask for the others.",
 [JOM,JS,"code/ordered.go"],[("Run, FindScriptFields, SetAbsolutePaths",JOM),("createJom, jsonPathSelector",JS),("ParseJSON, Ordered","code/ordered.go")],observe=["result, error and console output of an execution under every order"])
with open(os.path.join(os.path.dirname(__file__),"..","properties.jsonl"),"w") as f:
    for p in P: f.write(json.dumps(p,ensure_ascii=False)+"\n")
print(len(P))
