From 696390bc3387f99a0b9f41069c600734bccd91d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:16 +0000
Subject: [PATCH 01/47] fix: reject a single negative index in a JSONPath
 instead of dropping it

$.a[-1] was parsed as $.a, so MustDelete("$.a[-1]") deleted the whole array.
---
 jom/json_map/json_path_parse.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/jom/json_map/json_path_parse.go b/jom/json_map/json_path_parse.go
index 6891d6a..adcf205 100644
--- a/jom/json_map/json_path_parse.go
+++ b/jom/json_map/json_path_parse.go
@@ -137,6 +137,9 @@ var (
 					KeyType: Slice,
 					Value:   slice,
 				})
+			default:
+				// Anything else which is matched by the token regex (i.e. a single negative index) is not supported
+				return absolutePathKeys, []error{globals.JsonPathError.FillError(fmt.Sprintf("Index %s is not supported", string(token)))}
 			}
 			return absolutePathKeys, nil
 		},
-- 
2.43.0


From e79c5514a3f1f60f0d111a5c1e3aeb624ae87e35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:20 +0000
Subject: [PATCH 02/47] fix: several first descents in one run of dots are
 consecutive steps

....x and longer runs produced that many identical alternative paths, each
with a single first descent, instead of one path with several descents.
---
 jom/json_map/json_path_parse.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/jom/json_map/json_path_parse.go b/jom/json_map/json_path_parse.go
index adcf205..53a0941 100644
--- a/jom/json_map/json_path_parse.go
+++ b/jom/json_map/json_path_parse.go
@@ -244,6 +244,15 @@ func (s *state) handler(togo []byte, absolutePaths *AbsolutePaths) (next *state,
 		}
 		//fmt.Println("nextPaths:", nextPaths, "token:", string(token), "togo:", string(togo))
 
+		// Several First descents in one run of dots follow each other, they are not alternatives like a list of indices.
+		// So they have to be added one by one
+		for next.name == "Dot (.)" && len(nextPaths) > 1 {
+			if errs = absolutePaths.AddToAll(nil, false, nextPaths[0]); errs != nil {
+				return nil, globals.JsonPathError.FillFromErrors(errs)
+			}
+			nextPaths = nextPaths[1:]
+		}
+
 		// Add the nextPath variable to the end of all absolute paths
 		errs = absolutePaths.AddToAll(nil, false, nextPaths...)
 		if errs != nil {
-- 
2.43.0


From 100f07569cb02f96774dc3d700ab682e172a30d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:23 +0000
Subject: [PATCH 03/47] fix: JSONPath tokens longer than 4096 bytes are cut off
 by the read buffer

---
 jom/json_map/json_path_parse.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/jom/json_map/json_path_parse.go b/jom/json_map/json_path_parse.go
index 53a0941..4b1ed6e 100644
--- a/jom/json_map/json_path_parse.go
+++ b/jom/json_map/json_path_parse.go
@@ -273,7 +273,8 @@ func ParseJsonPath(jsonPath string) (absolutePaths AbsolutePaths, err error) {
 	absolutePaths = make(AbsolutePaths, 0)
 	previousState := &start
 	currentState := &root
-	jsonPathReader := bufio.NewReader(strings.NewReader(jsonPath))
+	// NOTE the buffer has to hold the entire JSON path as tokens are matched against what can be peeked from it
+	jsonPathReader := bufio.NewReaderSize(strings.NewReader(jsonPath), len(jsonPath))
 
 	for _, state := range []*state{&root, &dot, &index, &filter, &property, &recursiveLookup} {
 		state.tokenRegex.Longest()
-- 
2.43.0


From 768df435230f3c9c083f6292c10da96869e3f3a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:26 +0000
Subject: [PATCH 04/47] fix: do not modify the shared token regexes on every
 parse (data race)

---
 jom/json_map/json_path_parse.go | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/jom/json_map/json_path_parse.go b/jom/json_map/json_path_parse.go
index 4b1ed6e..ae91995 100644
--- a/jom/json_map/json_path_parse.go
+++ b/jom/json_map/json_path_parse.go
@@ -209,6 +209,13 @@ var fromStateToStates = map[string][]*state{
 	"Filter Expression ([?(...)])": {&recursiveLookup, &dot, &index, &filter},
 }
 
+// All token regexes prefer the longest match. This is set up once as Longest modifies the (shared) regexes.
+func init() {
+	for _, state := range []*state{&root, &dot, &index, &filter, &property, &recursiveLookup} {
+		state.tokenRegex.Longest()
+	}
+}
+
 // Will decide the next state given a list of possible states and call the validator for that next state.
 func (s *state) handler(togo []byte, absolutePaths *AbsolutePaths) (next *state, err error) {
 	//fmt.Println("togo:", string(togo), "togo len:", len(togo))
@@ -276,10 +283,6 @@ func ParseJsonPath(jsonPath string) (absolutePaths AbsolutePaths, err error) {
 	// NOTE the buffer has to hold the entire JSON path as tokens are matched against what can be peeked from it
 	jsonPathReader := bufio.NewReaderSize(strings.NewReader(jsonPath), len(jsonPath))
 
-	for _, state := range []*state{&root, &dot, &index, &filter, &property, &recursiveLookup} {
-		state.tokenRegex.Longest()
-	}
-
 	for {
 		// Break out if at finish state
 		if currentState.name == "End" {
-- 
2.43.0


From 04c571f6052c3ccf762555bfb53416bbe7c56a3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:30 +0000
Subject: [PATCH 05/47] fix: end a filter expression at its own closing
 brackets and keep its text

Two filters in one path were merged into a single expression and every
'[?(' and ')]' inside the expression, even in string literals, was removed.
---
 jom/json_map/json_path_parse.go | 39 ++++++++++++++++++++++++++++++++-
 1 file changed, 38 insertions(+), 1 deletion(-)

diff --git a/jom/json_map/json_path_parse.go b/jom/json_map/json_path_parse.go
index ae91995..ff81938 100644
--- a/jom/json_map/json_path_parse.go
+++ b/jom/json_map/json_path_parse.go
@@ -55,7 +55,7 @@ var (
 			// We just add the expression body to the absolute path keys
 			absolutePathKeys = []AbsolutePathKey{{
 				KeyType: Filter,
-				Value:   string(regexp.MustCompile("(\\[\\?\\(|\\)])").ReplaceAll(token, []byte(""))),
+				Value:   string(token[3:len(token) - 2]),
 			}}
 			return absolutePathKeys, nil
 		},
@@ -209,6 +209,35 @@ var fromStateToStates = map[string][]*state{
 	"Filter Expression ([?(...)])": {&recursiveLookup, &dot, &index, &filter},
 }
 
+// Finds the end of the filter expression token at the start of the given bytes, given the end of the greedy match of the
+// filter regex: this is the first ")]" which is not inside of a string literal or nested brackets. If there is no such
+// ")]" then the end of the greedy match is returned.
+func filterEnd(togo []byte, greedyEnd int) int {
+	depth := 0
+	var quote byte
+	for i := len("[?("); i < greedyEnd - 1; i++ {
+		char := togo[i]
+		switch {
+		case quote != 0:
+			if char == '\\' {
+				// Skip the escaped character
+				i++
+			} else if char == quote {
+				quote = 0
+			}
+		case char == '\'' || char == '"':
+			quote = char
+		case char == '(' || char == '[':
+			depth++
+		case depth == 0 && char == ')' && togo[i + 1] == ']':
+			return i + 2
+		case char == ')' || char == ']':
+			depth--
+		}
+	}
+	return greedyEnd
+}
+
 // All token regexes prefer the longest match. This is set up once as Longest modifies the (shared) regexes.
 func init() {
 	for _, state := range []*state{&root, &dot, &index, &filter, &property, &recursiveLookup} {
@@ -231,6 +260,9 @@ func (s *state) handler(togo []byte, absolutePaths *AbsolutePaths) (next *state,
 			// If possible state's regex matches the start of the characters to go then that is the next state
 			if occurrences := possibleState.tokenRegex.FindIndex(togo); len(occurrences) != 0 && occurrences[0] == 0 {
 				next = possibleState
+				if next.name == "Filter Expression ([?(...)])" {
+					occurrences[1] = filterEnd(togo, occurrences[1])
+				}
 				token = togo[occurrences[0]:occurrences[1]]
 				break
 			}
@@ -300,6 +332,11 @@ func ParseJsonPath(jsonPath string) (absolutePaths AbsolutePaths, err error) {
 			break
 		}
 
+		// A filter expression ends at its own closing brackets and not at the last ones within the JSON path
+		if currentState.name == "Filter Expression ([?(...)])" {
+			occurrences[1] = filterEnd(next, occurrences[1])
+		}
+
 		// Consume len(token) number of bytes
 		_, err = jsonPathReader.Discard(occurrences[1] - occurrences[0])
 		// If we have reached the end of the JSON path then break and return
-- 
2.43.0


From 6e9ae44cccfc52197328d04ce6069b6649f8245b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:47 +0000
Subject: [PATCH 06/47] fix: a string literal in a filter ends at the quote it
 started with

The literal 'it"s @' was not recognised as a literal, so the @ inside was
replaced by the current node.
---
 jom/jom.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jom/jom.go b/jom/jom.go
index 3073385..c0a906e 100644
--- a/jom/jom.go
+++ b/jom/jom.go
@@ -116,7 +116,7 @@ func (jsonMap *JsonMap) GetInsides() *map[string]interface{} {
 func filterRunner(obj interface{}, filterExp []byte, jsonMap map[string]interface{}, mapType bool, returnIndices bool) (truers interface{}, err error) {
 	// For Filters we first have to replace all all @ chars with the current node that has been Marshalled
 	// into JSON then JSON.parse-d. And we have to also replace all the JSON paths with calculated literals
-	stringLiterals := regexp.MustCompile("['\"]([^\\\\\"']|\\\\.)*['\"]")
+	stringLiterals := regexp.MustCompile("'([^\\\\']|\\\\.)*'|\"([^\\\\\"]|\\\\.)*\"")
 	jsonPathRegex := regexp.MustCompile("\\$[.\\[][^'\"\\n\\r\\s]+")
 
 	// Get the locations of the start and end of all string literals
-- 
2.43.0


From 781fb0f5251bdf661828043f11c6acf5e457fe08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:50 +0000
Subject: [PATCH 07/47] fix: non-ASCII text in a filter containing a JSON path
 is not corrupted

The locations of JSON paths are byte offsets but ReplaceCharIndexRange treats
the expression bytewise as characters.
---
 jom/jom.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/jom/jom.go b/jom/jom.go
index c0a906e..94bc154 100644
--- a/jom/jom.go
+++ b/jom/jom.go
@@ -193,7 +193,11 @@ func filterRunner(obj interface{}, filterExp []byte, jsonMap map[string]interfac
 	// Replace all the occurrences of any JSON path expression within the filter expression with the
 	// literal evaluation of each JSON path calculated above
 	if len(jsonPathIndices) > 0 {
-		filterExp = []byte(str.ReplaceCharIndexRange(string(filterExp), jsonPathIndices, jsonPathLiterals...))
+		// NOTE the locations are byte offsets so they're replaced from the last to the first
+		for i := len(jsonPathIndices) - 1; i >= 0; i-- {
+			start, end := jsonPathIndices[i][0], jsonPathIndices[i][1]
+			filterExp = []byte(string(filterExp[:start]) + jsonPathLiterals[i] + string(filterExp[end:]))
+		}
 		// All string literal locations also have to be recalculated as there were changes made to the
 		// filter expression
 		stringLiteralLocs = stringLiterals.FindAllIndex(filterExp, -1)
-- 
2.43.0


From a12f1c4c226965b763e395baf6d5539cfeec0ddb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:18 +0000
Subject: [PATCH 08/47] fix: the halting timer of one filter evaluation cannot
 interrupt another

The timer goroutine used whatever vm.Interrupt was when it fired, so it could
stop the evaluation of a later node, block forever, or panic outside of the
function which handles the halting problem.
---
 jom/jom.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/jom/jom.go b/jom/jom.go
index 94bc154..dacf555 100644
--- a/jom/jom.go
+++ b/jom/jom.go
@@ -291,12 +291,17 @@ func filterRunner(obj interface{}, filterExp []byte, jsonMap map[string]interfac
 				}
 			}()
 
-			vm.Interrupt = make(chan func(), 1)
+			interrupt := make(chan func(), 1)
+			vm.Interrupt = interrupt
+			// The same VM is used for the next node which must not be interrupted by the timer for this node
+			defer func() {
+				vm.Interrupt = nil
+			}()
 
 			// Start the timer
 			go func() {
 				time.Sleep(1 * globals.HaltingDelayUnits)
-				vm.Interrupt <- func() {
+				interrupt <- func() {
 					panic(globals.HaltingProblem)
 				}
 			}()
-- 
2.43.0


From 183cafb921abb3f92b43b0662fc3646d70775398 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:57 +0000
Subject: [PATCH 09/47] fix: unbounded recursion in a script or filter raises a
 RangeError

It used to overflow the Go stack, which kills the whole process and cannot be
recovered from.
---
 code/js/js.go    | 1 +
 globals/const.go | 1 +
 jom/jom.go       | 1 +
 3 files changed, 3 insertions(+)

diff --git a/code/js/js.go b/code/js/js.go
index 1fae7f0..63a326a 100644
--- a/code/js/js.go
+++ b/code/js/js.go
@@ -468,6 +468,7 @@ func RunScript(code code.Code, jsonMap json_map.JsonMapInt) (data json_map.JsonM
 	script := code.Script.(string)
 	// Create the VM and register all builtins
 	vm := otto.New()
+	vm.SetStackDepthLimit(globals.MaxScriptStackDepth)
 	// Register all builtins
 	for _, builtin := range builtinFuncs {
 		if err := vm.Set(builtin.name, builtin.function); err != nil {
diff --git a/globals/const.go b/globals/const.go
index 560baa9..406e2b5 100644
--- a/globals/const.go
+++ b/globals/const.go
@@ -11,6 +11,7 @@ const (
 	JOMVariableName               = "json"
 	KeyValuePairDelim             = ':'
 	HaltingDelayUnits             = time.Second
+	MaxScriptStackDepth           = 5000
 	ScriptErrorFormatString       = "script <%s>:\n```\n%s\n```"
 	AnonymousScriptPath           = "<anonymous>"
 	CurrentNodeLiteralVarName     = "__currentNodeLiteral__"
diff --git a/jom/jom.go b/jom/jom.go
index dacf555..c870baa 100644
--- a/jom/jom.go
+++ b/jom/jom.go
@@ -236,6 +236,7 @@ func filterRunner(obj interface{}, filterExp []byte, jsonMap map[string]interfac
 		}
 	}
 	vm := otto.New()
+	vm.SetStackDepthLimit(globals.MaxScriptStackDepth)
 
 	// Setup up an anonymous function which will make up our for loop body which iterates over our obj
 	loopBody := func(nodeIdx interface{}, node interface{}) (err error) {
-- 
2.43.0


From ef105ed6387da57839c0b1f1591f5d57d02ae2d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:00 +0000
Subject: [PATCH 10/47] fix: a filter does not hide the failure of an earlier
 step of the path

$.a[5][?(true)] on an array of three returned all elements of the array.
---
 jom/jom.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/jom/jom.go b/jom/jom.go
index c870baa..e23d999 100644
--- a/jom/jom.go
+++ b/jom/jom.go
@@ -491,6 +491,10 @@ func pathFinder(path []json_map.AbsolutePathKey, jsonMap map[string]interface{},
 				currValue = currValueArr
 			case json_map.Filter:
 				// Using the filterRunner function we can run the filter on the values of each key in the map
+				// NOTE an error of a previous key must not be overwritten by the result of the filter
+				if err != nil {
+					break
+				}
 				filterExp := []byte(key.Value.(string))
 				currValue, err = filterRunner(m, filterExp, jsonMap, true, false)
 				if err != nil {
@@ -555,6 +559,10 @@ func pathFinder(path []json_map.AbsolutePathKey, jsonMap map[string]interface{},
 				currValue = arr
 			case json_map.Filter:
 				// Using the filterRunner function we can run the filter on the elements of the array
+				// NOTE an error of a previous key must not be overwritten by the result of the filter
+				if err != nil {
+					break
+				}
 				filterExp := []byte(key.Value.(string))
 				currValue, err = filterRunner(arr, filterExp, jsonMap, false, false)
 				if err != nil {
-- 
2.43.0


From dff3691f7472f443bdce191aedfb04aa153dc39a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:03 +0000
Subject: [PATCH 11/47] fix: slicing past the end of an array is an error and
 never yields spare capacity

$.a[1:4] on an array of three elements returned an additional null.
---
 jom/jom.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/jom/jom.go b/jom/jom.go
index e23d999..640f571 100644
--- a/jom/jom.go
+++ b/jom/jom.go
@@ -616,7 +616,8 @@ func pathFinder(path []json_map.AbsolutePathKey, jsonMap map[string]interface{},
 					}()
 					// Then set the current value to the slice
 					// NOTE this might panic so we set up a recovery function above so we can re-wrap any slice errors that occur
-					currValue = arr[sliceIndices[0]:sliceIndices[1]]
+					// NOTE the capacity is limited to the length so that slicing past the length always panics
+					currValue = arr[:len(arr):len(arr)][sliceIndices[0]:sliceIndices[1]]
 				}()
 
 				// Break from the loop if an error has occurred
-- 
2.43.0


From bd2bb449ea0652c55efea83298306ef1237917e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:06 +0000
Subject: [PATCH 12/47] fix: absolute paths of nodes in arrays do not contain
 an empty key

---
 jom/jom.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jom/jom.go b/jom/jom.go
index 640f571..e1d85cc 100644
--- a/jom/jom.go
+++ b/jom/jom.go
@@ -694,7 +694,7 @@ func (jsonMap *JsonMap) GetAbsolutePaths(absolutePaths *json_map.AbsolutePaths)
 			// We unwrap any arrays returned from the finders
 			for i, v := range value.Value.([]interface{}) {
 				// We have to amend the absolute paths for the nodes by adding on an IndexKey at each iteration
-				amendedAbsolute := make([]json_map.AbsolutePathKey, len(value.Absolute) + 1)
+				amendedAbsolute := make([]json_map.AbsolutePathKey, len(value.Absolute), len(value.Absolute) + 1)
 				copy(amendedAbsolute, value.Absolute)
 				amendedAbsolute = append(amendedAbsolute, json_map.AbsolutePathKey{
 					KeyType: json_map.IndexKey,
-- 
2.43.0


From 0e9b509f58a4ed193a7ca253d906ea9ebfb62a79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:58 +0000
Subject: [PATCH 13/47] fix: values of several alternative paths are returned
 in path order

The order was the order in which the goroutines finished.
---
 jom/jom.go | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/jom/jom.go b/jom/jom.go
index e1d85cc..3318bf7 100644
--- a/jom/jom.go
+++ b/jom/jom.go
@@ -666,13 +666,25 @@ func (jsonMap *JsonMap) GetAbsolutePaths(absolutePaths *json_map.AbsolutePaths)
 	valuesChan := make(chan json_map.JsonPathNode, len(*absolutePaths))
 
 	// Start the finders
+	// NOTE every finder gets its own channels so that everything can be gathered in the order of the absolute paths rather
+	//      than the order in which the finders happen to finish
 	wg.Add(len(*absolutePaths))
-	for _, absolutePath := range *absolutePaths {
-		go pathFinder(absolutePath, jsonMap.insides, errsChan, valuesChan, &wg)
+	errsChans := make([]chan error, len(*absolutePaths))
+	valuesChans := make([]chan json_map.JsonPathNode, len(*absolutePaths))
+	for i, absolutePath := range *absolutePaths {
+		errsChans[i], valuesChans[i] = make(chan error, 1), make(chan json_map.JsonPathNode, 1)
+		go pathFinder(absolutePath, jsonMap.insides, errsChans[i], valuesChans[i], &wg)
 	}
 
 	// Wait for all Finders and then close the errors channel
 	wg.Wait()
+	for i := range *absolutePaths {
+		if len(errsChans[i]) > 0 {
+			errsChan <- <-errsChans[i]
+		} else {
+			valuesChan <- <-valuesChans[i]
+		}
+	}
 	close(errsChan)
 	close(valuesChan)
 
-- 
2.43.0


From af8ec641a95be9bebb6edbdd571e3ae9fe9d97ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:01 +0000
Subject: [PATCH 14/47] fix: a filter visits the entries of a map in
 alphabetical order

The order of the results was the random iteration order of the map.
---
 jom/jom.go | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/jom/jom.go b/jom/jom.go
index 3318bf7..d80ec89 100644
--- a/jom/jom.go
+++ b/jom/jom.go
@@ -337,8 +337,8 @@ func filterRunner(obj interface{}, filterExp []byte, jsonMap map[string]interfac
 	// Start our for loop depending on whether our obj is a map[string]interface{} or a []interface{}
 	//fmt.Println("\nRunning filter: \"", string(filterExp), "\" on", obj)
 	if mapType {
-		for k, node := range obj.(map[string]interface{}) {
-			err = loopBody(k, node)
+		for _, k := range sortedKeys(obj.(map[string]interface{})) {
+			err = loopBody(k, obj.(map[string]interface{})[k])
 			if err != nil {
 				break
 			}
@@ -359,6 +359,16 @@ func filterRunner(obj interface{}, filterExp []byte, jsonMap map[string]interfac
 	return truers, nil
 }
 
+// Gets the keys of the given map in alphabetical order.
+func sortedKeys(m map[string]interface{}) []string {
+	keys := make([]string, 0, len(m))
+	for k := range m {
+		keys = append(keys, k)
+	}
+	sort.Strings(keys)
+	return keys
+}
+
 // Run by GetAbsolutePaths in parallel for each absolute path in an json_map.AbsolutePaths array to find the requested values.
 //
 // Each found value is pushed to valChan and each error is pushed to errChan. Once it has complete it calls Done on the wait group.
-- 
2.43.0


From 9580143e52b9435641f745bb9e6ed3be61823449 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:05 +0000
Subject: [PATCH 15/47] fix: a recursive lookup finds values in document order

The order depended on map iteration and on goroutine scheduling, so $..a[0]
could be a different value on each evaluation.
---
 jom/jom.go | 23 +++++++++++++++++++----
 1 file changed, 19 insertions(+), 4 deletions(-)

diff --git a/jom/jom.go b/jom/jom.go
index d80ec89..b2aa033 100644
--- a/jom/jom.go
+++ b/jom/jom.go
@@ -398,7 +398,8 @@ func pathFinder(path []json_map.AbsolutePathKey, jsonMap map[string]interface{},
 			switch subtree.(type) {
 			case map[string]interface{}:
 				subM := subtree.(map[string]interface{})
-				for subSubKey, subSubtree := range subM {
+				for _, subSubKey := range sortedKeys(subM) {
+					subSubtree := subM[subSubKey]
 					// Recurse into all the keys within the map checking if the key of the current subtree is equal to
 					// the key we are meant to be finding
 					if subSubKey == toFind {
@@ -420,25 +421,39 @@ func pathFinder(path []json_map.AbsolutePathKey, jsonMap map[string]interface{},
 			return
 		}
 
+		// Each sub-finder has its own in and out channel so that the values can be gathered in the order of the sub-trees
+		subIns, subOuts := make([]chan<- interface{}, 0), make([]<-chan interface{}, 0)
+		newSubFound := func() chan<- interface{} {
+			subIn, subOut := concurrency.InOut()
+			subIns, subOuts = append(subIns, subIn), append(subOuts, subOut)
+			return subIn
+		}
+
 		// Start the sub-finders for each sub-tree of depth one
 		// We do a type switch here to work out whether we are iterating over a map or on array
 		switch arrOrMap.(type) {
 		case map[string]interface{}:
 			m := arrOrMap.(map[string]interface{})
 			subWg.Add(len(m))
-			for _, value := range m {
-				go subFinder(value, &subWg, toFind, inFound)
+			for _, k := range sortedKeys(m) {
+				go subFinder(m[k], &subWg, toFind, newSubFound())
 			}
 		case []interface{}:
 			arr := arrOrMap.([]interface{})
 			subWg.Add(len(arr))
 			for _, value := range arr {
-				go subFinder(value, &subWg, toFind, inFound)
+				go subFinder(value, &subWg, toFind, newSubFound())
 			}
 		}
 
 		// Wait for all Finders and then close the input channel
 		subWg.Wait()
+		for i := range subIns {
+			close(subIns[i])
+			for v := range subOuts[i] {
+				inFound <- v
+			}
+		}
 		close(inFound)
 
 		// Finally we read all the values from the out channel and append them to the foundValues array
-- 
2.43.0


From 67dd8284fa4b1f0329eb61555ad8b71e5e912127 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:08 +0000
Subject: [PATCH 16/47] fix: a recursive lookup also finds the property in the
 current map

$..a did not find the a of the root, neither for getting nor for setting.
---
 jom/jom.go | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/jom/jom.go b/jom/jom.go
index b2aa033..66d123f 100644
--- a/jom/jom.go
+++ b/jom/jom.go
@@ -436,7 +436,8 @@ func pathFinder(path []json_map.AbsolutePathKey, jsonMap map[string]interface{},
 			m := arrOrMap.(map[string]interface{})
 			subWg.Add(len(m))
 			for _, k := range sortedKeys(m) {
-				go subFinder(m[k], &subWg, toFind, newSubFound())
+				// The key itself might be the one to find so it has to be a part of the sub-tree
+				go subFinder(map[string]interface{}{k: m[k]}, &subWg, toFind, newSubFound())
 			}
 		case []interface{}:
 			arr := arrOrMap.([]interface{})
@@ -880,11 +881,8 @@ func (jsonMap *JsonMap) SetAbsolutePaths(absolutePaths *json_map.AbsolutePaths,
 				switch arrOrMap.(type) {
 				case map[string]interface{}:
 					m := arrOrMap.(map[string]interface{})
-					mCopy := maps.CopyMap(m)
-					for k, v := range m {
-						mCopy[k] = subFinder(v, toFind)
-					}
-					newTree = mCopy
+					// The keys of the map itself might be the ones to find
+					newTree = subFinder(m, toFind)
 				case []interface{}:
 					arr := arrOrMap.([]interface{})
 					arrCopy := make([]interface{}, len(arr))
-- 
2.43.0


From f8bf9f4c524699b197b551d8b3eb5b818841e92e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:38 +0000
Subject: [PATCH 17/47] fix: setting through a recursive lookup reaches matches
 inside of matches

Getting $..a.b finds the b of an a within another a, setting ignored it.
---
 jom/jom.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/jom/jom.go b/jom/jom.go
index 66d123f..46691a1 100644
--- a/jom/jom.go
+++ b/jom/jom.go
@@ -847,6 +847,11 @@ func (jsonMap *JsonMap) SetAbsolutePaths(absolutePaths *json_map.AbsolutePaths,
 							// If the current key is equal to the toFind key we continue the recursiveTraversal
 							// subroutine from here
 							if subSubKey == toFind {
+								// There might be more occurrences of the toFind key within the value which is found, these
+								// are only of interest if the value is not going to be replaced/deleted as a whole
+								if !lastKey {
+									newSubtreeM[subSubKey] = subFinder(subSubtree, toFind)
+								}
 								// Then we can use the setterMap function to set, delete from or recurse down the map
 								// This is so that if we still have path remaining we will continue the search at this subtree
 								setterMap(&newSubtreeM, toFind)
-- 
2.43.0


From 6e99529bff5bdf8313ba4416edd63f92018b8ae5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:41 +0000
Subject: [PATCH 18/47] fix: setting or deleting all elements of an empty array
 does nothing

It panicked with an index out of range which is not a JSON path error.
---
 jom/jom.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/jom/jom.go b/jom/jom.go
index 46691a1..474e317 100644
--- a/jom/jom.go
+++ b/jom/jom.go
@@ -813,6 +813,10 @@ func (jsonMap *JsonMap) SetAbsolutePaths(absolutePaths *json_map.AbsolutePaths,
 			setterArr := func(arrRef *[]interface{}, indices... int) {
 				// If the length of indices is 0 then we assume that the caller wants all the indices
 				if len(indices) == 0 {
+					// There is nothing to do for an empty array
+					if len(*arrRef) == 0 {
+						return
+					}
 					indices = ints.Range(0, len(*arrRef) - 1, 1)
 				}
 
-- 
2.43.0


From a7794a24e9f8b5c126b1a2cf195bc45d386c1abd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:45 +0000
Subject: [PATCH 19/47] fix: setting or deleting an empty slice does not affect
 all elements

MustDelete("$.a[3:]") on an array of three deleted all three elements.
---
 jom/jom.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/jom/jom.go b/jom/jom.go
index 474e317..7fc6802 100644
--- a/jom/jom.go
+++ b/jom/jom.go
@@ -1046,6 +1046,14 @@ func (jsonMap *JsonMap) SetAbsolutePaths(absolutePaths *json_map.AbsolutePaths,
 						panic(recursionError{err.Error()})
 					}
 
+					if sliceIndices[0] > sliceIndices[1] {
+						panic(recursionError{fmt.Sprintf("Slice: [%v:%v] (translated to %v), ends before it starts", slice[0], slice[1], sliceIndices)})
+					}
+					// An empty slice has no elements to set, whereas no indices stand for all elements in setterArr
+					if sliceIndices[0] == sliceIndices[1] {
+						break
+					}
+
 					// Then we iterate through a range of slice indices
 					setterArr(&arr, ints.Range(sliceIndices[0], sliceIndices[1] - 1, 1)...)
 				case json_map.RecursiveLookup:
-- 
2.43.0


From d2ac8c9a6c86cd1876d98e94b0ce24305aaa26ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:05 +0000
Subject: [PATCH 20/47] fix: a map or array which is set at several locations
 is not shared between them

After MustSet("$.a[*]", map) a change of one element showed up in all of
them and in the map of the caller.
---
 jom/jom.go | 23 ++++++++++++++++++++++-
 1 file changed, 22 insertions(+), 1 deletion(-)

diff --git a/jom/jom.go b/jom/jom.go
index 7fc6802..42ee4e0 100644
--- a/jom/jom.go
+++ b/jom/jom.go
@@ -359,6 +359,26 @@ func filterRunner(obj interface{}, filterExp []byte, jsonMap map[string]interfac
 	return truers, nil
 }
 
+// Gets a deep copy of the given value if it's a map or an array, otherwise the value itself.
+func copyValue(value interface{}) interface{} {
+	switch value.(type) {
+	case map[string]interface{}:
+		m := make(map[string]interface{})
+		for k, v := range value.(map[string]interface{}) {
+			m[k] = copyValue(v)
+		}
+		return m
+	case []interface{}:
+		arr := make([]interface{}, len(value.([]interface{})))
+		for i, v := range value.([]interface{}) {
+			arr[i] = copyValue(v)
+		}
+		return arr
+	default:
+		return value
+	}
+}
+
 // Gets the keys of the given map in alphabetical order.
 func sortedKeys(m map[string]interface{}) []string {
 	keys := make([]string, 0, len(m))
@@ -796,7 +816,8 @@ func (jsonMap *JsonMap) SetAbsolutePaths(absolutePaths *json_map.AbsolutePaths,
 					}
 					return newValue
 				}
-				return value
+				// NOTE a copy for each target so that they don't share the same map/array with each other or with the caller
+				return copyValue(value)
 			}
 
 			// Specific setters for maps and arrays. Takes a reference to a map/array and modifies in place
-- 
2.43.0


From a4dca2947a6f2b6a250ff85e58e10a9037ba8130 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:39 +0000
Subject: [PATCH 21/47] fix: MustPush can push to an empty array

It panicked as an empty array has no nodes.
---
 jom/jom.go | 30 +++++++++++++++++++++++++++++-
 1 file changed, 29 insertions(+), 1 deletion(-)

diff --git a/jom/jom.go b/jom/jom.go
index 42ee4e0..bc479f7 100644
--- a/jom/jom.go
+++ b/jom/jom.go
@@ -1544,6 +1544,33 @@ func (jsonMap *JsonMap) MustDelete(jsonPath string) {
 	jsonMap.MustSet(jsonPath, nil)
 }
 
+// Whether the given JSON path consists of properties and single indices only and leads to an array.
+func (jsonMap *JsonMap) isArrayAt(jsonPath string) bool {
+	paths, err := json_map.ParseJsonPath(jsonPath)
+	if err != nil || len(paths) != 1 {
+		return false
+	}
+	var currValue interface{} = jsonMap.insides
+	for _, key := range paths[0] {
+		switch currValue.(type) {
+		case map[string]interface{}:
+			if key.KeyType != json_map.StringKey {
+				return false
+			}
+			currValue = currValue.(map[string]interface{})[key.Value.(string)]
+		case []interface{}:
+			if key.KeyType != json_map.IndexKey || key.Value.(int) >= len(currValue.([]interface{})) {
+				return false
+			}
+			currValue = currValue.([]interface{})[key.Value.(int)]
+		default:
+			return false
+		}
+	}
+	_, ok := currValue.([]interface{})
+	return ok
+}
+
 // Pushes to an []interface{} indicated by the given JSON path at the given indices and panics if any errors occur.
 //
 // Note: This assumes that the JSON path points to an array and will use JsonPathSetter to set the JSON path to be the array selected + the pushed values.
@@ -1559,7 +1586,8 @@ func (jsonMap *JsonMap) MustDelete(jsonPath string) {
 // • If a given index is greater than the length of the array to insert to, all empty spaces will be filled with nil.
 func (jsonMap *JsonMap) MustPush(jsonPath string, value interface{}, indices... int) {
 	nodes := jsonMap.MustGet(jsonPath)
-	if nodes == nil {
+	// NOTE there are no nodes for an empty array
+	if nodes == nil && !jsonMap.isArrayAt(jsonPath) {
 		panic(errors.New(fmt.Sprintf("no node at \"%s\" to push to", jsonPath)))
 	}
 
-- 
2.43.0


From c11bb9e5f3a9315bfd83092bf3b3b30548db4115 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:42 +0000
Subject: [PATCH 22/47] fix: MustPop ignores negative indices rather than
 everything that follows them

---
 jom/jom.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/jom/jom.go b/jom/jom.go
index bc479f7..bef59a9 100644
--- a/jom/jom.go
+++ b/jom/jom.go
@@ -1628,6 +1628,10 @@ func (jsonMap *JsonMap) MustPop(jsonPath string, indices... int) (popped []inter
 
 	// We get the popped elements and the new array at the some time
 	slices.RemoveDuplicatesAndSort(&indices)
+	// Negative indices are not within the range of the array. They'd stop all other indices from being reached
+	for len(indices) > 1 && indices[0] < 0 {
+		indices = indices[1:]
+	}
 	popped = make([]interface{}, 0)
 	newArr := make([]interface{}, 0)
 
-- 
2.43.0


From e26174715a1c1fb2a645f83c7005de8732384b36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:45 +0000
Subject: [PATCH 23/47] fix: FindScriptFields forgets the fields found by a
 previous call

Scripts were executed again when calling Run twice, and Strip brought back
deleted fields and kept scripts added since the previous call.
---
 jom/jom.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/jom/jom.go b/jom/jom.go
index bef59a9..3cb0cae 100644
--- a/jom/jom.go
+++ b/jom/jom.go
@@ -1265,6 +1265,10 @@ func (jsonMap *JsonMap) FindScriptFields() (found bool) {
 	// join a scriptFields subtree to its parent tree.
 	found = false
 
+	// Forget everything that has been found by a previous call
+	jsonMap.traversal.script = make(map[string]interface{})
+	jsonMap.traversal.nonScript = make(map[string]interface{})
+
 	for key, element := range *(jsonMap.GetInsides()) {
 		switch element.(type) {
 		case map[string]interface{}:
@@ -1369,8 +1373,10 @@ func (jsonMap *JsonMap) Run() {
 	}
 
 	// Get all script keys at the current level
+	// NOTE scripts might call FindScriptFields on this scope so the scripts found above have to be kept
+	scripts := jsonMap.traversal.script
 	scriptQueue := make(str.StringHeap, 0)
-	for k, e := range jsonMap.traversal.script {
+	for k, e := range scripts {
 		switch e.(type) {
 		case code.Code:
 			scriptQueue = append(scriptQueue, k)
@@ -1387,7 +1393,7 @@ func (jsonMap *JsonMap) Run() {
 		scriptKey := heap.Pop(&scriptQueue).(string)
 
 		// Get the script language by CheckIfScript
-		script := jsonMap.traversal.script[scriptKey].(code.Code)
+		script := scripts[scriptKey].(code.Code)
 
 		// Run the script for the script's language. This will...
 		// 1. Create the JOM object, setup any builtin functions and insert the JOM into the script environment
-- 
2.43.0


From 597c007285c5e32f7444f326459204f227c16582 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:49 +0000
Subject: [PATCH 24/47] fix: Strip removes scripts which are only within arrays

---
 jom/jom.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/jom/jom.go b/jom/jom.go
index 3cb0cae..3e3d64c 100644
--- a/jom/jom.go
+++ b/jom/jom.go
@@ -1311,6 +1311,7 @@ func (jsonMap *JsonMap) FindScriptFields() (found bool) {
 
 			// If any scripts were found in the scope of the array then assign the array to the current key
 			if foundInner {
+				found = true
 				jsonMap.traversal.script[key] = scriptArrayInner
 			}
 			// Always join nonScriptArrayInner back into the main tree (nonScriptFields)
-- 
2.43.0


From 4a153b71ccebcdd6ba48ec8aa94c386ef11e2833 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:28 +0000
Subject: [PATCH 25/47] fix: scripts within nested arrays are run and stripped

---
 jom/jom.go | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/jom/jom.go b/jom/jom.go
index 3e3d64c..2d20a45 100644
--- a/jom/jom.go
+++ b/jom/jom.go
@@ -1302,6 +1302,14 @@ func (jsonMap *JsonMap) FindScriptFields() (found bool) {
 					}
 					// Always join nonScriptFieldsInner back into main array (nonScriptArrayInner)
 					nonScriptArrayInner[i] = innerMap.traversal.nonScript
+				case []interface{}:
+					// Nested arrays are wrapped up so that they are handled like an array within an object
+					innerMap := NewFromMap(map[string]interface{}{key: inner})
+					if innerMap.FindScriptFields() {
+						foundInner = true
+						scriptArrayInner[i] = innerMap.traversal.script[key]
+					}
+					nonScriptArrayInner[i] = innerMap.traversal.nonScript[key]
 				default:
 					// Fill current element with nil in the scriptArray to indicate that there is no script here
 					scriptArrayInner[i] = nil
@@ -1435,6 +1443,13 @@ func (jsonMap *JsonMap) Run() {
 					jsonInnerInnerMap.Run()
 					// Join the subtree back into the array
 					elementArray[i] = jsonInnerInnerMap.insides
+				case []interface{}:
+					// Nested arrays are wrapped up so that they are handled like an array within an object
+					wrapKey := fmt.Sprintf("[%d]", i)
+					jsonInnerInnerMap := NewFromMap(map[string]interface{}{wrapKey: inner})
+					_, _ = fmt.Fprintf(jsonInnerInnerMap.traversal.scopePath, "%s.%s", jsonMap.traversal.scopePath.String(), key)
+					jsonInnerInnerMap.Run()
+					elementArray[i] = jsonInnerInnerMap.insides[wrapKey]
 				}
 			}
 			// Join array back into the main tree
-- 
2.43.0


From 67c25a8920e7c3e4e597f3620fc3cf00cfd7a40a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:31 +0000
Subject: [PATCH 26/47] fix: do not leak the timer goroutine of every Go
 callback

---
 code/go/go.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/code/go/go.go b/code/go/go.go
index e085457..b426400 100644
--- a/code/go/go.go
+++ b/code/go/go.go
@@ -33,7 +33,8 @@ func init() {
 func RunCallback(code code.Code, jsonMap json_map.JsonMapInt) (data json_map.JsonMapInt, err error) {
 	// Get the callback from the code object
 	callback := code.Script.(func(json json_map.JsonMapInt))
-	interrupts := make(chan func() bool)
+	// NOTE the buffer is there so that neither the callback nor the timer will be blocked forever if they are late
+	interrupts := make(chan func() bool, 2)
 
 	// Construct a wrapper around the callback which will write to the interrupts channel once finished
 	callbackSafe := func() {
-- 
2.43.0


From cd209ec2156161d6904ab2245c4b48fe6b8294f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:34 +0000
Subject: [PATCH 27/47] fix: the clone of a JsonMap with an array at its root
 is an array as well

---
 jom/jom.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/jom/jom.go b/jom/jom.go
index 2d20a45..a33aac6 100644
--- a/jom/jom.go
+++ b/jom/jom.go
@@ -87,6 +87,7 @@ func (jsonMap *JsonMap) Clone(clear bool) json_map.JsonMapInt {
 		return &JsonMap{
 			insides:   jsonMap.insides,
 			traversal: jsonMap.traversal,
+			Array:     jsonMap.Array,
 		}
 	}
 	cleared := New()
-- 
2.43.0


From 36ca8eb8674385da89b23fac78d31428722eb6b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:03 +0000
Subject: [PATCH 28/47] fix: unmarshalling into a used JsonMap forgets its
 previous root

An object unmarshalled after an array was marshalled as null, keys of an
object were kept after unmarshalling an array, and garbage was accepted after
an array.
---
 jom/jom.go | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/jom/jom.go b/jom/jom.go
index a33aac6..8e47028 100644
--- a/jom/jom.go
+++ b/jom/jom.go
@@ -1461,22 +1461,25 @@ func (jsonMap *JsonMap) Run() {
 
 // Unmarshal a hjson byte string and package it as a JsonMap.
 func (jsonMap *JsonMap) Unmarshal(jsonBytes []byte) (err error) {
+	// The JsonMap might have had an array at its root before
+	rootIsArray := false
 	// Decode and a check for errors.
 	if err = hjson.Unmarshal(jsonBytes, &jsonMap.insides); err != nil {
 		// FIXME Find a better way of handling JSON with an array at their root
 		if strings.Contains(err.Error(), "value of type []interface {} is not assignable to type map[string]interface {}") {
-			jsonMap.Array = true
 			// Create an "array" key within jsonMap.insides that will contain the unmarshalled array
 			// When Marshalling into JSON check if this hack was used and deal with it accordingly
 			var rootArray []interface{}
 			if err = hjson.Unmarshal(jsonBytes, &rootArray); err == nil {
-				jsonMap.insides["array"] = rootArray
+				rootIsArray = true
+				jsonMap.insides = map[string]interface{}{"array": rootArray}
 			}
 		}
-		if !jsonMap.Array {
+		if !rootIsArray {
 			return err
 		}
 	}
+	jsonMap.Array = rootIsArray
 	return nil
 }
 
-- 
2.43.0


From aa45589d879cefb2cc831b6a75478fa2e0143cb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:39 +0000
Subject: [PATCH 29/47] fix: scripts of independent documents do not share the
 current JsonMap (data race)

---
 code/js/js.go | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/code/js/js.go b/code/js/js.go
index 63a326a..347172e 100644
--- a/code/js/js.go
+++ b/code/js/js.go
@@ -28,8 +28,6 @@ var (
 	ExternalConsoleLogStderr io.Writer = os.Stderr
 )
 
-var toBeCloned json_map.JsonMapInt
-
 // Used to map a JS Object from Otto into a map so that it can be used.
 func traverseObject(object *otto.Object) *map[string]interface{} {
 	objectMap := make(map[string]interface{})
@@ -149,7 +147,9 @@ func composePrint(call otto.FunctionCall) *strings.Builder {
 // • json_map.AbsolutePaths will be converted into JS values.
 //
 // • The returned object will be constructed (_absolutePaths, getValues, setValues).
-func jsonPathSelector(call otto.FunctionCall) otto.Value {
+//
+// • toBeCloned is the json_map.JsonMapInt of the scope which the script is run in.
+func jsonPathSelector(toBeCloned json_map.JsonMapInt, call otto.FunctionCall) otto.Value {
 	var err error
 	vm := call.Otto
 
@@ -364,7 +364,9 @@ var builtinVars = []struct{
 		}
 		jom := map[string]interface{} {
 			"trail": trail,
-			"jsonPathSelector": jsonPathSelector,
+			"jsonPathSelector": func(call otto.FunctionCall) otto.Value {
+				return jsonPathSelector(jsonMap, call)
+			},
 			"scopePath": jsonMap.GetCurrentScopePath(),
 		}
 		if val, err := runtime.ToValue(jom); err != nil {
@@ -464,7 +466,6 @@ func deJomIfy(jsonMap json_map.JsonMapInt, env *otto.Otto) (data json_map.JsonMa
 //
 // • The new json_map.JsonMapInt is returned.
 func RunScript(code code.Code, jsonMap json_map.JsonMapInt) (data json_map.JsonMapInt, err error) {
-	toBeCloned = jsonMap
 	script := code.Script.(string)
 	// Create the VM and register all builtins
 	vm := otto.New()
-- 
2.43.0


From 34176e6c377c27b942fca15fd938713fe7a9ffad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:42 +0000
Subject: [PATCH 30/47] fix: setValues stores arrays as arrays and keeps nulls
 within objects

---
 code/js/js.go | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/code/js/js.go b/code/js/js.go
index 347172e..423f09c 100644
--- a/code/js/js.go
+++ b/code/js/js.go
@@ -300,6 +300,21 @@ func jsonPathSelector(toBeCloned json_map.JsonMapInt, call otto.FunctionCall) ot
 		value := call.Argument(0)
 		valueGo := toGo(value)
 
+		// toGo makes objects out of arrays and nulls within objects (it's made for printing) so objects go through JSON
+		if value.IsObject() {
+			var valueString otto.Value
+			valueString, err = call.Otto.Call("JSON.stringify", nil, value)
+			if err != nil {
+				throw(err.Error())
+			}
+			if valueString.IsString() {
+				valueGo = nil
+				if err = json.Unmarshal([]byte(valueString.String()), &valueGo); err != nil {
+					throw(err.Error())
+				}
+			}
+		}
+
 		// Because the value returned by toGo can indeed by a pointer we need to do some suave reflect method calls to
 		// get the indirect value of the pointer if the Kind of value returned is indeed a pointer
 		if reflect.ValueOf(valueGo).Kind() == reflect.Ptr {
-- 
2.43.0


From 70db479517fbdd6efb14c49f42d5ab79d3874240 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:08 +0000
Subject: [PATCH 31/47] fix: the CLI prints the results of several files in the
 order they are given

---
 json-dom.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/json-dom.go b/json-dom.go
index fb6d6d3..517c80a 100644
--- a/json-dom.go
+++ b/json-dom.go
@@ -176,6 +176,8 @@ func main() {
 			inputPtr := element["input"].(*string)
 
 			dataSet := make(map[string][]byte, 0)
+			// The names within the dataSet in the order in which they were given
+			dataNames := make([]string, 0)
 			if len(*filesPtr) != 0 || *inputPtr != "" {
 				// If both a file and a stdin input is given then evaluate the files first
 				var data []byte
@@ -208,11 +210,13 @@ func main() {
 							globals.ReadFileErr.Handle(err)
 						}
 						dataSet[file] = data
+						dataNames = append(dataNames, file)
 					}
 				} else {
 					// Convert the input to a byte buffer
 					data = []byte(*inputPtr)
 					dataSet["stdin"] = data
+					dataNames = append(dataNames, "stdin")
 				}
 			} else {
 				// Files and input not given so throw RequiredFlagErr
@@ -220,7 +224,8 @@ func main() {
 					element["flagSet"].(*flag.FlagSet))
 			}
 
-			for dataName, data := range dataSet {
+			for _, dataName := range dataNames {
+				data := dataSet[dataName]
 				if verbose {
 					fmt.Printf("\n%s:\n", dataName)
 				}
-- 
2.43.0


From 1988a1a4fc0a7d3187327fd0aba0ee52e41bcf7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:11 +0000
Subject: [PATCH 32/47] fix: markup applies path-script pairs in a fixed order

The result was random when one of the paths leads through another.
---
 json-dom.go | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/json-dom.go b/json-dom.go
index 517c80a..622ea3f 100644
--- a/json-dom.go
+++ b/json-dom.go
@@ -13,6 +13,7 @@ import (
 	"github.com/andygello555/json-dom/jom/json_map"
 	"io/ioutil"
 	"os"
+	"sort"
 	"strings"
 	"unicode/utf8"
 )
@@ -268,8 +269,14 @@ func main() {
 					}
 
 					// Run the Markup for all paths
-					for path, script := range *pathScripts {
-						err = jsonMap.MarkupCode(path, *language, script)
+					paths := make([]string, 0)
+					for path := range *pathScripts {
+						paths = append(paths, path)
+					}
+					// The order matters if one path leads through another
+					sort.Strings(paths)
+					for _, path := range paths {
+						err = jsonMap.MarkupCode(path, *language, (*pathScripts)[path])
 						if err != nil {
 							globals.MarkupErr.Handle(err)
 						}
-- 
2.43.0


From cb353cd2b7c3fa31ddacdde71599a4ffaec3eee8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:57 +0000
Subject: [PATCH 33/47] fix: a path which does not start with the root node is
 an error

---
 jom/json_map/json_path_parse.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jom/json_map/json_path_parse.go b/jom/json_map/json_path_parse.go
index ff81938..d499ba0 100644
--- a/jom/json_map/json_path_parse.go
+++ b/jom/json_map/json_path_parse.go
@@ -329,7 +329,7 @@ func ParseJsonPath(jsonPath string) (absolutePaths AbsolutePaths, err error) {
 		// If there are no occurrences found or the occurrence doesn't start at the beginning of the buffer then error out
 		if len(occurrences) == 0 || occurrences[0] != 0 {
 			err = globals.JsonPathError.FillError(fmt.Sprintf("%s token does not come after %s", currentState.name, previousState.name))
-			break
+			return nil, err
 		}
 
 		// A filter expression ends at its own closing brackets and not at the last ones within the JSON path
-- 
2.43.0


From 4f0444d0933b502c4d3c60f39cee52e23c7a3545 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:27 +0000
Subject: [PATCH 34/47] fix: MustPush can push to an empty array found by a
 first descent

---
 jom/jom.go | 21 ++++++++++++++++++---
 1 file changed, 18 insertions(+), 3 deletions(-)

diff --git a/jom/jom.go b/jom/jom.go
index 8e47028..1ae5bbe 100644
--- a/jom/jom.go
+++ b/jom/jom.go
@@ -1570,7 +1570,7 @@ func (jsonMap *JsonMap) MustDelete(jsonPath string) {
 	jsonMap.MustSet(jsonPath, nil)
 }
 
-// Whether the given JSON path consists of properties and single indices only and leads to an array.
+// Whether the given JSON path consists of properties, single indices and first descents only and leads to an array.
 func (jsonMap *JsonMap) isArrayAt(jsonPath string) bool {
 	paths, err := json_map.ParseJsonPath(jsonPath)
 	if err != nil || len(paths) != 1 {
@@ -1580,10 +1580,25 @@ func (jsonMap *JsonMap) isArrayAt(jsonPath string) bool {
 	for _, key := range paths[0] {
 		switch currValue.(type) {
 		case map[string]interface{}:
-			if key.KeyType != json_map.StringKey {
+			m := currValue.(map[string]interface{})
+			switch key.KeyType {
+			case json_map.StringKey:
+				currValue = m[key.Value.(string)]
+			case json_map.First:
+				// The first map/array in alphabetical order
+				currValue = nil
+				for _, k := range sortedKeys(m) {
+					switch m[k].(type) {
+					case map[string]interface{}, []interface{}:
+						currValue = m[k]
+					default:
+						continue
+					}
+					break
+				}
+			default:
 				return false
 			}
-			currValue = currValue.(map[string]interface{})[key.Value.(string)]
 		case []interface{}:
 			if key.KeyType != json_map.IndexKey || key.Value.(int) >= len(currValue.([]interface{})) {
 				return false
-- 
2.43.0


From d090468d2617630b650d598438e8e299aef8fbcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:14 +0000
Subject: [PATCH 35/47] fix: a script which leaves json.trail null fails
 instead of storing null

---
 code/js/js.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/code/js/js.go b/code/js/js.go
index 423f09c..d023a97 100644
--- a/code/js/js.go
+++ b/code/js/js.go
@@ -460,6 +460,10 @@ func deJomIfy(jsonMap json_map.JsonMapInt, env *otto.Otto) (data json_map.JsonMa
 	if err := json.Unmarshal([]byte(run.String()), data.GetInsides()); err != nil {
 		return nil, err
 	}
+	// NOTE null can be unmarshalled into a map (the map will be nil) but it is not an object
+	if *data.GetInsides() == nil {
+		return nil, globals.BuiltinGetterError.FillError(fmt.Sprintf("%s.trail", globals.JOMVariableName), "It is not an object but null")
+	}
 	return data, nil
 }
 
-- 
2.43.0


From 917d8baab51a82d124876df21ed49cb5525be5a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:26 +0000
Subject: [PATCH 36/47] fix: String gives text which leads back to the same
 document

---
 jom/jom.go | 27 +++++++++++++++++++++------
 1 file changed, 21 insertions(+), 6 deletions(-)

diff --git a/jom/jom.go b/jom/jom.go
index 1ae5bbe..6a5220c 100644
--- a/jom/jom.go
+++ b/jom/jom.go
@@ -5,6 +5,7 @@
 package jom
 
 import (
+	"bytes"
 	"container/heap"
 	"encoding/json"
 	"errors"
@@ -1697,17 +1698,31 @@ func (jsonMap *JsonMap) MustPop(jsonPath string, indices... int) (popped []inter
 
 // Marshals the JsonMap into hjson and returns the stringified byte array.
 func (jsonMap *JsonMap) String() string {
-	var err error
-	var out []byte
-	if !jsonMap.Array {
-		out, err = hjson.Marshal(jsonMap.insides)
-	} else {
+	var root interface{} = jsonMap.insides
+	if jsonMap.Array {
 		// FIXME: Handle the root array hack
-		out, err = hjson.Marshal(jsonMap.insides["array"])
+		root = jsonMap.insides["array"]
 	}
+	out, err := hjson.Marshal(root)
 	if err != nil {
 		panic(err)
 	}
+
+	// The hjson encoder loses some strings and keys (those with carriage returns or control characters for instance). All
+	// JSON is hjson so plain JSON is used for these.
+	if asJson, jsonErr := json.Marshal(root); jsonErr == nil {
+		var decoded interface{}
+		var asDecoded []byte
+		if err = hjson.Unmarshal(out, &decoded); err == nil {
+			asDecoded, err = json.Marshal(decoded)
+		}
+		if err != nil || !bytes.Equal(asJson, asDecoded) {
+			var indented bytes.Buffer
+			if err = json.Indent(&indented, asJson, "", "  "); err == nil {
+				return indented.String()
+			}
+		}
+	}
 	return string(out)
 }
 
-- 
2.43.0


From f4acb0e366326f381161a2d482df447640903470 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:40 +0000
Subject: [PATCH 37/47] fix: escaped surrogate pairs in JSON are decoded

---
 jom/jom.go | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/jom/jom.go b/jom/jom.go
index 6a5220c..2d08ef5 100644
--- a/jom/jom.go
+++ b/jom/jom.go
@@ -1464,6 +1464,18 @@ func (jsonMap *JsonMap) Run() {
 func (jsonMap *JsonMap) Unmarshal(jsonBytes []byte) (err error) {
 	// The JsonMap might have had an array at its root before
 	rootIsArray := false
+	// The hjson decoder breaks escaped surrogate pairs so it is only used for what is not plain JSON.
+	var root interface{}
+	if json.Unmarshal(jsonBytes, &root) == nil {
+		switch root := root.(type) {
+		case map[string]interface{}:
+			jsonMap.insides, jsonMap.Array = root, false
+			return nil
+		case []interface{}:
+			jsonMap.insides, jsonMap.Array = map[string]interface{}{"array": root}, true
+			return nil
+		}
+	}
 	// Decode and a check for errors.
 	if err = hjson.Unmarshal(jsonBytes, &jsonMap.insides); err != nil {
 		// FIXME Find a better way of handling JSON with an array at their root
-- 
2.43.0


From 00918577ed82dc3838eabd9cc757764e2f353c9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:46 +0000
Subject: [PATCH 38/47] fix: endless loops without a body and condition are
 stopped at the halting delay

---
 code/interruptible.go | 35 +++++++++++++++++++++++++++++++++++
 code/js/js.go         |  6 +++---
 jom/jom.go            |  2 +-
 3 files changed, 39 insertions(+), 4 deletions(-)
 create mode 100644 code/interruptible.go

diff --git a/code/interruptible.go b/code/interruptible.go
new file mode 100644
index 0000000..be1044e
--- /dev/null
+++ b/code/interruptible.go
@@ -0,0 +1,35 @@
+package code
+
+import (
+	"github.com/robertkrimen/otto/ast"
+	"github.com/robertkrimen/otto/parser"
+)
+
+// Gives all the endless loops without a body an empty statement as their body.
+type loopFiller struct{}
+
+func (filler loopFiller) Enter(node ast.Node) ast.Visitor {
+	if loop, ok := node.(*ast.ForStatement); ok {
+		if body, ok := loop.Body.(*ast.BlockStatement); ok && len(body.List) == 0 {
+			body.List = append(body.List, &ast.EmptyStatement{Semicolon: body.RightBrace})
+		}
+	}
+	return filler
+}
+
+func (filler loopFiller) Exit(ast.Node) {}
+
+// Parses the given JS so that otto.Otto.Run can be interrupted wherever it is.
+//
+// otto only looks at the Interrupt channel before it evaluates a statement or an expression. There is neither of them in
+// "for (;;) {}", which would never stop.
+//
+// If the JS cannot be parsed it is returned as it is so that otto.Otto.Run gives the error.
+func Interruptible(script string) interface{} {
+	program, err := parser.ParseFile(nil, "", script, 0)
+	if err != nil {
+		return script
+	}
+	ast.Walk(loopFiller{}, program)
+	return program
+}
diff --git a/code/js/js.go b/code/js/js.go
index d023a97..77a2e5c 100644
--- a/code/js/js.go
+++ b/code/js/js.go
@@ -484,8 +484,8 @@ func deJomIfy(jsonMap json_map.JsonMapInt, env *otto.Otto) (data json_map.JsonMa
 // • The environment is De-JOM-ified.
 //
 // • The new json_map.JsonMapInt is returned.
-func RunScript(code code.Code, jsonMap json_map.JsonMapInt) (data json_map.JsonMapInt, err error) {
-	script := code.Script.(string)
+func RunScript(toRun code.Code, jsonMap json_map.JsonMapInt) (data json_map.JsonMapInt, err error) {
+	script := toRun.Script.(string)
 	// Create the VM and register all builtins
 	vm := otto.New()
 	vm.SetStackDepthLimit(globals.MaxScriptStackDepth)
@@ -540,7 +540,7 @@ func RunScript(code code.Code, jsonMap json_map.JsonMapInt) (data json_map.JsonM
 		}
 	}()
 	// Run the script
-	_, err = vm.Run(script)
+	_, err = vm.Run(code.Interruptible(script))
 	if err != nil {
 		// Re-wrap the error as a ScriptError
 		return nil, globals.ScriptError.FillError(err.Error(), fmt.Sprintf(globals.ScriptErrorFormatString, jsonMap.GetCurrentScopePath(), script))
diff --git a/jom/jom.go b/jom/jom.go
index 2d08ef5..c81aa08 100644
--- a/jom/jom.go
+++ b/jom/jom.go
@@ -310,7 +310,7 @@ func filterRunner(obj interface{}, filterExp []byte, jsonMap map[string]interfac
 			}()
 			// NOTE: how we wrap the expression in !!() this is to try to convert to boolean
 			currentExpression = fmt.Sprintf("!!(%s)", currentExpression)
-			expressionReturn, err = vm.Run(currentExpression)
+			expressionReturn, err = vm.Run(code.Interruptible(currentExpression))
 		}()
 		if err != nil {
 			return err
-- 
2.43.0


From 59b589022ba9c821fdbaff6316c487eccf12a90c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:42:19 +0000
Subject: [PATCH 39/47] fix: printing an object with a reference to itself does
 not overflow the stack

---
 code/js/js.go | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/code/js/js.go b/code/js/js.go
index 77a2e5c..941ba42 100644
--- a/code/js/js.go
+++ b/code/js/js.go
@@ -29,8 +29,13 @@ var (
 )
 
 // Used to map a JS Object from Otto into a map so that it can be used.
-func traverseObject(object *otto.Object) *map[string]interface{} {
+//
+// The given ancestors are the objects that the given object is being traversed within. These are not traversed again when
+// there is a reference back to one of them.
+func traverseObject(object *otto.Object, ancestors map[otto.Value]bool) *map[string]interface{} {
 	objectMap := make(map[string]interface{})
+	ancestors[object.Value()] = true
+	defer delete(ancestors, object.Value())
 
 	for _, key := range object.Keys() {
 		val, err := object.Get(key)
@@ -57,8 +62,12 @@ func traverseObject(object *otto.Object) *map[string]interface{} {
 			realVal = boolean
 		} else if val.IsObject() {
 			obj := val.Object()
-			objectMapInner := traverseObject(obj)
-			realVal = *objectMapInner
+			if ancestors[obj.Value()] || len(ancestors) >= globals.MaxScriptStackDepth {
+				realVal = "[Circular]"
+			} else {
+				objectMapInner := traverseObject(obj, ancestors)
+				realVal = *objectMapInner
+			}
 		}
 		objectMap[key] = realVal
 	}
@@ -83,7 +92,7 @@ func toGo(value otto.Value) (out interface{}) {
 			}
 		case value.IsObject():
 			obj := value.Object()
-			out = traverseObject(obj)
+			out = traverseObject(obj, make(map[otto.Value]bool))
 		case value.IsNull():
 			out = nil
 		case value.IsFunction():
-- 
2.43.0


From f5fa14288a19026424404080bd0727f76c0fd09a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:42:47 +0000
Subject: [PATCH 40/47] fix: filters which are halted while they print are not
 evaluated to a result

---
 jom/jom.go | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/jom/jom.go b/jom/jom.go
index c81aa08..f2fcfb7 100644
--- a/jom/jom.go
+++ b/jom/jom.go
@@ -301,16 +301,27 @@ func filterRunner(obj interface{}, filterExp []byte, jsonMap map[string]interfac
 				vm.Interrupt = nil
 			}()
 
+			// NOTE: fmt, which prints the arguments of the console object of otto, recovers from the panics of toString
+			//       functions. Therefore, the interrupt stays pending and whether there was one is checked afterwards.
+			halted := false
+			var halt func()
+			halt = func() {
+				halted = true
+				interrupt <- halt
+				panic(globals.HaltingProblem)
+			}
+
 			// Start the timer
 			go func() {
 				time.Sleep(1 * globals.HaltingDelayUnits)
-				interrupt <- func() {
-					panic(globals.HaltingProblem)
-				}
+				interrupt <- halt
 			}()
 			// NOTE: how we wrap the expression in !!() this is to try to convert to boolean
 			currentExpression = fmt.Sprintf("!!(%s)", currentExpression)
 			expressionReturn, err = vm.Run(code.Interruptible(currentExpression))
+			if halted {
+				panic(globals.HaltingProblem)
+			}
 		}()
 		if err != nil {
 			return err
-- 
2.43.0


From fbe759df4b9825026a079b03be2bdaeea8b3729a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:28:11 +0000
Subject: [PATCH 41/47] fix: scripts of languages which are registered by
 others are not run as JavaScript

---
 code/code.go | 24 ++++++++++++++++--------
 code/run.go  |  4 ++++
 2 files changed, 20 insertions(+), 8 deletions(-)

diff --git a/code/code.go b/code/code.go
index 3e70371..50a02d4 100644
--- a/code/code.go
+++ b/code/code.go
@@ -39,20 +39,28 @@ func (code *Code) String() string {
 	return fmt.Sprintf(globals.ScriptErrorFormatString, code.ScriptLangShebang(), fmt.Sprintf("%v", code.Script))
 }
 
+// The shebang suffixes of all ScriptLangType(s). RegisterLang appends the ones of new languages.
+var shebangs = []string{
+	JS: "js",
+	GO: "go",
+}
+
 // Gets all the shebang suffixes for the given ScriptLangType.
 func (code *Code) ScriptLangShebang() string {
-	return map[ScriptLangType]string{
-		JS: "js",
-		GO: "go",
-	}[code.ScriptLang]
+	if code.ScriptLang < 0 || int(code.ScriptLang) >= len(shebangs) {
+		return ""
+	}
+	return shebangs[code.ScriptLang]
 }
 
 // Gets the ScriptLangType of the given shebang suffix.
 func ShebangScriptLang(shebang string) ScriptLangType {
-	return map[string]ScriptLangType{
-		"js": JS,
-		"go": GO,
-	}[shebang]
+	for scriptLang, name := range shebangs {
+		if name == shebang {
+			return ScriptLangType(scriptLang)
+		}
+	}
+	return JS
 }
 
 // Creates a new Code object from the given string source code (must include shebang) or a func(json json_map.JsonMapInt).
diff --git a/code/run.go b/code/run.go
index c13c39d..f5ff583 100644
--- a/code/run.go
+++ b/code/run.go
@@ -32,6 +32,10 @@ func RegisterLang(shebangName string, runCode func(code Code, jsonMap json_map.J
 		shebangName: shebangName,
 		runCode:     runCode,
 	}
+	// A new language also needs a ScriptLangType so that its scripts aren't taken for scripts of another language
+	if shebangs[ShebangScriptLang(shebangName)] != shebangName {
+		shebangs = append(shebangs, shebangName)
+	}
 	return true
 }
 
-- 
2.43.0


From 1ae8906c18bfa87f876519a7d0b3841e2d19eb81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:37:18 +0000
Subject: [PATCH 42/47] fix: quotes and @ in regular expressions and comments
 within filters are not taken for strings and nodes

---
 jom/jom.go                      | 16 ++++----
 jom/json_map/json_path_parse.go | 65 +++++++++++++++++++++++++++------
 2 files changed, 61 insertions(+), 20 deletions(-)

diff --git a/jom/jom.go b/jom/jom.go
index f2fcfb7..5f81b87 100644
--- a/jom/jom.go
+++ b/jom/jom.go
@@ -118,11 +118,10 @@ func (jsonMap *JsonMap) GetInsides() *map[string]interface{} {
 func filterRunner(obj interface{}, filterExp []byte, jsonMap map[string]interface{}, mapType bool, returnIndices bool) (truers interface{}, err error) {
 	// For Filters we first have to replace all all @ chars with the current node that has been Marshalled
 	// into JSON then JSON.parse-d. And we have to also replace all the JSON paths with calculated literals
-	stringLiterals := regexp.MustCompile("'([^\\\\']|\\\\.)*'|\"([^\\\\\"]|\\\\.)*\"")
 	jsonPathRegex := regexp.MustCompile("\\$[.\\[][^'\"\\n\\r\\s]+")
 
-	// Get the locations of the start and end of all string literals
-	stringLiteralLocs := stringLiterals.FindAllIndex(filterExp, -1)
+	// Get the locations of the start and end of all string (and regular expression) literals
+	stringLiteralLocs := json_map.Literals(filterExp)
 	//fmt.Println("string literal locations:", stringLiteralLocs)
 
 	// We can replace all occurrences of any JSON path expressions within the filter expression with the
@@ -140,11 +139,10 @@ func filterRunner(obj interface{}, filterExp []byte, jsonMap map[string]interfac
 		for _, jsonPathLoc := range jsonPathLocs {
 			within := false
 			for _, stringLiteralLoc := range stringLiteralLocs {
-				if jsonPathLoc[1] - jsonPathLoc[0] <= stringLiteralLoc[1] - stringLiteralLoc[0] - 2 {
-					if jsonPathLoc[0] >= stringLiteralLoc[0] && jsonPathLoc[1] <= stringLiteralLoc[1] {
-						within = true
-						break
-					}
+				// NOTE what looks like a JSON path might not end where a regular expression literal does
+				if jsonPathLoc[0] >= stringLiteralLoc[0] && jsonPathLoc[0] < stringLiteralLoc[1] {
+					within = true
+					break
 				}
 			}
 
@@ -202,7 +200,7 @@ func filterRunner(obj interface{}, filterExp []byte, jsonMap map[string]interfac
 		}
 		// All string literal locations also have to be recalculated as there were changes made to the
 		// filter expression
-		stringLiteralLocs = stringLiterals.FindAllIndex(filterExp, -1)
+		stringLiteralLocs = json_map.Literals(filterExp)
 		//fmt.Println("after replacing JSON path expressions with literal evals:", string(filterExp))
 	}
 
diff --git a/jom/json_map/json_path_parse.go b/jom/json_map/json_path_parse.go
index d499ba0..b3c556b 100644
--- a/jom/json_map/json_path_parse.go
+++ b/jom/json_map/json_path_parse.go
@@ -2,6 +2,7 @@ package json_map
 
 import (
 	"bufio"
+	"bytes"
 	"fmt"
 	str "github.com/andygello555/gotils/strings"
 	"github.com/andygello555/json-dom/globals"
@@ -210,23 +211,17 @@ var fromStateToStates = map[string][]*state{
 }
 
 // Finds the end of the filter expression token at the start of the given bytes, given the end of the greedy match of the
-// filter regex: this is the first ")]" which is not inside of a string literal or nested brackets. If there is no such
+// filter regex: this is the first ")]" which is not inside of a literal or nested brackets. If there is no such
 // ")]" then the end of the greedy match is returned.
 func filterEnd(togo []byte, greedyEnd int) int {
 	depth := 0
-	var quote byte
 	for i := len("[?("); i < greedyEnd - 1; i++ {
+		if end, ok := literalEnd(togo, i); ok {
+			i = end - 1
+			continue
+		}
 		char := togo[i]
 		switch {
-		case quote != 0:
-			if char == '\\' {
-				// Skip the escaped character
-				i++
-			} else if char == quote {
-				quote = 0
-			}
-		case char == '\'' || char == '"':
-			quote = char
 		case char == '(' || char == '[':
 			depth++
 		case depth == 0 && char == ')' && togo[i + 1] == ']':
@@ -238,6 +233,54 @@ func filterEnd(togo []byte, greedyEnd int) int {
 	return greedyEnd
 }
 
+// What comes before a regular expression literal, other than before a division.
+var beforeRegex = regexp.MustCompile("(^|[(,=:\\[!&|?{;<>*%^~]|(^|[^.a-zA-Z0-9_$])(return|typeof|void|delete|in|instanceof|new|throw|case|do|else))\\s*$")
+
+// A regular expression literal.
+var regexLiteral = regexp.MustCompile("^/([^/*\\\\\\[\\n\\r]|\\\\[^\\n\\r]|\\[([^\\]\\\\\\n\\r]|\\\\[^\\n\\r])*])([^/\\\\\\[\\n\\r]|\\\\[^\\n\\r]|\\[([^\\]\\\\\\n\\r]|\\\\[^\\n\\r])*])*/")
+
+// Finds the end of the string literal, regular expression literal or comment which starts at the given index of the given
+// JS. A string literal which is not closed ends where the JS does.
+//
+// If there is none at the index then ok is false.
+func literalEnd(js []byte, start int) (end int, ok bool) {
+	switch js[start] {
+	case '\'', '"':
+		for end = start + 1; end < len(js); end++ {
+			if js[end] == '\\' {
+				// Skip the escaped character
+				end++
+			} else if js[end] == js[start] {
+				return end + 1, true
+			}
+		}
+		return len(js), true
+	case '/':
+		if bytes.HasPrefix(js[start:], []byte("/*")) {
+			if length := bytes.Index(js[start + 2:], []byte("*/")); length >= 0 {
+				return start + length + 4, true
+			}
+		}
+		if beforeRegex.Match(js[:start]) {
+			if loc := regexLiteral.FindIndex(js[start:]); loc != nil {
+				return start + loc[1], true
+			}
+		}
+	}
+	return start, false
+}
+
+// Gets the locations of all string literals, regular expression literals and comments in the given JS.
+func Literals(js []byte) (locs [][]int) {
+	for i := 0; i < len(js); i++ {
+		if end, ok := literalEnd(js, i); ok {
+			locs = append(locs, []int{i, end})
+			i = end - 1
+		}
+	}
+	return locs
+}
+
 // All token regexes prefer the longest match. This is set up once as Longest modifies the (shared) regexes.
 func init() {
 	for _, state := range []*state{&root, &dot, &index, &filter, &property, &recursiveLookup} {
-- 
2.43.0


From 518469358d772f4a878319b14b9e66cd5f821ea9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:41:23 +0000
Subject: [PATCH 43/47] fix: JSON paths behind regular expressions in filters
 are found

---
 jom/jom.go                      | 85 +++++++++++++++++----------------
 jom/json_map/json_path_parse.go |  2 +-
 2 files changed, 45 insertions(+), 42 deletions(-)

diff --git a/jom/jom.go b/jom/jom.go
index 5f81b87..89fcc9c 100644
--- a/jom/jom.go
+++ b/jom/jom.go
@@ -127,7 +127,23 @@ func filterRunner(obj interface{}, filterExp []byte, jsonMap map[string]interfac
 	// We can replace all occurrences of any JSON path expressions within the filter expression with the
 	// literal values to which they evaluate to straight away so that they don't interfere with current node
 	// replacement
-	jsonPathLocs := jsonPathRegex.FindAllIndex(filterExp, -1)
+	jsonPathLocs := make([][]int, 0)
+	outside := 0
+	// NOTE what looks like a JSON path within a literal might not end where the literal does so the text between the
+	//      literals is searched for the start of a JSON path which itself ends before the next string literal
+	for _, stringLiteralLoc := range append(stringLiteralLocs, []int{len(filterExp), len(filterExp)}) {
+		for outside < stringLiteralLoc[0] {
+			jsonPathLoc := jsonPathRegex.FindIndex(filterExp[outside:])
+			if jsonPathLoc == nil || outside + jsonPathLoc[0] >= stringLiteralLoc[0] {
+				break
+			}
+			jsonPathLocs = append(jsonPathLocs, []int{outside + jsonPathLoc[0], outside + jsonPathLoc[1]})
+			outside += jsonPathLoc[1]
+		}
+		if outside < stringLiteralLoc[1] {
+			outside = stringLiteralLoc[1]
+		}
+	}
 	// Stores the locations of each JSON path that occurs within the filter expression
 	jsonPathIndices := make([][]int, 0)
 	// Stores the marshalled literal values
@@ -137,51 +153,38 @@ func filterRunner(obj interface{}, filterExp []byte, jsonMap map[string]interfac
 		myJson := NewFromMap(jsonMap)
 		// Then we do a similar thing for JSON path expressions within the filter expression
 		for _, jsonPathLoc := range jsonPathLocs {
-			within := false
-			for _, stringLiteralLoc := range stringLiteralLocs {
-				// NOTE what looks like a JSON path might not end where a regular expression literal does
-				if jsonPathLoc[0] >= stringLiteralLoc[0] && jsonPathLoc[0] < stringLiteralLoc[1] {
-					within = true
-					break
-				}
+			// We can find the JSON path straight away and append its location and values to the slice
+			var values []*json_map.JsonPathNode
+			//fmt.Println("evaluating JSON path:", string(filterExp)[jsonPathLoc[0]:jsonPathLoc[1]])
+			values, err = myJson.JsonPathSelector(string(filterExp)[jsonPathLoc[0]:jsonPathLoc[1]])
+			if err != nil {
+				break
 			}
 
-			// If the json path is not within any string literals then evaluate the path to find the values
-			// and unwrap the returned values and wrap them back up in an index struct
-			if !within {
-				// We can find the JSON path straight away and append its location and values to the slice
-				var values []*json_map.JsonPathNode
-				//fmt.Println("evaluating JSON path:", string(filterExp)[jsonPathLoc[0]:jsonPathLoc[1]])
-				values, err = myJson.JsonPathSelector(string(filterExp)[jsonPathLoc[0]:jsonPathLoc[1]])
-				if err != nil {
-					break
-				}
-
-				var valueRaw interface{}
-				// If we only have one node then we can just set that as the value
-				if len(values) == 1 {
-					valueRaw = values[0].Value
-				} else {
-					// Unwrap the values into an interface{} slice and set the index struct value to the unwrapped slice
-					valueArr := make([]interface{}, 0)
-					for _, node := range values {
-						valueArr = append(valueArr, node.Value)
-					}
-					valueRaw = valueArr
-				}
-
-				// Then we marshall the value into a JS datatype using json.Marshall
-				var literal []byte
-				literal, err = json.Marshal(valueRaw)
-				if err != nil {
-					break
+			var valueRaw interface{}
+			// If we only have one node then we can just set that as the value
+			if len(values) == 1 {
+				valueRaw = values[0].Value
+			} else {
+				// Unwrap the values into an interface{} slice and set the index struct value to the unwrapped slice
+				valueArr := make([]interface{}, 0)
+				for _, node := range values {
+					valueArr = append(valueArr, node.Value)
 				}
+				valueRaw = valueArr
+			}
 
-				// We then add the location of the JSON path expression to a slice as well as the literal
-				// byte slice to another array that we will evaluate after this
-				jsonPathIndices = append(jsonPathIndices, jsonPathLoc)
-				jsonPathLiterals = append(jsonPathLiterals, string(literal))
+			// Then we marshall the value into a JS datatype using json.Marshall
+			var literal []byte
+			literal, err = json.Marshal(valueRaw)
+			if err != nil {
+				break
 			}
+
+			// We then add the location of the JSON path expression to a slice as well as the literal
+			// byte slice to another array that we will evaluate after this
+			jsonPathIndices = append(jsonPathIndices, jsonPathLoc)
+			jsonPathLiterals = append(jsonPathLiterals, string(literal))
 		}
 	}
 
diff --git a/jom/json_map/json_path_parse.go b/jom/json_map/json_path_parse.go
index b3c556b..92efb8f 100644
--- a/jom/json_map/json_path_parse.go
+++ b/jom/json_map/json_path_parse.go
@@ -234,7 +234,7 @@ func filterEnd(togo []byte, greedyEnd int) int {
 }
 
 // What comes before a regular expression literal, other than before a division.
-var beforeRegex = regexp.MustCompile("(^|[(,=:\\[!&|?{;<>*%^~]|(^|[^.a-zA-Z0-9_$])(return|typeof|void|delete|in|instanceof|new|throw|case|do|else))\\s*$")
+var beforeRegex = regexp.MustCompile("(^|[(,=:\\[!&|?{;<>*%^~]|(^|[^.a-zA-Z0-9_$])(return|typeof|void|delete|in|instanceof|new|throw|case|do|else))(\\s|/\\*([^*]|\\*+[^*/])*\\*+/)*$")
 
 // A regular expression literal.
 var regexLiteral = regexp.MustCompile("^/([^/*\\\\\\[\\n\\r]|\\\\[^\\n\\r]|\\[([^\\]\\\\\\n\\r]|\\\\[^\\n\\r])*])([^/\\\\\\[\\n\\r]|\\\\[^\\n\\r]|\\[([^\\]\\\\\\n\\r]|\\\\[^\\n\\r])*])*/")
-- 
2.43.0


From c593add3b31a071e78dfa34f09ea6bbdd1419371 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:44:28 +0000
Subject: [PATCH 44/47] fix: @ directly behind a comment in a filter stands for
 the node

---
 jom/jom.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jom/jom.go b/jom/jom.go
index 89fcc9c..8fa0de7 100644
--- a/jom/jom.go
+++ b/jom/jom.go
@@ -214,7 +214,7 @@ func filterRunner(obj interface{}, filterExp []byte, jsonMap map[string]interfac
 			within := false
 			for _, stringLiteralLoc := range stringLiteralLocs {
 				// If the @ lies inside a string literal then skip it
-				if i >= stringLiteralLoc[0] && i <= stringLiteralLoc[1] {
+				if i >= stringLiteralLoc[0] && i < stringLiteralLoc[1] {
 					within = true
 					break
 				}
-- 
2.43.0


From cd794139d604f4d572823079da5eeb120113ae18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:49:23 +0000
Subject: [PATCH 45/47] fix: scripts and filters see the keys of objects in the
 same order every time

---
 code/js/js.go   | 25 +++++++++---------
 code/ordered.go | 67 +++++++++++++++++++++++++++++++++++++++++++++++++
 jom/jom.go      |  4 +--
 3 files changed, 81 insertions(+), 15 deletions(-)
 create mode 100644 code/ordered.go

diff --git a/code/js/js.go b/code/js/js.go
index 941ba42..16ceac4 100644
--- a/code/js/js.go
+++ b/code/js/js.go
@@ -222,9 +222,13 @@ func jsonPathSelector(toBeCloned json_map.JsonMapInt, call otto.FunctionCall) ot
 			throw(fmt.Sprintf("cannot Marshal value: \"%v\"", value))
 		}
 		// Then push the value to the nodeSet array within the VM
-		currentName := fmt.Sprintf("%sCurrStr", arrName)
-		_ = vmTemp.Set(currentName, string(valueStr))
-		_, err = vmTemp.Run(fmt.Sprintf("%s.push(JSON.parse(%s))", arrName, currentName))
+		currentName := fmt.Sprintf("%sCurr", arrName)
+		var current otto.Value
+		if current, err = code.ParseJSON(vmTemp, valueStr); err != nil {
+			throw(fmt.Sprintf("cannot parse value: \"%v\"", string(valueStr)))
+		}
+		_ = vmTemp.Set(currentName, current)
+		_, err = vmTemp.Run(fmt.Sprintf("%s.push(%s)", arrName, currentName))
 		if err != nil {
 			throw(fmt.Sprintf("could not push current node: \"%v\", to %s", string(valueStr), arrName))
 		}
@@ -258,7 +262,7 @@ func jsonPathSelector(toBeCloned json_map.JsonMapInt, call otto.FunctionCall) ot
 		for _, path := range paths {
 			pathMap := setupKeyObject(path)
 			var value otto.Value
-			value, err = vmTemp.ToValue(pathMap)
+			value, err = code.Ordered(vmTemp, pathMap)
 			if err != nil {
 				throw(err.Error())
 			}
@@ -355,7 +359,7 @@ func jsonPathSelector(toBeCloned json_map.JsonMapInt, call otto.FunctionCall) ot
 	}
 
 	var nodeSet otto.Value
-	nodeSet, err = vm.ToValue(nodeSetMap)
+	nodeSet, err = code.Ordered(vm, nodeSetMap)
 	if err != nil {
 		throw(fmt.Sprintf("could not convert \"%v\" to otto value", nodeSetMap))
 	}
@@ -393,7 +397,7 @@ var builtinVars = []struct{
 			},
 			"scopePath": jsonMap.GetCurrentScopePath(),
 		}
-		if val, err := runtime.ToValue(jom); err != nil {
+		if val, err := code.Ordered(runtime, jom); err != nil {
 			panic(globals.BuiltinGetterError.FillError("json", "Could not convert JOM into otto.Value"))
 		} else {
 			return val
@@ -413,7 +417,7 @@ var builtinVars = []struct{
 				return otto.NullValue()
 			},
 		}
-		if val, err := runtime.ToValue(consoleObj); err != nil {
+		if val, err := code.Ordered(runtime, consoleObj); err != nil {
 			panic(globals.BuiltinGetterError.FillError("console", "Could not convert console obj to otto.Value"))
 		} else {
 			return val
@@ -434,14 +438,9 @@ func createJom(jsonMap json_map.JsonMapInt) (run otto.Value, err error) {
 	if err != nil {
 		return otto.NullValue(), err
 	}
-	jsonData := string(jsonDataBytes)
 
 	// Create a VM, parse the json string and get the value out of the VM
-	vm := otto.New()
-	if err := vm.Set("jsonString", jsonData); err != nil {
-		return otto.NullValue(), err
-	}
-	run, err = vm.Run("JSON.parse(jsonString)")
+	run, err = code.ParseJSON(otto.New(), jsonDataBytes)
 	if err != nil {
 		return otto.NullValue(), err
 	}
diff --git a/code/ordered.go b/code/ordered.go
new file mode 100644
index 0000000..dbf59ef
--- /dev/null
+++ b/code/ordered.go
@@ -0,0 +1,67 @@
+package code
+
+import (
+	"encoding/json"
+	"sort"
+	"strconv"
+
+	"github.com/robertkrimen/otto"
+)
+
+// Parse a JSON value to a JS value, like JSON.parse of otto, but with the keys of objects in sorted order.
+//
+// JSON.parse of otto gives the keys of objects in the random order in which Go iterates over maps, hence for...in loops and
+// Object.keys would give a different order each time.
+func ParseJSON(vm *otto.Otto, jsonBytes []byte) (otto.Value, error) {
+	var value interface{}
+	if err := json.Unmarshal(jsonBytes, &value); err != nil {
+		return otto.UndefinedValue(), err
+	}
+	return Ordered(vm, value)
+}
+
+// Convert a Go value to a JS value: maps become JS objects which have their keys in sorted order and slices become JS arrays.
+// All other values are converted by otto.
+func Ordered(vm *otto.Otto, value interface{}) (otto.Value, error) {
+	switch v := value.(type) {
+	case nil:
+		return otto.NullValue(), nil
+	case map[string]interface{}:
+		keys := make([]string, 0, len(v))
+		for key := range v {
+			keys = append(keys, key)
+		}
+		sort.Strings(keys)
+		object, err := vm.Object("({})")
+		if err != nil {
+			return otto.UndefinedValue(), err
+		}
+		for _, key := range keys {
+			if err = setOrdered(vm, object, key, v[key]); err != nil {
+				return otto.UndefinedValue(), err
+			}
+		}
+		return object.Value(), nil
+	case []interface{}:
+		array, err := vm.Object("[]")
+		if err != nil {
+			return otto.UndefinedValue(), err
+		}
+		for i, element := range v {
+			if err = setOrdered(vm, array, strconv.Itoa(i), element); err != nil {
+				return otto.UndefinedValue(), err
+			}
+		}
+		return array.Value(), nil
+	default:
+		return vm.ToValue(v)
+	}
+}
+
+func setOrdered(vm *otto.Otto, object *otto.Object, key string, value interface{}) error {
+	element, err := Ordered(vm, value)
+	if err != nil {
+		return err
+	}
+	return object.Set(key, element)
+}
diff --git a/jom/jom.go b/jom/jom.go
index 8fa0de7..7cde5df 100644
--- a/jom/jom.go
+++ b/jom/jom.go
@@ -252,14 +252,14 @@ func filterRunner(obj interface{}, filterExp []byte, jsonMap map[string]interfac
 			if err != nil {
 				return err
 			}
-			// Here we are just passing the literal string into the vm and parsing it to a JS value using JSON.parse
+			// Here we are just passing the literal string into the vm and parsing it to a JS value
 			// Then setting the currentNode variable to be that value
 			err = vm.Set(globals.CurrentNodeLiteralVarName, string(literal))
 			if err != nil {
 				return err
 			}
 			var currentNodeValue otto.Value
-			currentNodeValue, err = vm.Run(fmt.Sprintf("JSON.parse(%s)", globals.CurrentNodeLiteralVarName))
+			currentNodeValue, err = code.ParseJSON(vm, literal)
 			if err != nil {
 				return err
 			}
-- 
2.43.0


From 2e814e88561497bbc09c9c9ab38c1ae55c0d8702 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:50:17 +0000
Subject: [PATCH 46/47] fix: scripts run and values are written in the order of
 the keys every time

---
 jom/jom.go | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/jom/jom.go b/jom/jom.go
index 7cde5df..44fb805 100644
--- a/jom/jom.go
+++ b/jom/jom.go
@@ -882,7 +882,8 @@ func (jsonMap *JsonMap) SetAbsolutePaths(absolutePaths *json_map.AbsolutePaths,
 
 						// Recurse into all the other keys within the map and set the new subtrees returned in the
 						// clone of the current subtree (newSubtreeM)
-						for subSubKey, subSubtree := range subM {
+						for _, subSubKey := range sortedKeys(subM) {
+							subSubtree := subM[subSubKey]
 							// If the current key is equal to the toFind key we continue the recursiveTraversal
 							// subroutine from here
 							if subSubKey == toFind {
@@ -960,7 +961,7 @@ func (jsonMap *JsonMap) SetAbsolutePaths(absolutePaths *json_map.AbsolutePaths,
 					panic(recursionError{fmt.Sprintf("Cannot access map %v with numerical key %v", currTree, key.Value)})
 				case json_map.Wildcard:
 					// We always iterate through a copy of the map as we might delete a key-value pair from the original map
-					for k := range currTree.(map[string]interface{}) {
+					for _, k := range sortedKeys(m) {
 						setterMap(&m, k)
 					}
 				case json_map.Filter:
@@ -1283,7 +1284,8 @@ func (jsonMap *JsonMap) FindScriptFields() (found bool) {
 	jsonMap.traversal.script = make(map[string]interface{})
 	jsonMap.traversal.nonScript = make(map[string]interface{})
 
-	for key, element := range *(jsonMap.GetInsides()) {
+	for _, key := range sortedKeys(jsonMap.insides) {
+		element := jsonMap.insides[key]
 		switch element.(type) {
 		case map[string]interface{}:
 			// Recurse down the inner map
@@ -1435,7 +1437,9 @@ func (jsonMap *JsonMap) Run() {
 	}
 
 	// Iterate over each key within the new scope (or the same scope if no scripts were run)
-	for key, element := range (*jsonMap).insides {
+	// NOTE: the keys are sorted so that scripts run (and fail) in the same order each time
+	for _, key := range sortedKeys(jsonMap.insides) {
+		element := jsonMap.insides[key]
 		switch element.(type) {
 		case map[string]interface{}:
 			// Recurse when there is a nested object
-- 
2.43.0


From 4b479a50bf5e0c6faf6a16cf173c84db8c60d224 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:25:22 +0000
Subject: [PATCH 47/47] fix: null is printed as null by console.log and
 console.error and not as undefined

---
 code/js/js.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/code/js/js.go b/code/js/js.go
index 16ceac4..1e7ddc1 100644
--- a/code/js/js.go
+++ b/code/js/js.go
@@ -127,7 +127,9 @@ func composePrint(call otto.FunctionCall) *strings.Builder {
 
 	for i, arg := range argList {
 		val := toGo(arg)
-		if val == nil {
+		if arg.IsNull() {
+			_, _ = fmt.Fprint(&b, "null")
+		} else if val == nil {
 			_, _ = fmt.Fprint(&b, "undefined")
 		} else {
 			_, _ = fmt.Fprintf(&b, "%v", val)
-- 
2.43.0

