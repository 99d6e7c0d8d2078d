import subprocess
log=subprocess.check_output(['git','-C','/repo','log','--format=%h %s','2489b35..HEAD'],text=True).strip().split('\n')[::-1]
m={
"reject a single negative":("C01","$.a[-1] was accepted and the index dropped"),
"several first descents":("C01","$.....a (three first descents) was turned into three alternatives instead of three steps"),
"JSONPath tokens longer":("C01","a property or filter of more than 4096 bytes was cut off"),
"do not modify the shared token regexes":("C25","every parse modified package-level regular expressions (data race between independent documents)"),
"end a filter expression":("C01","two filters in one path were merged into one, and whitespace within a filter was lost"),
"a string literal in a filter":("C11","'a\"b @' and the like: a literal was taken to end at the other kind of quote, so that @ inside of literals was replaced"),
"non-ASCII text in a filter":("C11","a filter with non-ASCII text before a $-path was corrupted"),
"the halting timer of one filter":("C12","a timer of one element could interrupt the evaluation of another one, and data races on vm.Interrupt"),
"unbounded recursion":("C18","function f(){f()} f() in a script or filter overflowed the Go stack and killed the process"),
"a filter does not hide":("C02","$.zz[?(true)] did not fail: the filter overwrote the error of the missing key"),
"slicing past the end":("C02","$.x[0:3] of an array of 2 elements with spare capacity returned elements which are not in the document"),
"absolute paths of nodes":("C07","the path of a node of an unwrapped array contained empty keys instead of leading back to the node"),
"values of several alternative":("C03","the values of $.x[0,1] came in the order in which the finders finished"),
"a filter visits the entries":("C03","the values selected by a filter on an object came in random map order"),
"a recursive lookup finds values in":("C03","the values of $..a came in random order"),
"a recursive lookup also finds":("C02","$..a did not find the key a of the object it is applied to, and writes neither"),
"setting through a recursive":("C04","setting $..a.b did not reach an a inside of an a"),
"setting or deleting all elements":("C04","setting [*] of an empty array panicked"),
"setting or deleting an empty slice":("C04","setting/deleting [0:0] affected all elements"),
"a map or array which is set":("C06","an object set at several locations was shared between them"),
"MustPush can push to an empty array found":("C08","pushing to an empty array addressed by a first descent panicked"),
"MustPush can push":("C08","pushing to an empty array panicked"),
"MustPop ignores":("C09","a negative index made MustPop ignore all other indices"),
"FindScriptFields forgets":("C14","a second FindScriptFields/Strip/Run still saw the scripts and values of the first"),
"Strip removes scripts":("C14","scripts which are only within arrays were not stripped"),
"scripts within nested arrays":("C15","scripts within arrays of arrays were neither run nor stripped"),
"do not leak the timer":("C20","the timer goroutine of every Go callback was blocked forever"),
"the clone of a JsonMap":("C10","a full clone of a document with an array at its root was not an array"),
"unmarshalling into a used":("C10","unmarshalling an object into a document that held an array before kept it an array"),
"scripts of independent":("C25","the JS runner kept the current document in a package variable, so that scripts of other documents worked on the wrong one"),
"setValues stores":("C22","setValues([1,2]) stored an object {0:1,1:2}, and nulls within objects became strings"),
"the CLI prints":("C27","results of several files were printed in random order"),
"markup applies":("C27","path-script pairs were applied in random order"),
"a path which does not start":("C01","a path which does not start with $ was accepted as a path without selections, so that writes to it silently did nothing"),
"a script which leaves json.trail null":("C17","a script that set json.trail to null (or to something whose JSON form is null) stored null in place of the object"),
"String gives text which":("C24","the hjson text of a document with carriage returns, control characters or trailing no-break spaces in strings or keys was read back as another document or rejected"),
"escaped surrogate pairs in JSON":("C24","JSON with \"\\ud83d\\ude00\" was decoded to two replacement characters"),
"quotes and @ in regular expressions":("C11","a filter with a quote, an @ or a bracket in a regular expression literal or a comment, /'/.test(@), was cut or substituted in the wrong place: an error or the wrong nodes"),
"JSON paths behind regular expressions":("C11","/ $.a/.test(@) && $.k : a path which began within a literal swallowed what followed it, a path behind a comment or regex was not substituted"),
"@ directly behind a comment":("C11","/* it's */@ > 1 : the @ right behind a comment was not replaced by the node (the fix before had made the comment a literal)"),
"scripts of languages which are registered by others":("C31","scripts of a language registered with RegisterLang (other than js and go) were run as JavaScript"),
"printing an object with a reference":("C18","console.log and setValues of an object with a reference to itself overflowed the Go stack and killed the process"),
"filters which are halted while they print":("C12","a filter which was halted inside a toString function called by console.log gave a result instead of an error, or went on for ever: fmt recovers from panics"),
"scripts and filters see the keys":("C32","for (k in json.trail), Object.keys(@) in a filter and the like gave the keys of objects in another (random) order each time, so that evaluations and reads had different results"),
"scripts run and values are written":("C32","scripts in objects next to each other ran, printed and failed in random order, and a failing write with a wildcard or recursive lookup left a random part of the places written"),
"null is printed as null":("C26","console.log(null) printed undefined (null within an object was printed as null)"),
"endless loops without a body":("C19","for (;;) {} as (part of) a script or filter was never stopped: otto polls its interrupts only at statements and expressions"),
}
out=["# Known findings and repairs. 'known:' lines are printed as KNOWN-FINDING by the check of the property and suppress exactly",
"# the case of that key. 'fixed:' lines are a record of repaired defects and suppress nothing."]
used=set()
for l in log:
    h,s=l.split(' ',1); s2=s.removeprefix('fix: ')
    for k,(p,w) in m.items():
        if s2.startswith(k):
            out.append(f"fixed: property={p} {h} {w}"); used.add(k); break
    else: raise SystemExit("no entry: "+l)
assert used==set(m),set(m)-used
out.append("known: property=C18 key=eval-recursion :: a script which recurses through eval (var s='eval(s)'; eval(s)) overflows the Go stack and kills the process: the stack depth limit of otto does not count direct evals")
out.append("known: property=C18 key=deep open brackets :: eight million opening brackets overflow the Go stack and kill the process: the hjson parser (a dependency) recurses once per bracket without a limit")
out.append("known: property=C18 key=self-replicating :: a script which stores its own text in a new nested object makes Eval run forever (until memory runs out): every script ends in time, but each evaluation adds another one below it and nothing limits their number")
out.append("known: property=C24 key=escaped surrogates in hjson :: escaped surrogate pairs in texts which are hjson but not JSON ({a: \"\\ud83d\\ude00\"}) become two replacement characters: the hjson decoder (a dependency) converts each half on its own")
for n, w in (("very deep source", "eval of a million opening parentheses"), ("very deep function", "new Function of a million opening brackets"), ("very deep filter", "a filter with a million opening parentheses")):
    if n == "very deep filter":
        out.append("known: property=C18 key=very deep trail :: a script which leaves a json.trail of a million levels (built within the halting delay) overflows the Go stack and kills the process: JSON.stringify of the interpreter (a dependency) recurses without a limit")
    out.append(f"known: property=C18 key={n} :: {w} overflows the Go stack and kills the process: the JS parser (a dependency) recurses without a limit")
out.append("known: property=C32 key=JSON.parse in a script outcome :: a script which calls JSON.parse itself gets the keys of objects in another order each time: JSON.parse of the interpreter (a dependency) puts them in the random order of a Go map")
for p, k in (("C19", "script"), ("C12", "filter")):
    for n, w in (("empty for in eval", "a " + k + " with eval('for (;;) {}')"), ("empty for in Function", "a " + k + " with new Function('for (;;) {}')()"), ("native loop", "a " + k + " which is in one call of a built-in function for long, as new Array(4294967295).indexOf(1),")):
        out.append(f"known: property={p} key={k}: {n} :: {w} is not stopped at the halting delay: the interpreter (a dependency) looks at its interrupts only before statements and expressions, and evaluated code and built-in functions are out of the reach of this library")
open('/verif/known_findings.txt','w').write('\n'.join(out)+'\n')
