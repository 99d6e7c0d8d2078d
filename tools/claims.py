NA={}
claim("C01",BE,"exploration","Every string over a 16-symbol path alphabet, token sequence and filter body up to the stated lengths, and tokens around all buffer-like sizes, is parsed by the real parser and compared with an independently written one. Trusts the reference parser.")
claim("C02",BE,"exploration","Every object document up to the stated size times every path up to the stated length is read by the real code and compared with the reference evaluation (values, order, error, document unchanged). Trusts the reference model; filters only from a small menu (C11 covers their expressions).")
claim("C04",BE,"exploration","Every document times path times value in the bound is set on the real code, and the whole document compared with the reference. Partial updates after an error are only excluded for key/index-only paths.")
claim("C05",BE,"exploration","Every document times delete path in the bound is executed on the real code, and the whole document compared with the reference.")
claim("C07",BE,"exploration","Every node returned for every document times path in the bound is looked up again through its reported path.")
claim("C08",BE,"exploration","Every array times index list in the bound, at five kinds of places, is pushed to on the real code and the whole document compared with the reference.")
claim("C09",BE,"exploration","Every array times index list in the bound, at five kinds of places, is popped from on the real code; result and whole document compared with the reference.")
claim("C28",ES,"model_checking","All sequences of extensions up to the stated depth over a menu of 15 key lists; after every step all alternatives and all earlier copies are compared with the model.")
claim("C06",ES,"model_checking","All sequences of writes and copies up to the stated depth; after every step the document, the values passed by the caller and all earlier copies are compared with the model, which never shares.")
claim("C10",ES,"model_checking","All sequences of document operations up to the stated depth over a fixed menu (including failing ones) on one object, compared with a plain JSON model after every step, states deduplicated by canonical content.")
claim("C11",BE,"exploration","Every filter expression of the grammar up to the stated size over a set of documents; the oracle substitutes @ and $-paths independently and evaluates the whole with an expression evaluator of its own or plain otto.")
claim("C13",BE,"exploration","Every candidate string around the shebang up to the stated edits, at every kind of place; whether and what it runs is observed through its effects.")
claim("C14",ES,"model_checking","Every small document over scripts and values, and all histories of strip/set/unmarshal on one object up to the stated depth, compared with the model.")
claim("C15",BE,"exploration","Every script tree up to the stated size; each script logs its identity, and the log is checked against the partial order; every document is evaluated several times because map iteration order is random.")
claim("C16",BE,"exploration","Every script tree up to the stated size times effects; the observed scope, path and resulting document are compared with the model.")
claim("C17",ES,"model_checking","Every program of at most the stated number of statements over a menu of assignments, deletions, array operations and aliases runs in the real engine and in an independent model of the JavaScript heap; the stored documents are compared.")
claim("C18",BE,"exploration","Every piece sequence up to the stated length through Eval; every kind of failure at every script position; programs that do not end with a short halting delay; inputs that may end the process in a process of their own.")
claim("C21",ES,"model_checking","Every sequence of manipulations up to the stated depth is done by JavaScript, by Go callback and by direct calls; the three documents are compared with each other and with the model.")
claim("C22",BE,"exploration","Every document times path (times value) in the bound through json.jsonPathSelector, compared with the Go API on the same document.")
claim("C23",BE,"exploration","Every document times path times language name times text in the bound is marked up, compared with the model, and evaluated.")
claim("C24",BE,"exploration","Every string over awkward characters up to the stated length as value and key, a grid of numbers, all small structures, as JSON and in four hjson styles written from the known value, through Unmarshal, Marshal, String and Unmarshal again; every token sequence up to the stated length is accepted exactly if it should be.")
claim("C26",BE,"exploration","Every sequence of statements up to the stated length over a menu, at several scopes and as several scripts; everything written to the two writers is compared with the expected records in order.")
claim("C27",BE,"exploration","The built tool is run with every combination of the listed inputs, pairs, languages and flags; exit status and standard output are compared with what the library gives.")
claim("C29",BE,"exploration","Every kind of failure is put at every script position of every tree in the bound, alone and beside another failing script, and the error compared with its kind, place, script and message; every document times path in the bound through the Must forms and the plain forms.")
claim("C30",BE,"exploration","Every effect of the menu (and sequences of two) before every observation, in five arrangements of scripts and four of scripts and filters, compared with what the observation gives alone.")
claim("C31",ES,"model_checking","All histories of registrations, evaluations, runs and markups up to the stated depth; the calls of the runners, the document and the error compared with the model after every step.")
CL="Scheduler, clock and map order are stand-ins (mc/mcrt) which the rewritten sources of json-dom, gotils and otto go through; the same scenarios also run on the unchanged code, and data races are judged by Go's race detector in every explored schedule. Complete up to the stated number of deviations from the default schedule."
claim("C03",CS,"model_checking",CL)
claim("C12",CS,"model_checking",CL+" Native loops inside the JavaScript engine cannot be interrupted and are left out.")
claim("C19",CS,"model_checking",CL+" Native loops inside the JavaScript engine cannot be interrupted and are left out.")
claim("C20",CS,"model_checking",CL)
claim("C25",CS,"model_checking",CL)
claim("C32",CS,"model_checking","Every range over a map in json-dom, gotils and otto (and reflect's MapKeys) is a decision of the controlled scheduler: all orders up to the stated number of deviations from the sorted one, together with the schedules. Orders within encoding/json and hjson (which sort) are not varied.")
claim("C33",BE,"exploration","The selectors expected are the ones the path was written from; for paths written in odd ways, the ones ParseJsonPath gives (which C01 decides).")
claim("C34",BE,"exploration","The built tool is run on every word of inputs in the bound with every combination of the listed flags; which failure comes first is predicted by a model of the stages, the texts of errors and results are what the library gives. Statuses and the order of the stages are those of the code, no documentation states them; -strip of a document with a script of an unsupported language is left out.")
claim("C35",BE,"exploration","All documents and hand-built paths of the bound are read, set and deleted, twice with the same paths, against the reference evaluation. The first-element step is compared as the code does it (the first element of an array, the first name in order of an object).")
