pending="the functions it rests on are not yet under contract: not claimed"
run="Run is proved to compute exactly the step semantics of spec/mach/run.go; that compiled programs never get stuck (a precondition of Run) and that Run terminates are covered by a bounded run only"
claims={
"C02":"every index, assertion, division, conversion and channel operation of Run and of all it calls is proved safe, and its result a list or an error, never both. "+run,
"C03":"frame obligations: Run and all it calls write only memory they allocated; the result list is fresh. "+run,
"C05":"valsByKey and the selecting instructions of Run are proved equal to their specification for all inputs. "+run,
"C06":"valsByKey (with the slicing code it inlines) is proved equal to Python's definition of slicing for integer and absent bounds, and the slicing instructions of Run to apply it. "+run,
"C07":"valsWild and valsByKey are proved to append exactly their selection, and Run to map them over the candidates in order. "+run,
"C09":"walkdown and walker are proved to send exactly the containers in order, and the nest instructions of Run to apply the selection to each. "+run,
"C10":"the loop and filter instructions of Run are proved equal to their specification. "+run,
"C11":"the arithmetic, comparison and logic instructions of Run are proved equal to their specification; floating-point + - * / are uninterpreted. "+run,
"C12":"the equality functions are proved equal to the specification, which is proved symmetric; one combinatorial lemma (pigeonhole) is assumed",
"C13":"call and the functions it calls are proved equal to the specification",
"C15":"every function of the expression parser and lexer is proved equal to the grammar, as functions on the input text, in spec/paths: same acceptance, same tree, for every text; termination and absence of panics included",
"C16":"the lexers and the parsers of literals are proved equal to their specification for every text; strconv.ParseInt, ParseUint, ParseFloat, utf16.DecodeRune (by its definition) and regexp.Compile are trusted",
"C17":"Run is proved to have drained every channel it started when it returns, and the producers to send finitely and close. "+run,
"C19":"ParsePath and every function of the path parser are proved equal to the grammar, as functions on the input text, in spec/paths: same acceptance, same steps, for every text",
}
na={i:pending for i in ["C01","C14","C18"]}
