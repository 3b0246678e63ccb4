SPECIFICATION Spec
CONSTANT CasesFile = "/verif/build/cases.json"
CONSTANT StdFile = "/verif/build/std.json"
INVARIANT Tiles
INVARIANT Spans
INVARIANT UsesDefined
CHECK_DEADLOCK FALSE
