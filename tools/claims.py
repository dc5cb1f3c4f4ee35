PENDING = "not claimed yet: contracts for this part are not written"
NOT_APPLICABLE = {
 "Q01": "the code works on protoreflect/reflect values whose behaviour is defined by dynamic descriptors outside the repository; contracts over reflection cannot express the equality of message fields without assuming it",
}
CLAIMED = {
 "T01": "Assumes Pos is called with a non-negative offset (the code does not reject negative ones) and that files are only changed through the package.",
 "T02": "Assumes non-negative line starts (SetLines and AddLine accept a negative first offset), and that a line table handed to SetLines is not changed by its owner afterwards.",
 "T03": "Lock discipline: every access to guarded state is under its lock, locks are released on every exit; sequential consistency of sync.Mutex and RWMutex is assumed.",
 "G01": "Assumes the custom suggestion function of WithSuggester style options is nil; the generated file is used by one goroutine.",
 "C01": "The reflection that lists the fields of a struct (inferRegisteredType itself) is outside the contracts; the extractor of each field, the header and the row accessors are proved.",
 "C02": "The source of rows, the field extractors and callbacks are assumed not to change the parser's own objects; the coder of a struct type is looked up by reflection and assumed.",
 "K01": "Readers, writers and files are the environment: their contracts only record the history of calls.",
}
CLAIMED["X01"] = "reflect (type descriptions, method sets) is uninterpreted: its functions are assumed to be determined by their arguments and not to panic. The closures that adapt the coder of a basic kind call reflection and are covered only by the bounded companion."
CLAIMED["X02"] = "strconv is assumed: contracts say which texts are numbers, their values, and that shortest formatting parses back; floating point equality is that of Go or identity (NaN)."
CLAIMED["X03"] = "Coders are the environment: their contracts record what they are given."
CLAIMED["W01"] = "regexp and strconv are assumed: the contracts name the texts that the path expressions match and the numbers that texts denote."
CLAIMED["W02"] = "protoreflect is the environment: its methods are determined by their arguments and do not panic within their stated preconditions; the text of the context in error messages is trusted."

CLAIMED["I01"] = "proved for every base and reference: the target's components, the merge and the removal of dot segments by the rules of RFC 3986 5.2.4; assumed: what the regular expressions capture (bounded harness)"
CLAIMED["I02"] = "splitting and recomposing proved lossless for every text, and Parse to accept exactly the texts whose components match; assumed: what the regular expressions capture; percent normalisation bounded (callback of regexp)"
CLAIMED["N01"] = "implementations of Literal are assumed to answer the same at every call"
CLAIMED["N02"] = "the written text and what is read from the captured groups are proved for all inputs; assumed: what the regular expressions capture and the value of hexadecimal digits (strconv); that reading inverts writing is checked by the bounded companion"
CLAIMED["S01"] = "factories of forms keep the extent they are given (the default one is proved to); the handlers in the reader's table are those the package registers"
CLAIMED["S02"] = "strconv and go/constant are assumed: contracts say which texts are numbers or quoted strings and what they denote; factories of forms keep what they are given (the default one is proved to)"

CLAIMED["P02"] = "strconv and time are assumed: contracts say which texts denote numbers and times, and their values"
CLAIMED["V01"] = "the functions that read and write files are the environment, path.Join and grpc statuses are assumed: contracts name the joined path and the status of an error; that the files hold the generated code is checked by the bounded companion"
CLAIMED["V02"] = "encoding/csv, time.LoadLocation and the file reader are assumed: contracts name the rows of a text, the zone of a name and what is read"
CLAIMED["R01"] = "strconv, time and encoding/csv are assumed: contracts say which texts denote numbers and times; candidate types are functions whose contracts are proved where they are made; the order of the timestamp layouts is checked by the bounded companion"
CLAIMED["R02"] = "the derivation of a field name from a header is a function of the header (assumed); the text of the definition and the comment's wording are checked by the bounded companion"

CLAIMED["P01"] = "text/template, go/format, word wrapping and strings.Split/TrimRight/Repeat are assumed; proved: imports, comment text, types, Go names, unsupported types; that the texts assemble into the schema and a converter that compiles and copies each column is checked by the bounded companion, which builds and runs the converters"
CLAIMED["M01"] = "encoding/xml is assumed; the consumption of the tokens of an element is checked by the bounded companion"
CLAIMED["D01"] = "encoding/xml is assumed; the stacks, the resolution against the base and the literals are proved; that reading an element leaves the stacks as they were is checked by the bounded companion"
CLAIMED["D02"] = "encoding/xml and the expression for XML names are assumed; fewer than 2^63 generated labels"
CLAIMED["D03"] = "encoding/xml is assumed; the checks of names are proved for all names, list numbering and reification are checked by the bounded companion"
