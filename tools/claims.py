for i in "C01 C02 C03 C04 C05 C08 C09 C12 C13 C14 C15 C17 C18 C19 C23 C28 C33".split():
    claim(i)
claim("C29", "dataflow: invertibility of every step of the integer mixers; abstract interpretation of the byte hashes")
for i in "C20 C22 C30 C31 C32".split():
    claim(i, "mod/ref and escape analysis: context-sensitive, field-sensitive points-to over SSA, memory that existed before the call kept apart from memory it allocates")
SHAPES = "bounded shape analysis: the SSA form is abstractly interpreted on every well-formed structure up to a size, keys, values and hashes kept symbolic, each operation analysed from an arbitrary such structure"
NOTE_B = ("Static: nothing is executed. Each operation is decided for every structure up to the sizes given in DESIGN.md, whatever the contents, "
          "and has to leave a well-formed structure, so that histories of any length are covered as long as the structure stays within the bound. "
          "Code outside the analysed fragment is printed as UNDECIDED. Trusted: go/ssa, the models of builtins, the specification in sa/spec.")
for i in "C06 C07 C10 C11 C16 C21 C24 C25 C26 C27".split():
    claim(i, SHAPES, NOTE_B)
NA = {
 "C34": "running time is a bound on runtime quantities (steps as a function of content); the structural facts that imply it (balance, equal leaf depth, free slots) are C04, C07, C10 and C13, and counting steps statically is out of reach",
 "C35": "the distribution of hash values over realistic key sets is a statistical statement about inputs, which no static argument in reach decides",
}
