import json
T="contract-based deductive verification: weakest preconditions over go/ssa of the real functions, discharged by z3/cvc5"
base="Proved for every input: each obligation is generated from /repo's current source and discharged by an SMT solver on every run. Trusted: the generator gover, go/ssa, the solvers, the contract files. "
look="The property lookup (trie) is used through its contract, which the same run discharges (as C14's check does). "
N={}
def n(i,note): N[i]=dict(technique=T,note=base+note)
n("C01","Safety, termination, contiguity and view obligations of all split functions, look-ahead helpers, constructors and iterator methods (string, []byte, named types, joiners). "+look)
n("C02","Grid obligations: every advance ends on a character boundary of the decoded text. "+look)
for i,p in (("C03","grapheme"),("C04","word"),("C05","sentence"),("C06","phrase")):
    n(i,f"The {p} rules are the join predicate of contracts/*.spec; the split function's advance is proved to be the first non-joining character, the iterator's fast paths too, plus the restart lemmas (induction) that rules seen from the last boundary and from the start of text agree. "+look)
n("C07","The split functions are proved for an arbitrary prefix of an arbitrary text: a token returned before end of input is the token of the whole text. bufio.Scanner is a trusted external. "+look)
n("C08","Iterator Next/First and the exported split functions satisfy the same deterministic contract (the first boundary), hence agree. "+look)
n("C09","Every generic function is verified per type argument against the same deterministic contract; an obligation that holds for one argument type and fails for another is the violation. "+look)
n("C10","The recogniser functions are proved against the byte-level contract of ECMA-48 sequences (loops by inferred invariants), Next and First are proved with arbitrary option values, and with the option on they meet the same boundary obligations as with it off. "+look)
n("C11","As C10, for the 8-bit option; an 8-bit sequence starts at a byte 0x80-0x9F, which by C02 is never at a token start in valid UTF-8. "+look)
n("C12","Iterator Next/First/Joiners with arbitrary joiner sets against the word rules with the joiners' effective properties. Leading runes that are line breaks are outside the contract. "+look)
n("C13","Object contracts over the abstract state (text, options, Start, End) with an inferred class invariant, for each method from an arbitrary state: histories follow by induction. "+look)
n("C14","The lookup functions' SSA is executed over lazily decided bytes and length, covering every byte sequence; each leaf is compared with the contract (contracts/tables). Finite-domain evaluation, complete, no bound: the lookup reads at most four bytes.")
N["C14"]["technique"]="contract-based deductive verification: symbolic execution over go/ssa of the real lookup functions, every leaf decided by finite-domain evaluation against the contract table"
n("C15","The filter's loop (invariants inferred) against the contract that a rune is accepted when unicode.IsLetter or unicode.IsNumber holds; utf8.DecodeRune and the unicode predicates are trusted library functions, of which only the contracts in inst.go are used. ")
n("C16","Both predicates against their theories (contracts/bleve*.spec), with the words package's look-ahead helper and lookup through contracts discharged in the same run. ")
n("C17","The generic iterator against an uninterpreted split function (arbitrary results).")
n("C18","Nesting lemmas over the two rule theories (induction), on top of C04's and C06's contracts. "+look)
n("C20","The words iterator with an uninterpreted split function installed.")
n("C19","Frame (assigns) contracts: a summary of what every function of the module may write is computed from its SSA and its callees' summaries (least fixed point, all inputs), and every exported function, and every function used as a value, has the obligations that it writes nothing its caller can see beyond its own iterator or scanner, and calls nothing of unknown effect. View obligations (a token is a slice of the caller's data) and path-level frame obligations come from the symbolic execution of the functions. ")
N["C21"]=dict(na="the generator builds its tables with maps, CRC-64 hashing, text/template and fmt output fed from the network; none of that is within the reach of a contract generator over go/ssa here, and the tables it produced are decided directly by C14")
json.dump(N,open('/verif/tools/notes.json','w'),indent=1)
