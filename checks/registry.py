"""property -> how it is checked"""
INTERP = ("abstract interpretation of the runtime's LLVM IR (compiled from the current tree) in a bit-provenance domain with trace partitioning; "
          "every scenario = operation x value partition x bit position x input length, unknown buffer contents; obligations compared with an independent statement of the wire format")
ENC, DEC = True, True
MODEL = ["clang-18 -O0 + mem2reg translates C faithfully", "the wire-format statement in lib/cspec*.py", "values are covered per partition of the enumerated bit lengths, bit positions and sizes (see scenario_families)"]
BITS_E = ("pos", "bits", "ret", "neigh", "mem", "abort", "ub")
BITS_D = ("pos", "value", "trunc", "accept", "reject", "undef", "ret")
ROUND = tuple(sorted(set(BITS_E + BITS_D)))
ALLENC = [(n, 1, 0) for n in ("fixed", "whole", "variable", "strings", "octets", "bitstr", "bitops", "oids", "reals", "dets")]
ALLDEC = [(n, 0, 1) for n in ("fixed", "whole", "variable", "strings", "octets", "bitstr", "bitops", "oids", "reals")]
def interp(explanation, sets, tags, **kw):
    d = dict(technique=INTERP, explanation=explanation, assumptions=MODEL, run="c_e2:run", args=(sets, tags), kwargs=kw)
    return d
EFF = ["clang-18 -O1 translates C faithfully", "pointer provenance: flow-insensitive points-to over SSA; function pointers resolved by address-taken signature", "library functions behave as their documented effect summary"]
def effect(fn, explanation, technique):
    return dict(technique=technique, explanation=explanation, assumptions=EFF, run="c_effects:" + fn)
TEMPL = ["the template grammar is read as StringTemplate renders it (lib/stg.py)", "a rendering with representative argument texts stands for all grammars that select the same branches"]
def tempt(fn, explanation, technique):
    return dict(technique=technique, explanation=explanation, assumptions=TEMPL, run="c_templates:" + fn)
CHECKS = {
 "C01": interp("Every decoder is interpreted on unknown input of every length up to its field, at every bit position, into outputs of exactly the declared size: each access of every path must lie inside its object.", ALLDEC, ("mem",)),
 "C02": interp("For every decoder and every input length shorter than the field the reference decoder reports truncation: so must the operation; otherwise the position must be the one the format gives, and a complete field must not be rejected.", ALLDEC, ("trunc", "pos", "reject", "mem")),
 "C03": interp("No path of a decoder over unknown input may reach a failing assertion, undefined arithmetic (instrumented with the compiler's own overflow, shift and division obligations) or a read of an unwritten object.", ALLDEC, ("abort", "ub", "init")),
 "C04": interp("Whenever the reference decoder rejects the input (number, length, terminator, index outside its bounds) the operation must not report success, and what it reports otherwise must be the bounded value.", [(n, 0, 1) for n in ("whole", "variable", "strings", "octets", "bitstr", "bitops", "oids")], ("accept", "value")),
 "C05": interp("On every successful path of every decoder all declared outputs must have been written, all bytes of them, and no branch or output may depend on an unwritten object.", ALLDEC, ("undef", "init")),
 "C06": interp("Every encoder is interpreted for every value partition and bit position in a buffer of exactly the size of the encoding: accesses inside, no abort, no undefined arithmetic, position advanced by the size of the encoding, success reported truthfully.", ALLENC, ("mem", "abort", "ub", "pos", "ret", "budget")),
 "C07": interp("Each fixed-width ACN integer/real encoder is interpreted for every value length and bit position: the produced bits must be the literals of the value in the declared order. Each decoder is compared with the reference decoder on unknown input bits.", [("fixed", 1, 1)], ROUND),
 "C08": interp("Constrained, semi-constrained and unconstrained whole numbers: field width from the range, minimal octets, bounds; encoders and decoders against the reference for enumerated ranges x value lengths x bit positions.", [("whole", 1, 1)], ROUND),
 "C09": interp("Length-embedded, BCD and ASCII integers: length octets, digits, sign and terminators of the encoders; decoders against the reference, including values around the native limits.", [("variable", 1, 1)], ROUND),
 "C10": interp("Strings, octet strings and bit strings: length determinant, items in order, fragment headers at the block boundaries; the decoders against the reference, items and lengths.", [("strings", 1, 1), ("octets", 1, 1), ("bitstr", 1, 1)], ROUND),
 "C11": interp("Every encoder step runs on a buffer of unknown bits: all bits outside the field must still be the same symbols. Deferred determinants: reserve, write on, patch, patch again with an equal and with a different value.", ALLENC + [("dets", 1, 0)], ("neigh",), also=("Acn_(Init|Patch)Det_|Acn_BitStream_Distance", ("bits", "pos", "ret", "value", "mem", "abort", "ub"))),
 "C12": effect("no_state", "Every store and library call of every runtime function is resolved: none may reach an object with static storage, none may call a library function with hidden state.", "effect analysis over LLVM IR: stores and calls against the set of file-scope objects"),
 "C13": effect("no_heap", "Call graph with resolved function pointers: no cycle, no allocation function, no variable-length stack object; the largest stack need is computed.", "call-graph and allocation analysis over LLVM IR"),
 "C14": dict(interp("Two rules. Every encoder and comparison is interpreted with its input object watched, every decoder with its input buffer watched. Beyond the scenarios, transitive write effects through every pointer parameter declared or documented as input must be empty.", ALLENC + ALLDEC + [("equal", 1, 1)], ("input",)), run="c_effects:c14"),
 "C15": effect("dropped", "For every call of an operation that can report failure inside another one that can: the failing result must reach the return value (data flow and branch dependence over the compiler's intermediate representation).", "dataflow over LLVM IR: status results of all call sites"),
 "C16": dict(interp("The runtime is compiled with ASN1SCC_STREAMING and each step is interpreted with a small buffer that stands for a window of an endless stream: pushData receives, and fetchData replaces, exactly the window; the overall bit sequence, position and results must equal those of the format (and so of one large buffer), whatever octet the window ends at.", ALLENC[:-1] + ALLDEC, tuple(sorted((set(ROUND) | {"hook", "mem", "abort", "ub"}) - {"trunc"}))), run="c_e2:stream"),
 "C19": interp("All scenarios of the uPER, ACN, BER primitives and comparisons with the runtime compiled for 32-bit targets with WORD_SIZE=4 (32-bit integers and lengths), including the narrow decoders of 64-bit fields.", ALLENC + ALLDEC + [("ber", 1, 1), ("equal", 1, 1)], tuple(sorted(set(ROUND) | {"mem", "abort", "ub", "init", "undef", "budget"})), cfg="w32"),
 "C21": dict(interp("All scenarios with the runtime compiled for a big-endian and for a little-endian target: the octets written and the values read must on both be those the format demands, hence the same.", ALLENC + ALLDEC + [("ber", 1, 1), ("equal", 1, 1)], ROUND, cfgs=("be64", "le64")), run="c_e2:hosts"),
 "C17": interp("Every BER primitive is interpreted on unknown input of every length (headers of every form), and every encoder in buffers of every size up to its need.", [("ber", 1, 1)], ("mem", "abort", "ub", "init", "undef", "trunc", "count", "neigh", "input", "budget", "work")),
 "C18": interp("Every XER primitive is interpreted on every prefix of a set of texts, with any octet at any place, with names, contents and attribute lists around the sizes of the internal buffers; every encoder in buffers of every size up to its need.", [("xer", 1, 1)], ("mem", "abort", "ub", "init", "undef", "trunc", "count", "neigh", "input", "budget", "work")),
 "C20": interp("Comparison functions over unknown contents: answer equal to the content equality within the lengths, for all length pairs enumerated, reading only those items.", [("equal", 1, 1)], ("value", "mem", "input", "init", "ub", "abort")),
 "C22": interp("On every path of every decoder the number of abstract steps must stay below a fixed linear function of the input length and the declared output sizes; a loop the input can keep going exceeds every budget.", ALLDEC, ("budget", "work")),
 "C23": interp("uPER REAL: for every exponent field and unknown mantissa the encoder writes header, exponent and mantissa of exactly this value (subnormal numbers, infinities and NaN included); the decoder returns the value of the X.690 forms in every base and scale.", [("reals", 1, 1)], ROUND),
 "C24": interp("For every BER primitive the octets written must be the identifier, length and contents octets of X.690 for every value partition; decoders are compared with the reference decoder on unknown octets, for all length forms. Every failing path must leave an error code.", [("ber", 1, 1)], ROUND + ("code",)),
 "C25": interp("XER structure, strings, octet and bit strings, booleans and enumerations: the text written must be the expected one, characters and digits taken from unknown contents; well-formed texts must be accepted and give exactly these contents, lengths and positions (integers, reals, object identifiers and attributes for chosen values). LoadXmlFile is interpreted over a modelled file. Every failing path must leave an error code.", [("xer", 1, 1)], ROUND + ("code", "count")),
 "T01": tempt("t01", "Every template is parsed; every rendering of the C ones (all assignments of the options) is parsed as C and each call matched with the runtime's declarations, also for every host type suffix; names of the Ada and Scala templates are resolved in the sources of their runtimes; parameters used must be declared.", "template scope and rendering analysis; C front end on all renderings; name resolution against the runtimes"),
 "T02": tempt("t02", "The runtime operations reached by the encode and decode template of a field kind are reduced to encoding classes (kind, width, order, length form), constants and bounds; both sides and all three targets must agree, and value mappings must be applied inversely.", "effect summaries of templates compared pairwise and across target languages"),
 "T03": tempt("t03", "All paths through every rendering of the C coder templates: a status that may be failure is never overwritten or lost, error codes are set exactly on failures, and follow-up steps are guarded.", "path-sensitive typestate analysis over the rendered C of every template"),
 "T04": tempt("t04", "Template groups of the targets are compared by name and parameter list with each other and with the interfaces the compiler calls.", "interface comparison of the template groups of all targets"),
 "T06": tempt("t06", "Every assignment of the size of a bit stream in every path of every rendering: narrowing must be guarded by the enclosing size and the saved size must be restored on every path.", "path-sensitive typestate analysis (input window) over the rendered C of every template"),
 "T08": tempt("t08", "Every use of a length in every rendering of the C decode templates - octets or bits read, element count stored, loop limit, terminator - must be implied by the comparisons, decode ranges and loop limits before it to stay within the declared capacity; where the generator leaves the comparison out, the F# text must show that the determinant's decoder enforces the range.", "forward analysis with linear facts over the rendered C of every decode template"),
 "T10": dict(run="c_valid:t10", technique="exhaustive evaluation of the rendered validity templates over operand verdicts, and of the compiler's combination tables", explanation="Every combinator, loop, presence test and function frame of the C and Ada validity templates is rendered and evaluated over all verdicts of its operands against the meaning of the constraint operator; the F# tables that choose the combinator are evaluated the same way; the encode and decode frames must act on the verdict."),
 "T11": dict(run="c_valid:t11", technique="exhaustive evaluation of the rendered comparison templates over presence, kind, length and content cases", explanation="Every template of the generated C and Ada comparison functions is rendered and evaluated over all presence bits, alternatives, lengths, differing positions and padding; the answer must be equality of the abstract values."),
 "T09": dict(run="c_det:t09", technique="exhaustive evaluation of the rendered determinant, presence and alternative templates over operand cases", explanation="Every template of the C and Ada back ends that computes an inserted field, checks that it is determined, or concludes presence or an alternative from it is rendered and evaluated over all cases of its operands: which components are there, what they demand, which operations fail; the outcome must be the value demanded, or an error."),
 "T13": dict(run="c_values:t13", technique="evaluation of the rendered literals and initialisers by the rules of the target language, compared with the values they stand for", explanation="Every literal and initialiser template of the C and Ada back ends is rendered on known values; the object it builds is computed against the layouts the runtime and the type templates declare and compared with the value member by member. The texts and counts the generator passes are read from its F# sources."),
 "T12": tempt("t12", "All paths through every rendering of the C encode templates: the failure of a nested encoder, contained encoder or deferred patch makes the result false and is not overwritten, later steps are guarded, and a template that gives up by itself sets an error code.", "path-sensitive typestate analysis over the rendered C of every encode template"),
 "T07": tempt("t07", "Every match over the integer encoding class in the F# sources is read as a table; each row is compared with the meaning of the class (kind, width, order, determinant), and the template it selects with the runtime operation of this meaning.", "table extraction from the F# sources compared with the meaning of each encoding class"),
 "T05": dict(technique="closure of the compiler's own dependency lists over the runtime sources, compared with the references the C front end resolves in what remains", explanation="The lists and dependency table are read from the F# sources of the current tree; for every runtime function requested alone, what the closure removes is compared with what the remaining translation units refer to.", assumptions=["the textual removal algorithm of LangGeneric_c.fs as restated in lib/strip.py", "clang-18 resolves the remaining references"], run="c_strip:stripping"),
}
NOTES = "Static analysis only: see DESIGN.md. Engines: bit-provenance abstract interpreter over LLVM IR, effect analyses over LLVM IR, Ada lowering, template analysis."
NOT_APPLICABLE = {
 "G01": "quantifies over every grammar and value: the size computation is spread over the F# front end and compares run-time quantities that no static argument in reach bounds",
 "G02": "quantifies over every grammar accepted by the compiler and every value: whole-program behaviour of generated code; the parts with a static shape are claimed as T01-T03 and C07-C11",
 "S01": "no Scala compiler or front end is installed, so the Scala runtime cannot be resolved or type-checked here",
}