#!/usr/bin/env python3
"""Regenerates /verif/properties.jsonl (single place where the properties are written)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, observe=None, hook=False):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if observe: a["observe_at"] = [observe]
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

ENC = "asn1crt/asn1crt_encoding.c"; ACN = "asn1crt/asn1crt_encoding_acn.c"; UPER = "asn1crt/asn1crt_encoding_uper.c"
BER = "asn1crt/asn1crt_encoding_ber.c"; XER = "asn1crt/asn1crt_encoding_xer.c"; RT = "asn1crt/asn1crt.c"
ACNH = "asn1crt/asn1crt_encoding_acn.h"

prop("C01", "C uPER/ACN decoding never touches memory outside its buffers",
 "Decoding any byte sequence of any length with the C runtime's uPER and ACN decoders never reads outside the input buffer and never writes outside the destination object the caller supplied. This holds from every bit position of the input, including the very last bit and the end of the buffer, and for every declared size limit.",
 ["inputs"], "All input bytes, all start bit offsets 0..8N of a buffer of N bytes, the declared size limits/field widths enumerated in the harness.",
 "The suite decodes only what the encoders just produced (plus one bit-flip); hostile or truncated input at the end of a buffer is never presented, and a one-byte over-read does not fail a functional test.",
 [ENC, ACN, UPER, RT], [("bit and byte readers", ENC), ("ACN primitive decoders", ACN), ("object identifier decoder", UPER)],
 "every pointer dereference, index and memory-block call reached from a decoder entry point")

prop("C02", "Truncated input is always reported by the C uPER/ACN decoders",
 "When the input ends before the bits a field needs, the C decoder for that field reports failure; when it reports success it has consumed exactly the field's bits, all of which lie inside the input. A field with an unconditional format that is completely present is accepted, and look-ahead never moves the read position.",
 ["inputs"], "All input bytes, every cut point (every distance between the read position and the end of the input), all primitive decoders and enumerated widths.",
 "Tests never feed truncated messages; each primitive has dozens of possible cut points and bit offsets.",
 [ENC, ACN, UPER], [("readers' end-of-buffer checks", ENC), ("ACN primitive decoders", ACN)], "return flag and read position after each decode call")

prop("C03", "Malformed input cannot abort or cause undefined behaviour in C decoding",
 "No byte sequence presented to the C uPER and ACN decoders can trigger an assertion failure, a signed overflow, an invalid shift, a division by zero or a read of an uninitialised object. Malformed input ends in a reported decoding failure or a decoded value, never in process termination.",
 ["inputs"], "All input bytes and bit offsets for all decoder primitives with generator-producible parameters.",
 "The tests feed well-formed messages only; undefined behaviour and assertions on wire data need specific malformed bytes.",
 [ENC, ACN, UPER, RT], [("decoder assertions", ACN), ("integer arithmetic on wire data", ENC)], "assertion sites and arithmetic reached from decoder entry points")

prop("C04", "Values and counts decoded in C respect their declared bounds",
 "When a C uPER/ACN decoder of a constrained field reports success, the decoded number lies within the declared minimum and maximum, a decoded length or element count lies within the declared size bounds, and a decoded string is terminated within its declared maximum and contains only characters of its alphabet. This holds for any input bytes.",
 ["inputs"], "All input bytes and offsets; enumerated range pairs (spanning all-bit widths and signs), size bounds and alphabets.",
 "Out-of-range encodings are only expressible by malformed input, which the suite does not generate.",
 [ENC, ACN, UPER], [("constrained whole number decoding", ENC), ("string decoders", ACN)], "output parameters after a successful decode")

prop("C05", "A successful C decode leaves every output fully defined",
 "When a C uPER/ACN decoder reports success, every output it is documented to produce (value, length, all elements up to the length, terminator) has been written; no output on the success path carries an indeterminate or left-over value.",
 ["inputs"], "All input bytes and offsets, all decoders, enumerated sizes.",
 "Left-over stack contents often look right in a test that has just encoded the same value.",
 [ENC, ACN, UPER], [("decoder output assignments", ACN), ("octet/bit string decoders", ENC)], "output objects after a successful decode")

prop("C06", "C encoders stay inside the buffer and account for every bit",
 "Encoding any value a primitive accepts, from any bit position, into a buffer with enough room for its encoding never touches memory outside that buffer, never aborts, and advances the write position by exactly the number of bits of the encoding. An encoder whose interface reports failure does so instead of writing when room is missing.",
 ["inputs"], "All values in each primitive's domain, all 8 bit offsets, buffers ending exactly where the encoding ends.",
 "Generated tests allocate worst-case buffers and start at offset 0, so a write or touch one byte past an exactly filled buffer goes unnoticed.",
 [ENC, ACN, UPER], [("appenders", ENC), ("ACN encoders", ACN)], "buffer accesses and write position after each encode call")

prop("C07", "Fixed-width ACN numbers have the declared layout and decode back in C",
 "For every fixed-width ACN integer and IEEE754 real encoding the C encoder writes exactly the declared width with the declared sign representation and byte order, at every bit offset and for every value that fits. The corresponding decoder returns precisely that value.",
 ["inputs"], "All values of each width 1..64 (per-bit provenance, not sampling), all 8 bit offsets, big- and little-endian.",
 "Tests check round-trips of a few values at a few offsets; encoder and decoder sharing the same layout error, or an error at one offset/width, pass.",
 [ACN, ENC, RT], [("ACN constant-size integers", ACN), ("ACN IEEE754 reals", ACN)], "bits written to the buffer / value returned")

prop("C08", "uPER whole numbers use the standard minimal layout and decode back in C",
 "The C encoder writes a constrained whole number as value minus minimum in exactly the number of bits the range needs, a semi-constrained number as a length octet plus the minimal unsigned octets, and an unconstrained one as a length octet plus minimal two's complement octets. The decoder returns the encoded value for every value, range and bit offset.",
 ["inputs"], "All values grouped by bit length 0..64 and sign, all range widths 0..64, all 8 bit offsets.",
 "The ranges and values in the test grammar cover few widths, and round-trip tests cannot see a deviation made on both sides.",
 [ENC], [("whole number encoders/decoders", ENC)], "bits written to the buffer / value returned")

prop("C09", "Variable-size ACN integers are self-consistent in C",
 "Length-embedded, BCD and ASCII integer encodings written by the C encoder carry the length, digits, sign and terminator their format declares, and the matching decoder returns the encoded value and consumes exactly what was written. This holds for every value, including the extremes of the native integer range.",
 ["inputs"], "All integer values partitioned by length/digit count, all bit offsets.",
 "Extremes (most negative number, 20-digit values) and odd offsets are not in the suites.",
 [ACN], [("length embedded / BCD / ASCII integers", ACN)], "bits written / value returned")

prop("C10", "Strings, bit strings and octet strings keep content, length and order in C",
 "The C encoders for character, octet and bit strings write the length determinant the format declares followed by exactly the items in order, switching to fragments with correct block headers when the maximum requires it. The decoder restores the same items and the same length, at every bit offset and for every length within bounds.",
 ["inputs"], "All contents (per-bit provenance), all lengths in the enumerated size ranges, all 8 bit offsets; fragment headers for every fragment class.",
 "Long strings, odd bit offsets and boundary lengths (0, max, 16K multiples) are not sampled by the suites.",
 [ENC, ACN], [("octet/bit string encode/decode", ENC), ("string encode/decode", ACN)], "bits written / items returned")

prop("C11", "C encoders change only their own bits, and deferred fields are patched exactly",
 "An encoding step changes no bit of the output buffer outside the field it writes. A field whose value is only known later is reserved with its full width and later overwritten exactly there with the final value, the write position afterwards being what it was before; a second, different value for the same field is reported as an error.",
 ["inputs", "histories"], "All values, all bit offsets of the reserved field, all neighbouring contents, first and repeated patches.",
 "Generated tests have few deferred fields, mostly byte aligned, so damage to neighbouring bits is not observable.",
 [ACNH, ACN, ENC], [("deferred determinant reserve/patch", ACNH), ("bit appenders", ENC)], "whole buffer and write position")

prop("C12", "The C runtime keeps no mutable state between calls",
 "No encoder, decoder or helper of the C runtime library writes a static or global object, and none calls a library function that keeps hidden mutable state, so encoders and decoders working on distinct objects can run concurrently or be interrupted and re-entered. All state lives in the objects passed by the caller.",
 ["schedules", "histories"], "All functions of the runtime, all interleavings (shown by absence of shared writable state).",
 "The suites are single threaded; a hidden static buffer only breaks under interleaving.",
 [RT, ENC, ACN, UPER, BER, XER], [("file-scope objects and library calls", "asn1crt/*.c")])

prop("C13", "The C runtime needs no heap, no recursion and bounded stack",
 "The C runtime's encoders and decoders never allocate dynamic memory, never recurse and use no variable-length stack objects, so the stack needed by any call is a fixed number known from the call graph. No input can change that.",
 ["inputs", "programs"], "All functions and all call paths of the runtime.",
 "Tests pass with hidden allocation or recursion; the guarantee is about all paths.",
 [RT, ENC, ACN, UPER, BER, XER], [("call graph and allocations", "asn1crt/*.c")])

prop("C14", "Encoding leaves the value, and decoding leaves the input, untouched in C",
 "A C encoder never modifies the value it encodes or any constant table it is given, and a C decoder never modifies the bytes of the input it reads. Comparison and validity functions modify nothing.",
 ["inputs"], "All runtime entry points and all call paths (transitive write effects).",
 "Tests re-create inputs and do not compare them before and after the call.",
 [RT, ENC, ACN, UPER], [("write effects of the runtime functions", "asn1crt/*.c")])

prop("C15", "No failure of a nested decode step is dropped in the C runtime",
 "Whenever a C runtime function that can report failure calls another operation that can report failure, a failure of the inner operation makes the outer one report failure as well, unless the outer result cannot be affected by it. No status is silently discarded.",
 ["inputs", "fault_sequences"], "Every call site of a fallible runtime operation inside the C runtime.",
 "The failure branches are never executed by the suites because they feed complete input only.",
 [ENC, ACN, UPER, BER], [("status results of the runtime", "asn1crt/*.c")])

prop("C16", "Streaming buffers are refilled and flushed at every boundary",
 "In the streaming configuration of the C runtime, whenever the read or write position reaches the end of the transfer buffer inside an operation, the fetch or push hook is invoked before the next access, so no access ever goes past the buffer and every byte is delivered once, in order. A message larger than the buffer therefore encodes to, and decodes from, the same bytes as with one large buffer.",
 ["inputs", "histories"], "All positions relative to the buffer end, all stream primitives.",
 "No test builds the streaming configuration.",
 [ENC, ACN], [("push/fetch hooks", ENC)])

prop("C17", "C BER coding never touches memory outside its buffers",
 "Decoding any byte sequence with the C runtime's BER decoders never reads outside the input or writes outside the destination, never aborts or invokes undefined behaviour, and reports failure for an input that ends before the value does; a count it reports never exceeds what the destination holds. Encoding any value into a buffer of any size never touches anything outside that buffer.",
 ["inputs"], "All input bytes and start positions of a buffer, for every BER primitive; all buffer sizes for the encoders.",
 "No BER test is run at all.",
 [BER, ENC], [("BER primitive coders", BER)], "every memory access, assertion and arithmetic operation reached from a BER entry point")

prop("C18", "C XER coding never touches memory outside its buffers",
 "Decoding any byte sequence as XML with the C runtime's XER primitives never reads outside the input or writes outside the destination or its internal text buffers, never aborts, and rejects a text that ends before the element does; a count it reports never exceeds the destination. Encoding into a buffer of any size never touches anything outside that buffer, and always ends. Loading an XML file never writes outside the stream's buffer or the internal one.",
 ["inputs"], "All input bytes, for every XER primitive and the tokenizer; names, contents and attribute lists of any length; all buffer sizes for the encoders.",
 "No XER test is run at all.",
 [XER], [("XER tokenizer and primitive coders", XER)], "every memory access, assertion and arithmetic operation reached from an XER entry point")

prop("C19", "The 32-bit C profile gives the same safety and layout guarantees",
 "When the C runtime is built for 4-byte integers, its uPER and ACN primitives accept any input without leaving their buffers, aborting or undefined behaviour, report truncation, and produce for every value representable in 32 bits the same bits as the 64-bit profile.",
 ["configurations", "inputs"], "The 4-byte word configuration; all inputs, offsets and values as in the 64-bit checks.",
 "No test builds this configuration.",
 [ENC, ACN, RT], [("word-size dependent code", ACN), ("integer helpers", RT)])

prop("C20", "Equality of values in C is decided by content within their lengths",
 "The C runtime's comparison of octet strings, bit strings, object identifiers answers true exactly when both lengths are equal and all items within that length are equal; it never looks at bits or elements beyond the length and never outside the objects.",
 ["inputs"], "All contents and all lengths in the enumerated range, including 0 and lengths that end inside a byte.",
 "Tests compare values produced by the same encoder and decoder, where the padding happens to match.",
 [ENC, RT], [("equality helpers", ENC)])

prop("C21", "Bytes produced by the C runtime do not depend on the host byte order",
 "The bytes an encoder of the C runtime produces for a value, and the value a decoder produces for given bytes, are the same on big-endian and little-endian hosts.",
 ["configurations", "inputs"], "All values, widths and offsets, analysed for a little-endian and a big-endian target.",
 "The tests run on one little-endian host.",
 [ACN, ENC], [("byte order detection and IEEE754 conversion", ACN)])

prop("C22", "Work done by the C decoders is bounded by the input and the declared sizes",
 "Every loop reached while decoding uPER or ACN data in C terminates for any input, after a number of iterations bounded by the input length, the declared maximum size or a constant. No input byte pattern can make decoding run unboundedly.",
 ["inputs"], "Every loop of the uPER/ACN runtime, all inputs.",
 "Only hostile input shows an unbounded or absurdly long loop.",
 [ENC, ACN, UPER], [("decoder loops", "asn1crt/*.c")])

prop("C23", "REAL values keep sign, exponent and every mantissa bit in C uPER",
 "The C uPER encoder writes a floating point number as header, exponent and mantissa denoting exactly that number, for every finite double including the smallest subnormal ones, and the reserved codes for the infinities and not-a-number. The decoder returns the double nearest to the denoted number, which is the encoded value again, and rejects exponent lengths that do not fit.",
 ["inputs"], "All doubles, partitioned by exponent field; all header forms of the decoder.",
 "Suites use a few ordinary numbers; subnormal and extreme exponents are never sampled.",
 [ENC], [("real coding", "asn1crt/asn1crt_encoding.c: BitStream_EncodeReal, BitStream_DecodeReal, CalculateMantissaAndExponent")])

prop("C24", "BER primitives in C write and read the standard contents octets",
 "The C BER encoders write the given identifier octets, a definite length and the contents octets of X.690: minimal two's complement integers, 0xFF or 0 booleans, octets in order, the count of unused bits before a bit string, and sign, exponent and mantissa of a real number. The decoders return exactly the encoded value from any form of the length, and reject another tag or a length the value cannot have. Whatever fails comes with an error code.",
 ["inputs"], "All values (per-bit provenance) by length partition, tags of 1 to 4 octets, all length forms on decoding.",
 "No BER test is run at all.",
 [BER], [("BER primitive coders", BER)], "octets written / value returned")

prop("C25", "XER elements, strings, booleans and enumerations in C are exact",
 "The C XER encoders write elements with the given name, and strings, octet strings (hexadecimal), bit strings (digits), booleans, null, enumerations, integers and object identifiers with exactly their content and real numbers to at least twelve digits, success meaning the whole text is in the buffer. The decoders accept such text, also after white space, a comment or a header and with empty elements in either form, stop right behind the element, and return exactly the content and its length, attributes included; asking for the next element leaves the position where it was. Loading an XML file drops the header, comments and text between elements and keeps everything else, or fails. Whatever fails to be coded comes with an error code.",
 ["inputs"], "All contents (unknown characters and digits; numbers, arcs and attributes by chosen values), all elements of the primitive set, white space on or off, nesting levels.",
 "No XER test is run at all.",
 [XER], [("XER primitive coders", XER)], "text written / value returned")

ADA = "ADA_RTL2/src"
prop("A01", "Ada fixed-width and whole-number encodings have the same layout as in C",
 "For every fixed-width integer, whole number and real encoding, the Ada runtime writes exactly the bits the format declares (the ones the C runtime writes) at every bit offset and for every value, and its decoder returns precisely the encoded value.",
 ["inputs"], "All values (per-bit provenance), all widths, all 8 bit offsets.",
 "The Ada runtime is only compiled by the suite, never executed.",
 [ADA + "/adaasn1rtl-encoding.adb", ADA + "/adaasn1rtl-encoding-acn.adb", ADA + "/adaasn1rtl.adb"],
 [("whole number coding", ADA + "/adaasn1rtl-encoding.adb"), ("ACN numbers", ADA + "/adaasn1rtl-encoding-acn.adb")])

prop("A02", "No input can raise an exception in the Ada decoders",
 "Decoding any byte sequence with the Ada runtime's uPER and ACN decoders, with sufficient room for the field as generated code guarantees, never raises a run-time exception: no index, range, overflow, division or discriminant check can fail and no precondition inside the runtime is violated. Malformed input is reported through the result status.",
 ["inputs"], "All input bytes and bit offsets, all Ada decoder primitives and enumerated widths.",
 "The Ada runtime is only compiled by the suite, never executed.",
 [ADA], [("Ada decoders", ADA + "/adaasn1rtl-encoding-acn.adb")])

prop("A03", "The Ada runtime keeps no mutable global state and uses no heap or recursion",
 "No package of the Ada runtime declares library-level variables, allocates dynamic memory or contains recursive subprograms, so its coders are re-entrant and their stack use is bounded.",
 ["schedules", "histories"], "All compilation units of the Ada runtime (both board configurations).",
 "Compilation alone does not reveal state or recursion.",
 [ADA], [("library-level objects and call graph", ADA)])

prop("T01", "Every code template yields text that fits its runtime",
 "Whatever combination of options the compiler chooses, each code template for the C target renders to well-formed C whose calls into the runtime name an existing operation with the right number and kind of arguments. The templates of every target use only the parameters they are given and refer only to operations and types the runtime of that target provides, whatever host integer type the compiler picks.",
 ["programs", "configurations"], "Every template of the C, Ada and Scala targets; for C every assignment of its boolean/optional parameters and every host type suffix.",
 "The fixed grammars of the suite exercise only part of the templates and their branches, and the Ada and Scala templates not at all.",
 ["StgC", "StgAda", "StgScala"], [("templates", "StgC/*.stg, StgAda/*.stg, StgScala/*.stg"), ("runtimes", "asn1crt/*.h, ADA_RTL2, asn1scala")])

prop("T02", "Encode and decode templates of each field kind are inverses",
 "For each field kind the encoding and the decoding code template of a target language invoke matching runtime operations: same encoding class, width, byte order and bounds, and the value mapping applied on encoding is undone on decoding. The C, Ada and Scala templates of a field kind use the same encoding, so the same grammar yields interoperable code for every target.",
 ["programs"], "Every encode/decode template pair of the C, Ada and Scala targets for ACN and uPER, and every template name across the targets.",
 "Pairs not instantiated by the fixed grammars are never executed, and Ada and Scala templates never are.",
 ["StgC", "StgAda", "StgScala"], [("ACN templates", "StgC/acn_c.stg, StgAda/acn_a.stg, StgScala/acn_scala.stg"), ("uPER templates", "StgC/uper_c.stg, StgAda/uper_a.stg, StgScala/uper_scala.stg")])

prop("T03", "Generated decoders turn every failure into the declared error code",
 "In the code generated for the C target, every fallible runtime call or check of a coder sets the result flag and, when it fails, the error code declared for that field reaches the caller; no status is overwritten unread and later steps only run when the earlier ones succeeded.",
 ["programs", "fault_sequences"], "Every C encode/decode template and every branch of it, every path through the rendered text.",
 "Failure branches of generated decoders are not executed by the suite.",
 ["StgC"], [("uPER/ACN/XER/BER templates", "StgC/uper_c.stg, StgC/acn_c.stg, StgC/xer_c.stg, StgC/ber_c.stg")])

prop("T04", "All target languages implement the same set of code templates",
 "Every code template the compiler may ask for exists for the C, Ada and Scala targets with the same name, and takes the same parameters, so that choosing another target language never fails for a valid grammar.",
 ["programs", "configurations"], "Every template group and template of the three targets.",
 "The suite generates C code from fixed grammars; missing templates for other targets surface only when used.",
 ["StgC", "StgAda", "StgScala"], [("template groups", "Stg*/*.stg")])

prop("T05", "The runtime emitted next to the generated code always compiles and links",
 "The compiler emits only the runtime functions it considers used. Whatever function the generated code requests, every runtime function, type and object that the remaining runtime refers to is still there: nothing referenced is ever stripped.",
 ["programs", "configurations"], "Every runtime function in the compiler's removal lists, requested alone, with the dependency closure the compiler computes.",
 "The suites link against the complete runtime; stripping happens only in the released compiler, for the grammar at hand.",
 ["StgC", "asn1scc", "asn1crt"], [("removal lists and dependency table", "StgC/LangGeneric_c.fs"), ("emission", "asn1scc/GenerateRTL.fs")])

prop("T06", "Generated decoders of contained types stay within the enclosing input",
 "Where a generated C decoder narrows the input window to decode a contained type (OCTET STRING or BIT STRING CONTAINING, also with a deferred length), the narrowed window never extends past the enclosing one, whatever length the input claims, and the enclosing window is in place again when the decoder goes on.",
 ["inputs", "programs"], "Every C template that assigns the size of a bit stream, every branch and path through it, every length the input can announce.",
 "Needs contained types together with hostile length determinants; the suite only decodes what it encoded.",
 ["StgC"], [("CONTAINING templates", "StgC/uper_c.stg, StgC/acn_c.stg")])

prop("T07", "The compiler's tables agree on what each ACN integer encoding is",
 "Every place of the compiler that is driven by the ACN encoding class of an integer - the class chosen for the grammar's attributes, the announced size in bits, the range checked, the alignment, the template and the runtime operation with its width, byte order and host type - agrees with what that class stands for. So the announced sizes, the range checks and the generated code describe one and the same encoding.",
 ["programs", "configurations"], "Every case of the integer encoding class in every match over it, for every target language.",
 "One wrong row in one table affects only grammars that use exactly this encoding; the fixed suites were generated earlier by another build.",
 ["FrontEndAst", "BackendAst", "StgC", "CommonTypes"], [("encoding classes and sizes", "FrontEndAst/AcnEncodingClasses.fs"), ("dispatch to templates", "BackendAst/Acn/AcnPrimitives.fs, BackendAst/DAstUPer.fs, StgC/LangGeneric_c.fs")])

prop("T08", "Generated decoders bound every length of the message by the capacity of the type",
 "Before a generated C decoder uses a length that comes from the message - its own length field, a fragment header or another field that serves as determinant - as an octet or bit count, an element count, a loop limit or the place of a terminator, it has established that the length is within the declared maximum and not negative; otherwise it reports an error. No message makes it write outside the decoded value.",
 ["inputs", "programs"], "Every C decode template, every branch of it, every length the input can announce, every type a determinant field may have.",
 "The suites decode their own valid encodings; a length between the declared maximum and what its field can hold is never received.",
 ["StgC", "BackendAst"], [("string and SEQUENCE OF templates", "StgC/uper_c.stg, StgC/acn_c.stg"), ("when the check is left out", "BackendAst/Acn/AcnOctetBitStrings.fs")])

prop("T10", "Generated validity checks compute the declared constraint, and coders act on the verdict",
 "For every combination of constraints - union, intersection, exception, negation, value and range, size, permitted alphabet, WITH COMPONENT(S), presence, alternatives of a CHOICE, elements of a list - the IsConstraintValid function generated for C and Ada accepts a value exactly if the combination of its parts accepts it, whatever the verdicts of the parts and the number of elements, and sets an error code exactly when it rejects. The generated C encoder writes nothing for a value it was asked to check and that is rejected, and the generated C decoder reports failure for a decoded value that is rejected.",
 ["programs", "inputs"], "Every way the compiler combines constraints (each combinator template and each row of the tables that choose it), all verdicts of the parts, all presence cases, list lengths up to three.",
 "The suites hold a few constraints, seldom combined, and values that satisfy the first alternative; the combination code of the generator cannot be run here at all.",
 ["StgC", "StgAda", "BackendAst"], [("combinators", "StgC/isvalid_c.stg, StgAda/isvalid_a.stg"), ("choice of the combinator", "BackendAst/DastValidate2.fs"), ("use of the verdict", "StgC/uper_c.stg and StgC/acn_c.stg, EmitTypeAssignment")])

prop("T11", "Generated comparison functions answer equality of the abstract values",
 "The _Equal function generated for C and Ada answers TRUE exactly if the two values are equal as ASN.1 values: same presence of optional components and equal contents of those present, same alternative and equal contents, same number of elements and every element equal, same bits or octets within the declared length - whatever lies behind the end of a list, in the padding of the last octet or in components that are absent.",
 ["programs", "inputs"], "Every comparison template; all presence bits, alternatives, lengths up to three (bit strings: lengths around octet boundaries with every differing position and padding).",
 "The suites compare a value with its own decoded copy, so an answer that is TRUE too often is never noticed.",
 ["StgC", "StgAda", "BackendAst"], [("comparison templates", "StgC/equal_c.stg, StgAda/equal_a.stg"), ("assembly", "BackendAst/DAstEqual.fs")])

prop("T09", "Fields inserted by ACN say what the encoded value demands, and decoders conclude exactly that",
 "In the code generated for C and Ada, a field that exists only in the encoding - the length of a string, list or contained type, the presence of a component, the alternative of a CHOICE - is given exactly the value that describes the value being encoded, taken only from components that are there. If several components share one field, the encoder succeeds only if all of them that are present demand the same value; a field that nothing determines is never encoded: the encoder reports an error. The generated decoder takes a component for present and an alternative for chosen exactly when the field carries this value, decodes exactly that, and reports an error when no alternative matches. The position of each component in the message, which user supplied checks receive, is recorded before the component is coded.",
 ["programs", "inputs"], "Every determinant, presence and alternative template of the ACN back ends for C and Ada, over all statuses, presence bits, alternatives and which of up to three components set which of two values.",
 "The suites use messages with one or two determinants and consistent values; fields demanded differently by two components or determined by none, and contained encoders that fail, do not occur.",
 ["StgC", "StgAda", "BackendAst"], [("determinant templates", "StgC/acn_c.stg, StgAda/acn_a.stg"), ("their use", "BackendAst/Acn/AcnDependencies.fs")])

prop("T12", "Generated encoders pass on every failure",
 "In the code generated for the C target, when a nested encoder, the encoding of a contained type or of a list element, or the patching of a deferred field fails, the encoder returns FALSE: the failure is neither overwritten by a later step nor forgotten in a loop, nothing that depends on it is encoded afterwards, and an encoder that gives up by itself sets an error code.",
 ["programs", "inputs"], "Every rendering of every C encode template, all paths, loops entered up to two times.",
 "The suites encode values that are valid; encoders called with the constraint check off on invalid elements, or contained encoders that fail, are not exercised.",
 ["StgC"], [("C templates", "StgC/uper_c.stg, StgC/acn_c.stg, StgC/xer_c.stg")])

prop("T13", "Values of the grammar become the same values in the generated code",
 "Every constant, default, initial and test value the compiler writes into the code it generates for C and Ada is, as an object of the generated type, the value of the grammar: each member, element, bit and character, the number of elements, octets or bits, the alternative, the presence of optional components, the fields of dates and times, and strings with any characters, quotes and backslashes included. Initialisers that build a zero or test value set every counted element within the declared size, to values the type admits, and write nothing outside it.",
 ["programs", "inputs"], "Every literal and initialiser template of both back ends, on values of every kind: all lengths up to the capacity for lists and strings of the sizes enumerated, presence cases, alternatives, fixed and variable sizes.",
 "The suites use few constants, none with quotes, bit counts that are no multiple of eight, or times; a wrong default value round-trips unharmed.",
 ["StgC", "StgAda", "BackendAst"], [("literals", "StgC/variables_c.stg, StgAda/variables_a.stg, BackendAst/DAstVariables.fs"), ("initialisers", "StgC/init_c.stg, StgAda/init_a.stg, BackendAst/DAstInitialize.fs")])

prop("G01", "The computed maximum encoding size bounds every real encoding",
 "For any grammar the maximum size the compiler announces for a type is at least the size of every encoding of a valid value of that type, so buffers dimensioned with it never overflow.",
 ["programs", "inputs"], "All grammars and all values.",
 "Only the sizes of the suite's grammars and sample values are exercised.",
 ["FrontEndAst", "BackendAst", "CommonTypes"], [("size computation", "FrontEndAst/AcnCreateFromAntlr.fs")])

prop("G02", "Encode followed by decode is the identity for generated code of any grammar",
 "For every valid grammar and every valid value the code generated for a target decodes its own encoding to an equal value, and C, Ada and Scala code interoperate byte for byte.",
 ["programs", "inputs"], "All grammars, all values, three target languages.",
 "The suites cover a fixed set of grammars and values.",
 ["BackendAst", "StgC", "StgAda", "StgScala"], [("code generators", "BackendAst/*.fs")])

prop("S01", "The Scala runtime encodes like the C runtime and never fails on malformed input",
 "The Scala runtime writes the same bits as the C runtime for every primitive and value, and its decoders report malformed or truncated input through their result instead of an unchecked exception.",
 ["inputs"], "All primitives, values and inputs.",
 "No Scala test can be built here.",
 ["asn1scala"], [("Scala codec", "asn1scala/asn1scala/src/main/scala/asn1scala")])

with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for p in P:
        f.write(json.dumps(p) + "\n")
print(len(P), "properties")
