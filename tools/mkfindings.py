#!/usr/bin/env python3
"""known_findings.json: open findings (matched by key at run time) and repaired ones (which suppress nothing)"""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
FIXED = [
 ("C25", "596a518", "the XER start tag was written without a space in front of its attributes"),
 ("C25", "23ba256", "real numbers below 1e-17 were written as 0 in XER"),
 ("C17", "9900a2e", "BerDecodeBitString could report more bits than the maximum when the capacity ends inside an octet"),
 ("T13", "a4202f0", "the elements of the initial value of an Ada BIT STRING were given octets instead of bits"),
 ("T12", "ccd1e2e", "the encode loops over the elements of a fragmented SEQUENCE OF went on after the failure of an element and lost it"),
 ("T13", "8947a9f", "initBitStringAtPos wrote the hexadecimal mask of a named bit as a decimal number"),
 ("T13", "e6f193c", "the count of a BIT STRING value was a number of octets (PrintBitStringValue, createBitStringInitFunc) or the least size of the type (printBitStringValueAsCompoundLiteral)"),
 ("T13", "1fb084b", "string values with a quote or a backslash became other C strings"),
 ("T13", "38a0d9c", "initTestCaseIA5String of the Ada back end had no end if on the zero branch"),
 ("T13", "10f7f4a", "initialisers and literals of date and time types named members the types do not have, flattened the date, lost the fraction and the time zone"),
 ("C25", "4d5b145", "Xer_DecodeBoolean, Xer_DecodeEnumerated and Xer_EncodeEnumerated failed without an error code (an incomplete text before the inner element; no room for the indentation)"),
 ("C01", "5cff621", "bit-level readers (ReadBit, PeekBit, ReadPartialByte, checkBitPatternPresent, ...) read the byte after the input"),
 ("C01", "3e760b2", "BitStream_ReadByteArray reads one byte past the buffer and ignores refills"),
 ("C11", "af3fd79", "BitStream_AppendByteArray touches the byte after the data and merges stale bits"),
 ("C16", "0a9f341", "streaming mode corrupts octet strings longer than the remaining buffer"),
 ("C07", "de16cee", "BitStream_AppendNBitZero skipped the bits instead of writing zeros"),
 ("C02", "39736a3", "truncated OCTET STRING accepted by BitStream_DecodeOctetString"),
 ("C10", "aa78dd4", "fragmented OCTET/BIT STRING decoders reject empty and accept too short values"),
 ("C03", "e0afae7", "signed overflow when encoding extreme integers"),
 ("C03", "a68fecb", "integer decoders overflow and wrap on hostile input"),
 ("C01", "42ff285", "Acn_Dec_String_Ascii_Null_Terminated_mult writes past the string buffer"),
 ("C03", "0735de9", "ACN ASCII and BCD decoders abort on or misread malformed numbers"),
 ("C09", "365cd29", "BCD integers above 16 digits could be encoded but not decoded"),
 ("C05", "8ecbd37", "narrow integer decoders truncate wire values and read undefined data"),
 ("C03", "0c6f4d7", "REAL decoder overflows, stalls on large exponents and loses small numbers"),
 ("C15", "5cbb33b", "BIT STRING encoder reports success when the contents do not fit"),
 ("C11", "3a46790", "BitStream_AppendPartialByte clears the bits after the field and merges stale ones"),
 ("C02", "e1644a4", "a terminator that follows immediately is not recognised when no bits may precede it (BitStream_ReadBits_nullterminated)"),
 ("C23", "db45de6", "subnormal REAL values are encoded as different numbers"),
 ("C09", "bbf8864", "a length of zero made the signed ASCII decoder read a sign from the following field"),
 ("C17", "13ca8be", "BER byte access goes one byte past the end of the buffer"),
 ("C17", "e3decb4", "BER length octets beyond the native range are taken as another length"),
 ("C24", "7a91b33", "BER INTEGER accepts lengths the native integer cannot hold"),
 ("C17", "ea357ee", "BER string decoders accept the indefinite length and report negative counts"),
 ("C17", "5570109", "BER tags of more than four octets shift an int out of range"),
 ("C12", "cfa92bd", "XER number encoders share static text buffers between calls"),
 ("C12", "e8dd088", "XER OBJECT IDENTIFIER decoder uses strtok, repeats the first arc and leaves the count unset"),
 ("C18", "a8508c7", "XER bit and octet string decoders go past the destination"),
 ("C18", "c2ddc2b", "XER attributes overflow the attribute array, abort, or go through a null pointer"),
 ("C18", "f367a46", "XER passes negative characters to the ctype functions"),
 ("C18", "8ccbe89", "XER text encoders append behind the position or past the buffer"),
 ("C19", "930c423", "narrow decoders of 64-bit fields skip the upper octets without checking the input (WORD_SIZE=4)"),
 ("C19", "3cbc620", "64-bit signed fields are encoded as unsigned or short when WORD_SIZE is 4"),
 ("C19", "05d6d85", "REAL mantissas are truncated to 32 bits when WORD_SIZE is 4"),
 ("C18", "9246e6a", "XER REAL encoder does not end for infinities"),
 ("T03", "358b2b7", "generated decoders ignore a truncated 32-bit little endian REAL"),
 ("T03", "2af862c", "generated ACN decoders fail without an error code (external lengths, NULL patterns)"),
 ("T03", "218585d", "generated decoders of CONTAINING types fail without an error code"),
 ("T03", "318b895", "generated uPER string decoders use a length that could not be decoded or fail without an error code"),
 ("T03", "92bfd6c", "generated decoders of large fixed size types go on after an item has failed"),
 ("T03", "9e05bd4", "generated XER CHOICE decoders lose the failure of the chosen alternative"),
 ("T03", "6304578", "generated XER decoders accept unknown enumeration values"),
 ("T03", "de1403b", "generated XER decoders fail without an error code"),
 ("T03", "f53eb45", "generated decoders accept null-terminated lists without the terminator"),
 ("T06", "3a9dda8", "generated decoders of CONTAINING types in deferred mode read past the input"),
 ("T02", "dd8b315", "the mapping function of a 16-bit twos-complement field is not applied by generated decoders"),
 ("T01", "a168339", "initialisers of DATE-TIME values lose the time zone"),
 ("T03", "228120e", "generated XER decoders accept too short SEQUENCE OF types of fixed size"),
 ("T03", "312e3c6", "generated decoders of integers without a lower bound ignore a failed check"),
 ("T08", "102e6a6", "an external length above the 32-bit range passes the bound of a CONTAINING type as a negative count"),
 ("T08", "f390bce", "an external length whose determinant may exceed the type is not compared with the capacity of the type"),
 ("T10", "af3a617", "the second alternative of a constraint union is checked with ret already FALSE, so that values satisfying only it are rejected"),
 ("T10", "5a2f44f", "Ada validity checks that combine a statement with an expression have an empty statement and do not compile"),
 ("T10", "38d42b1", "the Ada loop over the elements of a SEQUENCE OF leaves out the WITH COMPONENT constraint"),
]
OPEN = [
 dict(id="F-C12-1", property="C12", keys=[r"\w+\|writes\|LoadXmlFile\.tmpBuffer", r"\w+\|writes\|PreviousState"], what="LoadXmlFile (helper that loads an XML file) keeps its state machine and its text buffer in static objects, so two files cannot be loaded concurrently; the handlers' signature offers no place for it"),
 dict(id="F-C03-1", property="C03", keys=[r"Acn_AlignToNext(Word|DWord)\|abort"], what="Acn_AlignToNextWord/DWord abort (assert) when a truncated input ends before the alignment boundary: the interface has no way to report it"),
 dict(id="F-C19-1", property="C19", keys=[r"Acn_AlignToNext(Word|DWord)\|abort"], what="Acn_AlignToNextWord/DWord abort (assert) when a truncated input ends before the alignment boundary (as F-C03-1)"),
 dict(id="F-C21-1", property="C21", keys=[r"Acn_AlignToNext(Word|DWord)\|abort"], what="Acn_AlignToNextWord/DWord abort (assert) when a truncated input ends before the alignment boundary (as F-C03-1)"),
 dict(id="F-C16-1", property="C16", keys=[r"BitStream_ReadBits_nullterminated\|(reject|accept|pos|value)"], what="a bit string that ends with a termination pattern is misread in streaming mode: BitStream_checkBitPatternPresent looks ahead by moving the position back, which is impossible when the pattern straddles a refill"),
 dict(id="F-T01-1", property="T01", keys=[r"(c|a|scala)\|(header|spec)\|Define_subType_sequence\|scope\|tests the unknown attribute arrsNullFieldsSavePos"], what="the type definition of a subtype of a SEQUENCE never declares the object for saved positions of NULL fields: Define_subType_sequence has no parameter arrsNullFieldsSavePos"),
 dict(id="F-T01-2", property="T01", keys=[r"a\|acn\|sequence_presence_optChild_pres_str_decode\|scope\|.*nIntVal", r"a\|spec\|Define_subType_ia5string\|scope\|.*arrnAlphaChars", r"a\|test_cases\|PrintSuite_call_codec_generate_dat_file\|scope\|.*sValue", r"a\|xer\|EmitTypeAssignment_encode\|scope\|.*bEmptyEncodingSpace"], what="Ada templates that use a parameter they do not have, so that the text is silently dropped"),
 dict(id="F-T01-3", property="T01", keys=[r"scala\|acn\|TwosComplement_ConstSize_decode\|scope\|.*psSsuffix", r"scala\|acn\|Real_32_(big|little)_endian_decode\|scope\|.*sSsuffix", r"scala\|acn\|bit_string_external_field_decode\|scope\|.*sTypedefName", r"scala\|acn\|(octet|bit)_string_containing_ext_field_func_decode\|scope\|.*pErrCode"], what="Scala ACN templates that use a parameter they do not have, so that the text (operation suffix, type name, error code) is silently dropped"),
 dict(id="F-T01-4", property="T01", keys=[r"c\|acn\|BCD_VarSize_(LengthEmbedded|NullTerminated)_decode\|suffix\|Acn_Dec_Int_BCD_VarSize_(LengthEmbedded|NullTerminated)Int(8|16|32)"], what="with narrow host integers (slim), a signed integer in a variable size BCD encoding calls a runtime function that does not exist"),
 dict(id="F-T01-5", property="T01", keys=[r"c\|uper\|IntFullyConstraint_decode\|suffix\|BitStream_DecodeConstraintWholeNumberUInt(8|16|32)"], what="with narrow host integers (slim), an extensible non-negative integer constraint calls a runtime function that does not exist"),
 dict(id="F-T01-6", property="T01", keys=[r"a\|acn\|BCD_VarSize_LengthEmbedded_(en|de)code\|name\|.*", r"a\|acn\|ASCII_VarSize_LengthEmbedded_decode\|name\|.*", r"a\|acn\|Acn_String_CharIndex_FixSize_(en|de)code\|name\|.*"], what="the Ada ACN templates of length-embedded BCD/ASCII integers and of fixed size strings over an alphabet call operations the Ada runtime does not have"),
 dict(id="F-T01-7", property="T01", keys=[r"a\|spec\|Declare_Asn1(LocalTime|UtcTime|LocalTimeWithTimeZone|Date|Date_LocalTime|Date_UtcTime|Date_LocalTimeWithTimeZone)\|name\|Asn1(LocalTime|UtcTime|TimeWithTimeZone|Date|DateLocalTime|DateUtcTime|DateTimeWithTimeZone)", r"a\|variables\|PrintTimeValueAsCompoundLiteral_Asn1\w+\|name\|Asn1(LocalTime|UtcTime|TimeWithTimeZone|Date|DateLocalTime|DateUtcTime|DateTimeWithTimeZone)"], what="the Ada templates of the date and time types use types the Ada runtime does not define"),
 dict(id="F-T01-8", property="T01", keys=[r"scala\|acn\|bit_string_containing_func_encode\|name\|BitStream_EncodeConstraintWholeNumber", r"scala\|uper\|ObjectIdentifier_decode\|name\|ObjectIdentifier_decode", r"scala\|uper\|RelativeOID_(en|de)code\|name\|RelativeOID_(en|de)code"], what="Scala templates call operations the Scala runtime does not have (BIT STRING CONTAINING, OBJECT IDENTIFIER, RELATIVE-OID)"),
 dict(id="F-T02-1", property="T02", keys=[r"a\|acn\|ASCII_VarSize_LengthEmbedded\|(pair|c\|decode)", r"a\|acn\|BCD_VarSize_LengthEmbedded\|c\|(en|de)code", r"a\|acn\|Acn_String_CharIndex_FixSize\|c\|(en|de)code"], what="Ada has no implementation of length-embedded BCD/ASCII integers and of fixed size strings over an alphabet (as F-T01-6)"),
 dict(id="F-T02-2", property="T02", keys=[r"scala\|acn\|bit_string_null_terminated\|(pair|c\|decode)", r"scala\|acn\|bit_string_containing_func\|(pair|c\|encode)", r"scala\|uper\|ObjectIdentifier\|(pair|c\|decode)", r"scala\|uper\|RelativeOID\|c\|(en|de)code", r"scala\|acn\|(octet|bit)_string_containing_deferred_embedded_func\|c\|(en|de)code"], what="Scala templates that are not implemented or call operations without counterpart (bit strings with terminator, CONTAINING, OBJECT IDENTIFIER, RELATIVE-OID)"),
]
fs = [dict(status="open", **f) for f in OPEN] + [dict(id="X-%s-%s" % (p, c), property=p, status="fixed", keys=[], what="fixed: property=%s %s %s" % (p, c, w)) for p, c, w in FIXED]
json.dump({"findings": fs}, open(os.path.join(V, "known_findings.json"), "w"), indent=1)
