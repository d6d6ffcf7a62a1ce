#!/usr/bin/env python3
"""Development aid: writes known_findings.jsonl from the tables below (run by hand; no check runs it)."""
import json, os
FIXED = [
 ('C10', '6bc78e1', 'first subidentifiers of 80 and more, component_number and malformed contents of OBJECT IDENTIFIERs'),
 ('C09', 'b38f85c', 'binary REALs were not decoded exactly and invalid contents were accepted'),
 ('C09', '0437c5c', 'an infinite REAL compared equal to finite values'),
 ('C15', '5512ffc', 'a tag number which does not fit a Tag overflowed'),
 ('C01', 'b4e1dba', 'a length close to the maximum wrapped and was taken for a short one'),
 ('C15', '62e6094', 'identifier_length of a tag number with leading zeros'),
 ('C16', '11d58ae', 'BerContainers copied, moved from or resized while holding no packet'),
 ('C16', '1740dd6', 'a moved-from FixedIdBerContainer kept the length of content it no longer held'),
 ('C05', '43ac884', 'data after the element inside an explicit tag was ignored'),
 ('C11', '0dbf738', 'text which is not a time was read as one, and local times as if they were universal'),
 ('C05', '19ace53', 'collections ignored malformed or truncated data after their last valid element'),
 ('C01', '79d5e71', 'decoding a CHOICE dereferenced an empty packet and ignored data after a wrapped alternative'),
 ('C07', 'ccf1729', 'CHOICE decoding selected alternatives by tag number whatever the class'),
 ('C14', '00302bf', 'DynamicVariant: self assignment, moved-from variants, throwing constructors'),
 ('C14', 'f70e17f', 'DynamicVariant operator< compared for equality'),
 ('C13', 'f21960b', 'assigning an lvalue to a DynamicVariant moved from it'),
 ('C14', '57b477b', 'DynamicVariant emplace with an initializer list and get of an rvalue did not compile'),
 ('C14', 'bab1020', 'comparing a DynamicOptional with a value dereferenced the value'),
 ('C21', '675cd26', 'Default::value did not compile'),
 ('C13', 'fbb4f67', 'SequenceOf move assignment copied and could throw'),
 ('C14', 'b833290', 'visiting an empty DynamicVariant threw an int'),
 ('C05', '9419157', 'an INTEGER or ENUMERATED without contents was accepted'),
 ('C13', 'd900d24', 'distinct REALs compared equal'),
 ('C01', 'e2bd5f9', 'a decimal REAL without digits read beyond its contents'),
 ('C07', 'adb091e', 'an explicitly tagged CHOICE was wrapped twice'),
 ('C06', 'acb2d76', 'tagged types lost their tags when they were SEQUENCE, SET or CHOICE'),
 ('C08', 'c47908e', 'a SET without components accepted components, and empty collections malformed data'),
 ('C19', '7664da1', 'the move assignment of a dynamic Optional did not compile'),
 ('C19', 'da62ee5', 'DEFAULTs of enumerated and imported values did not compile'),
 ('C19', '4ec4521', 'components named like their type, or like a local variable, did not compile'),
 ('C19', 'ec93de6', 'generated code could not be included in two translation units'),
 ('C21', '8e6787d', 'an OBJECT IDENTIFIER could not be assigned to one with another tag'),
 ('C21', '9fda274', 'ASN.1 values and enumeration numbers were translated to other values'),
 ('C06', 'c5817c4', 'AUTOMATIC TAGS were lost in references, and applied beside textual tags'),
 ('C23', 'b9484e4', 'ambiguous SEQUENCEs, repeated components and mismatched values were accepted'),
 ('C19', 'ba87d4c', 'components named like a library type hid it in the generated code'),
 ('C19', '105214a', 'a recursive CHOICE used from another module did not compile'),
 ('C06', '638b49c', 'references to types with two textual tags lost the tags'),
 ('C19', '3cb1c3d', 'references to ENUMERATEDs of other modules did not compile'),
 ('C01', '2317e30', 'comparing received messages terminated when they held GeneralizedTime text which is not a time'),
 ('C20', 'e31944e', 'COMPONENTS OF was dropped in SETs, in nested types and through references'),
 ('C06', '882f18b', 'extension alternatives of a CHOICE were put before the others'),
 ('C06', 'f69d71e', 'extension additions took the automatic tags of the components after them'),
 ('C20', 'fd36f33', 'the arguments of parameterized types were swapped'),
 ('C19', '9c5004c', 'recursive types through anonymous or later defined SEQUENCE OFs and CHOICEs did not compile'),
 ('C18', '80f2386', 'importing from an undefined module dereferenced the end of a map'),
 ('C19', 'c83f379', 'modules referenced without an import were emitted after their uses'),
 ('C20', '25d9b44', 'a NULL given to a parameterized type was taken for an ANY'),
 ('C20', '490a119', 'tags of dummy references are explicit'),
 ('C19', 'a39fbaf', 'references to the collections of a recursive CHOICE did not compile in some orders'),
 ('C19', '517d425', 'components named errno, stdin, stdout or stderr, and types named EOF, did not compile'),
 ('C19', 'ce5ee79', 'components named construction and types named AliasedType did not compile'),
 ('C14', 'd937d26', 'emplacing an lvalue in a Choice did not compile'),
 ('C14', '0189df8', 'creating a Choice or variant from an rvalue copied it, and terminated when the copy threw'),
 ('C14', 'd20cd70', 'assigning a Choice its own alternative used it after its destruction'),
 ('C14', 'e35cfd2', 'get of a temporary Choice, or by type of a dynamic one, and in_place construction of generated CHOICEs did not compile'),
 ('C16', '6d5a5b5', 'assigning a BerView to a BerContainer did not link'),
 ('C16', '822c894', 'a FixedIdBerContainer created from something else than its packet held no packet at all'),
 ('C17', '72fdf45', 'printing a string did not escape quotes and backslashes, and gave isprint negative characters'),
 ('C17', '76a0210', 'printing a GeneralizedTime did not quote it, and threw for received text which is not a time'),
 ('C17', '53688d8', 'printing a Real gave six digits only, and no JSON for infinity and NaN'),
 ('C17', 'd4fa5ae', 'the viewer printed nothing for REAL, default values for malformed primitives, and overflowed the stack on deep nesting'),
 ('C03', '1cd1e0b', 'T61String had the tag of VisibleString'),
 ('C19', '377671f', 'T61String was not among the types, and did not compile'),
 ('C19', 'eed321f', 'T61String was generated as T161String, which does not exist'),
 ('C17', '542e4b6', 'printing received text which is not a time left a stray quote'),
 ('C17', '38f3b57', 'the viewer was aborted when its input could not be read, like a directory'),
 ('C21', '86252a8', 'values given by named numbers of types of other modules, or through values which are named numbers, were refused'),
 ('C21', '150bc7f', 'a value defined by a reference to a value of another type was silently converted (BOOLEAN ::= int-ref)'),
 ('C21', 'eb81319', 'constants of an unnamed ENUMERATED were generated with an undeclared enumeration'),
 ('C21', '781cceb', 'a Default created from an object of its type compared it with a default not yet initialized'),
 ('C18', '888b54b', 'a failed compilation left empty or incomplete output files, and failures to write the output were not reported'),
 ('C23', 'a5fb4ec', 'importing a value which is not defined generated invalid code'),
 ('C23', 'b2fec43', 'parameterized types and imported values of the same name were not refused'),
 ('C23', 'ae60d79', 'a tag written as UNIVERSAL was not seen to be that of a built-in type, so that ambiguous CHOICEs and SETs were accepted'),
 ('C23', '2899d6a', 'named numbers and named bits which are duplicated or refer to undefined values were not refused'),
 ('C23', '03a65e7', 'undefined types in parameterized types and arguments which are not used were not refused'),
 ('C18', '878f680', 'the lexer read past the end of files which end in a comment, and past an unfinished block comment'),
 ('C18', 'fdce3f9', 'a value of a SET OF an unnamed type dereferenced a null pointer'),
 ('C18', '9a10706', 'COMPONENTS OF took exponential time'),
 ('C18', '6dcc86a', 'object identifiers made of others took exponential time, and an enumeration item after the largest number overflowed'),
 ('C18', '618e000', 'COMPONENTS OF the same type twice, level by level, used all memory before it was refused'),
 ('C18', '8e0e346', 'long runs of white space or comments exhausted the stack of the compiler'),
 ('C19', '17d6cd0', 'COMPONENTS OF within the type of an inherited component was left unresolved and the compiler aborted'),
 ('C19', 'cfb85ec', 'recursion through a SEQUENCE or SET defined in place was refused'),
 ('C19', '1a88ae6', 'CHOICEs named args, u or exactlyOnce did not compile'),
]
KNOWN = [
 ('C19', 'limit:recursive-sequence-in-choice', 'Message ::= CHOICE { pair SEQUENCE { l Message, r Message }, none NULL }: the generated C++ does not compile, as the alternative is defined within the type it contains'),
 ('C19', 'limit:recursive-sequence-in-choice-in-sequence', 'Message ::= SEQUENCE { op CHOICE { not SEQUENCE { l Message }, none NULL } }: the generated C++ does not compile, for the same reason'),
 ('C19', 'limit:type-named-like-values-of-enumerated', 'an ENUMERATED Colour beside a type ColourValues: the generated C++ defines ColourValues twice'),
 ('C19', 'limit:type-named-unnamed-sequence', 'a type UnnamedSequence0 beside a SEQUENCE OF SEQUENCE, for which the compiler makes up the same name, is refused'),
 ('C18', 'crash:stack-overflow-very-deep', 'a type nested about 1000 levels deep overflows the stack of the compiler, which handles types recursively without a limit'),
 ('C01', 'deep-nesting:seq:crash:stack-overflow', 'decoding 100000 nested levels of a recursive SEQUENCE (SysNB.Listing) exhausts an 8 MB stack: generated decoders recurse without a limit'),
 ('C06', 'generated:three-tags:encoding', 'a type with three tags (ThreeTags.Request ::= [5] Ticket, Ticket ::= [APPLICATION 1] SEQUENCE, EXPLICIT TAGS) is encoded without the middle tag: the compiler keeps an outer and an inner tag only'),
 ('C07', 'generated:three-tags:valid-refused', 'valid encodings of a type with three tags (ThreeTags.Request) are refused, as the compiler keeps an outer and an inner tag only'),
 ('C11', 'time-text:offset-ignored', 'a received GeneralizedTime with an offset reads as if the offset were zero (GeneralizedTime::time drops the last five characters; GeneralizedTimeTest pins it)'),
 ('C11', 'time:set-with-offset-writes-utc', 'GeneralizedTime::set_time(time, offset) writes the UTC time followed by the offset instead of the local time (GeneralizedTimeTest pins it)'),
 ('C11', 'utctime:four-digit-year', 'UTCTime is an alias of GeneralizedTime and is written with a four-digit year (dates and times are listed as unsupported in the README)'),
 ('C16', 'container:small-of-128:crash:ABRT', 'a SmallFixedIdBerContainer declared for 128 octets of content (BerContainerTest pins that this is allowed) cannot hold 128: its length octet has room for 127, and the assertion view().is_valid() fails'),
 ('C23', 'accepted:undefined-value-object-identifier-arc', 'an undefined name as an arc of an OBJECT IDENTIFIER value gives the arc 0 and a warning instead of an error (testfiles/object_identifier.asn relies on it)'),
 ('C11', 'utctime:two-digit-year-unreadable', 'a received UTCTime cannot be read: time() throws'),
]
with open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'known_findings.jsonl'), 'w') as f:
    for p, c, w in FIXED:
        f.write(json.dumps({'property': p, 'status': 'fixed', 'commit': c, 'what': 'fixed: property=%s %s %s' % (p, c, w)}) + '\n')
    for p, k, w in KNOWN:
        f.write(json.dumps({'property': p, 'status': 'known', 'key': k, 'what': w}) + '\n')
