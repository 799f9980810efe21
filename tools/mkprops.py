#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one place to edit the statements)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, observe, state=None):
    P.append({"id": id, "title": title, "statement": statement,
      "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why,
      "anchors": {"files": files, "state": state or [], "mechanism": [{"name": n, "where": w} for n, w in mech],
                  "observe_at": observe, "hook_needed": None}})
D='src/basic/parser/decode.rs'; M='src/basic/parser/mod.rs'; C='src/basic/parser/class.rs'; ME='src/basic/parser/method.rs'
CO='src/basic/parser/code.rs'; A='src/basic/parser/annotation.rs'; CP='src/basic/constpool.rs'; T='src/basic/tree.rs'; TY='src/types.rs'; R='src/result.rs'

p("C01","Parsing any byte string ends in a value or an error, never in a crash",
 "For every byte string, parsing it as a class file terminates and returns either a class with its constant pool or an error value: it never panics, never overflows an integer, never indexes out of bounds and never recurses without bound. The depth of nested attributes and element values that is followed is bounded by a constant, so the stack needed does not grow with the input.",
 ["inputs"], "all byte strings of any length (a 64-bit address space is assumed)",
 "No test calls the class parser at all; the unit tests read a few literal integers and one ASCII string through the decoder. The claim ranges over all malformed inputs.",
 [D,M,C,ME,CO,A,CP],
 [("limit check before every read; depth bound on nested structures", D),("every reader is built from those reads", M+", "+C+", "+ME+", "+CO+", "+A)],
 ["return value of the class parser","panic, abort or hang of the calling thread"],
 [{"name":"cursor, limit, depth","meaning":"position <= limit <= input length; depth <= 64","where":D}])
p("C02","Memory reserved ahead of reading is bounded",
 "For every byte string, whatever counts and lengths it claims, the parser never reserves room for more than 65,535 elements of a table ahead of reading them, and never reserves more bytes for a string than 65,535 or than the input has left, whichever is larger. A 32-bit count or length from the input is never trusted for reserving memory. Room reserved for a table is used: once a table has been read, at most 256 entries of it are vacant, so the memory a parsed class holds is at most proportional to the input.",
 ["inputs"], "all byte strings; every reservation of capacity made while parsing",
 "Only adversarial counts reveal it, and no test feeds the parser any.",
 [D,M,C,ME,CO,A], [("table counts are u16 or u8; switch tables grow as they are read; a string's length was checked against the limit", CO+", "+M+", "+D)],
 ["allocation size requests during parsing", "memory held by the result"])
p("C03","Class header, interfaces, fields and methods are decoded exactly",
 "For every byte string that is accepted, the returned class carries exactly the minor and major version, access flags, class and superclass index, interface list, fields and methods (each with flags, name and descriptor index) and their attribute lists that the class file format (JVMS chapter 4) assigns to these bytes, in order and complete. A byte string whose first four bytes are not CAFEBABE, or which ends before any of these, is rejected.",
 ["inputs"], "all byte strings; every number of interfaces, fields, methods and attributes",
 "No test parses a class file; the number and content of members is unbounded.",
 [M,D,T], [("reads of the header fields and the three member tables in file order", M),("fixed-width big-endian reads", D)],
 ["fields of the returned class"])
p("C04","The constant pool keeps every entry at its class file index",
 "For every accepted byte string, looking up index i in the returned pool gives exactly the constant that the class file stores at index i (kind and content, including duplicates), the second slot of each long or double and index 0 hold nothing, and the pool's length equals the declared count (1 for a declared count of 0). A byte string with an unknown constant tag, an invalid method handle kind, a long or double that does not fit in the declared count, or a truncated pool is rejected.",
 ["inputs"], "all byte strings; all pool sizes up to 65535 and all sequences of constants, duplicates included",
 "The tests push five items on an empty pool by hand and never read one from a class file.",
 [M,CP,D], [("tag dispatch loop that fills the pool until its length reaches the count", M),("append without deduplication, two slots for long and double", CP)],
 ["item returned for each index of the returned pool","length of the returned pool"])
p("C05","Modified UTF-8 strings are decoded exactly and bad ones are rejected",
 "For every encoded string in a class file, the decoded text is exactly the sequence of code points its modified UTF-8 bytes stand for (one, two and three byte forms, and a surrogate pair in two three byte forms for a supplementary code point), using exactly the declared number of bytes. A string with a zero byte, an invalid lead or continuation byte, a form cut off by the declared length, or an unpaired surrogate is rejected.",
 ["inputs"], "all byte sequences of any declared length (overlong forms are taken at face value)",
 "One test decodes one ASCII string; multi-byte forms, surrogate pairs and malformed forms are never sampled.",
 [D], [("the decoding loop over lead bytes and the continuation byte check", D)], ["UTF8 constants of the returned pool","SourceDebugExtension text"])
p("C06","Length-delimited content is read only from its declared bytes",
 "For every byte string, the content of an attribute or of a method's code is decoded only from the bytes its own length declares, nested structures only from the bytes of their parents, and it must use them up exactly. If the content needs more or fewer bytes than declared, or the declared length exceeds what is left, the whole byte string is rejected; the next item always starts right after the declared end.",
 ["inputs"], "all byte strings, all nestings of length-delimited structures",
 "It relates the declared length, the content and the position of what follows; tests never set a limit on the decoder.",
 [D,M,CO], [("limited sub-decoder and its removal", D),("attribute loop", M),("code array", CO)],
 ["acceptance or rejection by the class parser","content of the attributes after a delimited one"],
 [{"name":"limit","meaning":"end of the innermost delimited structure","where":D}])
p("C07","Every bytecode instruction is decoded exactly",
 "For every opcode, operand bytes and code offset, the decoded instruction is the one the JVM specification assigns: kind, operands with their width and signedness, wide forms, and the alignment padding, bounds and pairs of the two switch instructions; it consumes exactly the bytes of that instruction. Unassigned opcodes, invalid wide or newarray operands, a tableswitch with low above high, and instructions cut off by the end of the code are rejected.",
 ["inputs"], "all 256 opcodes, all operand bytes, all offsets modulo 4, all switch sizes",
 "No test decodes an instruction; there are some 220 forms and switches have unbounded size.",
 [CO,D,T], [("opcode dispatch", CO)], ["instructions of Code attributes"])
p("C08","Code attributes: instructions tile the code array, tables are exact",
 "For every accepted Code attribute, the instruction map has exactly one entry for the offset of each instruction obtained by decoding the code array from offset 0 without gap or overlap up to exactly its end, and nothing else. Maximum stack and locals, the exception table and the nested attributes are exactly those in the file, in order; an empty code array, or one whose last instruction does not end at its end, is rejected.",
 ["inputs"], "all code arrays of all lengths and all exception tables",
 "The claim is about the whole instruction sequence, of unbounded length; no test parses a Code attribute.",
 [CO,M,D], [("decode loop keyed by code offset", CO)], ["Code attributes of the returned class"])
p("C09","StackMapTable frames are decoded exactly",
 "For every StackMapTable attribute, each frame is decoded to the kind, offset delta, chop count and verification types that its bytes stand for under the class file format, in order. Reserved frame types, unknown verification type tags and truncated frames are rejected.",
 ["inputs"], "all 256 frame types, all verification type lists, all table sizes",
 "No test touches stack map frames.",
 [ME,M,D,T], [("frame type dispatch", ME),("verification type dispatch", ME)], ["StackMapTable attributes of the returned class"])
p("C10","Annotations and element values are decoded exactly",
 "For every annotation attribute (visible or invisible, on declarations or parameters, and annotation defaults), the decoded annotations equal those its bytes stand for: type index, every name and value pair in order, and values of every tag including enums, nested annotations and arrays, up to the supported nesting depth. Unknown value tags and truncated data are rejected.",
 ["inputs"], "all annotation byte strings, nested to any supported depth",
 "The structure is recursive and no test decodes any annotation.",
 [A,M,D,T], [("recursive element value reader", A)], ["annotation attributes of the returned class"])
p("C11","Type annotations: targets, paths and annotations are decoded exactly",
 "For every type annotation attribute, each entry's target type, target operands, type path and annotation equal what the class file format assigns to its bytes, in order. Unknown target types, unknown type path kinds and truncated data are rejected.",
 ["inputs"], "all 256 target types, all operands, paths and tables",
 "No test decodes a type annotation.",
 [A,M,D,T], [("target type dispatch, local variable table, type path", A)], ["type annotation attributes of the returned class"])
p("C12","Each attribute becomes the variant its name calls for, unknown ones verbatim",
 "For every accepted class, each attribute table yields one attribute per entry in file order, whose kind is determined by the UTF8 constant its name index refers to and whose content is that entry's content. An attribute with any other name is returned unchanged: its name index and exactly its bytes; a name index that is not a UTF8 constant makes the class file rejected.",
 ["inputs"], "all names, all contents, all table sizes, at class, field, method and code level",
 "Names and contents are unbounded and no test parses an attribute.",
 [M,D,CP], [("name dispatch in the attribute loop", M)], ["attribute lists of the returned class"])
p("C13","Method and debug tables are decoded exactly",
 "For every accepted class, the line number, local variable, local variable type, declared exception and method parameter tables equal entry by entry, field by field and in order what the class file format assigns to their bytes. The number of entries equals the declared count (one byte for method parameters, two bytes for the others), and truncated tables are rejected.",
 ["inputs"], "all table sizes and all entry contents",
 "No test decodes any of these tables.",
 [ME,M,D,T], [("one counted loop per table", ME)], ["LineNumberTable, LocalVariableTable, LocalVariableTypeTable, Exceptions and MethodParameters attributes"])
p("C14","Class and member level attributes are decoded exactly",
 "For every accepted class, bootstrap methods with their arguments, inner classes with their flags, the enclosing method, constant value, signature, source file, source debug extension, deprecated and synthetic markers equal what the class file format assigns to their bytes. Every entry is present once, in order, with the declared number of arguments, and truncated content is rejected.",
 ["inputs"], "all table sizes and all entry contents, bootstrap argument lists of any size",
 "No test decodes any of these attributes.",
 [C,M,D,T], [("one counted loop per table", C),("single-field attributes", M)], ["BootstrapMethods, InnerClasses, EnclosingMethod, ConstantValue, Signature, SourceFile, SourceDebugExtension, Deprecated and Synthetic attributes"])
p("C15","Module attributes are decoded exactly",
 "For every accepted class, the Module attribute's name, flags, version, and its requires, exports, opens, uses and provides tables with all nested lists, as well as the ModulePackages and ModuleMainClass attributes, equal what the class file format assigns to their bytes, in order and complete. Truncated content is rejected.",
 ["inputs"], "all table sizes, nested list sizes and contents",
 "No test decodes a module attribute.",
 [C,M,D,T], [("five counted loops, three of them nested", C)], ["Module, ModulePackages and ModuleMainClass attributes"])
p("C16","Pushing to a constant pool deduplicates and never moves an entry",
 "For every history of pushes on a pool, pushing an item that is already present returns the index of the first equal item and changes nothing; pushing a new item returns the previous length, stores the item there, and grows the length by one (two for long and double). Every index handed out keeps referring to an equal item for ever, and a push fails, changing nothing, exactly when a new item does not fit into 65,535 slots; equality and size of items are as for class files (floats by bits).",
 ["histories","inputs"], "all sequences of pushes of any items, up to and including a full pool, starting from any way to create a pool or from a parsed pool",
 "One test pushes five items; the interesting states (full pool, last free slot, many duplicates) need tens of thousands of pushes.",
 [CP], [("lookup by entry, then append", CP)], ["index returned by push","length and items of the pool afterwards"],
 [{"name":"by_index, by_entry, length","meaning":"length = 1 + slots; by_entry maps each item to its first index","where":CP}])
p("C17","Constant pool lookups return the entry or an error naming the index",
 "For every pool and every index, a lookup returns the stored item exactly if the index is a first slot in use, and otherwise an error that names the index (for 0, the second slot of a long or double, and everything past the end). A text lookup returns the text of a UTF8 item, a class name lookup the text the class item refers to (optionally nothing for a class item referring to index 0), and an error naming the offending index for items of another kind.",
 ["inputs","histories"], "all 65536 indices of all pools",
 "The test looks up four valid indices only.",
 [CP], [("bounds check on the 1-based index", CP)], ["results of the four lookup functions"])
p("C18","Iterating a pool yields every item once, with its index, in order",
 "For every pool, iterating it yields exactly the used first slots in ascending order, each once, paired with the index under which a lookup returns that same item, and then ends. The second slots of longs and doubles are never yielded.",
 ["histories","inputs"], "all pools, mixtures of one and two slot items of any size",
 "The only test of iteration is commented out.",
 [CP], [("iterator that counts slots and skips empty ones", CP)], ["sequence of pairs produced by the iterator"])
p("C19","Item equality is identity of content, and equal items hash equally",
 "For all pairs of constant pool items, they compare equal exactly if they are of the same kind and all their contents are the same, where floats and doubles compare by bit pattern (so a NaN equals itself and 0.0 differs from -0.0). Equal items always produce the same hash, so equality is an equivalence that hash maps can rely on.",
 ["inputs"], "all pairs of items, all float bit patterns",
 "The tests compare four items to themselves.",
 [CP], [("hand-written equality and hash", CP)], ["== on items","hash of items"])
p("C20","Type descriptors: exactly the grammar is accepted, with the right value",
 "For every string, parsing it as a type descriptor succeeds exactly if it is zero to 255 '[' followed by one of Z B S I J F D C, or by 'L', a non-empty name without ';', and ';', with nothing after it. The result has that number of dimensions and that base type or name; it never panics.",
 ["inputs"], "all strings, any length, any characters",
 "Tests sample some 13 strings out of infinitely many.",
 [TY], [("character loop", TY)], ["result of parsing a type descriptor"])
p("C21","Method descriptors: exactly the grammar is accepted, with the right value",
 "For every string, parsing it as a method descriptor succeeds exactly if it is '(' followed by zero to 255 type descriptors, ')' and then one type descriptor or 'V', with nothing after it. The result has exactly these parameter types in order and this return type (none for 'V'); it never panics.",
 ["inputs"], "all strings, any number of parameters",
 "Tests sample some 20 strings out of infinitely many.",
 [TY], [("state machine over characters", TY)], ["result of parsing a method descriptor"])
p("C22","Printing and parsing descriptors are inverse to each other",
 "For every type descriptor or method descriptor that parsing can produce, printing it and parsing the text again gives an equal descriptor. Conversely, for every accepted string, printing the parsed descriptor gives exactly that string.",
 ["inputs"], "all descriptors and all accepted strings",
 "Tests never print and reparse; the documentation examples print two of them.",
 [TY], [("printing of the two descriptors", TY),("parsing of the two descriptors", TY)], ["printed text","descriptor parsed from it"])
p("C23","Access flags keep exactly the bits the class file format defines",
 "For every 16-bit flag word in a class file, the decoded access flags contain exactly the bits of that word (all sixteen bits have a meaning). Each named flag stands for the bit that the class file format assigns to it.",
 ["inputs"], "all 65536 flag words in each of the places where flags occur",
 "No test reads a flag word or looks at a flag's value.",
 [T,M,C,ME], [("flag definitions", T),("conversion that drops undefined bits", M+", "+C+", "+ME)], ["access flags in the returned class"])
p("C24","Parse errors say what is wrong with the bytes",
 "For every rejected byte string, the error tells the truth about the first offending place in file order: 'not a class' only for a wrong magic number; an unknown opcode, frame type, verification tag, element value tag or constant index error carries the value or index found there, an instruction error also its offset in the code. A length error is reported only when data is missing, left over or nested too deeply, and an invalid text error only for malformed text.",
 ["inputs"], "all rejected byte strings",
 "No test looks at the content of an error, nor rejects a class file.",
 [R,M,CO,ME,A,D,CP], [("error construction at each dispatch", M+", "+CO+", "+ME+", "+A+", "+D)], ["error returned by the class parser"])
p("C25","Descriptor errors echo the input and point into it",
 "For every string that is rejected as a type or method descriptor, the error contains exactly the given string and a position that is not larger than its number of characters.",
 ["inputs"], "all rejected strings",
 "Tests only check that an error occurs.",
 [TY,R], [("error construction", TY)], ["error returned when parsing a descriptor"])
p("C26","Only complete class files are accepted, and what follows them is ignored",
 "If a byte string is accepted, then there is a length such that every shorter prefix is rejected, and every byte string sharing that prefix is accepted with an equal result. So a truncated class file is never accepted, and the result never depends on bytes beyond its end.",
 ["inputs"], "all accepted byte strings, all their prefixes and all continuations",
 "It relates pairs of inputs (hyperproperty); no test parses even one class file.",
 [M,D], [("all content is read through the bounds-checked cursor from front to back", D)], ["acceptance and result of the class parser on related inputs"])
out=os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),'properties.jsonl')
with open(out,'w') as f:
    for x in P: f.write(json.dumps(x)+"\n")
for x in P:
    assert len(x['title'])<=80,(x['id'],len(x['title']))
print(len(P))
