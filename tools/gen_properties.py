#!/usr/bin/env python3
"""Source of /verif/properties.jsonl (kept as a script because one JSON object per line is hard to edit)."""
import json, os
L = "src/libiff/"
P = []
def p(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=[L+f if "/" not in f else f for f in files],
            state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
            mechanism=[dict(name=n, where=w) for n, w in mech],
            observe_at=list(observe), hook_needed=hook)))

p("C01", "Reading arbitrary bytes is memory-safe and total",
  "For every byte sequence offered to the reader, however malformed, reading terminates and returns either a chunk hierarchy or failure without touching memory it does not own, using uninitialised memory or performing undefined arithmetic. Any hierarchy that was returned can afterwards be checked, compared, searched, printed, written and freed with the same guarantee.",
  ["inputs"], "every file content up to the stated length, every declared size (32 bits), every chunk id",
  "The tests read about a dozen fixed, mostly well-formed files; hostile sizes, ids and nestings are an input space no sample covers.",
  ["chunk.c","group.c","list.c","rawchunk.c","io.c","field.c","iff.c","chunkregistry.c"],
  [("chunk dispatch by id, body read, skip, pad","chunk.c readChunkBody"),("sub chunk loops","group.c/list.c"),("raw body allocation and read","rawchunk.c")],
  observe=["IFF_readFd/IFF_read return value","process memory behaviour"])
p("C02", "The parsed hierarchy is exactly what the bytes denote",
  "When a file is read successfully, the hierarchy has one chunk for each encoded chunk, in file order and at the same nesting, with the encoded id, declared size, group type and data bytes; shared-property groups of a list are kept apart from its other members, and every member knows its parent. A file that does encode complete, properly nested chunks is never refused.",
  ["inputs"], "every file content up to the stated length",
  "Tests compare a handful of hand-made files; they cannot show that no other content is mis-parsed.",
  ["chunk.c","group.c","list.c","rawchunk.c","io.c"],
  [("recursive descent over chunks","chunk.c IFF_readChunk"),("group sub chunk loop with padded size accounting","group.c readGroupSubChunks, IFF_incrementChunkSize"),("PROP separation","list.c readListSubChunks")],
  observe=["fields of the returned chunk structs"])
p("C03", "A file that ends or fails early is refused, whole",
  "If the stream ends or reports a read error anywhere before the last byte of the main chunk (its padding byte included), reading fails and returns no hierarchy. No memory obtained for the partial hierarchy is kept.",
  ["inputs","fault_sequences"], "every file content, every cut position, every read operation that may fail",
  "Tests contain no truncated file for most positions and never inject a read error.",
  ["chunk.c","group.c","list.c","rawchunk.c","io.c","field.c","iff.c"],
  [("EOF/short read checks","io.c, rawchunk.c IFF_readRawChunk"),("freeing of partial chunks","chunk.c readChunkBody")],
  observe=["IFF_readFd/IFF_readFile return value","outstanding allocations"])
p("C04", "A chunk occupies exactly its declared extent",
  "Reading a chunk whose contents fit its declared size consumes exactly the 8-byte header, the declared number of bytes and one padding byte if that number is odd, no matter whether the chunk's type is known, how many fields its handler understands, or how large it is. The chunk that follows is therefore always found, and negative declared sizes are refused.",
  ["inputs","programs"], "every declared 32-bit size, every handler that understands fewer or more bytes than present",
  "Tests use sizes below 20 bytes and four extension variants.",
  ["chunk.c","io.c","group.c","field.c"],
  [("skip of unknown trailing bytes","io.c IFF_skipUnknownBytes"),("pad byte","io.c IFF_readPaddingByte"),("field fits test","field.c")],
  observe=["stream position after IFF_readChunk"])
p("C05", "The writer emits the canonical IFF encoding",
  "Writing a hierarchy emits, for every chunk, the id, the declared size and the body in high-byte-first order, group members in order with a list's shared properties first, zero bytes up to the declared size where the contents are shorter, and one zero padding byte after odd sizes - nothing else. Writing a conforming hierarchy succeeds whenever the output accepts the bytes.",
  ["inputs"], "every hierarchy within the stated number of chunks, every id, type, size and data byte",
  "Tests write nine fixed hierarchies and only compare them after reading them back with the same library.",
  ["chunk.c","group.c","list.c","rawchunk.c","io.c","field.c"],
  [("header/body/filler/pad sequence","chunk.c IFF_writeChunk"),("filler","io.c IFF_writeZeroFillerBytes"),("pad","io.c IFF_writePaddingByte")],
  observe=["bytes passed to the output stream"])
p("C06", "Writing then reading gives back an equal hierarchy",
  "For every hierarchy that passes the conformance check, reading what the writer produced succeeds and gives a hierarchy that the library's comparison calls equal and that has the same structure, types, sizes and data.",
  ["inputs"], "every conforming hierarchy within the stated number of chunks",
  "Tests round-trip nine hierarchies.",
  ["iff.c","chunk.c","group.c","list.c","rawchunk.c","io.c"],
  [("symmetry of read and write paths","group.c, list.c, rawchunk.c")],
  observe=["IFF_compare of original and re-read hierarchy"])
p("C07", "Reading then writing reproduces the file",
  "For every file that is read successfully, passes the conformance check, keeps the shared properties of its lists before other members and has zero padding bytes, writing the hierarchy reproduces the main chunk of the file byte for byte.",
  ["inputs"], "every file content up to the stated length",
  "Tests never compare output bytes with input bytes.",
  ["chunk.c","group.c","list.c","rawchunk.c","io.c"],
  [("symmetry of read and write paths","group.c, list.c, rawchunk.c")],
  observe=["bytes written after IFF_read"])
p("C08", "A write that did not fully succeed is reported",
  "Writing a hierarchy reports success only if every byte was accepted by the output and, when the library opened the output itself, closing it succeeded too. Any failing output operation, at any position, makes the write report failure, and the output is closed in either case.",
  ["fault_sequences","inputs"], "every output operation (open, each write, close) may fail, in every hierarchy within bounds",
  "Tests write to a healthy disk only.",
  ["iff.c","chunk.c","group.c","list.c","rawchunk.c","io.c","field.c"],
  [("status propagation","chunk.c IFF_writeChunk, group.c, list.c"),("open/close","iff.c IFF_writeFile")],
  observe=["IFF_write/IFF_writeFd return value"])
p("C09", "Integers are stored high byte first and survive a round trip",
  "Each primitive reader returns exactly the value its byte sequence denotes as a high-byte-first two's complement number, each primitive writer emits exactly that sequence, for every value of every width and signedness. On a failed or short transfer they report failure and nothing else is consumed or claimed.",
  ["inputs","fault_sequences"], "all 2^8, 2^16 and 2^32 values of every primitive type, every short stream",
  "Tests exercise a few small sizes and one 16-bit field.",
  ["io.c","id.c"], [("byte swapping read/write","io.c IFF_readUWord...IFF_writeLong"),("ids","id.c IFF_readId, IFF_writeId")],
  observe=["values and bytes at the io.h functions"])
p("C10", "A field is transferred only if it fits its chunk",
  "Reading or writing a field transfers it exactly when the chunk still has room for the whole field at the current position, and then advances the position by the field's size. Otherwise nothing is transferred, the position and the destination stay unchanged and the caller is told that the fields have ended; a failing transfer is told apart from both.",
  ["inputs","fault_sequences"], "every declared size and position (32 bits), every field type, every transfer failure",
  "Tests cover three truncation variants of one chunk type.",
  ["field.c"], [("fits test","field.c fieldDoesNotFitInChunk"),("counter","field.c increaseBytesProcessed")],
  observe=["IFF_FieldStatus, counter, destination and stream position"])
p("C11", "Id validity is decided correctly for every id",
  "A 4-character id is accepted as valid exactly when all four characters lie between 0x20 and 0x7E and the first one is not a space. Converting an id to characters and storing or printing it gives those four characters in order.",
  ["inputs"], "all 2^32 ids", "Two invalid ids are tested out of 2^32.",
  ["id.c","id.h","error.c"], [("character range loop","id.c IFF_checkId"),("conversion","id.c IFF_idToString")],
  observe=["IFF_checkId result","IFF_idToString output"])
p("C12", "Form type validity is decided correctly for every id",
  "A form type is accepted exactly when it is a valid id, contains no lower case letter and no punctuation mark, and is none of the reserved ids (the group ids LIST, FORM, PROP and CAT, the blank type JJJJ, and the reserved revisions LIS1-LIS9, FOR1-FOR9 and CAT1-CAT9).",
  ["inputs"], "all 2^32 form types", "Four invalid form types are tested out of 2^32.",
  ["form.c"], [("character and reserved id test","form.c IFF_checkFormType")],
  observe=["IFF_checkFormType result"])
p("C13", "The conformance check enforces the composition rules exactly",
  "A hierarchy is declared conforming only if its root is a FORM, CAT or LIST, every id and type in it is valid, no FORM or CAT contains shared-property groups, shared-property groups contain only data chunks, and CATs and LISTs contain only FORMs, CATs and LISTs whose type equals the contents type unless that is the wildcard. A hierarchy that satisfies these rules and whose sizes are consistent is always declared conforming, at any nesting.",
  ["inputs"], "every hierarchy within the stated number of chunks, every id and type",
  "About fifteen fixed files are tested; rule violations deep in a hierarchy or combined are not.",
  ["iff.c","chunk.c","group.c","form.c","cat.c","list.c","prop.c"],
  [("per-kind checks","form.c, cat.c, list.c, prop.c"),("recursion","group.c IFF_checkGroupSubChunks")],
  observe=["IFF_check result"])
p("C14", "The conformance check requires every declared size to be right",
  "A hierarchy is declared conforming only if no declared size is negative and every group's declared size equals its type field plus the padded extents of all its members, however deep the group; otherwise it is declared non-conforming.",
  ["inputs"], "every 32-bit declared size of every chunk in hierarchies within the stated number of chunks",
  "Six fixed wrong sizes are tested.",
  ["group.c","list.c","chunk.c"], [("size recomputation","group.c IFF_checkGroup, IFF_incrementChunkSize; list.c IFF_checkList")],
  observe=["IFF_check result"])
p("C15", "Comparison is exact structural equality",
  "Comparing two hierarchies yields true exactly when they have the same chunks in the same places with the same ids, sizes, types and data; any single difference anywhere yields false, and the answer does not depend on the order of the arguments.",
  ["inputs"], "every pair of hierarchies within the stated number of chunks",
  "Tests only compare hierarchies that are expected to be equal.",
  ["chunk.c","group.c","list.c","rawchunk.c"], [("recursive comparison","chunk.c IFF_compareChunk, group.c IFF_compareGroup, list.c IFF_compareList")],
  observe=["IFF_compare result"])
p("C16", "Composing keeps sizes, order and parents right",
  "After any sequence of additions to FORMs, CATs, LISTs and shared-property groups, in which members are complete when they are added, each group lists its members in the order they were added, each member names that group as its parent, and the group's declared size equals its type field plus the padded extents of its members. After members have changed size, recalculating from a chunk repairs the declared size of that chunk and of every enclosing group up to the root.",
  ["histories","inputs"], "every sequence of additions within bounds, every member size",
  "One fixed update scenario and a few fixed compositions are tested.",
  ["group.c","form.c","cat.c","list.c","prop.c"], [("accounting","group.c IFF_addToGroup, IFF_incrementChunkSize"),("recalculation","group.c IFF_updateChunkSizes")],
  observe=["chunkSize, chunkLength, chunk, prop, parent members"])
p("C17", "The contents type of a concatenation follows its members",
  "When members are added with contents-type upkeep, a CAT or LIST ends up with the common type of all its group members, or with the wildcard as soon as two of them differ, whatever the order and number of additions. The result passes the conformance check's contents rule.",
  ["histories","inputs"], "every sequence of additions within bounds, every member type",
  "Only joining two equal or two different files is tested.",
  ["cat.c","list.c"], [("type upkeep","cat.c updateContentsType")], observe=["contentsType member"])
p("C18", "Form search finds exactly the matching forms, in order",
  "Searching a hierarchy for a set of form types returns each FORM of one of these types that is not itself inside a returned FORM, exactly once and in document order, through any nesting of FORMs, CATs and LISTs; the reported count matches and nothing else is returned.",
  ["inputs"], "every hierarchy within the stated number of chunks, every set of types within bounds",
  "Three fixed hierarchies are searched.",
  ["group.c","form.c","cat.c","list.c"], [("recursive search and merge","group.c IFF_searchFormsInGroup, form.c IFF_mergeFormArray")],
  observe=["IFF_searchForms result and length"])
p("C19", "Shared properties resolve from the innermost scope outwards",
  "Looking up a property of a FORM returns the FORM's own first chunk with that id if it has one, otherwise the one in the shared-property group for the FORM's type of the innermost enclosing LIST that supplies it, and nothing if no enclosing LIST does. Properties of other form types, of sibling lists or of inner lists are never returned.",
  ["inputs"], "every nesting within bounds, every id and type",
  "Four fixed nestings are tested.",
  ["form.c","list.c","prop.c"], [("scope walk","form.c searchProperty, searchList"),("lookup","list.c IFF_getPropFromList, prop.c IFF_getChunkFromProp")],
  observe=["IFF_getChunkFromForm result"])
p("C20", "Collecting repeated chunks of a form is exact",
  "Collecting all chunks with a given id from a FORM returns all of its direct members with that id, in order, with the right count, and nothing when there is none; retrieving a single one returns the first.",
  ["inputs"], "every form within the stated number of members, every id",
  "No test calls the collecting lookup.",
  ["form.c"], [("collection","form.c IFF_getChunksFromForm, IFF_getDataChunkFromForm")],
  observe=["returned array and length"])
p("C21", "A chunk's handler is chosen by scope, then globally, then default",
  "For every well-ordered registry, the handler used for a chunk is the one registered for its id under the enclosing form type or the chain of that type's parent tables, failing that the one registered for the id globally, and failing that the default. No other handler is ever used, and without a match in a form's own tables group chunks keep their standard meaning.",
  ["inputs","configurations"], "every sorted registry within the stated number of types, every form type and id",
  "Tests use one registry with one form type and two chunk types.",
  ["chunkregistry.c","defaultregistry.c","defaultregistry.h"], [("binary searches","chunkregistry.c getFormChunkTypes, getChunkType"),("fallback","chunkregistry.c IFF_findChunkType")],
  observe=["IFF_findChunkType result","which callbacks run"])
p("C22", "Application chunks tolerate shorter and longer versions",
  "An application chunk that is shorter than its handler's fields is read with the missing fields left at their defaults, one that is longer has its unknown tail skipped on reading and zero-filled on writing, and in both cases the rest of the file is unaffected. The same handler serves a chunk for reading, writing, checking, comparing, printing and freeing wherever the chunk is nested.",
  ["inputs","configurations"], "every declared size and content within bounds of an extension chunk, every nesting within bounds",
  "Four fixed sizes of one extension chunk are tested.",
  ["chunk.c","field.c","io.c","chunkregistry.c"], [("bounded fields, skip, filler","field.c, io.c"),("dispatch","chunk.c")],
  observe=["fields after read","bytes after write","calls of the handlers"])
p("C23", "Everything allocated is released exactly once",
  "Freeing a hierarchy, however it was built or read, releases every block the library obtained for it exactly once, and operations that return no ownership to the caller (reading that fails, checking, comparing, printing, writing, searching apart from its result) leave nothing allocated behind.",
  ["inputs","histories"], "every file content and every hierarchy within bounds",
  "The test suite runs without leak detection.",
  ["chunk.c","group.c","list.c","rawchunk.c","form.c","src/iffjoin/join.c"], [("recursive free","group.c IFF_freeGroup, list.c IFF_freeList, rawchunk.c"),("temporary arrays","group.c IFF_searchFormsInGroup")],
  observe=["outstanding allocations"])
p("C24", "Running out of memory is a clean failure",
  "If any allocation fails while a chunk is created, a file is read, a hierarchy is searched or written, or files are joined or printed by the tools, the operation reports failure (no chunk, no result, write failed, nonzero status) without touching invalid memory, and everything it had obtained is released.",
  ["fault_sequences","inputs"], "every allocation in every operation within bounds may fail",
  "Tests never fail an allocation.",
  ["chunk.c","group.c","list.c","rawchunk.c","form.c","io.c"], [("NULL checks","chunk.c IFF_createChunk, rawchunk.c IFF_createRawChunk")],
  observe=["return values under allocation failure","outstanding allocations"])
p("C25", "Joining files yields one valid concatenation of all of them",
  "Joining any number of files that are valid IFF files produces a conforming concatenation containing each input's hierarchy, unchanged and in argument order, with the matching contents type. If an input is missing, unreadable or non-conforming, or the output cannot be written, the join reports failure, and it does not touch the output before all inputs were accepted.",
  ["inputs","fault_sequences"], "every list of input files within bounds, every content, every failing operation",
  "Two joins of two fixed files are tested.",
  ["src/iffjoin/join.c","src/iffjoin/main.c","cat.c"], [("join loop","src/iffjoin/join.c IFF_join")],
  observe=["exit status","output bytes"])
p("C26", "The pretty printer's status and output follow validity",
  "The pretty-print tool exits with success exactly when the file could be read and either conforms or checking was disabled, and only then does it print the hierarchy; otherwise it exits with failure and prints no hierarchy.",
  ["inputs"], "every file content up to the stated length, both option settings",
  "A few fixed files are printed.",
  ["src/iffpp/pp.c","src/iffpp/main.c","iff.c"], [("gating","src/iffpp/pp.c IFF_prettyPrint")],
  observe=["exit status","standard output"])
p("C27", "Printing shows the hierarchy faithfully",
  "The textual representation shows, for every chunk in order and properly nested, its id, declared size and group type, every byte of a data chunk as exactly two hexadecimal digits, and text chunks verbatim. Two hierarchies that compare unequal in any of these never print the same text.",
  ["inputs"], "every hierarchy within the stated number of chunks, every data byte",
  "One test greps for a fixed string.",
  ["chunk.c","group.c","list.c","rawchunk.c","util.c","id.c"], [("printing","chunk.c IFF_printChunk, rawchunk.c IFF_printRaw, IFF_printText")],
  observe=["standard output"])
p("C28", "Failures are explained through the error callback, success is silent",
  "Whenever reading, writing or checking fails, at least one diagnostic is delivered through the installed error callback, with arguments that match its format; when a conforming file is read, checked, written and compared nothing is reported. With a replaced callback the library itself writes nothing to the standard error stream.",
  ["inputs","fault_sequences"], "every file content up to the stated length, every failing operation",
  "Tests ignore diagnostics.",
  ["error.c","io.c","group.c","list.c","id.c","form.c","iff.c"], [("callback","error.c IFF_error")],
  observe=["calls of IFF_errorCallback"])
p("C29", "The on-disk format does not depend on the host",
  "On hosts of either byte order and with 32-bit or 64-bit pointers, the same hierarchy is written as the same bytes and the same bytes are read as the same hierarchy.",
  ["configurations","inputs"], "little-endian 64-bit and big-endian 32-bit builds, all values and all hierarchies within bounds",
  "The tests run on one little-endian 64-bit host; the big-endian code is never even compiled.",
  ["io.c","id.c","ifftypes.h.in"], [("conditional byte swapping","io.c")],
  observe=["bytes written and values read in each build"])
p("C30", "Observing a hierarchy does not change it",
  "Checking, comparing, printing, writing, searching and looking up properties leave every chunk of the hierarchy exactly as it was, including sizes, order, parents and data.",
  ["inputs","histories"], "every hierarchy within the stated number of chunks",
  "Tests do not look at a hierarchy after observing it.",
  ["chunk.c","group.c","list.c","form.c","rawchunk.c"], [("const traversals","chunk.c, group.c, list.c, form.c")],
  observe=["fields of all chunk structs before and after"])
p("C31", "Data chunks hold exactly the data they were given",
  "A data chunk created with an id and size has that id and size and room for that many bytes; copying data, attaching a buffer or setting text makes its contents equal to the given bytes and, for the latter two, its size equal to their length (text without terminator). Every create function yields an empty, parentless chunk with the requested id, type and size.",
  ["inputs"], "every size within bounds, every byte, every id and type",
  "Tests set a few fixed 4-byte bodies; setting text is not tested.",
  ["rawchunk.c","chunk.c","group.c","form.c","cat.c","list.c","prop.c"], [("constructors and setters","rawchunk.c, group.c")],
  observe=["fields of the created chunk"])
p("C32", "An operation's outcome depends only on its arguments, and results stay",
  "What reading, writing, checking, comparing, printing, searching, looking up, composing or recalculating yields is determined by the given file or hierarchy alone: it is the same whatever was done before, successfully or not and however often, and hierarchies, search results and outputs obtained earlier are not affected by later operations on other hierarchies.",
  ["inputs","histories"], "every pair of operations on every pair of small hierarchies, every operation repeated up to the stated number of times before another one",
  "Each test performs one operation in a fresh process; state that survives an operation (a cached look-up, a shared buffer, a counter not reset after a failure) only shows in sequences.",
  ["iff.c","chunk.c","group.c","form.c","cat.c","list.c","rawchunk.c","chunkregistry.c","id.c","error.c"], [("absence of state outside the hierarchies; the error callback is the only global","error.c IFF_errorCallback")],
  state=[("IFF_errorCallback","the only piece of global state","error.h")],
  observe=["results of both operations after both were performed"])
p("C33", "Streams and files are used as given and released",
  "Reading starts where the stream stands and consumes at most one byte after the main chunk, writing appends where the stream stands and changes nothing written before, and the caller's streams stay open. A file the library opens itself is closed exactly once on every path, no other file is opened, without a file name exactly the standard input or output is used, and a file that cannot be opened is a reported failure rather than a fallback to another stream.",
  ["inputs","faults"], "every hierarchy within bounds, streams that start anywhere, end or fail anywhere, seekable or not",
  "The tests read and write whole files that exist; positions inside a stream, pipes, missing files and failure paths are not exercised.",
  ["iff.c","chunk.c","io.c","rawchunk.c"], [("opening and closing","iff.c IFF_readFile, IFF_writeFile"),("standard streams","iff.c IFF_read, IFF_write")],
  observe=["state and position of every stream","number of opened and closed files"])
out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P: f.write(json.dumps(x) + "\n")
print(len(P))
