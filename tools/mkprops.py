#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (run by hand after editing)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, state=None, observe=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    a["observe_at"] = observe or []
    a["hook_needed"] = None
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext},
              "why_tests_cant": why, "anchors": a})

W, R, CW, CR = "netcdf/hdf5/hdf5writer.go", "netcdf/hdf5/hdf5.go", "netcdf/cdf/cdfwriter.go", "netcdf/cdf/cdf.go"
WU, RD = "netcdf/hdf5/writer_utils.go", "netcdf/hdf5/readers.go"

p("C01", "CDF write/read round trip",
  "Whatever sequence of accepted AddVar and AddAttributes calls is made on a CDF writer, after a successful Close the file opens and yields exactly those variables in the order added, with the same values, types, dimension names and lengths, and the same attributes in the same order with the same values. The documented representation changes are the only ones allowed: one-element attribute lists come back as scalars, strings come back padded with NULs to the longest string of their variable, unnamed dimensions get generated names, and a one-dimensional empty slice becomes a zero-length dimension.",
  ["inputs", "histories"], "all accepted sequences of writer calls: every type, rank 0..n, extent, name (any Unicode), attribute map, mixture of variables sharing dimensions, replaced global attributes",
  "The tests write a couple of dozen fixed files; header layout, padding and data offsets depend on the lengths of every name, attribute and variable together, and on which variable first forces the 64-bit-type format.",
  [CW, CR], [("layout computed ahead of writing and then written sequentially", CW), ("header parser and value conversion", CR)],
  observe=["netcdf.OpenWriter", "Writer.AddVar", "Writer.Close", "netcdf.Open", "Group.GetVariable"])

p("C02", "HDF5 write/read round trip, groups included",
  "Whatever sequence of accepted AddVar, AddAttributes and CreateGroup calls is made on an HDF5 writer and its subgroups, after a successful Close of the root writer the file opens and yields exactly that tree: the same groups, the same variables with the same values, types, shapes and dimension names, and the same attributes with the same values. No variable, group or attribute is lost, invented or moved, apart from the documented one-element attribute list coming back as a scalar, names made up for unnamed dimensions, and NULs at the end of a string, which the format does not keep. Levels of a value that have no dimension name are variable-length.",
  ["inputs", "histories"], "all accepted sequences of writer calls over a tree of groups: every type, rank, extent, strings of any length and content, names of any length, variable-length (ragged) values, any number of objects and attributes",
  "The tests write fixed files with a handful of objects; object header, link, heap and dimension-scale layout depends on counts and sizes of everything in the tree, and size fields overflow only for particular sizes.",
  [W, WU, R], [("object header, link, datatype and heap emission", W), ("dimension-scale synthesis", W), ("reader", R)],
  observe=["netcdf.OpenWriter", "Writer.CreateGroup", "Writer.AddVar", "Writer.Close", "netcdf.Open"])

p("C03", "CDF output is valid classic-format data for other software",
  "Every file the CDF writer closes successfully is a well-formed classic NetCDF file in exactly the version its header declares: an independent decoder of the published format and the NetCDF C library both accept it and find the same dimensions, variables, attributes and values that were written. Every variable's recorded size and offset describe where its data is, no two variables overlap, data types newer than the declared version do not occur, and the file is neither truncated nor padded beyond the format's rules.",
  ["inputs", "histories"], "all accepted sequences of writer calls",
  "The reader in the same repository shares the writer's assumptions, so a mirrored mistake passes any round-trip test; a few fixed files are compared with ncdump.",
  [CW], [("version promotion, header-size computation, vsize and begin", CW)])

p("C04", "HDF5 output is valid NetCDF-4 data for other software",
  "Every file the HDF5 writer closes successfully is accepted by the HDF5 and NetCDF C libraries, which find the same groups, variables, values, types, dimension names and lengths and attributes that were written. In particular checksums, sizes, references and dimension scales are all consistent in the C libraries' judgement. (Objects of a variable-length type, which has no name in these files, are judged by the HDF5 library alone: the NetCDF library passes over them.)",
  ["inputs", "histories"], "all accepted sequences of writer calls over trees of groups",
  "The reader in the same repository does not look at many of the fields the C libraries check and shares the writer's assumptions; tests run ncdump on a few fixed files.",
  [W, WU, "netcdf/hdf5/checksum.go"], [("message, heap and scale emission", W), ("checksums", "netcdf/hdf5/checksum.go")])

p("C05", "Any valid classic, 64-bit-offset or 64-bit-data file is read right",
  "For every well-formed CDF-1, CDF-2 or CDF-5 file, whichever software produced it, the reader reports the dimensions, variables, attributes and values the format specification assigns to its bytes, in file order. This includes record variables (one or many, of any type and with any number of records), variables stored in any order, and data not in the file because it was never written, which reads as the variable's fill value.",
  ["inputs"], "all well-formed files: versions 1, 2, 5; all types; 0..n fixed and record variables; any record count; any data placement; padding rules",
  "Tests read about thirty ncgen outputs; record interleaving, padding and the single-small-record-variable exception interact with type sizes and counts.",
  [CR, "internal/fillvalue.go"], [("header parser", CR), ("record reader and single-record special case", CR)])

p("C06", "HDF5 datasets are read right whatever their storage",
  "For every NetCDF-4 dataset of a standard type (integers and floats of any width and byte order, fixed and variable-length strings) the values read equal those the HDF5 C library reads from the same file, whatever the layout (compact, contiguous, chunked with any chunk shape), filters (deflate, shuffle, Fletcher-32, in any combination), extents, unlimited dimensions, partially written regions and fill values. Storage the reader does not know (other filters, external or virtual storage, formats newer than it) is refused with an error, never misread.",
  ["inputs", "configurations"], "all combinations of type, byte order, rank, extents, chunk shape, filter pipeline, partial writes, fill value settings and file-format version bounds",
  "Tests convert one or two fixed data sets with h5repack; edge chunks, missing chunks, multi-level chunk indexes and odd filter lengths need particular shape combinations.",
  [R, RD, "netcdf/hdf5/segment.go", "netcdf/hdf5/fixedPoint.go", "netcdf/hdf5/floatingPoint.go", "netcdf/hdf5/string.go"],
  [("layout and filter pipeline readers", RD), ("chunk index traversal", R), ("segment ordering", "netcdf/hdf5/segment.go")])

p("C07", "HDF5 groups, links and attributes are all found",
  "For every NetCDF-4 file written by the C libraries, the tree of groups, the variables of each group, the attributes of each group and variable with their values and types, and each variable's dimension names equal those the C library reports, however many there are and however they are stored (compact or dense, old- or new-style groups, any superblock version, header continuations).",
  ["inputs", "configurations"], "all trees of groups with any number of links and attributes per object, attribute types, shapes and sizes, and format version bounds",
  "Storage switches form at thresholds (8 links or attributes, 64 KB attributes, heap and B-tree growth); tests use a few small fixed files.",
  [R], [("symbol-table, link-message and fractal-heap traversal", R), ("attribute message and dense attribute reading", R)])

p("C08", "User-defined HDF5 types are described and copied faithfully",
  "For every file with enum, compound, opaque, variable-length or array types written by the C library, the reader lists every named type with a description that matches its definition, gives for every variable and attribute of such a type (by getters and attribute maps, in CDL and in Go) a type that names or describes it, array dimensions in order, and reads every value without error. Reading such a variable or attribute and writing it to a new HDF5 file preserves its type and values as the C library sees them, with these exceptions: characters and fixed-length strings inside a type become strings; a one-element list may become a scalar attribute or the reverse; a list without elements of a user-defined type, whose type the values do not carry, may be refused; attributes of rank 2 and more are read but not copied.",
  ["inputs"], "all user-defined types built from standard types with nesting, any member count, names and values, as variables or attributes, of rank 0..n",
  "Tests have one fixed file per kind; offsets, padding, nesting and member counts vary independently.",
  ["netcdf/hdf5/compound.go", "netcdf/hdf5/enum.go", "netcdf/hdf5/opaque.go", "netcdf/hdf5/vlen.go", "netcdf/hdf5/array.go", R, W],
  [("type managers: parse, alloc, type strings", "netcdf/hdf5/types.go"), ("re-emission of typed values", W)])

p("C09", "Slices equal the same part of the whole",
  "For every variable of either format, every in-range row range gives from GetSlice exactly those rows of the full value, and every in-range box gives from GetSliceMD exactly that box of the full value, with the same Go type. Len is the first extent (1 for a scalar) and Shape the extents, both agreeing with the value; out-of-range or reversed bounds give an error.",
  ["inputs"], "all variables (types, ranks, layouts, record or fixed, chunked, filtered) and all begin/end pairs or boxes, in or out of range, empty included",
  "Tests slice two or three variables at a few positions; most combinations of layout, offset and rank are never sliced.",
  [CR, R, RD, "internal/slicer.go"], [("partial reads and chunk pruning", RD), ("box extraction", "internal/slicer.go")],
  observe=["VarGetter.GetSlice", "VarGetter.GetSliceMD", "VarGetter.Len", "VarGetter.Shape"])

p("C10", "Reads do not depend on what was read before",
  "Reading is free of side effects on what is read: whatever calls were made before on the same or another group handle of a file (listing, slicing, reading, opening and closing subgroups, failed lookups), each call returns what it returns on a freshly opened file. What a call returned is the caller's own: changing it changes no later result, and no later call changes it. A group handle stays usable until it is closed, even if other handles on the same file are closed first.",
  ["histories"], "all sequences of reader calls over all handles of a file, and files of both formats",
  "Each test makes a few calls in one order on a fresh file; state kept in the parsed tree, caches and reference counts matters only across particular sequences.",
  [R, CR, RD], [("object cache and slice settings on parsed objects", R), ("shared file handle with reference count", RD)],
  state=[("parsed object tree", "lazily filled, shared by handles", R), ("file reference count", "number of open handles", RD)])

p("C11", "Malformed classic files are handled or refused, never fatal",
  "For every byte sequence presented as a CDF file, opening it and then exercising the whole read API on it either succeeds or returns errors: it never panics, ends the process, hangs, or allocates memory out of proportion to the file.",
  ["inputs"], "all byte strings, in particular truncations and mutations of valid files",
  "Tests open a few valid files; counts, lengths, ids and offsets in the header can each hold any value.",
  [CR], [("error throwing and recovery at API entry points", CR), ("header field validation", CR)])

p("C12", "Malformed HDF5 files are handled or refused, never fatal",
  "For every byte sequence presented as an HDF5 file, opening it and then exercising the whole read API on it either succeeds or returns errors: it never panics, ends the process, hangs, or allocates memory out of proportion to the file.",
  ["inputs"], "all byte strings, in particular truncations and mutations of valid files, with and without repaired checksums",
  "Tests open valid files and a couple of hand-made bad ones; nearly every byte of an HDF5 file is a size, count, address or type code the parser follows.",
  [R, RD], [("assertions and thrown errors recovered at API entry points", "netcdf/hdf5/assert.go"), ("bounds checks", R)])

p("C13", "Corruption covered by checksums is never returned as data",
  "If bytes covered by a checksum (superblock, object headers, heaps and indexes of the new format, Fletcher-32 chunks) change after the file was written, reading what they describe returns an error or the original data, never different data (changes the checksum itself cannot show, such as Fletcher-32's confusion of 0 and 65535, excepted). A file cut short never yields data values that differ from the original's without an error, except that classic-format data missing at the end of the file may read as fill values.",
  ["fault_sequences", "inputs"], "every single- and multi-byte change at any offset covered by a checksum and every truncation length of any file of the covered forms",
  "Tests contain no corruption of checksummed structures beyond one or two hand-made cases.",
  [R, RD, "netcdf/hdf5/checksum.go"], [("lookup3 checksum verification", "netcdf/hdf5/checksum.go"), ("Fletcher-32 reader", RD)])

p("C14", "Writers refuse what they cannot store, and a refusal leaves no trace",
  "A call to a writer with anything it cannot store faithfully (invalid name, unsupported type or attribute type, ragged data where a rectangle is needed, dimensions that contradict an earlier length, more dimension names than the value has, a name already used) returns an error and never panics. A refused call leaves the file exactly as if it had not been made.",
  ["inputs", "histories"], "all sequences of valid and invalid writer calls with arbitrary Go values",
  "Tests check single invalid names and one or two bad types, and never look at what the refusal left behind.",
  [CW, W, "internal/validname.go"], [("validation at AddVar/AddAttributes/CreateGroup", CW), ("validation at AddVar/AddAttributes/CreateGroup", W)])

p("C15", "Exactly the valid names are accepted, and they come back unchanged",
  "Both writers accept a name for a variable or attribute, and the HDF5 writer for a group, exactly when it is a valid NetCDF name by the library's documented rule (first character a letter or digit, no control characters or slash, not ending in white space), whatever script it is in. Every accepted name reads back byte for byte: names of any length in the CDF writer, and of at least 32,000 bytes in the HDF5 writer, which is limited by its 64 KB messages. Not names: text that isn't UTF-8. Left open: characters Unicode has not assigned. Attribute names the HDF5 format uses itself (CLASS, NAME, DIMENSION_LIST, REFERENCE_LIST) are refused by the HDF5 writer. Dimension names follow the same rule except for the first character, which may be any that may follow.",
  ["inputs"], "all Unicode and non-Unicode strings, lengths 0 to thousands of bytes, as names of variables, attributes, groups and dimensions",
  "Tests try a few dozen fixed names; the class tables span all of Unicode, and name length changes field widths in the HDF5 encoding.",
  ["internal/validname.go", CW, W, R], [("name pattern", "internal/validname.go"), ("link and attribute name encoding", WU)])

p("C16", "Attribute maps keep order, visibility and types",
  "For every history of construction, Add, Hide and lookups, an attribute map behaves like an ordered dictionary: Keys lists each visible key once in insertion order, Get returns the latest value whether or not the key is hidden, absent keys are reported absent, and the reported CDL and Go types describe the stored value. Construction succeeds exactly when the key list is a permutation of the value map's keys.",
  ["histories", "inputs"], "all sequences of operations and all supported values",
  "Tests check a fixed list of type strings and one or two sequences.",
  ["netcdf/util/orderedmap.go"], [("key, visible-key and hidden-key bookkeeping", "netcdf/util/orderedmap.go")])

p("C17", "Dimension metadata is consistent and complete",
  "In every readable file, in every group, ListDimensions lists each dimension declared in that group exactly once and GetDimension gives its declared length (for an unlimited dimension 0 in classic files), with absent names reported absent. Every variable's dimension list has one name per extent, and the named dimension, looked up in the variable's group and then its ancestors, has that extent unless it is unlimited (or hides an outer dimension of the same name that the variable has). HDF5 datasets that have no dimension scales have an empty list of dimensions.",
  ["inputs"], "all files of either format: dimensions with and without coordinate variables, shared by many variables, in nested groups, unlimited or fixed",
  "Tests check dimensions on a couple of files in the root group.",
  [CR, R, W], [("dimension-scale discovery", R), ("dimension list decoding", R), ("scale synthesis", W)])

p("C18", "Unwritten data reads as the right fill value",
  "Every element never written to a file reads as that variable's fill value: the _FillValue the variable carries if there is one, otherwise the format's default for its type. This holds at every position, for every type and extent, through whole reads and through slices, and never disturbs elements that were written.",
  ["inputs"], "all types, user fill values (extremes, NaN, zero), shapes, written/unwritten patterns, layouts and slices",
  "Tests check default fills on a few one-dimensional variables from ncgen.",
  ["internal/fillvalue.go", CR, R, RD], [("repeating fill reader", "internal/fillvalue.go"), ("fill selection", CR), ("fill selection", R)])

p("C19", "Opening dispatches by content; handles own the file exactly once",
  "Open and New pick the format from the content alone and agree with each other; content that is neither format is refused with an error and a nil group, and a failed Open leaves no file open. A file passed to New is closed exactly when the last group handle on it is closed and never before, or left open for the caller if New failed.",
  ["inputs", "histories"], "all contents and file names, and all sequences of opening and closing group handles",
  "Tests open two files by name; no test counts closes or descriptors.",
  ["netcdf/netcdf4.go", CR, R, RD], [("first-byte dispatch", "netcdf/netcdf4.go"), ("reference counts", RD)])

p("C20", "I/O failures are reported, never swallowed",
  "If the operating system or the supplied file object fails a read, seek or write at any point, the API call in progress returns an error: a reader never returns data that differs from the fault-free run without an error, and a writer whose data did not all reach the file returns an error from Close. No such failure panics.",
  ["fault_sequences"], "a fault (error, short read, device full) at every I/O operation of every reader and writer run",
  "No test injects an I/O fault.",
  [CR, CW, R, RD, W], [("thrown errors from Must* helpers", "netcdf/util/binary.go"), ("buffered writers and flush on close", CW)])

p("C21", "Output and listings are deterministic",
  "The same calls on a writer produce byte-identical files every time. Opening the same file repeatedly produces the same listings in the same order everywhere, and orders the format records (variable order in classic files, attribute order in classic files) are preserved.",
  ["inputs", "histories"], "all writer call sequences and all files, over repeated runs",
  "Go randomizes map iteration, so one run of a test sees one order.",
  [R, W, CW], [("sorted or ordered iteration", R)])

p("C22", "Independent readers can run concurrently",
  "Reading through different group handles at the same time, from different goroutines, whether the handles come from separate opens or from GetGroup on one open file, gives each goroutine the data it would get alone, with no data race.",
  ["schedules"], "all interleavings of read calls on separate handles of one or several files",
  "No test reads concurrently.",
  [RD, R], [("lock around seek and read on the shared file", RD)])

p("C23", "Declared types match delivered values",
  "For every variable in every readable file, GoType names the Go element type of the values actually returned by Values and GetVariable, Type names the corresponding NetCDF type per the documented mapping (text is \"char\" or \"string\"), and the nesting depth of the value equals the rank. For every attribute, GetGoType and GetType describe the value Get returns, and both report absence exactly when Get does. (HDF5 array types and lists of named types, which the mapping does not cover, only have to be described.)",
  ["inputs"], "all variables and attributes of all standard types, ranks (0 included) and extents (0 included) in files of both formats",
  "Tests print types for fixed files of each kind; combinations of type, rank and emptiness are not covered.",
  [CR, R, "netcdf/util/orderedmap.go", "netcdf/hdf5/types.go"], [("type name tables", CR), ("type strings from type managers", "netcdf/hdf5/types.go")])

p("C24", "Slicing reads only what is needed",
  "For a variable of a fixed-size numeric or text type with at least one dimension, in any file of either format, GetSlice and GetSliceMD read from the file no more than the data of the requested range of the first dimension (for chunked HDF5 data, the chunks that range touches) plus metadata and a bounded read-ahead per contiguous piece, and allocate memory in proportion to that, however large the variable and the file are. Opening a file, listing, getting getters, dimensions, types and attributes read no variable data and allocate independently of the sizes of variables.",
  ["inputs", "histories"], "variables of sizes from one element to more than 2^50 bytes; contiguous, record, chunked and filtered storage; any range; files larger than memory",
  "The slicing tests read small files and compare values; how much is read for them is not observed by any test.",
  [CR, R, "netcdf/hdf5/readers.go", "README.md"], [("rows read from a classic file", CR), ("the selection of chunks for rows, and seeks in contiguous data", R)])

p("C25", "The same input gives the same output",
  "The same sequence of calls on a writer, with equal arguments, makes the same file, byte for byte, every time, whatever the file's name, the time of day and the log level. Everything the reader returns for a file, the order of listings and attributes and whether a call fails included, depends on the file's bytes alone: not on the time, the log level, or on whether it was opened by name or from a file object, for intact and damaged files alike. The library writes nothing to standard output, and SetLogLevel returns the level that was set before.",
  ["inputs", "schedules"], "all writer programs and files of both formats, intact or damaged; any orders in which Go walks its maps; all log levels",
  "Tests write a file once and read it back; a file that differs between two runs but reads the same passes them.",
  [W, CW, CR, R, "internal/logging.go"], [("the orders in which groups, variables and dimensions are written", W), ("SetLogLevel", R), ("SetLogLevel", CR)])
p("C26", "Use leaves nothing behind",
  "An open file can be used for any length of time: repeating any series of calls on its handles and getters (listings, lookups, whole reads, slices, calls that fail, groups opened and closed again) reads no more of the file than the first time, and does not make the memory, the number of objects or the number of goroutines in use grow with the number of repetitions. Opening, using and closing files again and again, those that are damaged and refused included, and writing files again and again, leaves no memory, goroutine or open descriptor behind.",
  ["inputs", "histories"], "all files of both formats, intact or damaged; all series of calls, repeated any number of times; all writer programs",
  "Tests make a few calls on a file and end; what each call leaves behind is only seen after very many of them.",
  [R, CR, W, CW, "netcdf/hdf5/readers.go", "netcdf/netcdf4.go"], [("HDF5.Close and the counted file", "netcdf/hdf5/readers.go"), ("Open, New", R), ("Open, New", CR)])

with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for x in P:
        f.write(json.dumps(x) + "\n")
print(len(P))
