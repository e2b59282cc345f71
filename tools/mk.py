#!/usr/bin/env python3
"""Writes /verif/properties.jsonl and /verif/MANIFEST.json from one table."""
import json, os, sys
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
def prop(id, title, statement, over, quant, why, files, mech, observe, technique, note, level="exploration", state=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, quant=quant, why=why, files=files, mech=mech,
                  observe=observe, technique=technique, note=note, level=level, state=state or []))

prop("C01", "Core models survive an encode/decode round trip",
 "A model made of any core content (units, language, metadata and metadata groups, base materials, objects, meshes with per-triangle properties, nested components with transforms, build items) that is written with the Encoder and read back with the Decoder is equal to the original. Coordinates and transforms are equal to the decimal precision of the encoder (exactly equal with precision -1), and nothing else is lost, added, reordered or changed; the same holds for MarshalModel and UnmarshalModel.",
 ["inputs","configurations"], "every core model within the domain the encoder can represent, every FloatPrecision, through a package and through the byte helpers",
 "The tests encode one hand written model per file and compare a fixed string; defaults, omitted attributes, element order and number formatting interact over all the models, which fixed examples do not reach.",
 ["encoder.go","decoder.go","core.go","read.go","spec/utils.go"],
 [dict(name="Encoder.writeModel and the resource, mesh and component writers", where="encoder.go"), dict(name="element decoders of the core specification", where="decoder.go")],
 ["Model after Decoder.Decode / UnmarshalModel compared field by field with the model given to Encoder.Encode / MarshalModel"],
 "runtime differential oracle: reflective whole-model comparison after real encode and decode of generated models",
 "Exploration: seeded generated models; trusts the reflective dumper and the normalisation rules listed in DESIGN.md.")
prop("C02", "Packages keep parts, relationships and attachments",
 "Encoding a model and decoding the package returns the same root model, the same child models under the same part paths, the same thumbnail, the same relationships (path, type and id) of the package root, the root model and every child model, and byte-identical attachments with their content types. Decoding several packages with the same models or decoders, and encoding the same model several times, gives results independent of the earlier ones.",
 ["inputs","histories"], "every model with several parts, relationships and attachments; every sequence of decodes and encodes",
 "The tests use one package with mocked parts; the bookkeeping of paths, relationships and reused buffers depends on the combination and on what was decoded before.",
 ["read.go","opc.go","encoder.go","core.go"],
 [dict(name="package reader and writer", where="opc.go"), dict(name="attachment, relationship and child model bookkeeping", where="read.go, encoder.go")],
 ["Model.Childs, Attachments, Relationships, RootRelationships, Thumbnail after Decode; files of the ZIP written"],
 "runtime differential oracle on whole packages, with sequences of operations on reused decoders and files",
 "Exploration; trusts archive/zip as the container of the attachments written.")
for cid, name, pkg, what in [
 ("C03","Materials","materials","texture resources, texture coordinate groups, composites, colour groups and multi-properties"),
 ("C04","Slices","slices","slice stacks, slices with their vertices, polygons, segments and per-segment properties, references to slice stacks of other parts, and the mesh resolution and slice stack of objects"),
 ("C05","Beam lattices","beamlattice","beams with radii, cap modes and indices, beam sets with references, clipping and representation mesh, and the lattice defaults")]:
    prop(cid, "%s extension content survives a round trip" % name,
     "Any model with %s content (%s) that is encoded and decoded again is equal to the original: every attribute and list keeps its value, order and association, with only numbers rounded to the selected precision. The content of the core and of the other extensions of the model is not disturbed." % (name.lower(), what),
     ["inputs","configurations"], "every representable combination of %s resources, with and without the other extensions" % name.lower(),
     "The tests of %s/ compare one fixed model with a fixed string, with the values of the sample only." % pkg,
     [pkg+"/encoder.go", pkg+"/decoder.go", pkg+"/%s.go" % pkg, "encoder.go", "decoder.go"],
     [dict(name="Marshal3MF / Marshal3MFAttr of the %s types" % pkg, where=pkg+"/encoder.go"), dict(name="element decoders", where=pkg+"/decoder.go")],
     ["extension fields of the decoded model compared with those of the encoded one"],
     "runtime differential oracle: reflective comparison after real encode and decode of generated %s content" % name.lower(),
     "Exploration: seeded generated models.")
prop("C06", "Production attributes survive a round trip",
 "UUIDs and part paths of the production extension on the build, the build items, the objects and the components are read back exactly as they were written, in the root model and in child models, whatever other attributes the element has. Empty ones are neither written nor invented.",
 ["inputs"], "every combination of present and absent UUIDs and paths on every element, in root and child parts",
 "The tests check one sample for each element.",
 ["production/encoder.go","production/decoder.go","production/production.go","encoder.go","decoder.go"],
 [dict(name="Marshal3MFAttr of the production attributes", where="production/encoder.go"), dict(name="attribute decoders", where="production/decoder.go")],
 ["AnyAttr of build, items, objects and components of the decoded model; Component.ObjectPath, Item.ObjectPath"],
 "runtime differential oracle on generated production attributes", "Exploration: seeded generated models.")
prop("C07", "Unknown extension content is kept losslessly",
 "Elements and attributes of name spaces the library does not know, found at any extension point of any part, are kept when a document is decoded, and written again with the same expanded names, attribute values, text, nesting and order. Declarations of required and recommended extensions and their prefixes are kept, and content of unknown name spaces never affects how known content is read.",
 ["inputs"], "every tree of unknown elements, attributes and text at every extension point, with any prefixes, nesting and re-declarations",
 "The tests keep one token list of one element; prefix scoping, nesting and buffer reuse depend on the whole document.",
 ["spec/unknown.go","spec/encoding.go","encoder.go","decoder.go","internal/xml/xml.go","internal/xml/printer.go"],
 [dict(name="UnknownTokens and UnknownAttrs", where="spec/unknown.go"), dict(name="prefix handling of the printer", where="internal/xml")],
 ["Any and AnyAttr fields after decode; XML written, read with encoding/xml"],
 "runtime differential oracle on unknown content, with encoding/xml as the reference reader of the output",
 "Exploration; white-space-only text is formatting and not compared.")
prop("C08", "Decoding follows the 3MF documents, however written",
 "The model decoded from a document is the one the document describes, for every equivalent way of writing the XML: any prefixes, attribute order, quoting, character references, comments, CDATA, white space, self-closing or paired empty elements, default values written or omitted, and number formats. Attributes and elements of unknown name spaces in between do not change the content read.",
 ["inputs"], "every model and every equivalent serialization of it, made by a writer independent of the library",
 "The tests decode documents in the layout of the library itself.",
 ["decoder.go","read.go","materials/decoder.go","slices/decoder.go","beamlattice/decoder.go","production/decoder.go","internal/xml/xml.go","spec/utils.go"],
 [dict(name="element decoder stack", where="read.go"), dict(name="attribute and number parsers", where="spec/utils.go, decoders")],
 ["Model after decode compared with the model the independent writer described"],
 "runtime differential oracle: independent 3MF writer with random style, real decoder, whole-model comparison",
 "Exploration; trusts the independent writer, which shares no code with the library.")
prop("C09", "XML is tokenized exactly, for every buffer boundary",
 "For every well-formed document without a document type declaration, names, name spaces, attribute values, text and nesting are read as XML 1.0 with name spaces defines, wherever the document is cut into reads and buffers, and no data kept from one token changes when later tokens are read. Documents that are not well formed (bad nesting, truncated, unquoted or unterminated values, bad references) are rejected with an error.",
 ["inputs","schedules"], "every document, every alignment with the 4096 byte buffer, every chunking of the reader, every truncation and small corruption",
 "The tests parse small documents which fit in one buffer from one reader.",
 ["internal/xml/xml.go","internal/xml/read.go","read.go","spec/unknown.go"],
 [dict(name="tokenizer with reused buffers and name caches", where="internal/xml")],
 ["tokens the model keeps for unknown elements, compared with those of encoding/xml"],
 "runtime differential oracle against encoding/xml, all buffer alignments, hostile chunking, mutated documents",
 "Exploration; alignment with the buffer is enumerated for the generated documents. Trusts encoding/xml.")
prop("C10", "Strict and lenient decoding report errors exactly",
 "In non-strict mode a model part with invalid attribute values yields an error that lists every such fault in document order, each naming the attribute, whether it is required, and the exact element path with positions, while all the other content of the part is decoded as if the faults were not there. In strict mode decoding stops with precisely the first of those errors. Faults of a child part are reported with the same precision and never taken for faults of another part; a document without faults yields no error in either mode.",
 ["inputs","fault_sequences"], "every document with any set of invalid values in any positions, in both modes",
 "The tests inject one list of errors in one document per package.",
 ["decoder.go","read.go","errors/errors.go","errors/list.go","materials/decoder.go","slices/decoder.go","beamlattice/decoder.go","production/decoder.go"],
 [dict(name="error collection and wrapping with element names and indices", where="read.go, errors/"), dict(name="attribute parsers", where="decoders")],
 ["error returned by Decode / UnmarshalModel: type, XPath, attribute, required flag, order; the rest of the model"],
 "runtime oracle: faults injected in documents of the independent writer at known positions, exact expected error list",
 "Exploration of injected fault sets; trusts the independent writer's element positions.")
prop("C11", "Hostile packages never crash, hang or exhaust memory",
 "For any bytes, decoding (strict or not) ends with a model or an error: it never panics, never recurses without bound, never hangs, and uses memory in proportion to the size of the (decompressed) input. Whatever model was decoded can be validated, measured, walked, searched and encoded without a crash either.",
 ["inputs"], "every byte string as a package, a document, or an attribute value, including structurally valid and mutated ones",
 "The tests decode a few valid files; robustness is about inputs nobody wrote down.",
 ["read.go","decoder.go","opc.go","internal/xml/xml.go","materials/decoder.go","slices/decoder.go","beamlattice/decoder.go","production/decoder.go","validate.go","core.go"],
 [dict(name="decoders, post-decode operations", where="whole repository")],
 ["process exit, panics, CPU time per case, bytes allocated per byte of input"],
 "crash, hang and allocation monitors over mutated, hostile and structure-aware generated packages",
 "Exploration; a constant factor bounds the allocation, and a fixed limit the CPU time of a case.")
prop("C12", "Concurrent decoding of parts is race free and deterministic",
 "Decoding a package with any number of child models gives, in every schedule, the same model as decoding its parts one after the other; each part is decoded exactly once, and there is no data race, also when several packages are decoded at the same time. When a part is broken or unreadable the decode fails with an error of a broken part, never with a cancellation of its own making, and never hangs.",
 ["schedules","inputs","fault_sequences"], "every interleaving of the part decoders, for every package shape and every set of broken parts",
 "The tests decode one package with mocked parts in whatever schedule occurs.",
 ["read.go","opc.go"],
 [dict(name="decoding of the child models in goroutines under an errgroup", where="read.go")],
 ["models and errors of decodes under the race detector with injected delays; number of times each part was opened"],
 "Go race detector with injected delays and barriers at reader and decoder callbacks; comparison with sequential decoding",
 "Exploration of schedules under the race detector; the number of distinct part completion orders is recorded.")
prop("C13", "Cancellation stops decoding promptly with the context error",
 "If the context is cancelled before or during decoding of a package, a document or an STL file, the call returns soon after with an error that matches the error of the context, leaves no goroutine behind, and does not consume the rest of a long model part or STL file. A context that is cancelled only after the call has returned, or never, has no effect on the result.",
 ["schedules","fault_sequences"], "every moment of cancellation in every kind of input",
 "The tests cancel once before decoding.",
 ["read.go","importer/stl/decoder.go","importer/stl/ascii.go","importer/stl/binary.go"],
 [dict(name="periodic check of the context between tokens and faces", where="read.go, importer/stl")],
 ["returned error, bytes read from the input after the cancellation, goroutines alive after the call"],
 "runtime monitors on cancellation injected at enumerated read positions: error, bytes consumed after cancellation, goroutine count",
 "Fault enumeration over the positions of cancellation in generated inputs.", level="fault_enumeration")
prop("C14", "Reading and encoding never modify the model; safe concurrently",
 "Validate, ValidateCoherency, BoundingBox, searches, walks, UnusedID and encoding leave the model they are given unchanged, so any number of them may run at the same time on the same model without data races and give the same results as one after the other.",
 ["schedules","inputs"], "every mix of concurrent read-only operations on every model",
 "The tests never run two operations on one model, nor compare the model afterwards.",
 ["encoder.go","validate.go","core.go","math.go","utils/utils.go","materials/validate.go","slices/validate.go","beamlattice/validate.go","production/validate.go"],
 [dict(name="read-only traversal of the model", where="encoder.go, validate.go, core.go")],
 ["deep snapshot of the model, including spare slice capacity, before and after; race detector reports; results"],
 "Go race detector with concurrent read-only operations, deep snapshots before and after, results compared with sequential ones",
 "Exploration of schedules under the race detector.")
prop("C15", "STL import reproduces the facets of the file",
 "Decoding a binary or ASCII STL adds one mesh object whose triangles, in order, have the corner coordinates of the facets of the file, in order, and a build item for it; binary floats are exact, and equal corners share one vertex. Layout differences of ASCII files (case, spacing, line ends, names, normals) and how the reader delivers the bytes make no difference. A file that ends within a facet or has a corner coordinate that is no number is refused, and the model is left as it was.",
 ["inputs"], "every facet list, in both formats, in every layout and chunking",
 "The tests read one cube in each format.",
 ["importer/stl/decoder.go","importer/stl/ascii.go","importer/stl/binary.go","core.go"],
 [dict(name="STL readers and the mesh builder", where="importer/stl, core.go")],
 ["objects and build items added by stl.Decoder compared with the facets written"],
 "runtime differential oracle with an independent STL writer", "Exploration; trusts the independent writer.")
prop("C16", "Hostile STL input never crashes, hangs or exhausts memory",
 "For any bytes, decoding as STL ends with a mesh or an error, without a panic, a hang, or memory beyond a constant factor of the input. A binary file with fewer facets than announced is reported as an error.",
 ["inputs"], "every byte string", "The tests read a few valid and empty files.",
 ["importer/stl/decoder.go","importer/stl/ascii.go","importer/stl/binary.go"],
 [dict(name="format detection and the two readers", where="importer/stl")],
 ["process exit, panics, CPU time, bytes allocated per byte of input, error of truncated files"],
 "crash, hang and allocation monitors over mutated and hostile STL files; every truncation point of binary files", "Exploration.")
prop("C17", "Core validation reports exactly the faults of a model",
 "Validate reports, for every model, every violation of the core rules (identifiers, references, units and values, metadata, base materials, meshes, components, build, relationships) with the path of the faulty element, and nothing for models without violations. Faults in one place do not hide or create reports for another, in the root model and in child models alike.",
 ["inputs"], "every model, valid or with any set of faults",
 "The tests validate lists of small fixed objects.",
 ["validate.go","core.go","errors/errors.go","errors/list.go"],
 [dict(name="Validate of the core types", where="validate.go")],
 ["list of errors (part path, element path, error) returned by Model.Validate"],
 "runtime oracle: independent reference validator, exact multiset of errors on generated models with injected faults",
 "Exploration; the reference validator follows the documented rules and the behaviour fixed by the tests, see DESIGN.md.")
prop("C18", "Extension validation reports exactly the faults of a model",
 "Validate reports exactly the violations of the materials, slices, beam lattice and production rules of a model, with the path of the faulty element: references to missing or wrong resources, indices out of range, missing or invalid values, order and topology rules, in root and child models. Valid extension content is never reported, and declared but unsupported required extensions are.",
 ["inputs"], "every model with extension content, valid or with any set of faults",
 "The tests validate lists of small fixed objects for each extension.",
 ["materials/validate.go","slices/validate.go","beamlattice/validate.go","production/validate.go","validate.go","spec/spec.go"],
 [dict(name="Validate functions of the extension specs", where="*/validate.go")],
 ["list of errors (part path, element path, error) returned by Model.Validate"],
 "runtime oracle: independent reference validator, exact multiset of errors on generated models with injected faults",
 "Exploration; the reference validator follows the documented rules and the behaviour fixed by the tests, see DESIGN.md.")
prop("C19", "Coherency validation decides manifold and oriented meshes",
 "ValidateCoherency reports an object exactly when its mesh is not a closed, consistently oriented solid: some edge is not shared by exactly two triangles, or is traversed twice in the same direction. The answer does not depend on the order of triangles, the rotation of their corners or the numbering of vertices.",
 ["inputs"], "every mesh", "The tests check one cube and a few broken cubes.",
 ["validate.go","core.go"],
 [dict(name="ValidateCoherency and the edge pairing", where="validate.go, core.go")],
 ["errors of Mesh.ValidateCoherency and Model.ValidateCoherency"],
 "runtime oracle: brute-force directed edge counting on generated closed and broken meshes, with metamorphic permutations", "Exploration.")
prop("C20", "Bounding boxes enclose the geometry exactly",
 "The bounding box of a mesh is the smallest axis-aligned box around its vertices; that of a model combines the boxes of its items, whose boxes combine the transformed boxes of their nested components. It encloses every vertex reached through the build with all the transforms applied, is exactly tight when the transforms keep the axes, is the zero box if there is no vertex, and is unaffected by empty or missing objects. Matrix operations obey their algebra: multiplication, translation, and transformation of points and boxes agree with each other.",
 ["inputs"], "every mesh, component tree and transform", "The tests compute a few fixed boxes.",
 ["core.go","math.go"],
 [dict(name="BoundingBox functions", where="core.go"), dict(name="Matrix and Box", where="math.go")],
 ["boxes returned compared with a float64 brute force"],
 "runtime oracle: brute force over all vertices in float64 with error bounds, on generated nested models", "Exploration; tolerance follows the float32 rounding of the operations.")
prop("C21", "Lookups, walks and unused identifiers agree with the content",
 "Finding objects, assets and files by identifier and path returns the element a linear search over the model and its child models finds, or reports that there is none. Walks visit every object and asset of every part once, in order, stopping at the first error; UnusedID returns the lowest positive identifier not used in the part.",
 ["inputs","histories"], "every model and every query", "The tests make a few queries on one model.",
 ["core.go"],
 [dict(name="FindObject, FindAsset, FindResources, WalkObjects, WalkAssets, UnusedID", where="core.go")],
 ["results and visit order compared with a linear search"],
 "runtime oracle: linear-search model of the lookups on generated models", "Exploration.")
prop("C22", "The mesh builder merges exactly the equal vertices",
 "A mesh built with the builder has a vertex for every distinct position added, in order of first addition, and each addition returns the index of a vertex within the merge tolerance of the position given. Positions farther apart than the tolerance are never merged, and the same position always gives the same index, whatever was added before.",
 ["inputs","histories"], "every sequence of additions, including huge, tiny and negative coordinates",
 "The tests add a few vertices.",
 ["core.go"],
 [dict(name="MeshBuilder.AddVertex and the vertex key", where="core.go")],
 ["indices returned and the vertices of the mesh, compared with a brute force list"],
 "runtime oracle: brute-force vertex list over generated sequences of additions", "Exploration.")
prop("C23", "Error lists and wrapped errors keep every error and path",
 "Combining, appending and wrapping errors never loses, duplicates or reorders an error, treats nil as nothing, flattens lists, and gives nil for no errors; errors.Is and errors.As find the cause of every wrapped error and the first error of a list. The path of a wrapped error lists the elements from the outermost to the innermost with their positions.",
 ["inputs","histories"], "every sequence and nesting of combine, append and wrap operations", "The tests check short fixed sequences.",
 ["errors/errors.go","errors/list.go"],
 [dict(name="List, Append, Wrap, WrapIndex, WrapPath", where="errors/")],
 ["errors returned, their unwrapping and text, compared with a list model"],
 "runtime oracle: sequence model of error lists over generated operations", "Exploration.")
prop("C24", "I/O failures are always reported",
 "If any read of the input or any write of the output fails, at any point, decoding or encoding returns an error: a truncated or unreadable package or STL file is never returned as a complete model, and an encode that could not write every byte never reports success. Errors of the underlying reader and writer are the ones reported.",
 ["fault_sequences","crash_points"], "every single failing read or write position of every input and output",
 "The tests mock a few failing calls.",
 ["encoder.go","opc.go","read.go","importer/stl/decoder.go","importer/stl/ascii.go","importer/stl/binary.go","internal/xml/printer.go"],
 [dict(name="error propagation from writers and readers", where="encoder.go, opc.go, read.go, importer/stl")],
 ["error of Encode/Close/Decode with a writer, reader or attachment that fails at position k"],
 "fault enumeration: failing reader or writer at every position, monitor on the error returned and the result",
 "Fault enumeration of single faults over generated packages.", level="fault_enumeration")
prop("C25", "UUIDs are well formed, unique and completed",
 "Parsing a UUID accepts exactly the standard forms and rejects everything else; generated UUIDs are valid version 4 ones and do not repeat, also when generated concurrently. SetMissingUUIDs gives a valid new UUID to every build, item, object and component without one, in every part, and changes nothing else.",
 ["inputs","schedules"], "every string; every model; concurrent generation", "The tests parse a list of strings and generate one UUID.",
 ["uuid/uuid.go","production/production.go","production/validate.go"],
 [dict(name="Validate, New", where="uuid/uuid.go"), dict(name="SetMissingUUIDs", where="production/production.go")],
 ["accept/reject of strings compared with an independent grammar; the model before and after"],
 "runtime oracle: independent grammar on generated and mutated strings, race-enabled uniqueness monitor, before/after comparison", "Exploration.")
prop("C26", "Colours, matrices and numbers keep their value as text",
 "Formatting and parsing a colour, a matrix or an enumerated value are inverse: every value survives and every valid text means what the 3MF grammar says. Colours that are not # with 6 or 8 hexadecimal digits, matrices that are not twelve numbers, and unknown names of units, object types, mesh resolutions, clipping and lattice cap modes are rejected. Numbers are read as the nearest float and written as the nearest decimal of the selected precision.",
 ["inputs"], "every colour, matrix and enumerated value, and every text", "The tests check a handful of texts.",
 ["spec/utils.go","math.go","core.go","materials/materials.go","slices/slices.go","beamlattice/beamlattice.go"],
 [dict(name="ParseRGBA, FormatRGBA, ParseMatrix, Matrix.String, enum String functions", where="spec/utils.go, math.go, core.go, extension packages")],
 ["values and errors returned, compared with math/big and strconv"],
 "runtime oracle: exhaustive enumeration of small spaces and generated texts against an independent grammar", "Exploration; colour channels are enumerated completely.")
prop("C27", "Decoding, encoding and decoding again is stable",
 "For every document the decoder accepts, encoding the decoded model and decoding the result gives the same model again, and no accepted document becomes unreadable or impossible to save by being saved. The first encoding may round numbers to the precision and declare name spaces where they are used; from then on (from the first encoding when it did neither) encoding what was decoded gives byte-identical model parts.",
 ["inputs"], "every accepted document, including unusual and invalid-model ones", "The tests never encode what they decoded.",
 ["encoder.go","decoder.go","read.go","opc.go"],
 [dict(name="encoder and decoder pairs", where="encoder.go, decoder.go, extension packages")],
 ["models after the first and second decode; bytes of the first and second encode"],
 "runtime metamorphic oracle: decode, encode, decode, encode of mutated and generated documents", "Exploration.")
prop("C28", "Packages mean the same however they are laid out",
 "Decoding a package gives the root model, child models, attachments with their bytes and content types, and relationships that the package has, whichever of the ways that OPC and ZIP allow it is written in: relationship targets that are absolute, relative, with dot segments or in another letter case, default or overriding content types, any folders and extensions, any order, compression and headers of the ZIP entries, any way to write the XML of the relationships and content types, dangling and external relationships, and parts that nothing references.",
 ["inputs","configurations"], "every package layout for every set of parts and relationships",
 "The tests read a few packages of one producer, whose targets are absolute and in the order of its encoder.",
 ["opc.go","read.go"],
 [dict(name="opcReader, opcFile and target resolution", where="opc.go"), dict(name="Decoder.processOPC and extractCoreAttachments", where="read.go")],
 ["Model.Path, Childs, Attachments, Relationships and RootRelationships after Decode"],
 "runtime differential oracle: packages of an independent writer with random layout compared with the abstract package",
 "Exploration; trusts the independent package writer and archive/zip; part names without escapes.")
prop("C29", "Work on different models does not interfere",
 "Operations on models, documents and files of their own (encoding, decoding, marshalling, unmarshalling, importing STL, building meshes, validating, looking up, parsing values, building errors, also when they fail or are cancelled) give the same results, the attachments' bytes included, when they run at the same time in several goroutines, one after the other in any order, or as the first of their process, as they give alone; there is no data race between them.",
 ["schedules","histories","inputs"], "every mix of operations on different models, in every schedule and order",
 "The tests run one operation at a time, each in the same process and order; state shared between calls, such as buffers, pools, caches and registries, shows only when different inputs meet.",
 ["read.go","opc.go","encoder.go","decoder.go","spec/encoding.go","internal/xml/xml.go","importer/stl/decoder.go","errors/errors.go"],
 [dict(name="package level state: the registry of specs, tables of attribute names, encoders and decoders with buffers", where="spec, go3mf, internal/xml")],
 ["results of every operation compared with those alone, under the race detector"],
 "Go race detector on mixes of independent operations; comparison with the results alone and in new processes",
 "Exploration of mixes, orders and schedules; the distinct mixes are recorded.")
prop("C30", "Encoded packages are what the specifications describe",
 "A package written by the Encoder is what any reader of the specifications expects: a ZIP archive and OPC package with every part, its content type and its relationships (one to start with, one for every child model, texture and thumbnail), whose model parts are well-formed UTF-8 documents with every prefix declared, that have exactly the elements and attributes the model stands for, in the right name spaces, with the right values and in the right order, and only what the specifications allow when the model is valid. Nothing depends on how the Decoder of this library reads it. Attributes with default values may be written or not, and numbers are rounded to the selected precision.",
 ["inputs"], "every model that can be expressed, every precision",
 "The tests compare a few encoded documents with the expected text, or read them with the decoder of the library, which is lenient with the order of elements, repeated attributes, undeclared prefixes and content types.",
 ["encoder.go","opc.go","spec/encoding.go","internal/xml/printer.go","materials/encoder.go","slices/encoder.go","beamlattice/encoder.go","production/encoder.go"],
 [dict(name="document writers", where="encoder.go and the encoders of the extensions"), dict(name="package writer", where="opc.go")],
 ["entries, content types, relationships and elements of the package written, read by a reader independent of the library"],
 "independent reader as runtime oracle: ZIP, OPC and XML monitors that compare every encoded part with the tree the model stands for and with grammars of the schemas",
 "Exploration of models and precisions; elements, attributes, relationships and grammar rules checked are counted.")
prop("C31", "Everything opened is closed; nothing is used or kept afterwards",
 "When a decode, encode or import returns, whatever the outcome (a result, malformed content, an I/O failure, a cancellation), every part it opened has been closed, no goroutine it started remains, and the readers, writers and streams it was given are not used any more; those given to NewDecoder, NewEncoder and the STL decoder are not closed either. Close releases the file of OpenReader and CreateWriter, and when these fail they leave no file open. What was decoded, attachments included, stays usable after the input is closed or gone. Repeating operations on different inputs does not accumulate memory.",
 ["inputs","fault_sequences","histories"], "every operation with every outcome, and every history of operations",
 "The tests look at results only, and their process ends before anything that was left open or kept is missed.",
 ["read.go","opc.go","encoder.go","internal/xml/xml.go","importer/stl/decoder.go","spec/spec.go"],
 [dict(name="parts opened by the decoder", where="read.go: processRootModel, readChildModel, copyFile"), dict(name="files of OpenReader and CreateWriter", where="read.go, encoder.go")],
 ["opens, reads and closes of the parts at the decompressor; uses of the caller's readers, writers and streams; descriptors in /proc/self/fd; goroutines; live heap"],
 "runtime life cycle monitors: ledgers of opens, uses and closes, descriptors, goroutines and live heap, under faults and cancellations",
 "Exploration of outcomes and fault positions; opens and closes are counted; memory is judged with a tolerance of 5 % of the input.")
prop("C32", "Registered extensions get what documents and models say",
 "An extension registered with spec.Register is offered every element of its name space that stands in a model, in resources or in a mesh, in the root and in child parts, once and in document order, and no element of another name space. A decoder it gives is started once with all the attributes, then gets exactly the children, text or tokens it asks for while it is open, and is ended once, whatever the spelling of the document and also when it reports errors; elements it declines are skipped whole. Attribute groups get all the attributes of the name space of their element, with the name of that element. Errors it returns are reported with the path of the element, in document order, and stop a strict decode. Encoding asks each value once to write itself, so that what was written is read back the same, and keeps the relationships it adds with the part. Validate asks its validator, once per declaration, for the model, every resource and every object with the path of the part, and reports its errors there. All this also holds for concurrent decodes while extensions are being registered.",
 ["inputs","histories","schedules"], "every document and model with elements and attributes of registered extensions, every kind of decoder and every schedule of concurrent decodes",
 "The tests use the four built-in extensions and one fake one with a single element in a single place.",
 ["read.go","decoder.go","encoder.go","validate.go","spec/spec.go"],
 [dict(name="dispatch of elements, text and tokens", where="read.go: decodeModelFile"), dict(name="extension points", where="decoder.go: Child and Start of the core decoders"), dict(name="writing of extensions", where="encoder.go: writeAny, writeResources"), dict(name="validators", where="validate.go: Validate, Resources.validate, Object.Validate")],
 ["every call of the registered decoders, attribute groups, marshalers and validators"],
 "runtime protocol monitors: recording extensions registered with the library, whose recordings are compared with the trees of the documents; race detector",
 "Exploration of documents by the independent writer; values, kinds of decoders, faults, validator calls and concurrent decodes are counted.")

NA = {}
def implemented():
    ids = set()
    for f in os.listdir(root + "/harness"):
        if f.endswith(".go"):
            import re
            ids |= set(re.findall(r'"(C\d\d)"', open(root + "/harness/" + f).read()))
    return ids

def main():
    impl = implemented() if not os.path.exists(root + "/tools/ids") else set(open(root+"/tools/ids").read().split())
    with open(root + "/properties.jsonl", "w") as f:
        for p in P:
            assert len(p["title"]) <= 80, p["title"]
            d = dict(id=p["id"], title=p["title"], statement=p["statement"], quantifier=dict(over=p["over"], text=p["quant"]),
                     why_tests_cant=p["why"], anchors=dict(files=p["files"], state=p["state"], mechanism=p["mech"], observe_at=p["observe"], hook_needed=None))
            f.write(json.dumps(d) + "\n")
    m = dict(version=1, setup_cmd="./setup.sh",
             checks=[dict(property=p["id"], quick_cmd="./check.sh -prop %s -tier quick" % p["id"],
                          thorough_cmd="./check.sh -prop %s -tier thorough" % p["id"],
                          evidence_file="evidence/%s.json" % p["id"], technique=p["technique"], level=p["level"], level_note=p["note"])
                     for p in P if p["id"] in impl],
             not_applicable=[dict(property=p["id"], reason=NA.get(p["id"], "The check is being built; not claimed in this commit.")) for p in P if p["id"] not in impl],
             notes="No hooks in /repo: the monitors use the public API, custom readers, writers, ZIP methods and registered specs as observation points. Checks needing the race detector are listed in harness/race_props.txt.")
    open(root + "/MANIFEST.json", "w").write(json.dumps(m, indent=1) + "\n")
main()
