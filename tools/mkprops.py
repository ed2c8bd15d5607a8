import json
P=[]
def p(id,title,statement,over,qt,why,files,mech,state=(),observe=(),hook=None):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qt),why_tests_cant=why,
      anchors=dict(files=files,state=[dict(name=a,meaning=b,where=c) for a,b,c in state],
        mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=list(observe),hook_needed=hook)))
PR='packedrtree/packedrtree.go'; HB='packedrtree/hilbert.go'; BX='packedrtree/box.go'
FR='flatgeobuf/file_reader.go'; FW='flatgeobuf/file_writer.go'; FB='flatgeobuf/flatbuffers.go'
SR='flatgeobuf/stringers.go'; PRD='flatgeobuf/prop_reader.go'; PWR='flatgeobuf/prop_writer.go'; SP='flatgeobuf/spec.go'; ST='flatgeobuf/stateful.go'
p('C01','Spatial index search is exact',
 'For every non-empty list of Hilbert-sorted references whose boxes contain no NaN, every node size of at least 2 and every NaN-free query box, searching the index built from the list returns each reference whose box intersects the query (touching edges and corners count) exactly once, with that reference\'s offset and its position in the list, and returns nothing else. Searching never changes the index: repeating a search, with any other searches in between, gives the same set, and the index reports the reference count and node size it was built with.',
 ['inputs','configurations','histories'],'all reference lists (counts from 1 to many levels, all box shapes incl. points, lines, empty, infinite and identical boxes), all node sizes 2..65535, all query boxes and query sequences',
 'TestNew searches one fixed diagonal of at most 11 boxes with five node sizes; no query touches an edge, no list is large, and full/partial level combinations are a handful.',
 [PR,BX],[('bottom-up construction of internal boxes',PR+': New'),('ticket-driven descent',PR+': packedRTree.search'),('closed-interval box test',BX+': Box.intersects'),('level layout',PR+': levelify')],
 [('levels','node index range of each tree level',PR+': packedRTree.levels'),('nodes','root-first node array',PR+': packedRTree.nodes')],['packedrtree.New','PackedRTree.Search','PackedRTree.NumRefs','PackedRTree.NodeSize'])
p('C02','Streaming index search equals in-memory search',
 'For every serialized index, at any start position within a seekable stream, and every NaN-free query box, the streaming search returns exactly the references that a linear scan of the leaves finds, each once, in ascending order of reference index, with the same offset and reference index the in-memory search of the deserialized index reports. On success the stream is left positioned at the first byte after the index, whatever the query matched.',
 ['inputs','configurations'],'all indexes, node sizes, queries (incl. ones matching nothing or everything), start offsets and bytes surrounding the index',
 'TestSeek only covers failures with a mock, ExampleSeek runs one four-reference, single-level index at offset 0; the only file-level streaming example cannot run (its test data file is missing).',
 [PR],[('min-heap work bag',PR+': heapPush/heapPop'),('node fetch with relative seek',PR+': Seek'),('skip to index end',PR+': Seek')],
 [('offset','current stream offset as tracked by the search',PR+': Seek')],['packedrtree.Seek results','stream position after return'])
p('C03','Streaming index search reads forward and only what it needs',
 'A streaming search over a valid index never reads a byte outside the index section, never reads any byte twice and never moves backward: its reads are at ascending positions. It reads the root and the child groups of exactly those internal nodes whose boxes intersect the query, so its I/O and memory do not grow with the parts of the index the query does not touch.',
 ['inputs','configurations'],'all valid indexes, node sizes, start offsets and query boxes',
 'Tests check results of one small search; none observes which bytes are read, in which order, or how much.',
 [PR],[('heap orders tickets by node index','packedrtree/packedrtree.go: ticketBag'),('fetch reads exactly one child group',PR+': Seek fetch')],[],['Read and Seek calls on the io.ReadSeeker passed to packedrtree.Seek','bytes allocated by the call'])
p('C04','Index serialization is the FlatGeobuf layout and loses nothing',
 'Serializing an index writes exactly the number of bytes its size function declares, and reports that number: 40-byte little-endian nodes (four doubles, one 64-bit integer) from the root level down to the leaves, leaves last in list order and unchanged, each internal node holding the union of its children\'s boxes and the node index of its first child. Deserializing such bytes consumes exactly that many bytes, accepts every index any conforming writer produced, and yields an index that answers every search the same and serializes back to identical bytes.',
 ['inputs','configurations'],'all reference lists and node sizes, including indexes produced by independent writers and indexes larger than any internal I/O chunk',
 'TestNew round-trips eleven fixed boxes through the package itself, so a consistent error in both directions or in larger, multi-chunk or partially filled levels goes unseen.',
 [PR,'packedrtree/native_littleendian.go','packedrtree/native_bigendian.go'],[('raw node copy',PR+': Marshal, Unmarshal, readLittleEndianNodes'),('level layout',PR+': levelify'),('byte order','packedrtree/native_*.go')],
 [],['bytes passed to io.Writer','bytes taken from io.Reader','Marshal result n'])
p('C05','Index size arithmetic is exact or refused',
 'For every reference count and node size, the declared index size equals 40 times the mathematically exact number of tree nodes whenever that fits the platform integer, and is otherwise an error, never a wrapped or truncated number; counts below 1 and node sizes below 2 panic. Deserialization and streaming search apply the same rule, refusing oversized indexes with an error before reading any node and without allocating for them.',
 ['inputs','configurations'],'all (reference count, node size) pairs of the platform int range, in particular around every overflow threshold',
 'TestSize has about ten pairs, none at an exact threshold.',
 [PR],[('overflow checks',PR+': size, totalNodes'),('parameter validation',PR+': validateParams')],[],['packedrtree.Size','packedrtree.Unmarshal','packedrtree.Seek'])
p('C06','Hilbert sort is a lossless descending Hilbert ordering',
 'Sorting any list of references over bounds that contain them only permutes the list (no reference lost, duplicated or altered) and leaves it in descending order of the position of each box centre on the order-16 Hilbert curve over those bounds, where the curve is the one FlatGeobuf reference implementations use (a bijection of the 65536 by 65536 grid in which consecutive positions are neighbouring cells). Degenerate bounds (zero width or height) are ordered along the remaining axis, and empty or infinite boxes never cause loss.',
 ['inputs'],'all reference lists and bounds',
 'The package test asserts refs[i].Offset > refs[i].Offset (vacuous) on six boxes and spot-checks ten curve values; the file-based test covers the few test data files.',
 [HB],[('curve index',HB+': hilbertOfXY'),('centre scaling',HB+': hilbertOfCenter'),('sort',HB+': HilbertSort')],[],['packedrtree.HilbertSort output'])
p('C07','Box expansion is the exact union',
 'Expanding a box by another box or by a coordinate pair yields the smallest box containing both: no side moves unless it must, no side moves further than it must, the argument is unchanged, and the empty box is an identity. Hence the result of expanding by a set of boxes or points is independent of their order and grouping, width and height are the differences of the sides, and an index\'s bounds are exactly the union of its references\' boxes.',
 ['inputs','histories'],'all NaN-free boxes, coordinates and expansion sequences; NaN coordinates never shrink or corrupt a box',
 'TestBox_* use fewer than ten fixed boxes each and no sequences.',
 [BX,PR],[('componentwise min/max',BX+': Expand, ExpandXY'),('root box',PR+': Bounds')],[],['Box values','PackedRTree.Bounds'])
p('C08','Files survive write, read and copy byte for byte',
 'A file written from a valid header, an optional matching index and a sequence of features consists of exactly the magic number, the header table, the serialized index and the feature tables in the order written, with no byte added, lost or reordered, and the byte counts the writer returns add up to the file length. Reading it back yields byte-identical header, index and feature tables in the same order, and copying any valid file (one without a feature count having node size 0) from reader to writer reproduces everything after the magic number exactly.',
 ['inputs','configurations'],'all headers, schemas, geometries, properties, feature counts (known or unknown), node sizes, and feature sizes; buffers with bytes beyond the size-prefixed table',
 'No test uses the file writer at all, and the reader is tested on ten sample files.',
 [FR,FW,FB,SP],[('size-prefixed table output',FB+': writeSizePrefixedTable, tableSize'),('magic',SP+': magic'),('feature input',FR+': readFeature, readAppend')],[],['bytes written','flat.Header and flat.Feature tables returned'])
p('C09','IndexData produces a correct spatial index of its features',
 'Writing features through IndexData or IndexDataPtr stores every given feature exactly once, byte for byte, in descending Hilbert order of their bounding boxes, preceded by an index whose i-th leaf describes the i-th stored feature: its box is the bounding box of all coordinates of the geometry, including nested parts at any depth (empty for no geometry), and its offset is the feature\'s byte position in the data section. A bounding box search of the resulting file therefore finds exactly the features whose geometry bounds intersect the query, and the caller\'s slice and features are left unchanged.',
 ['inputs','configurations'],'all non-empty feature sets and geometries (all types, nested collections, missing geometry, NaN coordinates), node sizes',
 'No test calls IndexData or IndexDataPtr.',
 [FW,SR,PR,HB],[('bounds, sort, offsets',FW+': IndexDataPtr, featureBounds'),('recursive bounds',SR+': geomBounds')],[],['bytes written by IndexData','FileReader.IndexSearch on the result'])
p('C10','IndexSearch returns exactly the matching features',
 'For every valid indexed file and NaN-free query box, IndexSearch returns the features whose index boxes intersect the query, each exactly once, with their exact bytes, in file order, and no others; on a file without an index (node size zero, or no feature count) it returns the no-index error and the features stay readable. The result does not depend on whether the stream is seekable, whether the index was loaded or searched earlier, where in a larger stream the file begins, or whether the index leaves are in file order.',
 ['inputs','configurations','histories'],'all valid files, leaf orders, queries, stream kinds (seekable, not seekable, embedded at an offset), and preceding Index/IndexSearch/Data/Rewind calls',
 'The only test of IndexSearch is an example that fails because its test data file is missing.',
 [FR,PR],[('cached or streaming search',FR+': IndexSearch'),('skipping to features',FR+': IndexSearch skip'),('offset bookkeeping',FR+': saveIndexOffset, saveDataOffset')],
 [('featureOffset','data section offset of the next feature',FR+': FileReader'),('dataOffset','stream offset of the data section',FR+': FileReader'),('cachedIndex','index loaded earlier',FR+': FileReader')],['FileReader.IndexSearch'])
p('C11','Any sequence of reader calls follows the documented protocol',
 'Over every sequence of Header, Index, IndexSearch, Data, DataRem and Rewind calls on a valid file, each call either yields exactly the result the file dictates at the current position (Data delivers the features in order with no gap or repeat whatever the slice sizes, including empty slices, and signals end of data exactly when no feature remains) or is refused with an error and changes nothing; no sequence panics. Rewind on a seekable stream makes everything after the header readable again with identical results, with or without an index, and is refused on a stream that cannot seek; after IndexSearch there are no further features to read until a Rewind.',
 ['histories','configurations'],'all call sequences and slice sizes over indexed and unindexed files with known and unknown feature counts, on seekable and non-seekable streams',
 'Three examples use one straight-line call sequence each; Rewind, chunked Data, refused calls and unindexed rewinds are never exercised.',
 [FR,ST],[('state machine',ST+': toState'),('batching and end detection',FR+': Data, DataRem'),('lazy seek',FR+': Rewind, skipIndex, seekUnindexedData')],
 [('state','reader position in the protocol',ST+': stateful'),('featureIndex','next feature to read',FR+': FileReader')],['results of every FileReader call'])
p('C12','Results do not depend on how streams deliver bytes',
 'The results of reading (magic number, headers, indexes, streaming search, features, index search, properties) depend only on the bytes of the stream and not on how the stream splits them: short reads of any size, reads returning no data, and a final read that returns data together with the end-of-stream condition all give the same values and errors as one contiguous read. Reading never consumes bytes beyond the item requested.',
 ['configurations','schedules','inputs'],'all fragmentations of all streams, seekable or not',
 'All tests read from files or memory that deliver every read in full.',
 [FR,PR,PRD,SP],[('full reads','io.ReadFull uses in '+FR+', '+PR+', '+PRD+', '+SP),('discard loop',FR+': discard')],[],['results under fragmenting readers','bytes consumed'])
p('C13','Truncation and I/O errors are never mistaken for success',
 'If a stream ends early or a read or seek fails at any point, the call in progress returns a non-nil error which is not the end-of-data signal and which wraps the underlying I/O error, every feature delivered is one of the file\'s true features in the right order, a call reading features returns with the error exactly those it had read completely (an index search returns none), and no feature that was not fully read is delivered; a file cut exactly between features is a normal end only if its header gives no feature count. After a failed read or seek, or an item cut in its middle, the reader never again delivers data: all further reading calls return an error.',
 ['fault_sequences','crash_points','inputs'],'every truncation length and every failing I/O call of every call sequence on files with and without index and feature count, seekable or not',
 'File reader tests never inject a fault; packedrtree tests inject a few into Seek and Unmarshal only.',
 [FR,PR,ST,SP],[('sticky error',ST+': toErr'),('EOF translation',FR+': readFeature, readAppend, discard; '+PR+': Unmarshal')],[('err','sticky error',ST+': stateful')],['errors returned by FileReader methods','features delivered'])
p('C14','Corrupt or malicious input is contained',
 'Whatever bytes a stream contains, every reader call, index search and string summary returns normally, with a result or an error, after a bounded number of I/O calls: no panic, stack overflow or endless loop. Memory allocated is bounded by a constant (dominated by the 32 MiB header limit) plus a multiple of the bytes actually present (for a string summary, also of the length of its text), however large the counts, lengths and offsets the input claims, and time by a multiple of the bytes present, however often parts of the input refer to one another.',
 ['inputs','histories'],'all byte streams, in particular valid files with corrupted lengths, counts, offsets, index nodes, schemas, properties and geometries, under all call sequences',
 'No test reads a corrupt file.',
 [FR,PR,PRD,SR,FB,SP],[('panic trapping',FB+': safeFlatBuffersInteraction'),('header limit',SP+': headerMaxLen'),('child index validation',PR+': isFirstChild'),('bounded allocation',FR+': readAppend; '+PR+': Unmarshal'),('geometry recursion budget',SR+': geomBounds')],[],['return, panic or crash of each call','I/O calls','bytes allocated'])
p('C15','Writer calls out of protocol are refused without output',
 'Over every sequence of writer calls, the bytes written so far are always a prefix of a valid file: header first and once, then the index if and only if the header\'s node size is non-zero, agreeing with the header in feature count and node size, then at most as many features as the header announces. Any call that would break this, or that passes a table which is not a size-prefixed root at the start of its buffer or whose fields needed for the call (feature count, node size, geometry to be indexed) cannot be read, is refused with an error and changes nothing, and closing a file with fewer features than announced reports an error; every call returns exactly the number of bytes it wrote.',
 ['histories','inputs','configurations'],'all sequences of Header, Index, IndexData, Data and Close with valid and invalid arguments',
 'No test uses the file writer.',
 [FW,FB,ST],[('state checks',FW+': canWriteIndex, canWriteData'),('agreement checks',FW+': index'),('table validation',FB+': tableSize'),('count check on close',FW+': Close')],
 [('state','writer position in the protocol',ST+': stateful'),('featureIndex','features written',FW+': FileWriter')],['bytes written','n and err of every FileWriter call'])
p('C16','Write failures are reported and never corrupt the output',
 'When the underlying writer fails at any call, having accepted any number of bytes, the call in progress returns an error wrapping the failure and exactly the number of bytes accepted, and what has been accepted is a prefix of the intended file. If any byte of the failed item was accepted, every later call fails without writing anything, so output is never continued after a hole; serializing an index and writing properties report failures and byte counts the same way.',
 ['fault_sequences','crash_points','histories'],'every failing write call and every partial acceptance length, over all call sequences',
 'No test uses the file writer or property writer; index serialization failures are not tested.',
 [FW,FB,PR,PWR,ST],[('sticky error',FW+': Header, index, Data via toErr'),('count propagation','n results in '+FW+', '+FB+', '+PWR)],[],['bytes accepted by the underlying writer','n and err of each call'])
p('C17','Property values encode and decode exactly',
 'Every value of every property type is written in the FlatGeobuf encoding (little-endian fixed width; booleans as one byte 0 or 1; strings and binaries as a 32-bit length followed by the bytes), with the number of bytes written returned, and reading it back yields the identical value, bit for bit including NaN payloads, extreme integers, empty and non-UTF-8 strings. Reading consumes exactly the bytes of the value, and a value cut short yields an error, never a shorter or zero value reported as success.',
 ['inputs'],'all values of all fifteen column types, all sequences of values, all truncations',
 'Nothing tests the property writer; property reads are pinned by three sample records.',
 [PRD,PWR],[('fixed-width decoding',PRD+': Read*'),('fixed-width encoding',PWR+': Write*')],[],['bytes written by PropWriter','values returned by PropReader'])
p('C18','Schema-driven property decoding is exact and total',
 'Decoding a property list against a schema returns one entry per encoded pair, in encoded order, each with its column index, that column\'s definition and type, and the exactly decoded value, for any order, repetition or omission of columns and any number of columns up to the format limit. A list that is cut inside a pair, names a column outside the schema or one the schema cannot give, or uses a column of unknown type yields an error, never the end-of-data signal, and no values.',
 ['inputs','configurations'],'all schemas (column counts to 65536, all types), all pair sequences, all truncation points',
 'Three sample records are decoded by examples; no malformed list is tested.',
 [PRD,SR],[('type dispatch',PRD+': ReadSchema')],[],['PropReader.ReadSchema'])
p('C19','Shared read-only use is free of data races',
 'Any number of goroutines may concurrently search, serialize, inspect and summarize the same index, and concurrently access and summarize the same header and features, while other goroutines use their own readers, writers and sorts: there is no data race, and every goroutine gets the same results as it would alone.',
 ['schedules','histories'],'all interleavings of concurrent read-only operations on shared indexes, headers and features, and of independent readers and writers',
 'No test starts a goroutine.',
 [PR,HB,FR,FW,SR,'flatgeobuf/flat/Feature.go','flatgeobuf/flat/Header.go'],[('search state local to the call',PR+': search'),('no package-level mutable state','packedrtree, flatgeobuf')],[],['race detector reports','results of concurrent calls'])
p('C20','Returned and accepted data is isolated',
 'A header, feature, property value or index handed to the caller keeps its contents whatever the caller does next with the reader or writer it came from (further reads, rewinds, searches, close), and no two returned features or binary values share memory, so modifying one never changes another. An index is independent of the slice it was built from, and neither building, searching and serializing an index nor writing headers, features and properties modifies the caller\'s data.',
 ['histories','inputs'],'all later operations on the source object and all modifications of other returned or supplied objects',
 'Tests inspect results immediately after a call and never afterwards.',
 [FR,FW,PR,PRD,PWR],[('fresh buffer per item',FR+': readFeature, Header; '+PRD+': ReadBinary, ReadString'),('leaf copy',PR+': New')],[],['contents of retained objects after later operations'])
p('C21','Close is final and releases the stream exactly once',
 'Closing a reader or writer closes the underlying stream if it can be closed, exactly once over any number of Close calls, returning the stream\'s close error; further Close calls return the closed error. After Close, every operation returns the closed error and performs no I/O on the stream, whatever state the reader or writer was in, including before the header, at end of data, or after an error.',
 ['histories','fault_sequences'],'all call sequences containing Close at any position, closable and non-closable streams, failing close',
 'Tests defer one Close and ignore its result.',
 [ST,FR,FW],[('closed state',ST+': close, toState'),('guards','r.err checks in '+FR+' and '+FW)],[('err','sticky error',ST+': stateful')],['Close, Read, Write, Seek calls on the underlying stream'])
p('C22','Only genuine, supported files are accepted',
 'The magic check accepts an 8-byte prefix if and only if its six fixed bytes are right, returns its two version bytes, and consumes exactly eight bytes; opening a file additionally requires the supported major version, a header length that fits a table and does not exceed 32 MiB, and a complete header table with a node size other than 1 and a feature count that fits an int. Everything else is refused with an error before any oversized allocation, and after a refusal every further call except Close is refused too.',
 ['inputs'],'all 8-byte prefixes, header lengths, node sizes and feature counts',
 'One example checks the magic of one good file.',
 [SP,FR],[('magic comparison',SP+': Magic'),('header checks',FR+': Header')],[],['flatgeobuf.Magic','FileReader.Header','bytes consumed'])
p('C23','Generated tables conform to the FlatGeobuf schema',
 'For every header, column, coordinate reference system, feature and geometry, the builder functions produce tables whose fields have exactly the identifiers, types and default values of the FlatGeobuf schema, readable by any other FlatBuffers implementation, and the accessors return exactly the field values of tables built by any other implementation, including defaults for absent fields. In-place mutators change exactly the addressed field, and enumeration names and values match the schema.',
 ['inputs','programs'],'all combinations of present and absent fields, values, vector lengths and nesting',
 'The generated code has no tests; sample files exercise a few accessors and no builder.',
 ['flatgeobuf/flat/Header.go','flatgeobuf/flat/Column.go','flatgeobuf/flat/Crs.go','flatgeobuf/flat/Feature.go','flatgeobuf/flat/Geometry.go','flatgeobuf/flat/ColumnType.go','flatgeobuf/flat/GeometryType.go'],[('vtable offsets and slots','flatgeobuf/flat/*.go')],[],['table bytes','accessor results'])
p('C24','String summaries describe the actual object',
 'Header and feature summaries of valid objects report the actual field values: name, envelope, geometry type, dimension flags, column, feature and node-size figures, coordinate system, texts; geometry type and the bounding box of all coordinates including nested parts; and one name:value pair per encoded property in encoded order. Property names and types come from the feature\'s own columns if it has any, otherwise from the supplied schema if there is one, and an object that cannot be decoded is reported as an error text.',
 ['inputs','configurations'],'all headers, features and schemas',
 'Five sample objects are summarized by examples.',
 [SR],[('formatting',SR+': HeaderString, FeatureString'),('schema choice',SR+': stringProps'),('bounds',SR+': geomBounds')],[],['HeaderString','FeatureString'])
p('C25','Behaviour is the same on every platform',
 'The packages build for every architecture Go supports, and on 32-bit, big-endian and WebAssembly platforms they produce and accept exactly the same file bytes and give the same results as on 64-bit little-endian ones, within the platform integer range. In particular serialized indexes are little-endian everywhere, whatever their size and however writes are split or fail.',
 ['configurations','inputs'],'all supported architectures and the inputs of the other properties',
 'Tests only run on the host; build constraints exclude the big-endian code entirely and the package tests do not even compile for 32-bit.',
 ['packedrtree/native_bigendian.go','packedrtree/native_littleendian.go',PR,FR],[('byte order conversion','packedrtree/native_*.go: fixLittleEndianOctets, writeLittleEndianOctets'),('int overflow checks',PR+': size; '+FR+': Header')],[],['cross builds','digests of 386 and js/wasm runs','big-endian code run on the host'])
p('C26','Unsafe memory access stays within its objects',
 'The code that reinterprets index nodes as bytes and bytes as strings never reads or writes memory outside the object it was derived from, never creates misaligned or straddling pointers, and never lets a string or slice it returns observe memory that is reused later, for all index sizes, node sizes, string lengths (including zero) and I/O failures.',
 ['inputs','fault_sequences'],'all index sizes and shapes, string and binary lengths, truncations and failing writers',
 'The tests run without the race detector\'s pointer checking or an address sanitizer.',
 [PR,PRD,PWR],[('unsafe.Slice over nodes',PR+': Marshal, readLittleEndianNodes'),('unsafe.String / unsafe.StringData',PRD+': ReadString; '+PWR+': WriteString')],[],['checkptr and AddressSanitizer reports'])
p('C27','Reading a file touches only what the call needs',
 'On every valid file, a reader call reads exactly the bytes its result depends on, each once and in ascending order: the header only itself, IndexSearch on a seekable stream only the index nodes on its search path (at most those once the index is loaded) and the features it returns, Data and DataRem only the features delivered, skipping the index without reading it where the stream can seek, and Rewind nothing. The number of I/O calls and the memory allocated are bounded by a multiple of the items and bytes the call deals with, not by the size of the file.',
 ['inputs','histories'],'all valid files, queries and call sequences, seekable and not',
 'Tests look at results only; none observes which bytes of a stream are read or how much memory a call takes.',
 [FR,PR],[('seeking past the index and unmatched features',FR+': skipIndex, IndexSearch'),('streaming search',PR+': Seek'),('batching',FR+': DataRem')],[],['Read and Seek calls on the underlying stream','bytes allocated per call'])
p('C28','Results sort by offset; descriptions report true values',
 'Sorting any list of search results through its sort interface orders it by ascending offset over the whole range of 64-bit offsets and keeps every result intact. The text forms of boxes, references and indexes report the actual bounds (to eight digits), offset, reference count and node size.',
 ['inputs'],'all result lists and offsets, all boxes, references and indexes',
 'Tests use a handful of small positive values.',
 [PR,'packedrtree/box.go'],[('ordering',PR+': Results.Less'),('formatting',PR+': String; packedrtree/box.go: String')],[],['packedrtree.Results','String results'])
p('C29','Damaged indexes and feature lengths are refused, never misread',
 'Whatever numbers an index section holds, a search never silently leaves out or invents matches: deserializing fails if an internal node does not refer to its own first child, and a streaming search fails if it has to descend into such a node. Every other index, including one whose internal boxes are looser or tighter than the union of their children, is searched exactly as a descent from the root through intersecting boxes dictates, in memory and streaming alike. A file search whose matches have offsets at which no further feature can begin (negative, beyond the data, within another match, or the same twice) is an error, returns no features, and leaves the reader refusing to deliver data. Features are read exactly as their lengths dictate: a length too small for a table, reaching beyond the end of the stream, or, in a search, reaching into the next match, is an error with the same consequence, except that the features read before it are returned by Data and DataRem.',
 ['inputs'],'all index sections (any child references, boxes and leaf offsets) and files containing them, all queries',
 'Tests cover only well-formed indexes and a few wrong lengths; which node a damaged reference sends a search to is not observed.',
 [PR,FR],[('child reference check',PR+': isFirstChild, search, Unmarshal'),('overlapping and missing search results',FR+': IndexSearch')],[],['results and errors of Unmarshal, Search, Seek and IndexSearch'])
p('C30','Work and memory grow in proportion to the data, and nothing piles up',
 'Every operation takes processor time and memory at most in proportion (sorting and searching: up to a logarithmic factor) to the data it deals with: references for sorting, building, serializing, deserializing and exhaustive searches of an index; features for reading, searching, writing and indexing a file; bytes for headers, features, strings and skipped sections; coordinates and parts for geometry bounds; pairs and columns for property lists and summaries. This holds whatever the order or repetition of the data and however many bytes the stream delivers at a time. A search for a single reference, opening a file, rewinding and reading a few features take time all but independent of the size of the index and file. Calls leave nothing behind: however many searches, passes, rewinds, writes or summaries have been made on the same or on other objects, later calls are as fast as earlier ones and no memory stays in use beyond what was returned and is still held.',
 ['inputs','histories'],'sizes of data (compared over factors of 32 and 64), orders of the data, stream deliveries, and histories of tens of thousands of calls',
 'Tests run on tiny data, on which quadratic copying, a search that scans, a degenerate sort or a growing cache are as fast as the right thing.',
 [PR,HB,FR,FW,PRD,SR],[('sorting',HB+': HilbertSort'),('pruned descent',PR+': search'),('growth of buffers',FR+': readAppend, DataRem'),('index construction',FW+': indexData'),('pair decoding',PRD+': ReadSchema')],[],['processor time, bytes allocated and bytes in use around calls'])
with open('/verif/properties.jsonl','w') as f:
    for x in P:
        assert len(x['title'])<=80
        f.write(json.dumps(x)+'\n')
import jsonschema
s=json.load(open('/root/.vp/PROPERTIES.schema.json'))
for x in P: jsonschema.validate(x,s)
print(len(P))
