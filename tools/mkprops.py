import json
P=[]
def p(id,title,statement,over,text,why,files,mech,obs,state=(),hook=None):
    assert len(title)<=80,(id,len(title))
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,state=[dict(name=n,meaning=m,where=w) for n,m,w in state],mechanism=[dict(name=n,where=w) for n,w in mech],observe_at=obs,hook_needed=hook)))
N='src/NodesetLoader.c';NS='src/Nodeset.c';S='src/Sort.c';V='src/Value.c';R='src/InternalRefService.c';A='src/AliasList.c';NL='src/NamespaceList.c';PA='src/Parser.c';CA='src/CharAllocator.c'
B='backends/open62541/src/';IMP=B+'import.c';DT=B+'DataTypeImporter.c';VB=B+'Value.c';RS=B+'RefServiceImpl.c';SC=B+'ServerContext.c'
each='NodesetLoader_forEachNode';imp='return value of NodesetLoader_importFile';srt='return value of NodesetLoader_sort';lf='return value and server content after NodesetLoader_loadFile'
p('C01','Every node of a valid nodeset is delivered exactly once in its class',
 'After a successful import and sort, iterating over the eight node classes visits every node element of the imported nodesets exactly once, under its own class, and nothing else; the count the iteration returns equals the number of nodes visited. If several node elements carry the same NodeId, exactly one of them is delivered. This holds for any number of nodes, any NodeId kind, any mixture of classes and whether or not the nodes use reference types that are only declared later.',
 ['inputs'],'all well-formed nodesets: any node count, class mix, NodeId kind, insertion order, duplicates, late reference types',
 'Tests import a handful of fixed files and count nodes of some classes; the container, tree and queue code has data dependent paths (growth, rotations, late resolution).',
 [N,NS,S,'src/nodes/NodeContainer.c'],[('Nodeset_newNodeFinish / Nodeset_sort',NS),('search_node (balanced tree), Sort_start',S),('NodeContainer_add','src/nodes/NodeContainer.c')],[each,srt],
 [('nodes','nodes per class in sorted order',NS),('nodesWithUnknownRefs','nodes whose reference types are not classified yet',NS)])
p('C02','Nodes are delivered parents first within their class',
 'Within each node class, a node is never delivered before another node of that class that is its ancestor through hierarchical references (inverse references of the node, forward references of the ancestor, or the ParentNodeId of a node that has no inverse hierarchical reference), also when the path runs through nodes of other classes or through nodes outside of the nodeset. This holds for every order in which the nodes appear in the document.',
 ['inputs'],'all nodesets with an acyclic hierarchy, all document orders',
 'The sort test uses a few hand written graphs and the file tests do not look at the order.',
 [S,NS,'src/nodes/InstanceNode.c'],[('Sort_addNode records edges','src/Sort.c'),('Sort_start: Kahn topological order','src/Sort.c')],[each])
p('C03','Cyclic hierarchies are rejected, acyclic ones never are',
 'Sorting reports failure and logs an error if the hierarchical relation between the nodes (including relations given only by ParentNodeId) contains a cycle, and delivers no node that lies on a cycle. Sorting never fails because of a cycle if the relation is acyclic; a reference of a node to itself is not a cycle.',
 ['inputs'],'all graphs over the nodes of a nodeset and the nodes it refers to',
 'One test has one cycle; the absence of false alarms and of missed cycles needs every graph.',
 [S,NS],[('Sort_start: remaining keys mean a cycle',S),('record_relation ignores self references',S)],[srt,'log callback',each])
p('C04','Namespace indices are translated to the indices of the host',
 'Every NodeId and every BrowseName that a delivered node shows (own id, parent, data type, reference types and targets, field types, browse name) has the namespace index that the namespace callback returned for the corresponding entry of the NamespaceUris of the same file; index 0 stays 0. The callback is called exactly once per entry, in document order, with the exact URI and the user context of that import. An index without a NamespaceUris entry stays as it is.',
 ['inputs','configurations'],'all NamespaceUris lists, all index assignments of the host (including permutations and shared URIs), all id kinds',
 'Tests use a host that returns nearly the identity mapping.',
 [NL,NS],[('translateNodeId, translateBrowseName',NS),('NamespaceList_newNamespace',NL)],['addNamespace callback',each,'NodesetLoader_getBidirectionalRefs'])
p('C05','Aliases resolve to exactly the id they stand for',
 'Wherever a reference type, reference target, data type of a variable, variable type or structure field is written as an alias name, the delivered node shows the id the alias stands for in the file it is used in; text that is not an alias name is read as a NodeId. If a name is declared more than once the first declaration counts, there is no limit on the number of aliases, and an unresolvable name gives the null id without affecting other nodes.',
 ['inputs'],'all alias tables (size, duplicates, names that are prefixes of each other, names that look like ids) and all places of use',
 'Tests use the usual few aliases for reference types.',
 [A,NS],[('alias2Id',NS),('AliasList_newAlias / AliasList_getNodeId',A)],[each])
p('C06','References are classified by the reference type hierarchy',
 'A reference is delivered as hierarchical if and only if its type is (transitively, through inverse references to supertypes) a subtype of a hierarchical reference type, no matter where or in which file of the import the type is declared and how deep the chain is; all other references of known types are non-hierarchical. The types of namespace 0 are the standard ones; a reference whose type is neither of namespace 0 nor declared in an imported file makes sorting fail with an error log. A reference service supplied by the user is told about every declared reference type exactly once, supertypes before subtypes.',
 ['inputs','configurations'],'all reference type forests (any depth, any document order, any namespace), built-in and user supplied services',
 'One test adds one new hierarchical reference type.',
 [NS,R],[('areSuperTypesKnown, lookupReferenceTypes, lookupUnknownReferences',NS),('addnewRefTypeImpl',R)],[each,srt,'addNewReferenceType callback'],
 [('hierachicalRefs / nonHierachicalRefs','known reference types',R)])
p('C07','Delivered references are exactly the declared ones',
 'A delivered node shows exactly the references of its element: each with its type, direction (forward unless stated otherwise) and target, with multiplicity, the type definition of objects and variables separately from the others. The only reference ever added is one inverse reference to the ParentNodeId of an object, variable, method or view without any inverse hierarchical reference; its type is that of the forward hierarchical reference by which the parent refers to the node, otherwise HasComponent.',
 ['inputs'],'all reference sets of all node classes, all combinations with ParentNodeId, both directions',
 'Tests look at few references of few nodes.',
 [NS,S],[('Nodeset_newReference / Nodeset_newReferenceFinish',NS),('add_parent_reference',S)],[each])
p('C08','Attributes arrive unchanged, missing ones get their defaults',
 'Every attribute of a node element that the interface exposes is delivered for that node with exactly the text written in the file (character and entity references decoded), and a missing attribute has the documented default of its node class. Attributes never leak from one node to another and unknown attributes have no effect.',
 ['inputs'],'all attribute subsets, orders and texts for all eight classes',
 'The attribute test samples a few values, mostly defaults.',
 [NS],[('getAttributeValue / extractAttributes',NS)],[each])
p('C09','Texts are complete, however the document is encoded',
 'Display names, descriptions, inverse names (with locale), alias targets, reference targets, namespace URIs and primitive values are delivered with the complete character data of their element, byte for byte, in UTF-8. The result does not depend on the length of the text or document, on the way the parser delivers it in pieces, or on the use of entity and character references, CDATA sections, comments or processing instructions.',
 ['inputs'],'all texts (length, multibyte characters, position relative to buffer boundaries) and all encodings of the same text',
 'Tests have short plain texts; piecewise delivery depends on buffer positions.',
 [N,PA,CA],[('OnCharacters accumulates in the arena',N),('Parser_run feeds 1 kB pieces',PA),('CharArenaAllocator_realloc',CA)],[each,'extension callbacks'],
 [('onCharacters/onCharLength','text collected for the current element',N)])
p('C10','Unknown elements have no effect on what is delivered',
 'Adding elements that the loader does not know, with any content and at any place where elements may appear (around and inside nodes, texts, references, definitions, aliases and namespace lists), changes nothing that is delivered. Content nested in an unknown element is never interpreted, even if it has the names of known elements.',
 ['inputs'],'all insertions of unknown subtrees of any depth at any position',
 'One corner case test has a few unknown elements.',
 [N],[('enterUnknownState, unknown_depth',N)],[each,'addNamespace callback'],
 [('state/prev_state/unknown_depth','where unknown content began and how deep it is',N)])
p('C11','Variable values are delivered as the tree that was written',
 'The value of a variable is delivered with the same element names, nesting, order and primitive texts as written, marked as array or extension object accordingly, with the element or type name (for extension objects the type id). Empty lists, nested lists, repeated names, absent texts, bodies with several levels and lists of extension objects keep their shape, and variables without value have none. Each variable gets its own value, whatever precedes or follows.',
 ['inputs'],'all value trees: scalars, lists, extension objects, lists of extension objects, any nesting',
 'Tests decode selected values only.',
 [V,N],[('Value_start / Value_end automaton',V)],[each],[('ctx->state, currentData','position in the value',V)])
p('C12','Data type definitions are delivered field by field',
 'A data type delivers the fields of its definition completely and in order, each with name, data type, value rank, enum value and optionality as written or defaulted, and is marked as enumeration, union or option set accordingly. Data types without definition have none, definitions never mix between data types, and definitions of other node classes are ignored.',
 ['inputs'],'all definitions: number of fields, enums, structures, unions, option sets, optional fields, arrays',
 'Tests inspect few fields of few types.',
 ['src/nodes/DataTypeNode.c',NS],[('Nodeset_addDataTypeDefinition / Nodeset_addDataTypeField',NS),('getNewField','src/nodes/DataTypeNode.c')],[each])
p('C13','Binary encodings are reported for their data types',
 'The bidirectional references report, for each inverse HasEncoding reference of a node with the browse name Default Binary, exactly one entry from the data type to the encoding node with type HasEncoding, and nothing else. This includes encodings in all imported files, translated ids and ids given by alias.',
 ['inputs','histories'],'all sets of encoding objects over any number of files',
 'One count is tested for one file.',
 [NS],[('Nodeset_newReferenceFinish',NS)],['NodesetLoader_getBidirectionalRefs'])
p('C14','Extensions are handed over completely and in order',
 'For every extension element of a node the callbacks are called in the order new, then start and end for every nested element in document order (properly nested, with its attributes and the text directly before its end), then finish; the node then carries the object returned for its last extension. Without callbacks the content is skipped without any effect on the nodes.',
 ['inputs','configurations'],'all extension contents, including elements that have the names of known elements, any number of extensions per node',
 'One test has one extension.',
 [N],[('PARSER_STATE_EXTENSION handling',N)],['extension callbacks','extension of the delivered node'])
p('C15','Broken input is reported and leaves the loader usable',
 'Importing a file that is missing, empty, truncated at any byte or otherwise not well-formed, or importing without file context or namespace callback, returns failure and logs an error; it never crashes or hangs. Afterwards the loader can be used as before: everything imported successfully before or later is still delivered as long as the nodes read before the defect do not prevent sorting, and everything can be released.',
 ['inputs','fault_sequences'],'all truncation points and corruptions of a document, at any place in a history of imports',
 'Tests try a missing file and one malformed file.',
 [N,PA],[('NodesetLoader_importFile error path',N),('Parser_run error path',PA)],[imp,'log callback',each])
p('C16','The string arena never moves, overlaps or corrupts strings',
 'Every block handed out by the string arena lies in memory of its own, is zero initialised, and keeps its content until the arena is deleted, for any sequence of allocation and growth requests of any sizes. Growing the last block keeps its content, possibly at a new place, and yields a block that is longer by the requested size. Deleting the arena releases everything.',
 ['histories','inputs'],'all sequences of allocate / grow requests, sizes relative to the initial region size',
 'The unit test runs a few fixed sequences.',
 [CA],[('CharArenaAllocator_malloc / CharArenaAllocator_realloc',CA)],['returned pointers and memory content'],[('current region, size, userPtr, userSize','bump pointer and last block',CA)])
p('C17','Several files in one loader behave like one nodeset',
 'Importing several files with one loader delivers the nodes of all of them, each with the namespace table and the aliases of its own file, with references, parents and reference types resolved across files. Splitting a nodeset into files, and sorting after every import instead of once at the end, does not change the delivered nodes as long as every file comes after the files that declare its parents and reference types.',
 ['histories','inputs'],'all splits of nodesets into files and all interleavings of import and sort',
 'Tests use one file per loader, or backend imports with a fresh loader each.',
 [NS,N,S],[('Nodeset_newFile',NS),('Nodeset_sort',NS)],[each,imp,srt])
p('C18','Everything the loader acquires is released',
 'After a loader is deleted, all memory and files it acquired are released exactly once, for every history: unused, imported but never sorted, failed imports, failed sorts, repeated imports and sorts, any content. Until then every string and id reachable from a delivered node stays valid.',
 ['histories','inputs','fault_sequences'],'all call histories over all documents, including failing ones',
 'Sanitizer runs only cover the tested files and histories.',
 [N,NS,'src/nodes/Node.c',V,S],[('Nodeset_cleanup',NS),('Node_delete','src/nodes/Node.c'),('Value_delete',V)],['allocation ledger, open files'])
p('C19','A loaded nodeset appears in the server as written',
 'After loading a file into a server, every node of the file whose parent and type definition are available exists there with its class, browse name, display name, description and class specific attributes as written, below its parent (the target of its own inverse reference; objects and variables may have none), with its type definition, and with every declared reference between existing nodes present in both directions. No other node or reference is added to the server.',
 ['inputs'],'all nodesets on top of the standard address space',
 'Tests check selected attributes of selected nodes and need a real server.',
 [IMP],[('addNodeImpl and handlers, addNonHierachicalRefs',IMP)],[lf])
p('C20','Loading does not depend on the order in which parents become available',
 'A node whose parent is of a class that is added later in the same file is still added, also over chains of such parents; nodes that cannot be added do not prevent others from being added. A load reports failure if and only if the file could not be parsed or sorted, and in this case adds no node to the server.',
 ['inputs','fault_sequences'],'all parent/child class combinations and chains, all sets of nodes that the server rejects',
 'One test file has one such node.',
 [IMP],[('secondChanceAddNodes',IMP),('NodesetLoader_loadFile',IMP)],[lf])
p('C21','Custom data types are registered with their C memory layout',
 'Every data type of a loaded file is registered once with name, type id, binary encoding id, kind and members (inherited ones first), each with type, array and optional flag, and with the size and member offsets that a C compiler gives the corresponding structure. Forward references between types, inheritance, unions, optional fields, arrays and enumerations do not change that, and registration always terminates.',
 ['inputs'],'all sets of structure, union, enumeration and derived data types in any order',
 'Tests compare a few types with generated ones.',
 [DT],[('DataTypeImporter_addCustomDataType, DataTypeImporter_initMembers, calcMemSize, setPaddingMemsize',DT)],['custom data types of the server configuration'])
p('C22','Values in the server equal the values in the file',
 'The value attribute of an added variable equals the value written in the file, for scalars and arrays of the built-in types over their whole range, enumerations, structures (nested, with missing members), unions and lists of extension objects, with namespace indices inside of values translated. A value that cannot be represented leaves the variable without value and does not affect other nodes.',
 ['inputs'],'all values of supported types, extreme numbers, absent members',
 'Tests decode typical values.',
 [VB,IMP,B+'conversion.h'],[('Value_getData, setScalar, setStructure, setUnion',VB)],['value attribute of the added variable'])
p('C23','The server decides namespaces and reference types',
 'When loading into a server, all ids, browse names and ids inside of values use the namespace indices that the server assigns to the URIs of the file, whatever the server already contains. References are classified by the reference type hierarchy that the server holds together with the types of the file.',
 ['inputs','configurations'],'all servers (namespaces and reference types loaded before) and all files',
 'Tests start from a fresh server, where indices are nearly the identity.',
 [RS,SC,IMP],[('RefServiceImpl_new, addnewRefType',RS),('ServerContext_translateToServerIdx',SC)],[lf])
p('C24','The order of the nodes in the document does not matter',
 'Permuting the node elements of a nodeset, and the references within a node, changes neither whether import and sort succeed nor the set of delivered nodes with their references and contents; only the order among nodes that are not ordered by the hierarchy may differ.',
 ['inputs'],'all permutations of all nodesets without duplicate ids',
 'Each test file has one order.',
 [NS,S],[('lookupReferenceTypes, Nodeset_sort',NS),('Sort_start',S)],[each,srt])
p('C25','Loaders do not influence each other',
 'What a loader delivers, returns, logs and asks its callbacks depends only on the calls made with this loader: any interleaving with creation, use and deletion of other loaders gives the same result as using it alone.',
 ['histories'],'all interleavings of the histories of several loaders',
 'Tests use one loader at a time.',
 [N,R,NS],[('per loader reference service, name space list, alias list, arena',N)],[each,'callbacks'])
p('C26','Loading again or loading more files keeps the server intact',
 'Loading a further file into a server keeps the nodes and references present before as they were, adds the new nodes with references across files, and keeps earlier registered data types valid and usable for later files. Loading the same file again adds no second copy of a node or reference, and after failed loads the server is usable as before.',
 ['histories','fault_sequences'],'all sequences of loads, including repeated and failing ones',
 'Tests load fixed sequences of companion specifications.',
 [IMP,DT],[('NodesetLoader_loadFile',IMP),('DataTypeImporter_new appends to the types of the server',DT)],[lf])
open('/verif/properties.jsonl','w').write(''.join(json.dumps(x)+'\n' for x in P))
print(len(P))
import jsonschema
sch=json.load(open('/root/.vp/PROPERTIES.schema.json'))
for x in P: jsonschema.validate(x,sch)
