E='ecore/'
MC="exhaustive breadth-first exploration of operation histories on the real code against a reference model"
p('C01','Every list behaves like a plain ordered list',
 "For every list the library hands out (plain, unique, immutable, notifying, containment/cross-reference/opposite lists of any object implementation, store-backed lists, resource contents, resources of a set, adapters, map entries and the unresolved views), any sequence of list operations gives the same results and the same contents as a plain slice, with unique lists never holding an element twice. Every reading operation (Size, Empty, Get, Contains, IndexOf, ToArray, All, Iterator) agrees with that content. An out-of-range index, a duplicate Set in a unique list, or any change to an immutable list is rejected and leaves the list unchanged.",
 ['histories'],"all histories of list operations with all indexes in and just out of range, over 3-4 elements",
 "the tests call each operation once or twice on a hand-picked list; combinations of kind of list, content, index and element with duplicates are not covered",
 [E+'abstractelist.go',E+'basicelist.go',E+'basicenotifyinglist.go',E+'basiceobjectlist.go',E+'estorelist.go',E+'immutableEList.go'],
 [('index and uniqueness checks','ecore/abstractelist.go'),('slice surgery','ecore/basicelist.go'),('store and cache kept in step','ecore/estorelist.go'),('unresolved view','ecore/basiceobjectlist.go')],
 'model_checking',MC,"all histories up to depth 5 (6) over 3 (4) elements on 84 list instances; states merged by content with bounded variety of last operations")
p('C02','Containment is a forest: container links and containment slots always agree',
 "After any sequence of reflective changes (set, unset, add, insert, remove, move, replace, clear, on containment references with or without opposite, on container references and on resource contents), an object reports container c through feature f exactly when it is the value or an element of f in c, and it sits in at most one such slot. An object that gets a new container leaves its old slot, and an object that is dropped reports no container. An object reports resource r exactly when it or one of its containers is a direct content of r.",
 ['histories'],"all histories of reflective changes over a few objects, features and resources, for every object implementation",
 "tests exercise single transfers with mocks; agreement of both sides after arbitrary histories is not observed",
 [E+'abstracteobject.go',E+'basiceobject_impl.go',E+'basiceobjectlist.go',E+'dynamiceobject_impl.go',E+'compacteobject_impl.go',E+'estoreeobject.go',E+'eresource_impl.go'],
 [('inverse add and remove','ecore/abstracteobject.go'),('list inverses','ecore/basiceobjectlist.go'),('resource attachment','ecore/eresource_impl.go')],
 'model_checking',MC,"all histories up to depth 3-4 (4-6) over 2-3 objects and up to 2 resources on 9 object implementations")
p('C03','Opposite references stay symmetric',
 "After any sequence of reflective changes, an object a refers to b through a reference that has an opposite exactly when b refers back to a through that opposite, for one-to-one, one-to-many and many-to-many opposites, whether or not containment is involved and including self references. Replacing or removing one end updates the other end of both the old and the new partner.",
 ['histories'],"all histories of reflective changes over a few objects on all kinds of opposites, for every object implementation",
 "tests check one link at a time; the old partner of a replaced link, lists with several elements and mixed implementations are not covered",
 [E+'abstracteobject.go',E+'basiceobjectlist.go',E+'estorelist.go'],
 [('eInverseAdd/eInverseRemove','ecore/abstracteobject.go'),('list inverses','ecore/basiceobjectlist.go')],
 'model_checking',MC,"all histories up to depth 3-4 (4-6) over 2-3 objects on 9 object implementations")
p('C04','Notifications describe exactly the changes made',
 "For any sequence of reflective changes, replaying the notifications that an object's adapters receive (event type, feature, position, old and new values) on the object's previous state gives its actual new state, for every object and resource affected, including opposites and containers changed as a side effect. Nothing is delivered to adapters when delivery is off, and a chain of notifications that is merged describes the same change as the separate notifications.",
 ['histories'],"all histories of reflective changes with an adapter on every object and resource",
 "tests compare single notifications of single operations",
 [E+'abstractnotification.go',E+'notificationchain.go',E+'basicenotifyinglist.go',E+'abstracteobject.go'],
 [('notification building','ecore/basicenotifyinglist.go'),('merge','ecore/abstractnotification.go')],
 'model_checking',MC,"all histories up to depth 3-4 over 2-3 objects on 9 object implementations; all pairs of mergeable notifications")
p('C05','Adapters know their targets; a content adapter covers exactly the content tree',
 "After any history of attaching and detaching adapters (through any operation of the adapter list), an adapter is told about exactly the notifiers whose adapter list holds it. An adapter for whole content trees is attached to exactly the objects of the tree below what it was attached to, whatever objects are added, moved, replaced, removed, loaded or resolved afterwards, and receives a notification of every change in that tree.",
 ['histories'],"all histories of adapter-list operations and of content-tree changes below an attached content adapter",
 "tests attach to one fixed tree and make one change",
 [E+'econtentadapter.go',E+'abstractenotifier.go',E+'enotifier_impl.go'],
 [('target bookkeeping','ecore/abstractenotifier.go'),('tree coverage','ecore/econtentadapter.go')],
 'model_checking',MC,"all histories up to depth 4 (5) over objects, resources and a resource set")
p('C06','The map view of a map agrees with its entries',
 "After any sequence of map operations (Put, RemoveKey, Clear), list operations on its entries and reflective set and unset of the map feature, GetValue, ContainsKey, ContainsValue and ToMap agree with the entries the map holds (the first one when several have the same key), RemoveKey removes that entry and returns its value, and putting a key that is present replaces its value without adding an entry.",
 ['histories'],"all histories of map and entry-list operations over a few keys and values, for every map implementation",
 "tests use a map with one or two entries and single operations",
 [E+'basicemap.go',E+'basiceobjectmap.go',E+'estoremap.go'],
 [('key index','ecore/basicemap.go')],
 'model_checking',MC,"all histories up to depth 4 (5) over 3 keys")
p('C07','All object implementations behave identically',
 "The dynamic, reflective, compact, compact-container and store-backed object implementations (store-backed with or without a store and with or without a cache) answer every sequence of reflective get, is-set, set, unset and list calls identically: same values, defaults, containers, contents, cross references, proxy state and notifications. A store-backed object also answers the same after its store or its cache is switched off or on.",
 ['histories','configurations'],"all histories of reflective calls run in lockstep on every implementation",
 "each implementation has its own separate tests with mocks",
 [E+'abstracteobject.go',E+'basiceobject_impl.go',E+'compacteobject_impl.go',E+'dynamiceobject_impl.go',E+'reflectiveeobject_impl.go',E+'estoreeobject.go'],
 [('slots','ecore/compacteobject_impl.go'),('dynamic properties','ecore/abstracteobject.go'),('store delegation','ecore/estoreeobject.go')],
 'model_checking',"exhaustive lockstep exploration of operation histories on all implementations","all histories up to depth 3 (4)")
p('C08','Derived class information always equals what the class hierarchy defines',
 "Whatever classes, super types, features, operations and feature properties are added, changed, moved or removed, and whenever the derived information is read in between, a class answers with all its (inherited) attributes, references, containments, cross references, operations, super types, ID attribute, feature identifiers, lookups by name and super-type tests exactly as recomputed from the current hierarchy.",
 ['histories'],"all histories of metamodel edits interleaved with reads of the derived information",
 "tests build a hierarchy once and read it; staleness after later edits is covered for a few lists only",
 [E+'eclass_ext.go',E+'epackage_ext.go',E+'estructuralfeature_ext.go'],
 [('cached derived lists and their invalidation','ecore/eclass_ext.go')],
 'model_checking',MC,"all histories up to depth 3 (4) of edits and reads on 3 classes")
p('C09','Fragments and resource lookup are inverse to each other',
 "For any resource content, with any positions, feature names and identifiers, the fragment of an object looked up in its resource gives back that same object, distinct objects have distinct fragments, and a fragment that designates nothing gives no object rather than a crash. This holds after any history of changes and for objects found through identifiers as well as by path.",
 ['histories','inputs'],"all small content trees and change histories, with awkward identifiers and feature names, and all malformed fragments over a small alphabet",
 "tests use a fixed library model and a few fragments",
 [E+'eresource_impl.go',E+'abstracteobject.go',E+'emodelelement_ext.go',E+'ecoreutils.go'],
 [('fragment paths','ecore/eresource_impl.go')],
 'model_checking',MC,"all trees with up to 4 objects, all fragments up to 4 tokens")
p('C10','Identifier managers keep a one-to-one mapping of objects and identifiers',
 "After any sequence of register, unregister, set-identifier and clear calls, a manager maps each registered object to exactly one identifier and back, never gives one identifier to two live objects (an identifier that is given to another object is taken away from the one that had it), and maps unregistered objects and identifiers to nothing. An object that is registered again after being detached gets back the identifier it had, and an identifier set explicitly is the one reported from then on.",
 ['histories'],"all histories of manager operations over a few objects and identifiers, for every manager",
 "tests register one or two objects",
 [E+'eobjectidmanager_impl.go',E+'uniqueidmanager.go',E+'eobjectidmanager.go'],
 [('id tables','ecore/uniqueidmanager.go')],
 'model_checking',MC,"all histories up to depth 5 (6) over 3 objects and 3 identifiers")
p('C11','A proxy resolves to the object it designates',
 "Reading a reference that resolves proxies gives the designated object once it can be found, keeps the proxy otherwise, and never loses, duplicates or reorders values. Once resolved the reference holds the object, one resolve notification tells of the replacement, containers and opposites follow, and unresolved access (non-resolving reads, unresolved views, references that do not resolve) never replaces a proxy.",
 ['histories','configurations'],"all placements of proxies over kinds of references and object implementations, resolvable or not, and all histories of reads and changes",
 "tests resolve one proxy in one reference",
 [E+'abstracteobject.go',E+'basiceobjectlist.go',E+'estorelist.go',E+'ecoreutils.go',E+'eresourceset_impl.go'],
 [('resolution on read','ecore/basiceobjectlist.go')],
 'model_checking',MC,"all histories up to depth 3 (4)")
p('C12','XML and XMI documents load back to the model that was saved',
 "Saving any model as XML or XMI and loading it again gives an equal model with the same roots, contents, attribute values (any text), cross references within and across resources, identifiers, and set/unset state, for every option that selects a format. Saving the loaded model again gives the same document. What a document cannot hold (characters that XML does not allow, references to objects that are in no resource) is reported as an error.",
 ['inputs','configurations'],"all small models over a metamodel covering every kind of feature, attribute texts over an alphabet of special characters, and save options",
 "tests compare a few fixture files",
 [E+'xmlencoder.go',E+'xmldecoder.go',E+'xmiencoder.go',E+'xmidecoder.go',E+'xmlstring.go'],
 [('XML writer','ecore/xmlencoder.go'),('XML reader','ecore/xmldecoder.go')],
 'model_checking',"exhaustive enumeration of bounded models and texts, round trip through the real codec","all models within bounds")
p('C13','Binary documents load back to the model that was saved',
 "Saving any model in the binary format and loading it again gives an equal model with the same roots, contents, attribute values, cross references within and across resources, identifiers, and set/unset state.",
 ['inputs','configurations'],"all small models over a metamodel covering every kind of feature, attribute values and boundary numbers, and options",
 "tests compare a few fixture files",
 [E+'binaryencoder.go',E+'binarydecoder.go'],
 [('writer','ecore/binaryencoder.go'),('reader','ecore/binarydecoder.go')],
 'model_checking',"exhaustive enumeration of bounded models and values, round trip through the real codec","all models within bounds")
p('C14','Bad input and failing I/O give errors, never a crash',
 "Loading any truncated, corrupted or otherwise malformed XML, XMI or binary document, and saving or loading through a reader or writer that fails or delivers short counts at any point, terminates, does not panic, and reports the problem as an error on the resource.",
 ['fault_sequences','inputs'],"every truncation point, every single-byte substitution from a set, every failing read or write of a set of documents",
 "tests load well-formed fixtures and one or two broken ones",
 [E+'xmldecoder.go',E+'binarydecoder.go',E+'eresource_impl.go',E+'xmlencoder.go',E+'binaryencoder.go',E+'jsonencoder.go'],
 [('decoder error handling','ecore/xmldecoder.go'),('decoder error handling','ecore/binarydecoder.go')],
 'fault_enumeration',"exhaustive fault enumeration: every truncation, mutation and failing I/O call of a corpus of documents","all faults of the stated kinds")
p('C15','A copy is equal to, independent of and wired like the original',
 "For any object graph, a copy has the same classes, attribute values, containment structure and order, inherited features included, with references between copied objects leading to the copies and references to other objects kept (but not where an opposite would take the other object away from the original). Where nothing is left out this way the copy is equal to the original; it shares no mutable state with it, and equality holds exactly between graphs that have the same structure and values below and between their objects.",
 ['inputs'],"all small object graphs over a metamodel covering every kind of feature, and all pairs of them for equality",
 "tests copy a few fixed graphs",
 [E+'ecoreutils.go',E+'deepcopy.go',E+'deepequal.go'],
 [('copier','ecore/deepcopy.go'),('equality','ecore/deepequal.go')],
 'model_checking',"exhaustive enumeration of bounded object graphs and pairs","all graphs within bounds")
p('C16','Traversals visit exactly the objects they promise, once and in order',
 "For any content tree, iterating an object's or resource's contents, all contents (of any class, or by class) and cross references, with or without resolution, yields exactly the objects that the containment and cross references hold, once each, parents before children and in feature and list order. Sizes, lookups and repeated iteration of those lists agree with it.",
 ['inputs','histories'],"all small content trees and cross references, all small containment metamodels, and every way to read",
 "tests traverse a fixed tree",
 [E+'etreeiterator.go',E+'econtentslist.go',E+'eallcontents.go',E+'ecoreutils.go'],
 [('tree iterator','ecore/etreeiterator.go')],
 'model_checking',"exhaustive enumeration of bounded content trees and prunings","all trees within bounds")
p('C17','URIs obey the laws of parsing, resolution and prefix replacement',
 "Every URI that parses prints back to the same text and its parts agree with the standard decomposition; resolving a reference against a base follows RFC 3986 (but a .. segment above the root stays, and repeated slashes count as one); where base and URI have the same scheme, making the URI relative to the base and resolving it again gives the same URI, up to normalization of the path; normalizing is idempotent, and prefix replacement, building from parts, fragment and query trimming change only what they name and give a URI whose parts are those its text has.",
 ['inputs'],"all URI texts over a token alphabet up to a length, and all pairs of base and reference",
 "tests use a table of examples",
 [E+'uri.go'],
 [('URI parsing and resolution','ecore/uri.go')],
 'model_checking',"exhaustive enumeration of all URI texts and pairs over a token alphabet against an independent RFC 3986 implementation","all texts up to a length")
p('C18','An SQL store answers like a store in memory and survives reopening',
 "For any sequence of operations of a client on the features, containers and roots of objects, an SQL store returns what a store in memory returns, whether earlier writes are still pending or flushed, and no operation is lost, fails or blocks. Objects kept in an SQL store, with or without a cache, behave like objects in memory when their features are read and changed. The database opened again tells the same.",
 ['histories'],"all histories of store operations over a few objects and features",
 "tests run single operations on fixture databases",
 [E+'sqlstore.go',E+'sqlcodec.go'],
 [('store operations','ecore/sqlstore.go'),('encoding of objects','ecore/sqlencoder.go'),('objects of a store','ecore/estoreeobject_impl.go'),('lists of a store','ecore/estorelist.go')],
 'model_checking',"exhaustive enumeration of operation histories on the real store, compared with a model of the store",
 "all histories up to depth 3")
p('C19','SQL databases load back to the model that was saved',
 "Saving a resource to an SQL database and loading it again gives an equal model: the same roots, contents in order, attribute values, set and unset features, cross references within and across resources (opposites included) and identifiers, for every option that selects a form. References to objects that are in no resource are reported as errors.",
 ['inputs','configurations'],"all small models over a metamodel covering every kind of feature",
 "tests compare a few fixture databases",
 [E+'sqlencoder.go',E+'sqldecoder.go'],
 [('encoder','ecore/sqlencoder.go'),('decoder','ecore/sqldecoder.go')],
 'model_checking',"exhaustive enumeration of bounded models, round trip through the real codec","all models within bounds")
p('C20','JSON output is valid and says what the model holds',
 "Saving any model as JSON gives a valid JSON document from which the class, every set attribute with its exact text, the containment structure in order and the targets of all references can be read back.",
 ['inputs'],"all small models and attribute texts over an alphabet of special characters",
 "tests compare a few fixture files",
 [E+'jsonencoder.go',E+'jsonencoder.go'],
 [('JSON writer','ecore/jsonencoder.go')],
 'model_checking',"exhaustive enumeration of bounded models and texts against an independent JSON parser","all models within bounds")
p('C21','Concurrent use of shared structures gives the results of a sequential order',
 "Several goroutines may use the same identifier manager, or the same object whose values are in a store (its values, its lists, its store and cache settings), at the same time, and may read the same class, feature, package, map, or tree of store-backed objects at the same time, even when what they read is computed at first use: every interleaving of the calls gives results, and a final state, that some sequential order of the calls gives, with no data race on the shared structure, deadlock or crash. Calls made while holding the lock of a store-backed object are atomic together.",
 ['schedules'],"all interleavings of small concurrent programs up to a preemption bound",
 "tests run a handful of schedules the runtime happens to choose",
 [E+'uniqueidmanager.go',E+'eclass_ext.go',E+'epackage_ext.go',E+'basicemap.go',E+'estorelist.go'],
 [('locks','ecore/eobjectidmanager.go')],
 'model_checking',"stateless exploration of all interleavings of the real code under a controlled scheduler, with linearizability checking","all schedules up to a preemption bound")
p('C22','Resources and resource sets: loading, lookup and URI mapping are consistent',
 "After any history of creating, adding, loading, unloading, renaming and removing resources, a resource set finds each of its resources by URI (after URI mapping) and loads each one at most once, an object is found by URI exactly while it is in the set, and a resource's loaded state, contents and errors reflect its last load or unload.",
 ['histories'],"all histories of resource and resource-set operations over a few URIs",
 "tests load a resource once",
 [E+'eresourceset_impl.go',E+'eresource_impl.go',E+'euriconverter_impl.go',E+'ecodecregistry_impl.go'],
 [('resource lookup','ecore/eresourceset_impl.go')],
 'model_checking',MC,"all histories up to depth 4")
p('C23','Data values convert to text and back unchanged',
 "For every data type of the base package and every enumeration, converting a value to text and back gives the same value, a default value literal is the value an unset feature reports, and enumeration literals are found by name, literal text and value. A text that is not of the type is rejected and never silently turned into another value.",
 ['inputs'],"all boundary values of each data type, all texts over an alphabet for parsing, all enumerations up to a size",
 "tests convert one value per type",
 [E+'ecorefactory_impl.go',E+'efactory_ext.go',E+'eenum_ext.go',E+'edatatype_ext.go',E+'estructuralfeature_ext.go'],
 [('conversions','ecore/efactory_ext.go')],
 'model_checking',"exhaustive enumeration of boundary values and bounded texts","all values in the enumerated domains")
