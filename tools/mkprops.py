#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one place to edit the statements)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe=None, state=None):
    assert len(title) <= 80, (id, len(title))
    d = dict(id=id, title=title, statement=statement,
             quantifier=dict(over=over, text=text), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=a, where=b) for a, b in mech],
                          observe_at=observe or [], hook_needed=None))
    if state:
        d['anchors']['state'] = [dict(name=a, meaning=b, where=c) for a, b, c in state]
    P.append(d)

A0, A3, CO, AL, PY = ('pyamf/amf0.py', 'pyamf/amf3.py', 'pyamf/codec.py', 'pyamf/alias.py', 'pyamf/__init__.py')

p('C01', 'AMF0 round trip preserves values, structure and object identity',
  "Encoding any graph of AMF0-encodable Python values (None, Undefined, booleans, numbers, text of any length, dates, XML, lists, dicts, mixed arrays, record sets, anonymous and registered objects) and decoding the bytes yields an equal graph of the documented result types. Sharing and cycles survive: two references to one list, dict or object decode to one object, distinct ones stay distinct, and every later reference in the same message still denotes the right object. Several values encoded in sequence with one encoder decode, in order, to the same sequence.",
  ['inputs'], "every finite value graph over the AMF0 types, including shared and cyclic ones, of any size and in any position of a message",
  "Tests pin a dozen hand-written byte strings and a few single-object references; no test mixes dates, XML, objects and back references in one message or generates graphs.",
  [A0, CO, PY], [('encoder type dispatch and reference writing', 'pyamf/amf0.py Encoder'), ('decoder type dispatch and reference table', 'pyamf/amf0.py Decoder'), ('object reference table', 'pyamf/codec.py Context, IndexedCollection')],
  ['pyamf.encode', 'pyamf.decode'])
p('C02', 'AMF3 round trip preserves values, structure and object identity',
  "Encoding any graph of AMF3-encodable Python values (null, undefined, booleans, 29-bit and larger integers, floats, text, dates, XML, byte arrays, lists, dicts, mixed arrays, anonymous, typed, static, dynamic and externalizable objects) and decoding the bytes yields an equal graph of the documented result types. Sharing and cycles of lists, dicts, objects, dates and byte arrays survive, distinct objects stay distinct, and repeated strings and classes resolve to the right string and class everywhere in the message. Several values encoded in sequence with one encoder decode, in order, to the same sequence.",
  ['inputs'], "every finite value graph over the AMF3 types, including shared and cyclic ones, with any number of distinct strings, objects and classes",
  "Tests check individual encodings with a couple of references each; reference indices beyond one byte, many classes, or mixed kinds of references in one message are never produced.",
  [A3, CO, PY], [('three reference tables (string, object, class)', 'pyamf/amf3.py Context'), ('29-bit integers', 'pyamf/amf3.py encode_int/decode_int'), ('object traits', 'pyamf/amf3.py ClassDefinition')],
  ['pyamf.encode', 'pyamf.decode'])
p('C03', 'Encoded bytes conform to the AMF0 wire format',
  "Every byte string produced by the AMF0 encoder is a well-formed AMF0 message: an independent reader of the published format consumes it completely and reconstructs the graph that was encoded, with back references that only point at objects, typed objects, arrays and mixed arrays already begun, in a numbering that counts these, dates and XML documents in writing order. Conversely every well-formed AMF0 message, whichever legal encoding its writer chose, decodes to the graph it denotes.",
  ['inputs'], "all encodable graphs, and all well-formed AMF0 byte strings",
  "The tests compare PyAMF's encoder with PyAMF's decoder or with fixed bytes for single values; peers (Flash Player, other servers) write and read other legal encodings.",
  [A0, CO], [('type markers and lengths', 'pyamf/amf0.py Encoder.write*, Decoder.read*'), ('reference numbering', 'pyamf/codec.py Context.addObject and its callers')],
  ['bytes of pyamf.encode', 'values of pyamf.decode'])
p('C04', 'Encoded bytes conform to the AMF3 wire format',
  "Every byte string produced by the AMF3 encoder is a well-formed AMF3 message: an independent reader of the published format consumes it completely and reconstructs the graph that was encoded, with string, object and traits references numbered as the format prescribes and integers in shortest variable-length form, also when it is told to write no string references or is switched on inside an AMF0 message. Conversely every well-formed AMF3 message, whichever legal choices its writer made (inline or referenced strings, objects and traits; sealed, dynamic or externalizable members; associative and dense array parts; compressed byte arrays), decodes to the graph it denotes.",
  ['inputs'], "all encodable graphs, and all well-formed AMF3 byte strings",
  "The tests only see a few hand-made messages; the other party's legal encodings (inline repeats, unordered traits, mixed arrays, long references) are unexercised.",
  [A3, CO], [('markers, U29 headers, traits', 'pyamf/amf3.py Encoder/Decoder'), ('reference numbering', 'pyamf/amf3.py Context')],
  ['bytes of pyamf.encode', 'values of pyamf.decode'])
p('C05', 'The byte stream behaves as one byte sequence with a cursor',
  "Under any sequence of reads, writes, seeks, peeks, appends, truncations and consumes, a buffered byte stream shows exactly the bytes, position, length and remaining count of a plain byte sequence with a cursor. A read or a write of a fixed-width number, in either byte order, round-trips every value of its range, and a read past the end or a value out of range raises the documented error and leaves position and contents unchanged.",
  ['histories', 'inputs'], "every finite history of stream operations, all endiannesses and all values (boundaries included)",
  "Tests run each operation on one or two fixed buffers in isolation; interactions (peek after a partial read, append in mid-stream, seek back and overwrite) come from histories.",
  ['pyamf/util/pure.py'], [('StringIO proxy', 'pyamf/util/pure.py StringIOProxy'), ('numeric reads and writes', 'pyamf/util/pure.py DataTypeMixIn'), ('buffering', 'pyamf/util/pure.py BufferedByteStream')],
  ['util.BufferedByteStream public methods'])
p('C06', 'Hostile or damaged input ends in a value or an error, with bounded work',
  "Decoding any byte string as AMF0, AMF3, a remoting envelope or a local shared object terminates with a result or a Python exception after work proportional to the length of the input, whatever lengths and counts the bytes claim. An unknown type marker raises a decoding error, an unknown shared-object encoding is refused, running out of input raises an end-of-stream or I/O error, and a reference to an object, string or class that was never sent raises a reference error and never silently yields a value. A failed decode leaves no trace: valid messages decoded afterwards in the same process give the same result as before.",
  ['inputs', 'histories'], "all byte strings: random, truncated at every offset, mutated, and hand-made adversarial (huge lengths, dangling references, deep nesting)",
  "Tests feed a handful of malformed strings; the claim is about every byte string.",
  [A0, A3, CO, 'pyamf/remoting/__init__.py', 'pyamf/sol.py', 'pyamf/util/pure.py'],
  [('bounds-checked reads', 'pyamf/util/pure.py BufferedByteStream.read'), ('reference checks', 'pyamf/amf0.py readReference, pyamf/amf3.py readObject'), ('marker dispatch', 'pyamf/codec.py Decoder._readElement')],
  ['pyamf.decode', 'remoting.decode', 'sol.decode'])
p('C07', 'Incremental decoding is independent of how the bytes arrive',
  "Feeding a message sequence to a decoder in pieces, cut at any byte offsets, and collecting elements as they become complete yields exactly the elements, in order and with the same sharing, that decoding the whole at once yields. When the bytes so far end inside an element, the attempt reports that data is missing and leaves the stream at the start of that element, so that decoding continues correctly once more data is fed.",
  ['inputs', 'histories'], "every sequence of messages and every way of cutting its bytes into pieces",
  "Tests feed complete elements only; the result depends on the offset of every cut.",
  [CO, A0, A3], [('position restored when data runs out', 'pyamf/codec.py Decoder._readElement'), ('generator protocol', 'pyamf/codec.py Decoder.next/send')],
  ['decoder.send', 'iteration over a decoder'])
p('C08', 'Codec results depend only on the arguments, not on process history',
  "The bytes produced for a value and the value produced for a byte string by a fresh codec, or by one whose context has been cleared, are the same at any time, whatever was encoded, decoded or failed before in the process (with the class and type registries unchanged). Encoding does not modify the value being encoded, and decoding leaves the input bytes alone.",
  ['histories', 'inputs'], "every history of previous successful and failed encodes and decodes, followed by any value or byte string",
  "Each test starts from a fresh codec and looks at one call; leaks through caches, shared contexts and lazily compiled class information show up only over histories.",
  [CO, A0, A3, AL, PY], [('reset of reference tables', 'pyamf/codec.py Context.clear and subclasses'), ('integer encoding cache', 'pyamf/amf3.py encode_int'), ('lazy alias compilation', 'pyamf/alias.py ClassAlias.compile')],
  ['pyamf.encode', 'pyamf.decode', 'context.clear'])
p('C09', 'Encoding a class instance honours its declared attribute policy',
  "When an instance of a class with declared attribute control is encoded, in AMF0 or AMF3, an excluded attribute is never written, every static attribute that is not excluded is written (undefined when missing), a synonym is written under its external name only, and all other instance data attributes and readable properties are written if and only if the class is dynamic or declares them. A subclass combines its own declarations with those of all its bases, and the class name written is the registered alias.",
  ['inputs', 'programs', 'configurations'], "every class hierarchy (new-style, classic, slots, properties) and combination of static, exclude, readonly, dynamic, synonym and amf3 declarations, by metadata class or dictionary",
  "Tests cover each option alone, on one or two classes, mostly on the compiled alias and not on the bytes.",
  [AL, 'pyamf/util/__init__.py', PY], [('declaration merging', 'pyamf/alias.py ClassAlias.compile'), ('attribute selection', 'pyamf/alias.py ClassAlias.getEncodableAttributes'), ('metadata lookup', 'pyamf/util/__init__.py get_class_meta')],
  ['bytes of pyamf.encode, read by an independent reader'])
p('C10', 'Decoding never sets attributes that the class forbids, and sets the others',
  "When a typed object from the wire is applied to a registered class, attributes declared read-only or excluded (by the class or any base) and properties without setter are never set, attributes unknown to a non-dynamic class are ignored, and a missing static attribute is reported as an error. Every other attribute sent, static ones included, is set to the decoded value, under its internal name when it has a synonym and through its property setter or slot when it has one.",
  ['inputs', 'programs', 'configurations'], "every class hierarchy and policy combination, and every set of attributes a client may send for it",
  "Tests exercise single options on a bare alias; mass assignment through unusual combinations is the security-relevant case.",
  [AL, 'pyamf/util/__init__.py'], [('attribute filtering', 'pyamf/alias.py ClassAlias.getDecodableAttributes/applyAttributes'), ('setting', 'pyamf/util/__init__.py set_attrs')],
  ['instances returned by pyamf.decode'])
p('C11', 'The class alias registry stays consistent under any history',
  "After any sequence of class registrations, unregistrations, re-registrations, package registrations and loader changes, looking up a class or its alias gives the latest registration made for it, unregistered ones are unknown, instances encode under the alias in force at that moment, and a name decodes to the class most recently registered under it. A custom alias type describes every class it is registered for from then on, under the names they have. A registration that is refused (unusable class, empty alias, bad argument) raises the documented error and leaves the registry unchanged. All this holds as well for codecs that are kept and used again after their context was cleared.",
  ['histories'], "all histories of register_class, unregister_class, register_package, register_class_loader and unregister_class_loader interleaved with lookups, encodes and decodes",
  "Tests perform one or two registry operations on a clean registry each.",
  [PY, AL], [('registry', 'pyamf/__init__.py register_class, unregister_class, get_class_alias, load_class')],
  ['pyamf.get_class_alias', 'pyamf.load_class', 'pyamf.encode/decode of instances'],
  [('CLASS_CACHE', 'class and alias to ClassAlias', 'pyamf/__init__.py'), ('CLASS_LOADERS', 'alias to class callables', 'pyamf/__init__.py')])
p('C12', 'Custom types and standard-library adapters encode as documented equivalents',
  "A value of a supported standard-library type (sets.Set, sets.ImmutableSet, tuple, deque, array, ordered, default or counting dict, Decimal, weak reference or collection) encodes, wherever it is nested, to the same message as its documented plain equivalent. A registered custom type handler is used, by every encoder created after its registration, for every instance its type or predicate selects, until it is removed, and for no other value; registering a type twice or an invalid one is refused.",
  ['inputs', 'histories'], "all values of adapted types in all positions of a graph, and all histories of add_type, get_type and remove_type between encodes",
  "The adapter tests encode one top-level instance per type and never remove a type in use.",
  ['pyamf/adapters', PY, CO], [('type map', 'pyamf/__init__.py add_type/get_type/remove_type'), ('dispatch', 'pyamf/codec.py Encoder.getTypeFunc'), ('adapters', 'pyamf/adapters/_*.py')],
  ['bytes of pyamf.encode'])
p('C13', 'Only registered classes are instantiated, and strict mode rejects the rest',
  "A typed object whose class name is not registered, not provided by a class loader and not the dotted path of an importable class never runs application code: in non-strict mode it decodes to a generic typed object that keeps the name and all attributes, and in strict mode decoding raises the unknown-alias error, in AMF0, in AMF3 and in AMF3 data inside AMF0. A registered class name always yields an instance of that class, for new-style classes created without calling the initialiser, and an unknown externalizable class is always an error.",
  ['inputs', 'configurations'], "all class names, including dotted, non-ASCII and module-like ones, at every nesting position, in strict and non-strict mode",
  "Tests decode one unknown name per version at top level.",
  [PY, A0, A3, AL], [('alias lookup', 'pyamf/__init__.py load_class/get_class_alias'), ('strict checks', 'pyamf/amf0.py readTypedObject, pyamf/amf3.py _getClassDefinition')],
  ['pyamf.decode'])
p('C14', 'XML in AMF data cannot declare a DTD or entities unless allowed',
  "By default an XML value that carries a document type declaration or entity declarations is refused with an error on every decoding path (AMF0, both AMF3 XML types, AMF3 inside AMF0, remoting messages), before any external resource is read and without expanding any entity, and it is accepted only where the caller explicitly allows it. XML without them round-trips to an equal element tree.",
  ['inputs', 'configurations'], "all XML documents with internal, external, parameter or nested entities or DTDs, on every decoding path, and all plain XML trees",
  "Three fixed documents are tried on the xml module only.",
  ['pyamf/xml.py', A0, A3, CO, 'pyamf/remoting/__init__.py'], [('defused parser', 'pyamf/xml.py fromstring'), ('flags carried in the context', 'pyamf/codec.py Context')],
  ['pyamf.decode', 'remoting.decode', 'file and network opens'])
p('C15', 'Dates keep their instant to the millisecond and obey the timezone offset',
  "Every datetime representable in AMF round-trips, before and after 1970 and with fractional seconds, to the same instant to within one millisecond, and the number on the wire is milliseconds since the epoch in UTC. With a timezone offset, encoding subtracts it and decoding adds it exactly once, for every date at any depth and in every layer that accepts the option (codec, remoting, gateways, AMF3 inside AMF0); dates without time encode as midnight and bare times are refused.",
  ['inputs', 'configurations'], "all datetimes from year 1 to 9999 with any microseconds, all offsets, all layers",
  "Tests use four or five whole-second dates and one offset.",
  ['pyamf/util/__init__.py', A0, A3, 'pyamf/remoting/gateway/__init__.py'], [('conversion', 'pyamf/util/__init__.py get_timestamp/get_datetime'), ('offset', 'writeDate/readDate in both codecs')],
  ['double on the wire', 'decoded datetime'])
p('C16', 'Byte arrays and the data input/output interface mirror ActionScript',
  "A byte array behaves like a plain byte sequence with a cursor for every typed read and write it offers, reading back exactly what was written, and round-trips through AMF3 with its contents, compressed or not. An externalizable class that reads through the data input what it wrote through the data output gets the same values back, and leaves the enclosing message, its other objects and their references intact.",
  ['inputs', 'histories'], "all histories of typed writes and reads, all contents (including zlib-like ones), all nestings of externalizable objects with references",
  "Tests write one value per method; sequences, nesting and reference tables shared with the outer message are not explored.",
  [A3], [('DataInput/DataOutput', 'pyamf/amf3.py'), ('ByteArray', 'pyamf/amf3.py ByteArray')],
  ['ByteArray methods', '__readamf__/__writeamf__'])
p('C17', 'Flex collections and proxies are transparent wrappers',
  "An array collection behaves as the list it wraps under any sequence of its operations, and array collections and object proxies round-trip in AMF0 and AMF3, alone, nested or shared, to wrappers with equal contents. With proxying switched on, encoding wraps every list, dict and object exactly once and decoding unwraps them, giving back equal plain values with sharing preserved; attributes declared as proxied are wrapped on the wire and unwrapped on arrival.",
  ['inputs', 'histories'], "all operation histories on collections, all value graphs containing them, with and without proxying",
  "Tests encode single collections and proxies with flat contents.",
  ['pyamf/flex/__init__.py', A3], [('collections', 'pyamf/flex/__init__.py ArrayCollection, ObjectProxy'), ('proxy context', 'pyamf/amf3.py Context.getProxyForObject/getObjectForProxy')],
  ['pyamf.encode', 'pyamf.decode', 'ArrayCollection methods'])
p('C18', 'Flex messages survive both their plain and their small encoding',
  "Every Flex message (async, acknowledge, command, remoting, error and the data-management ones) round-trips with all its fields. The small form of a message that has one carries the same information: encoding the small form and decoding it yields a message of the same kind with equal fields, whatever subset of fields is set, and a small form is only offered for messages that have one and lose nothing in it.",
  ['inputs'], "all combinations of field values, absent, falsy and large ones included",
  "Tests decode two captured small messages and encode one of each plain kind.",
  ['pyamf/flex/messaging.py'], [('flag bytes', 'pyamf/flex/messaging.py AbstractMessage.__readamf__/__writeamf__ and subclasses'), ('small message factories', 'getSmallMessage')],
  ['pyamf.encode', 'pyamf.decode'])
p('C19', 'Remoting envelopes round-trip; every message part is self-contained',
  "Encoding a remoting envelope and decoding it preserves the AMF version, the headers with their required flags, and every request (target, response id, arguments) and response (id, status, body) in order, in strict and non-strict mode, and an independent reader of the format agrees, including header and body lengths in strict mode. References in one body never reach into another body, faults decode to fault objects with all their fields, and in strict mode a wrong length or trailing data is refused.",
  ['inputs', 'configurations'], "all envelopes: any number of headers and messages, any names, ids and bodies, both AMF versions, strict or not",
  "Tests cover fixed envelopes with one or two messages.",
  ['pyamf/remoting/__init__.py'], [('envelope codec', 'pyamf/remoting/__init__.py encode/decode'), ('context cleared per body', 'remoting.encode/decode')],
  ['remoting.encode', 'remoting.decode'])
p('C20', 'Each gateway request gets exactly one response, its own, and faults stay local',
  "For every batch of requests with distinct response ids a gateway returns exactly one response per request, with the request's id and in request order, whatever mixture of valid, failing, unknown, malformed or unauthorised requests it contains. A successful call returns the value of that very service call and status OK, each service call is executed exactly once with the arguments sent, and any error inside one request becomes an error response for that request alone, with the error's code and message, leaving the other requests unaffected. A service that is a class is instantiated anew for each call. All this holds whether the gateway has a logger or not.",
  ['inputs', 'histories', 'fault_sequences'], "all batches of AMF0 service calls and AMF3 remote-object messages with all kinds of failing services, exceptions and arguments",
  "Tests send one or two requests of one kind per envelope.",
  ['pyamf/remoting/gateway/__init__.py', 'pyamf/remoting/gateway/wsgi.py', 'pyamf/remoting/amf0.py', 'pyamf/remoting/amf3.py'],
  [('dispatch', 'BaseGateway.getServiceRequest/getProcessor'), ('error capture', 'RequestProcessor.buildErrorResponse')],
  ['WSGI response bytes', 'log of service calls'])
p('C21', 'Only exposed, authenticated service methods are ever executed',
  "No request, by AMF0 call or remote-object message, can execute anything but a public callable attribute of a registered service (or a registered callable itself): private names, names inside attributes, non-callables and unregistered or removed services are refused with an error. If an authenticator applies to an AMF0 call (the method's, else the service's, else the gateway's) the method runs only after that authenticator was given this request's credentials and returned True (remote-object messages carry no such credentials and are documented not to be authenticated). Pre-processors follow the same precedence for both kinds and run once before the call, and a refused or failed authentication or pre-processing means that nothing is executed. A DescribeService header is answered with the service's description and executes nothing.",
  ['inputs', 'configurations', 'histories'], "all target strings and credentials, and all placements of authenticators, pre-processors and request exposure on methods, services and gateway",
  "Tests try a few targets and one authenticator placement at a time.",
  ['pyamf/remoting/gateway/__init__.py', 'pyamf/remoting/amf0.py', 'pyamf/remoting/amf3.py'],
  [('method lookup', 'ServiceWrapper._get_service_func'), ('precedence', 'ServiceWrapper.getAuthenticator/getPreprocessor/mustExposeRequest'), ('gate', 'BaseGateway.authenticateRequest')],
  ['log of service, authenticator and pre-processor calls', 'responses'])
p('C22', 'Gateways disclose tracebacks only in debug mode',
  "With debug off, no response a gateway produces, for service errors, undecodable requests, unencodable results, authentication or pre-processing failures, by AMF0 or remote objects, with or without a logger of any level, contains traceback text, or names of source files or source lines of the code that failed (beyond what the error's own message and attributes say). With debug on, faults carry the traceback of the error; in both modes the fault carries the error's code and description, and interpreter-exit exceptions are passed on, never turned into faults.",
  ['inputs', 'fault_sequences', 'configurations'], "all exceptions at all stages of request processing, debug on and off, WSGI and Django gateways",
  "Tests check two stages with one exception each.",
  ['pyamf/remoting/amf0.py', 'pyamf/remoting/amf3.py', 'pyamf/remoting/gateway/wsgi.py', 'pyamf/remoting/gateway/django.py'],
  [('fault building', 'remoting/amf0.py build_fault, remoting/amf3.py generate_error'), ('HTTP error pages', 'wsgi.py and django.py')],
  ['HTTP responses'])
p('C23', 'The WSGI gateway honours the HTTP contract for every request',
  "For every method, body and header combination the WSGI application calls start_response exactly once before returning, with a status of 200 for processed messages, 400 for non-POST requests and for bodies that end early, announce another version, use an unknown type or refer to what was never sent, and 400 or 500 for other bodies that cannot be decoded and 500 for internal failures, a Content-Type, and a Content-Length equal to the number of bytes returned. It reads exactly the announced body, a failing request never prevents later requests from being served, and the 200 answer to a well-formed request is a decodable AMF message of the request's version.",
  ['inputs', 'histories', 'fault_sequences'], "all request bodies (valid, truncated, mutated, random), methods and service failures, in any order on one application",
  "Tests send about ten fixed requests.",
  ['pyamf/remoting/gateway/wsgi.py'], [('application', 'pyamf/remoting/gateway/wsgi.py WSGIGateway.__call__')],
  ['start_response calls and returned iterables, under a validating WSGI server'])
p('C24', 'The Django gateway gives the same answers as the WSGI gateway',
  "For every AMF request body the Django view answers with the same decoded AMF responses as the WSGI gateway with the same services and options, and maps non-POST requests, undecodable bodies and internal failures to the corresponding HTTP error. Its Content-Length equals the bytes sent, and settings-driven options (debug, timezone) reach the codec.",
  ['inputs', 'configurations'], "all request bodies, methods and service failures, and gateway options",
  "Tests send about eight fixed requests.",
  ['pyamf/remoting/gateway/django.py'], [('view', 'pyamf/remoting/gateway/django.py DjangoGateway.__call__')],
  ['HttpResponse objects'])
p('C25', 'A remoting client matches every response to the request that caused it',
  "Whatever requests are queued, removed, executed singly or in a batch, and in whatever order the server's responses come back, each pending request receives exactly the response bearing its id, ids are never reused within a client, and executed or removed requests leave the queue while others stay. Successful bodies are returned as sent; faults raise the matching exception type with the server's description; HTTP failures and wrong or missing content types raise a remoting error, and short or damaged bodies or missing answers raise an error; none of these is ever returned as a result. Credentials, headers, the user agent and a proxy that are set reach every request, whatever text they are.",
  ['histories', 'inputs', 'fault_sequences'], "all histories of client operations against a server that reorders, faults, compresses or corrupts responses",
  "Tests run one or two requests with a canned response.",
  ['pyamf/remoting/client/__init__.py', 'pyamf/remoting/__init__.py'], [('request queue and ids', 'RemotingService'), ('response handling', 'RemotingService._getResponse/execute/execute_single, RequestWrapper')],
  ['client API against a scripted transport'])
p('C26', 'Local shared objects round-trip and reject damaged headers',
  "Saving any named collection of AMF-encodable values as a local shared object, in AMF0 or AMF3, to a stream or file, and loading it gives the same name and equal values, with the header of the published format (magic, length, signature, padding, encoding) as an independent reader sees it. A file with a wrong magic, signature, padding, or length in strict mode is refused with a decoding error, one with an unknown encoding is refused too, and files opened by the library are closed in every case.",
  ['inputs'], "all names and value maps in both encodings, and all single-byte header damages",
  "Tests use one captured file and a few small maps.",
  ['pyamf/sol.py'], [('header', 'pyamf/sol.py decode/encode'), ('files', 'pyamf/sol.py load/save')],
  ['sol.encode/decode/load/save'])
p('C27', 'Concurrent use gives every caller the result it would get alone',
  "When many threads encode, decode, register classes, or send requests through one shared gateway at the same time, each with its own codec or request, every thread gets exactly the result that the same operation gives when run alone. First use of a class, type or module from several threads at once is no exception, and no data of one request ever appears in another's response.",
  ['schedules'], "all interleavings of threads using separate codecs and one shared gateway over the shared class registry, type map and caches",
  "No test starts a second thread.",
  [PY, AL, CO, A3, 'pyamf/remoting/gateway/wsgi.py'], [('process-wide registries', 'pyamf/__init__.py CLASS_CACHE, TYPE_MAP'), ('lazy compilation', 'pyamf/alias.py ClassAlias.compile'), ('integer cache', 'pyamf/amf3.py ENCODED_INT_CACHE')],
  ['results per thread compared with the sequential result'])
p('C28', 'Import hooks run exactly once per registered hook',
  "A function registered for a module runs exactly once with that module as argument: immediately if the module is already imported, otherwise right after its first import, in registration order, wherever the module sits in a package. Importing an unrelated or failing module runs no hook, a failing import can be retried and then runs the hooks, and importing behaves otherwise as without hooks.",
  ['histories'], "all histories of registrations and imports, nested packages, failing modules and failing hooks included",
  "Tests register one hook for one module.",
  ['pyamf/util/imports.py', 'pyamf/adapters/__init__.py'], [('finder', 'pyamf/util/imports.py ModuleFinder')],
  ['hook call log'])
p('C29', 'Post-decode processors see every decoded element exactly once, in order',
  "Each registered post-decode processor is applied to every top-level decoded element, in registration order, each receiving the previous one's result, and the caller gets the last result; nested values are not processed separately (an AMF3 value inside an AMF0 message is a top-level element of its own AMF3 part). Processors added or removed between elements take effect from the next one, and an element that fails to decode is not processed.",
  ['histories', 'inputs'], "all sequences of elements and of processor registrations in both AMF versions",
  "One test registers two processors and calls them directly.",
  [PY, CO], [('processor list', 'pyamf/__init__.py add_post_decode_processor'), ('finalise', 'pyamf/codec.py Decoder.readElement')],
  ['processor call log', 'decoded elements'])
p('C30', 'Remote-object replies are correlated with their messages',
  "Every remote-object message gets a reply of the right kind (acknowledgement for success, error message for failure) whose correlation id is the message's id and whose own message and client ids are fresh. Pings and disconnects are acknowledged, unsupported commands and malformed bodies get an error message, the destination and operation select the service exactly as the dotted target of a plain call would, and the connection id sent by the client is echoed or a new one assigned. The onServiceError hook of a gateway is called once for each message that fails, with that message and its reply.",
  ['inputs', 'histories'], "all remote-object messages: kinds, operations, destinations, headers, bodies, alone and in batches",
  "Tests send one message of each kind, by direct call to the processor.",
  ['pyamf/remoting/amf3.py', 'pyamf/flex/messaging.py'], [('processor', 'pyamf/remoting/amf3.py RequestProcessor'), ('acknowledgement', 'generate_acknowledgement/generate_error')],
  ['AMF3 responses of the WSGI gateway'])
p('C31', 'The C extension and the pure Python codec are interchangeable',
  "For every value and every byte string the compiled codec and the pure Python codec produce the same bytes, values and errors.",
  ['inputs'], "all values and all byte strings", "Tests run each implementation on the same few fixed cases.",
  ['cpyamf/amf0.pyx', 'cpyamf/amf3.pyx', 'cpyamf/codec.pyx', 'cpyamf/util.pyx'], [('parallel implementation', 'cpyamf/')])
p('C32', 'The Twisted and Google App Engine gateways answer like the WSGI gateway',
  "For every AMF request the Twisted and App Engine gateways give the responses that the WSGI gateway gives, also when services answer asynchronously.",
  ['inputs', 'schedules'], "all requests and all completion orders of deferred results", "Tests exist but cannot run without Twisted or App Engine.",
  ['pyamf/remoting/gateway/twisted.py', 'pyamf/remoting/gateway/google.py'], [('deferred processing', 'pyamf/remoting/gateway/twisted.py')])
p('C33', 'Django model instances travel as their loaded state and return as the same rows',
  "Encoding a Django model instance writes all its field values (dates, times, decimals and file names converted), its readable properties, the related objects that are already loaded, its many-to-many lists and its dynamic attributes, and nothing else (no private attributes, no columns of foreign keys, no excluded fields such as a user's password); it never writes to the database and only reads the many-to-many lists. Several instances of one row in a message are one object. Decoding gives instances of the class with the key, fields and relations of the message, based on the stored row where the key is stored, new objects stay new, read-only and excluded fields keep their stored values, and no row changes. Derived, abstract, proxy and unregistered models, own keys and managers are no exception, query sets are lists and translated strings their text.",
  ['inputs', 'histories'], "all models, instance states (unsaved, stored, fetched with any relations loaded, modified) and messages without objects that contain themselves",
  "The tests for it need a database driver and cover one fixed instance per kind of field.",
  ['pyamf/adapters/_django_db_models_base.py', 'pyamf/adapters/_django_db_models_fields.py', 'pyamf/adapters/_django_db_models_query.py', 'pyamf/adapters/_django_contrib_auth_models.py', 'pyamf/adapters/_django_utils_translation.py'], [('alias', '_django_db_models_base.py DjangoClassAlias'), ('identity of rows', '_django_db_models_base.py writeDjangoObject')],
  ['encoded bytes read independently', 'attributes of decoded instances', 'log of database statements'])
p('C34', 'Instances of other ORMs (SQLAlchemy, Elixir, App Engine) round-trip as objects',
  "A persistent instance encodes its mapped, loaded attributes only, and decoding yields an instance with the same key and fields, without issuing unneeded queries.",
  ['inputs', 'histories'], "all mapped classes and session states", "Tests exist but cannot run without the database packages.",
  ['pyamf/adapters/_sqlalchemy_orm.py', 'pyamf/adapters/_google_appengine_ext_db.py', 'pyamf/adapters/_elixir.py'], [('aliases', 'pyamf/adapters/')])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'properties.jsonl')
with open(out, 'w') as f:
    for d in P:
        f.write(json.dumps(d) + '\n')
print(len(P))
