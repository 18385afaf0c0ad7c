"""Source of properties.jsonl: python3 tools/props.py writes it."""
import json, os
B = 'src/main/cpp/Balau/'
P = []
def p(id, title, statement, over, text, why, files, mech, state=(), observe=()):
    d = dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
             anchors=dict(files=[B + f for f in files], state=[dict(name=a, meaning=b, where=B + c) for a, b, c in state],
                          mechanism=[dict(name=a, where=B + b) for a, b in mech], observe_at=list(observe), hook_needed=None))
    assert len(title) <= 80, title
    P.append(d)

p('C01', 'UTF-8 decoding, encoding and stepping are exact and stay inside the text',
  'For every text and offset, stepping forwards or backwards over UTF-8 yields exactly the encoded code point and moves the offset by exactly the length of its encoding, and encoding a code point writes exactly its UTF-8 bytes and changes no other byte. The validating variants signal every ill-formed sequence with a negative value (decoding forwards), always move the offset and never read or step outside the text. The byte count reported for a code point is its encoded length, and zero for values that have no encoding.',
  ['inputs'], 'all byte sequences of any length below 2^31, all offsets, all 32-bit code point values',
  'The tests decode a handful of literal strings; the guarantee is over all byte sequences, including truncated, overlong and surrogate encodings.',
  ['Type/Character.hpp'], [('forward and backward stepping', 'Type/Character.hpp getNextUtf8 .. retreatUtf8Safe'), ('encoding', 'Type/Character.hpp setUtf8AndAdvanceOffset, utf8ByteCount')], observe=['return value and offset of each function'])
p('C02', 'Character classification agrees with the documented classes',
  'For every code point the ASCII-restricted predicates (digits of bases 2, 8, 10 and 16, validity of a code point, blank and line-break tests) are true for exactly the documented set of code points, and the general category predicates return the Unicode property they name.',
  ['inputs'], 'all 2^32 values of a code point',
  'Several of the tests are empty and the others look at two or three code points.',
  ['Type/Character.hpp'], [('predicates', 'Type/Character.hpp')])
p('C03', 'Trimming removes exactly the outer space characters and returns a view',
  'Trimming a text on the left, on the right or on both sides returns the sub-view of the input that starts at the first (ends after the last) code point that is not a space character (a Unicode separator, as Character::isSpace defines it), and an empty view when there is none. No space inside is removed, no other character is dropped, and the returned view always lies inside the input.',
  ['inputs'], 'all valid UTF-8 and UTF-32 texts of any length',
  'The tests trim a few short literals; the loops must be right for every mix of widths and positions.',
  ['Util/Strings.hpp'], [('trim loops', 'Util/Strings.hpp trim, trimLeft, trimRight')])
p('C04', 'String searching reports exactly the matches that exist',
  'Prefix, suffix, containment and last-index queries are true (or give the position) exactly when the text really begins with, ends with or contains the pattern there, for texts and patterns of any length including empty ones. Counting occurrences counts exactly the non-overlapping matches found from left to right and always terminates. Code point counting returns the number of code points of the text.',
  ['inputs'], 'all texts and patterns of both character widths',
  'The tests use literals; overlapping, empty and longer-than-text patterns and arbitrary content are sampled at best.',
  ['Util/Strings.hpp'], [('search functions', 'Util/Strings.hpp startsWith .. codePointCount')])
p('C05', 'String building produces exactly the documented text',
  'Appending, padding, joining, prefix/suffix joining, case mapping and replacing produce exactly the text that concatenating their pieces prescribes: padding reaches the requested width in code points and leaves longer texts alone, replacement substitutes every non-overlapping match from left to right and nothing else and reports their number, case mapping maps code point by code point whatever the encoded lengths. Each call terminates for every input.',
  ['inputs'], 'all texts, fill characters, widths, counts, element lists, patterns and replacements',
  'Each function is tested on a few literals; lengths that change under case mapping, replacement text that contains the pattern and multi-byte fill characters are hardly reached.',
  ['Util/Strings.hpp', 'Util/Impl/StringsImpl.hpp'], [('building functions', 'Util/Strings.hpp append, padLeft, padRight, join, joinContainer, prefixSuffixJoin, toUpper, toLower'), ('replacement loop', 'Util/Impl/StringsImpl.hpp replaceAllImpl')])
p('C06', 'Splitting a string loses and invents nothing',
  'Splitting by a literal delimiter returns, in order, exactly the stretches of the input between consecutive non-overlapping delimiter matches taken from left to right, as views into the input. With compression the empty stretches, and only those, are left out; an empty delimiter yields the whole input as one element.',
  ['inputs'], 'all inputs and delimiters of both character widths, both compression modes',
  'Tests split a few literals with short delimiters; partial matches at the end, repeated first characters and delimiters longer than the input are not covered.',
  ['Util/Strings.hpp'], [('split loop', 'Util/Strings.hpp splitImpl, delimiterFound')])
p('C07', 'URL decoding inverts percent encoding and never reads outside its input',
  'Decoding a percent-encoded text gives exactly the bytes that the escapes and the plain characters denote, in order, with plus signs turned into spaces only where asked. A truncated or non-hexadecimal escape, and escapes that decode to ill-formed UTF-8, are rejected with an exception; no input makes the decoder read outside the text.',
  ['inputs'], 'all texts of any length, including truncated and malformed escapes',
  'The decoder has tests for a few well-formed strings (which are not part of this build); malformed input is unbounded.',
  ['Network/Utilities/UrlDecode.hpp'], [('decoder', 'Network/Utilities/UrlDecode.hpp decode')])
p('C08', 'URI components are parsed, rebuilt and compared consistently',
  'Splitting a URI into scheme, authority, user, host, port, path, query and fragment gives the components that the generic URI grammar assigns, and rebuilding the URI from them gives the original text. Setting one component changes that component only.',
  ['inputs'], 'all URI texts and component values',
  'The tests parse listed examples.',
  ['Resource/UriComponents.hpp'], [('component extraction', 'Resource/UriComponents.hpp')])
p('C09', 'Hash digests are independent of how the input is cut into pieces',
  'For every message and every way of cutting it into consecutive pieces, feeding the pieces one after another gives the same digest as feeding the message at once, and that digest is the one the algorithm (CRC-32, MD5, SHA-1, SHA-256, SHA-3, Keccak) prescribes. Asking for the digest does not change it, and a reset hasher behaves like a new one.',
  ['inputs', 'histories'], 'all messages of any length and all partitions of them, all sequences of add, get and reset',
  'Known-answer tests hash a few short messages at once; buffer boundaries and padding cases need every length and partition.',
  ['ThirdParty/HashLibrary/crc32.h', 'ThirdParty/HashLibrary/md5.h', 'ThirdParty/HashLibrary/sha1.h', 'ThirdParty/HashLibrary/sha256.h', 'ThirdParty/HashLibrary/sha3.h', 'ThirdParty/HashLibrary/keccak.h', 'Util/Hashing.hpp'],
  [('buffering', 'ThirdParty/HashLibrary/*.h add, processBuffer')], [('m_buffer, m_bufferSize, m_numBytes', 'bytes not yet hashed', 'ThirdParty/HashLibrary/sha256.h')])
p('C10', 'The bounded blocking queue is a FIFO that never loses, duplicates or overfills',
  'Under every interleaving of producers and consumers the bounded blocking queue hands out each enqueued element exactly once and in the order of enqueueing, and never holds more than its capacity. Enqueueing blocks (or is refused) exactly while the queue is full and dequeueing exactly while it is empty, and a thread that waits is woken when its condition comes true.',
  ['schedules', 'histories'], 'all interleavings of any number of threads, all operation sequences, all capacities',
  'The tests run a few threads for a short time: they sample schedules.',
  ['Container/ArrayBlockingQueue.hpp', 'Container/BlockingQueue.hpp', 'Container/Queue.hpp'], [('monitor', 'Container/ArrayBlockingQueue.hpp')], [('ring buffer, head, count', 'contents of the queue', 'Container/ArrayBlockingQueue.hpp')])
p('C11', 'The synchronized queue is a FIFO that never loses or duplicates elements',
  'Under every interleaving the unbounded synchronized queue hands out each enqueued element exactly once, in the order of enqueueing; dequeueing from an empty queue reports emptiness and changes nothing, and the queue reports empty exactly when it holds no element.',
  ['schedules', 'histories'], 'all interleavings and operation sequences',
  'Tests sample schedules.',
  ['Container/SynchronizedQueue.hpp', 'Container/Queue.hpp'], [('mutex around a list', 'Container/SynchronizedQueue.hpp')])
p('C12', 'Semaphores and cyclic barriers admit and release exactly the right threads',
  'A semaphore admits a thread exactly when a permit is available: the permits taken never exceed those provided, and each release makes one more available and wakes a waiting thread. A cyclic barrier releases its waiting threads exactly when the configured number has arrived, all of them, and is then ready for the next round.',
  ['schedules', 'histories'], 'all interleavings of any number of threads and rounds',
  'Tests run one schedule with a few threads.',
  ['Concurrent/Semaphore.hpp', 'Concurrent/CyclicBarrier.hpp'], [('monitors', 'Concurrent/Semaphore.hpp, Concurrent/CyclicBarrier.hpp')])
p('C13', 'Command line parsing assigns every argument exactly once or rejects the line',
  'For every argument vector, parsing either rejects the line with a command line exception or assigns each switch, its value and the final values exactly as the configured style prescribes. No argument is read outside the vector, and parsing again gives the result of the last line alone.',
  ['inputs', 'configurations'], 'all argument vectors, styles and option sets',
  'Tests parse a few well-formed lines per style.',
  ['Application/CommandLine.hpp'], [('style specific parsers', 'Application/CommandLine.hpp')])
p('C14', 'A message is logged exactly when the effective level of its logger allows it',
  'A logger emits a message exactly when the level of the message is at least as severe as the effective level of the logger. The level names parse to their levels and back, and an unknown name is rejected.',
  ['inputs', 'configurations'], 'all pairs of levels, all names',
  'Tests log at some of the level pairs.',
  ['Logging/LoggingLevel.hpp', 'Logging/Logger.hpp', 'Logging/Logger.cpp'], [('level comparison', 'Logging/Logger.hpp'), ('level parsing', 'Logging/LoggingLevel.hpp')])
p('C15', 'The injector resolves each key to its own binding and rejects invalid graphs',
  'Two binding keys are the same exactly when type, deleter, meta-type and name agree, so a lookup returns the binding registered for that key and no other, and a key that was not registered is reported as missing. Duplicate bindings, missing dependencies, promotions to singleton scope and cyclic dependencies are rejected when the injector is created.',
  ['configurations', 'histories'], 'all sets of bindings and dependency graphs',
  'Tests build a few fixed configurations.',
  ['Application/Injector.hpp', 'Application/Impl/BindingMap.hpp', 'Application/Impl/BindingKey.hpp'], [('open addressing table', 'Application/Impl/BindingMap.hpp'), ('key equality and hash', 'Application/Impl/BindingKey.hpp')])
p('C16', 'Scanned tokens cover the source text without gaps and carry exact positions',
  'Scanning a text yields tokens whose texts, put together in order, are the scanned text. Positions advance over line breaks and columns exactly, so that the code span of a token is where its text stands, and code spans are ordered by position.',
  ['inputs'], 'all texts',
  'Tests scan a few snippets.',
  ['Lang/Common/AbstractScanner.hpp', 'Lang/Common/ScannedTokens.hpp', 'Lang/Common/CodeSpan.hpp', 'Lang/Property/Parser/PropertyScanner.hpp'], [('scanner', 'Lang/Common/AbstractScanner.hpp'), ('spans', 'Lang/Common/ScannedTokens.hpp')])
p('C17', 'Property files parse to the hierarchy they denote',
  'Every well-formed property text parses to the tree of simple properties, composite properties, includes and comments that it denotes, with names and values decoded from their escapes; every other text is rejected with a parse exception.',
  ['inputs'], 'all property texts',
  'Tests parse examples.',
  ['Lang/Property/Parser/PropertyParser.hpp', 'Lang/Property/Lang/PropertyAst.hpp'], [('recursive descent parser', 'Lang/Property/Parser/PropertyParser.hpp')])
p('C18', 'The object trie finds the best matching node and keeps its tree shape',
  'A lookup in the trie of objects returns the node at the end of the longest matching path, an add creates exactly the missing nodes, and the iterators visit each node exactly once in their documented order.',
  ['inputs', 'histories'], 'all tries and paths',
  'Tests use small fixed tries.',
  ['Container/ObjectTrie.hpp'], [('trie operations', 'Container/ObjectTrie.hpp')])
p('C19', 'Once-only execution: scope guards, single time executors and lazy values',
  'A scope guard runs its action exactly once when its scope is left, by return or exception, and a moved-from or released guard never runs it. A single time executor and a lazy value run their function exactly once whatever the number of calls and threads, and every caller sees its result.',
  ['schedules', 'histories'], 'all interleavings and all sequences of moves and calls',
  'Tests exercise one thread or one schedule.',
  ['Type/OnScopeExit.hpp', 'Type/MovableOnScopeExit.hpp', 'Concurrent/SingleTimeExecutor.hpp', 'Concurrent/LazyValue.hpp'], [('guards', 'Type/OnScopeExit.hpp, Type/MovableOnScopeExit.hpp'), ('once-only execution', 'Concurrent/SingleTimeExecutor.hpp, Concurrent/LazyValue.hpp')])
p('C20', 'Text to value conversion accepts exactly the texts of the type',
  'Converting a text to a boolean, character or integer yields the denoted value when the text denotes a value of the type and throws a conversion exception otherwise; converting a value to text and back gives the value.',
  ['inputs'], 'all texts and values',
  'Tests convert a few literals.',
  ['Type/FromString.hpp', 'Type/Impl/FromStringImpl.hpp', 'Type/ToStringS.hpp'], [('conversions', 'Type/FromString.hpp, Type/Impl/FromStringImpl.hpp')])
p('C21', 'Container utilities neither lose, duplicate nor reorder elements',
  'Copying, appending, searching and transforming through the vector and container utilities gives exactly the elements that the operation denotes, in order, and leaves the operands that it does not own unchanged.',
  ['inputs'], 'all element lists',
  'Tests use short fixed lists.',
  ['Util/Vectors.hpp', 'Util/Containers.hpp'], [('utilities', 'Util/Vectors.hpp')])
p('C22', 'Pretty printing of numbers, durations and bytes is exact',
  'Fixed width hexadecimal rendering shows exactly the bits of the value, most significant digit first, with the requested width and prefix; byte dumps show each byte as two digits; durations and sizes are shown with the unit and digits that denote the value.',
  ['inputs'], 'all values and widths',
  'Tests render a few values.',
  ['Util/PrettyPrint.hpp'], [('formatters', 'Util/PrettyPrint.hpp')])
p('C23', 'The shared memory queue transports every object once, intact and in order',
  'Objects sent through the shared memory queue between processes arrive exactly once, complete and in order; timed operations report success exactly when they transferred an object.',
  ['schedules', 'fault_sequences'], 'all interleavings of processes and all object sizes',
  'Tests run one pair of processes.',
  ['Interprocess/SharedMemoryQueue.hpp'], [('chunked transfer', 'Interprocess/SharedMemoryQueue.hpp')])
p('C24', 'An assertion fails exactly when the asserted relation does not hold',
  'Each assertion of the test framework throws exactly when the relation that it asserts between its operands does not hold, and otherwise has no effect.',
  ['inputs'], 'all operand values',
  'The framework tests itself with a few values.',
  ['Testing/Assertions.hpp', 'Testing/Impl/MatcherClasses.hpp', 'Testing/Matchers.hpp'], [('assertion functions', 'Testing/Assertions.hpp')])
p('C25', 'The dependency graph reports every cycle and orders dependencies first',
  'The dependency graph holds exactly the nodes and edges added to it, reports a cycle exactly when one exists, and its orderings place each dependency before its dependents.',
  ['configurations'], 'all graphs',
  'Tests use small graphs.',
  ['Container/DependencyGraph.hpp'], [('graph', 'Container/DependencyGraph.hpp')])
p('C26', 'Environment properties resolve by type and hierarchy with later sources winning',
  'A property of the environment configuration is found exactly when it was specified and configured or has a default, with the configured type, and values of later sources override earlier ones.',
  ['configurations'], 'all specifications and sources',
  'Tests load a few files.',
  ['Application/EnvironmentConfiguration.hpp', 'Application/EnvironmentProperties.hpp', 'Application/Impl/EnvironmentConfigurationBuilder.hpp'], [('builder', 'Application/Impl/EnvironmentConfigurationBuilder.hpp')])
p('C27', 'The HTTP server answers every request through exactly one handler',
  'Every request that the server accepts is answered once, by the web application whose path matches longest, and malformed requests and handler failures end in an error response, never in a crash or a hang.',
  ['inputs', 'schedules', 'fault_sequences'], 'all request sequences and connection failures',
  'The server tests are not part of the offline build.',
  ['Network/Http/Server/HttpServer.cpp', 'Network/Http/Server/HttpSession.cpp', 'Network/Http/Server/HttpWebApps/RoutingHttpWebApp.hpp'], [('sessions and routing', 'Network/Http/Server')])
p('C28', 'Zip and gzip round trips restore the data',
  'Compressing and decompressing data, and adding, replacing and reading entries of a zip archive, give back exactly the original data.',
  ['inputs', 'fault_sequences'], 'all data and archives',
  'Tests use a few files.',
  ['Util/Compression.hpp', 'Util/Zip.hpp', 'Resource/ZipFile.hpp'], [('wrappers of zlib and libzip', 'Util/Compression.hpp, Util/Zip.hpp')])
p('C29', 'The test runner runs every selected test once and reports its true outcome',
  'For every execution model, each selected test is executed exactly once, a test that throws is reported as failed and one that returns as passed, and the totals of the report add up.',
  ['schedules', 'configurations', 'fault_sequences'], 'all test selections, execution models and schedules',
  'The runner is tested by running itself.',
  ['Testing/TestRunner.hpp', 'Testing/Impl/TestRunnerExecutor.hpp', 'Testing/Impl/TestResultQueue.hpp'], [('executors', 'Testing/Impl')])
if __name__ == '__main__':
    out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl')
    with open(out, 'w') as f:
        for d in P: f.write(json.dumps(d) + '\n')
    print(len(P))
