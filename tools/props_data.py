HOOK_GUARD = 'none'
HOOK_ENABLE = ('No hook in /repo is needed: the simulator replaces threading, thread, time, socket, select, ssl, sqlite3, '
               'os.urandom, random, open and os file calls before it imports pyslet from the working tree.')
HOOK_COMMITS = []
NOTES = ('Every check is bin/check ID: it loads pyslet from /repo\'s working tree under Jython inside the simulator in /verif/sim. '
         'See DESIGN.md.')
SIM = 'Real code: all of pyslet. Sampled, not exhaustive. '

# ---------------------------------------------------------------- HTTP client
prop('C01', 'HTTP client pairs every request with its own response exactly once',
     'When threads send requests through one HTTP request manager to servers that answer every request, each request is put on the wire exactly once and finishes exactly once, with the status, headers and body the server produced for that very request, however the requests are pipelined and however the response bytes are cut up on arrival. '
     'On any one connection requests reach the server in the order the thread queued them. '
     'A POST is never transmitted while an earlier request on that connection still awaits its response.',
     ['schedules', 'inputs', 'fault_sequences'],
     'for every interleaving of caller threads, every segmentation and delay of the bytes in both directions, every mix of methods and response framings (no connection failures)',
     'The tests drive one thread against live or scripted sockets and never split or join responses, so neither interleaving nor segmentation is explored.',
     ['rfc2616.py'],
     [('Connection.ConnectionTask', 'rfc2616.py'), ('Connection._RecvResponseData', 'rfc2616.py'), ('HTTPRequestManager.QueueRequest', 'rfc2616.py')],
     [('requestQueue/responseQueue', 'requests not yet sent, responses not yet read', 'rfc2616.py')],
     ['bytes received by the simulated server', 'HTTPRequest.status/resBody/response after Finished'],
     note=SIM + 'Network and HTTP servers are simulated at the socket/select API; DNS and TLS are stubs.')
prop('C02', 'HTTP response bodies are delivered intact or reported as failed',
     'Whatever the framing (Content-Length, chunked, or closed by the server), and however the bytes are segmented, delayed or cut off by a lost connection, a request that finishes without error carries exactly the bytes the server framed as its body. '
     'A response cut short before its framing is complete is never presented as complete: the request has a status of 0 or a non-empty error. '
     'Responses to HEAD and 204 and 304 responses have no body, and interim 1xx responses never surface as the final one.',
     ['inputs', 'fault_sequences', 'schedules'],
     'for every body, every framing, every segmentation, and a connection loss (orderly or reset) at every byte offset',
     'The tests use whole responses; a truncated or oddly segmented response needs a peer that misbehaves at a chosen byte.',
     ['rfc2616.py'],
     [('HTTPResponse.RecvLine/RecvBytes', 'rfc2616.py'), ('Connection._RecvResponseData', 'rfc2616.py'), ('HTTPResponse.ServerDisconnect', 'rfc2616.py')],
     [], ['HTTPRequest.status, error, resBody and resBodyStream'],
     note=SIM + 'Simulated peer chooses framing, segmentation and cut offset.')
prop('C03', 'HTTP request bodies reach the server intact and obey 100-continue',
     'The request head and body bytes that reach the server are exactly those of the queued request, correctly framed by Content-Length or chunked coding, whatever partial sends the socket makes and whether the body is a string or a stream. '
     'With Expect: 100-continue no body byte is sent before the server sends an interim (1xx) response, or sends the final response, or the 60 second wait has passed. '
     'A request body that ends before its declared length is reported as an error and never completes as a well formed request.',
     ['inputs', 'fault_sequences', 'schedules'],
     'for every body and declared length, every sequence of partial or blocked sends, every time of arrival of the 100 or final response',
     'The tests never make a send partial and never run the continue timer, because it needs 60 s of real time.',
     ['rfc2616.py'],
     [('HTTPRequest.ReadRequestBody', 'rfc2616.py'), ('Connection._SendRequestData', 'rfc2616.py'), ('Connection.Continue', 'rfc2616.py')],
     [], ['byte stream at the simulated server with arrival times'],
     note=SIM + 'Clock is simulated, so the continue timer runs in microseconds.')
prop('C04', 'HTTP connection pool: limits, exclusivity, time-outs and closing',
     'The request manager never has more connections open than its configured maximum (apart from connections a clean-up is just then closing), never more than one connection per thread and target in use, and never lets two threads use one connection at the same time. '
     'A thread waiting for a connection gets one once another thread finishes or is cleaned up, or is told the manager is busy once its time-out has passed and not much later; after the manager has been closed every waiting or later request is refused and every socket is closed or shut down. '
     'Idle clean-up closes exactly the connections idle for longer than the limit and active clean-up never disturbs a connection used more recently than the limit.',
     ['schedules', 'histories', 'fault_sequences'],
     'for every interleaving of requesting threads, clean-up calls from other threads and Close, and every clock advance between them',
     'Needs many threads, abandoned connections and the clock; the tests run one thread with at most two connections.',
     ['rfc2616.py'],
     [('HTTPRequestManager.QueueRequest', 'rfc2616.py'), ('_ActivateConnection/_DeactivateConnection', 'rfc2616.py'), ('IdleCleanup/ActiveCleanup/Close', 'rfc2616.py')],
     [('cActiveThreadTargets, cActiveThreads, cIdleTargets, cIdleList', 'the four pool indexes', 'rfc2616.py')],
     ['open simulated sockets per manager', 'ActiveCount/ThreadActiveCount', 'QueueRequest return or exception and its simulated time'],
     note=SIM + 'Sockets are counted at the simulated network, not in the manager.')
prop('C05', 'HTTP requests always finish, in bounded time, after connection failures',
     'When connecting, sending or receiving fails at any point (refused, unresolved, reset, closed early, garbage received), the processing loop returns once the failure is known, every request the thread had queued has finished, and each has either the true response or status 0 or an error. '
     'Failures of one connection never stop requests on other connections, and the same manager completes new requests once the network recovers. (Requests on a connection another thread killed with a clean-up call are C04\'s.)',
     ['fault_sequences', 'schedules', 'inputs'],
     'for every failure kind at every step of the exchange, in any combination across connections',
     'Needs a network that fails at chosen instants; the tests have one scripted failing socket.',
     ['rfc2616.py'],
     [('Connection.Close', 'rfc2616.py'), ('HTTPRequestManager.ThreadTask', 'rfc2616.py'), ('Connection.NewSocket', 'rfc2616.py')],
     [], ['return of ProcessRequest/ThreadLoop', 'HTTPRequest.status/error/done'],
     note=SIM + 'Progress is bounded in simulated time and steps after the last fault.')
prop('C06', 'Redirects and credentials: followed correctly, never leaked',
     'A redirected or challenged request ends with the answer of the final target, its body resent in full and its partial results discarded, and each hop is requested once. '
     'A 302 answer to anything but GET or HEAD is not followed. '
     'A user name and password is sent only to the scheme, host and port it was registered for, and only under paths at or below one where it has succeeded or in answer to a matching challenge; rejected credentials are not sent again and again.',
     ['histories', 'inputs', 'schedules'],
     'for every history of challenges, redirects, rejections and path successes across servers, from several threads sharing one manager with spare connections, for redirects 301, 302 and 307 without loops',
     'Depends on the history of answers from several servers; the tests check one challenge and no redirect chain.',
     ['rfc2616.py', 'rfc2617.py'],
     [('HTTPRequest.Finished/Resend', 'rfc2616.py'), ('HTTPRequestManager.FindCredentials/FindCredentialsForURL', 'rfc2616.py'), ('BasicCredentials.TestURL/AddSuccessPath', 'rfc2617.py')],
     [], ['requests seen by each simulated server'],
     note=SIM + 'Simulated origin servers record every request.')
# ---------------------------------------------------------------- in-memory OData store
prop('C07', 'In-memory entity sets are linearizable for threads sharing them',
     'Operations on an in-memory entity set from several threads (insert, read, update, delete, count, existence) behave as if each happened at one instant between its call and return on a map from key to entity. '
     'Of several inserts of one key exactly one succeeds and the others raise a constraint error; an iteration yields every entity present throughout it, none twice and none that was not there; a read returns all the properties of one update and never a mixture; no internal error escapes because another thread deleted an entity.',
     ['schedules', 'histories'],
     'for every interleaving, at line granularity, of up to four threads over few keys',
     'The tests are single threaded.',
     ['odata2/memds.py', 'odata2/csdl.py'],
     [('InMemoryEntityStore lock', 'odata2/memds.py'), ('EntityCollection.InsertEntity/UpdateEntity/__delitem__', 'odata2/memds.py')],
     [('data, associations, containerLock', 'entity tuples and links', 'odata2/memds.py')],
     ['invocation/response history'],
     note=SIM + 'History checked for linearizability against a dictionary model.')
prop('C08', 'Automatically assigned entity keys are unique',
     'Every entity inserted without a key into an in-memory entity set with an integer key gets a key no other entity has, and the insert does not fail because of a key collision, whatever keys are inserted explicitly or assigned concurrently; '
     'this includes entities inserted through a navigation property and entities created with the entity they are bound to.',
     ['schedules', 'inputs'],
     'for every interleaving of inserts with automatic and explicit keys from several threads',
     'A collision needs two threads between choosing and storing a key, or an explicit key equal to the next one.',
     ['odata2/memds.py'],
     [('InMemoryEntityStore.NextKey', 'odata2/memds.py'), ('EntityCollection.InsertEntity', 'odata2/memds.py')],
     [('nextKey', 'next candidate key', 'odata2/memds.py')],
     ['keys returned by InsertEntity', 'keys of the collection afterwards'],
     note=SIM)
prop('C09', 'Links between in-memory entities stay consistent and within multiplicity',
     'After any operations, links seen from one end of a two-way association equal the links seen from the other end, every link joins two entities that exist, and no entity has more links than the declared multiplicity allows. '
     'Deleting an entity removes its links, and an operation that raises an error leaves every link as it was.',
     ['schedules', 'histories'],
     'for every sequence and interleaving of insert, link, replace, unlink and delete at both ends of every multiplicity combination',
     'The tests check fixed single-threaded sequences on a few multiplicities.',
     ['odata2/memds.py'],
     [('InMemoryAssociationIndex', 'odata2/memds.py'), ('NavigationEntityCollection', 'odata2/memds.py')],
     [('index/reverseIndex', 'forward and backward links', 'odata2/memds.py')],
     ['navigation collections opened from both ends'],
     note=SIM)
prop('C10', 'Media streams are stored whole and consistent with their metadata',
     'After a media stream is created or updated, reading it back gives exactly the bytes supplied with the size, type and hash reported for them, and a concurrent reader sees one complete version, old or new. '
     'If the source of the bytes fails part way, the error is reported and the previous stream and its metadata are unchanged.',
     ['fault_sequences', 'schedules', 'inputs'],
     'for every chunking of and failure offset in the source, and every interleaving of readers and writers',
     'The tests use in-memory sources that never fail and one thread.',
     ['odata2/memds.py', 'odata2/core.py', 'rfc5023.py'],
     [('InMemoryEntityStore.SetStreamEntity', 'odata2/memds.py'), ('EntityCollection.NewStream/UpdateStream/ReadStream', 'odata2/memds.py')],
     [], ['ReadStream, ReadStreamClose output'],
     note=SIM)
# ---------------------------------------------------------------- OData over HTTP
prop('C11', 'OData server: every request answered, faults leave the data unchanged',
     'Every request to the OData server, however malformed and however its input fails, is answered with exactly one start_response and a well formed OData or text body; no exception escapes to the web server. '
     'A request answered with an error status (400 or above) leaves the data exactly as it was, and the effects of concurrent requests equal those of some sequential order of the requests answered with success.',
     ['inputs', 'fault_sequences', 'schedules'],
     'for every request body cut short or failing at any offset, and every interleaving of concurrent requests',
     'The tests send complete, valid bodies one at a time.',
     ['odata2/server.py', 'odata2/core.py', 'rfc5023.py'],
     [('Server.__call__', 'odata2/server.py'), ('Server.HandleRequest/ReadXMLOrJSON', 'odata2/server.py'), ('InputWrapper', 'rfc5023.py')],
     [], ['WSGI start_response calls and body', 'entity sets after each request'],
     note=SIM)
prop('C12', 'OData client over the network observes exactly what the server stored',
     'Entities and links created, changed, read, paged, filtered and deleted through the OData client over HTTP are what a local copy of the data would give, for any segmentation and delay of the network. '
     'When the network fails during an operation the client reports an error, and the operation has been applied at most once, entirely or not at all; a read never returns partial or wrong data as a success. '
     '(Inserting into a navigation property and replacing the members of a link collection are documented as several requests, each of which has this guarantee.)',
     ['histories', 'fault_sequences', 'inputs'],
     'for every history of operations, page size and network segmentation, with a connection lost at any byte of either direction',
     'The tests exercise the client only against services on the Internet that are not reachable here.',
     ['odata2/client.py', 'odata2/server.py', 'odata2/core.py', 'rfc2616.py'],
     [('EntityCollection', 'odata2/client.py'), ('Server.__call__', 'odata2/server.py')],
     [], ['client results against a reference model', 'server data'],
     note=SIM + 'Client and server both real; network simulated; a small HTTP/1.1 front end hosts the WSGI application.')
prop('C13', 'Buffered request input behaves like a seekable file over its prefix',
     'The wrapper that makes a request body readable as a file returns, for any sequence of reads, line reads, iterations and seeks within its buffer, exactly the bytes a file with the same content would, however short the reads of the underlying input are. '
     'It never reads beyond the declared content length, and an input that ends before the declared length is not mistaken for a complete one.',
     ['inputs', 'histories', 'fault_sequences'],
     'for every content, every sequence of file operations and every sequence of short reads of the source',
     'The tests use a source that always returns what was asked for.',
     ['rfc5023.py'],
     [('InputWrapper.read/seek/readline', 'rfc5023.py')],
     [('pos, buffer', 'logical position and retained prefix', 'rfc5023.py')],
     ['results of file operations'],
     note=SIM)
# ---------------------------------------------------------------- SQL
prop('C14', 'SQL store operations are all-or-nothing under database failures and crashes',
     'An insert, update, link or delete through the SQL data service, however many SQL statements it takes, is either wholly in the database or not at all when the operation raises an error or the process dies; once it returned, it survives. '
     'After an error the same container keeps working and later operations see only committed data.',
     ['fault_sequences', 'crash_points', 'histories'],
     'for a failure or a crash at every database call of every operation',
     'The SQL tests need a database that fails at a chosen statement, and they do not run on this platform.',
     ['odata2/sqlds.py'],
     [('SQLTransaction Begin/Commit/Rollback', 'odata2/sqlds.py'), ('SQLEntityCollection.InsertEntity/UpdateEntity/DeleteEntity', 'odata2/sqlds.py')],
     [], ['database content read through an independent connection'],
     level='fault_enumeration',
     note=SIM + 'Real SQLite library behind a sqlite3 module shim with fault injection.')
prop('C15', 'SQL connection pool: bounded, exclusive, released and closable',
     'The SQL container never has more database connections open than its limit and never lets two threads use one at once. '
     'Every connection taken is returned whether the operation succeeded, failed or its iteration was abandoned, a waiting thread proceeds when one is returned, and closing the container ends with every connection closed.',
     ['schedules', 'fault_sequences'],
     'for every interleaving of threads opening, using and closing collections, with database errors',
     'The tests that touch the pool need real threads and a database module that this platform lacks.',
     ['odata2/sqlds.py'],
     [('SQLEntityContainer.AcquireConnection/ReleaseConnection/close', 'odata2/sqlds.py')],
     [('cPool*', 'pool of connections', 'odata2/sqlds.py')],
     ['open connections at the database module', 'threads blocked'],
     note=SIM + 'Real SQLite library behind a sqlite3 module shim.')
prop('C16', 'Concurrency tokens prevent lost updates',
     'When two or more threads read an entity with a concurrency token from the SQL store and write it back, at most one write based on any one version succeeds and the others are refused without effect. '
     'A refused or failed update leaves the stored entity as it was.',
     ['schedules', 'histories'],
     'for every interleaving of read-modify-write cycles from several threads',
     'Needs interleaved writers.',
     ['odata2/sqlds.py', 'odata2/csdl.py'],
     [('UpdateEntity WHERE clause with concurrency tokens', 'odata2/sqlds.py'), ('Entity.ETag', 'odata2/csdl.py')],
     [], ['versions observed', 'final counter value'],
     note=SIM)
prop('C17', 'Server-driven paging visits every entity once',
     'Following the pages of an entity set from first to last, with any page size, order and filter, gives every matching entity exactly once and in order when the data does not change, whether in memory, in SQL, or through the server and client. '
     'With the SQL store, whose page tokens hold key and order values, inserts and deletes between pages never cause an untouched entity to be skipped or repeated; in memory, where the token is an index, changes after the current page never do.',
     ['histories', 'inputs', 'schedules'],
     'for every data set, page size, order, filter and history of changes between pages',
     'The tests check a fixed data set and page size with no changes between pages.',
     ['odata2/csdl.py', 'odata2/core.py', 'odata2/sqlds.py', 'odata2/server.py'],
     [('iterpage/NextSkipToken', 'odata2/csdl.py'), ('SQLCollectionBase.iterpage', 'odata2/sqlds.py')],
     [], ['sequence of keys over all pages'],
     note=SIM)
# ---------------------------------------------------------------- LTI
prop('C18', 'LTI launches: authentic, consumer-bound and nonces accepted once',
     'A launch is accepted only when its OAuth signature verifies with the secret of the consumer key it names and its timestamp is not over five minutes old; any other launch is refused with a BLTI error, and an authentic and timely one with an unused nonce is accepted. '
     'For each consumer a nonce is reported fresh at most once within its lifetime of 90 minutes by the clock the provider reads, whatever the interleaving of requests and the behaviour of the clock, and no two consumers ever share a key. '
     'Generated keys and secrets are hexadecimal with at least the number of bits asked for, also without a system source of randomness.',
     ['schedules', 'inputs', 'fault_sequences'],
     'for every interleaving of concurrent launches and nonce checks, every clock movement and every alteration of a signed request',
     'The one launch test is a fixed valid request.',
     ['imsbltiv1p0.py'],
     [('BLTIToolProvider.Launch', 'imsbltiv1p0.py'), ('BLTIConsumer.CheckNonce', 'imsbltiv1p0.py')],
     [('nonces', 'nonce history', 'imsbltiv1p0.py')],
     ['return and exceptions of Launch and CheckNonce'],
     note=SIM)
prop('C19', 'Saved LTI consumer lists survive failures of the disk',
     'Saving the trusted consumers and loading them again gives the same keys and secrets, and a list that the file format cannot represent is refused and not saved as something else. '
     'When a read or write fails the failure is reported to the caller; no load, complete or failed, leaves a consumer whose key and secret are not in the file, or changes a consumer already known.',
     ['fault_sequences', 'inputs'],
     'for every set of consumers and a disk failure or truncation at any byte',
     'The round-trip test uses a memory file that cannot fail.',
     ['imsbltiv1p0.py'],
     [('BLTIToolProvider.LoadFromFile/SaveToFile', 'imsbltiv1p0.py')],
     [], ['consumers after LoadFromFile'], note=SIM)
# ---------------------------------------------------------------- content packages and documents
prop('C20', 'Content packages round-trip, contain themselves and clean up under I/O faults',
     'Exporting a content package to a file and opening that file again gives the same manifest resources and file contents; when an I/O error interrupts the export or the opening, an error is raised and the source package is unchanged (a directory that had no manifest may have got a complete one). '
     'Opening a package never writes outside its own directory whatever names the archive contains, and closing a package, or failing to open one, removes the temporary directory that opening it made. '
     'Copying a file into a package, adding one to the manifest or deleting one changes no other file and never the manifest, and the table of files always agrees with the directory and the manifest.',
     ['fault_sequences', 'inputs', 'histories'],
     'for every archive content and member name and a failure of any file operation',
     'The tests open fixed packages on a disk that works.',
     ['imscpv1p2.py', 'vfs.py'],
     [('ContentPackage.__init__/ExpandZip/ExportToPIF/Close', 'imscpv1p2.py')],
     [('dPath, dTempPath', 'package and temporary directory', 'imscpv1p2.py')],
     ['files on the simulated disk'], note=SIM + 'File calls go to a private scratch directory through a fault-injecting layer.')
prop('C22', 'XML parsing does not depend on how its input arrives',
     'A document parsed from a file, stream or network response that delivers its bytes in pieces of any size gives exactly the events and character data that it gives when delivered whole, in every supported encoding and with any buffer size. '
     'If the source fails or is cut short the failure is raised and never reported as a complete document.',
     ['inputs', 'fault_sequences'],
     'for every well formed document, every encoding, every buffer size, every sequence of short reads and every failure offset',
     'The tests read whole strings or local files that are always read in full.',
     ['xml20081126/structures.py', 'xml20081126/parser.py'],
     [('XMLEntity.NextChar/Reset/OpenFile/OpenHTTPResponse', 'xml20081126/structures.py')],
     [('chunk, bytes, the position counters', 'decoder window', 'xml20081126/structures.py')],
     ['element tree after parsing'], note=SIM)
# ---------------------------------------------------------------- QTI
prop('C23', 'QTI test sessions: keys single-use, time accounted, answers kept',
     'Every event in a test session must present the current session key: each key is accepted at most once, a superseded key is reported as expired and any other as a mismatch, and a refused event changes nothing. '
     'The key of a state is never equal to an earlier key of that session, whatever the clock does; durations never decrease, the durations of the questions add up to that of the test, and each accepted event adds to the current question and everything that contains it the time since the last one while the clock runs forwards. '
     'Answers saved with accepted events are kept until they are submitted, and what is submitted becomes the response.',
     ['histories', 'schedules', 'fault_sequences'],
     'for every history of events with current, old and forged keys, every clock behaviour including standing still and jumping back, and concurrent submission of one key',
     'The tests follow one session with a real clock, so keys never meet an equal or earlier time.',
     ['qtiv2/variables.py'],
     [('TestSessionState.EventUpdate/AddDuration', 'qtiv2/variables.py')],
     [('key, prevKey, keyMap, salt, t', 'session key chain', 'qtiv2/variables.py')],
     ['key, exceptions, duration variables'], note=SIM)
prop('C24', 'QTI test forms obey the selection and ordering rules for all random outcomes',
     'Whatever the random choices, a test form contains, for each section, exactly the requested number of children with every required child and no repetition unless replacement is allowed, keeps fixed children in place and unshuffled sections in order, keeps the contents of each visible or kept-together section contiguous between its opening and closing identifier, and a test whose rules can be satisfied always yields a form; each form the rules allow comes out for some random outcome.',
     ['inputs', 'configurations'],
     'for every outcome of the random source and every legal nesting of sections',
     'The tests draw one random outcome of a few fixed tests.',
     ['qtiv2/tests.py'],
     [('TestForm.Select', 'qtiv2/tests.py')], [], ['TestForm sequence'],
     note=SIM + 'The random source is the simulated nondeterminism.')
prop('C25', 'QTI random operators stay in range and can reach every value',
     'The random operators return only legal values (a member of the container, a value within the declared bounds and on the declared step) for every outcome of the random source, and each legal value is returned for some outcome. '
     'Selecting a clone leaves the template variables, correct responses and defaults with the values that the template defaults and template rules give, and clones of one item do not affect each other.',
     ['inputs'],
     'for every template, declared range, step and container, every history of clones and every outcome of the random source including its extremes',
     'The tests compare one random outcome.',
     ['qtiv2/expressions.py', 'qtiv2/variables.py'],
     [('Random/RandomInteger/RandomFloat.Evaluate', 'qtiv2/expressions.py'), ('ItemSessionState.SelectClone/BeginSession/BeginAttempt', 'qtiv2/variables.py'), ('TemplateProcessing, TemplateDefault', 'qtiv2/processing.py')], [], ['template variables, correct responses and defaults of a session'],
     note=SIM + 'The random source is the simulated nondeterminism.')
prop('C26', 'A linear QTI test follows its pre-conditions and branch rules, and answers count',
     'In a test part in linear mode the candidate sees exactly the questions that the pre-conditions and branch rules select, in the order of the test form, whatever was answered before: an item, section or part whose pre-condition is not true is skipped with all it contains, and the first branch rule that is true decides where to go on. '
     'Each submission sets the response, runs response processing on it and moves on once, a save does not move on, and after the last question the session stays finished.',
     ['histories', 'configurations'],
     'for every legal test structure and every history of answers, saves and resubmissions',
     'The tests follow one path through one small test.',
     ['qtiv2/variables.py', 'qtiv2/tests.py', 'qtiv2/processing.py'],
     [('TestSessionState._NextQuestion/_BranchTarget', 'qtiv2/variables.py'), ('ItemSessionState.SubmitSession/SaveSession', 'qtiv2/variables.py')],
     [('cQuestion, namespace', 'position and state of each question', 'qtiv2/variables.py')],
     ['current question, responses and outcomes after every event'], note=SIM + 'One client; the simulated nondeterminism is the history of events and the clock.')
# ---------------------------------------------------------------- misc
prop('C27', 'Virtual file hooks are removed after any use, by any thread',
     'While zip-file hooks are in use virtual file paths can be given to os.stat and open (so that zip archives can be made from them), and after the last user releases them the standard file functions are exactly the original ones, whatever the interleaving of users and whatever fails while they are held. '
     'While any user still holds the hooks they stay in effect for that user, and plain paths work as they always do.',
     ['schedules', 'fault_sequences'],
     'for every interleaving and nesting of hook users in several threads and failures inside the hooked region',
     'The tests use the hooks once in one thread.',
     ['vfs.py'], [('ZipHooks', 'vfs.py')], [('hookCount', 'number of users', 'vfs.py')],
     ['identity of os.stat and open', 'reads through hooked paths'], note=SIM)
# ---------------------------------------------------------------- not applicable
def na(id, title, statement, text, why, files, mech, reason):
    prop(id, title, statement, ['inputs'], text, why, files, mech, na=reason)
PURE = 'A pure function of its input: no concurrency, clock, I/O, randomness or second party for a simulator to control; input generation alone is not this technique.'
na('C30', 'XML well-formedness, validity and namespaces are decided as the standards say',
   'The parser accepts exactly the well-formed documents of XML 1.0, reports validity errors for exactly the invalid ones, resolves namespaces per Namespaces in XML, and output of a parsed document parses to an equal document.',
   'for every document', 'A grammar over unbounded input; the tests sample it.', ['xml20081126/parser.py', 'xmlnames20091208.py'],
   [('XMLParser', 'xml20081126/parser.py')], PURE)
na('C31', 'ISO 8601 values parse, format, compare and add consistently',
   'Every date, time, duration and time point accepted is formatted back to an equal value, comparison is a total order consistent with time zones, and conversions between calendar, week and ordinal dates are inverse to each other.',
   'for every date and format', 'Unbounded input space.', ['iso8601.py'], [('Date/Time/TimePoint', 'iso8601.py')], PURE)
na('C32', 'URI references resolve and relativise per RFC 2396',
   'Resolving a reference against a base gives the RFC 2396 result and making a reference relative then resolving it gives the original URI.',
   'for every base and reference', 'Unbounded input space.', ['rfc2396.py'], [('URI.Resolve/Relative', 'rfc2396.py')], PURE)
na('C33', 'XML Schema data types decode and encode losslessly',
   'For every value of each built-in data type, encoding then decoding returns the value and illegal lexical forms are rejected; schema regular expressions match as specified.',
   'for every value and lexical form', 'Unbounded input space.', ['xsdatatypes20041028.py', 'unicode5.py'], [('Decode*/Encode*', 'xsdatatypes20041028.py')], PURE)
na('C34', 'HTTP header values parse and format per RFC 2616',
   'Every header parser accepts exactly the RFC grammar, formatting then parsing is the identity, and content negotiation picks the highest-quality acceptable alternative.',
   'for every header value', 'Unbounded input space.', ['rfc2616_core.py', 'rfc2616_params.py', 'rfc2616_headers.py'], [('HeaderParser', 'rfc2616_headers.py')], PURE)
na('C35', 'OData expressions and URIs are parsed and evaluated per the specification',
   'System query options and resource paths parse to the specified expression tree, evaluate with the specified numeric promotion and null rules, and generated literals parse back to the same value.',
   'for every expression and resource path', 'Unbounded input space.', ['odata2/core.py'], [('Parser', 'odata2/core.py')], PURE)
na('C36', 'QTI response processing computes the specified outcomes',
   'Template, response and outcome processing give the values the QTI 2.1 specification prescribes for every expression, cardinality, base type and null combination.',
   'for every expression and state', 'Unbounded input space.', ['qtiv2/expressions.py', 'qtiv2/processing.py'], [('Expression.Evaluate', 'qtiv2/expressions.py')], PURE)
na('C37', 'QTI 1.2 and QML content migrates to equivalent QTI 2.1 items',
   'Every supported QTI 1.2 or QML item is converted to a QTI 2.1 item with the same interaction, correct response and scoring, and unsupported features are reported in the log and not dropped silently.',
   'for every legacy document', 'Unbounded input space; the tests compare a few fixed files.', ['imsqtiv1p2p1.py', 'qml420.py', 'qtiv1/item.py'], [('MigrateV2', 'qtiv1/item.py')], PURE)
na('C38', 'HTML content parses leniently and serialises safely',
   'HTML fragments, however malformed, parse into a valid element tree and serialise without losing character data.',
   'for every fragment', 'Unbounded input space.', ['html40_19991224.py'], [('HTMLParser', 'html40_19991224.py')], PURE)
