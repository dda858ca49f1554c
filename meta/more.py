W='not built yet'
p('C05','Long messages are split without loss and numbered consistently',
 'For each protocol, a message shorter than the size limit of its encoding is submitted as one packet without a user data header; a longer one is submitted as packets whose contents, with their six-byte headers removed and joined in order, are exactly the encoded message. Every part fits the size limit of its encoding (140 bytes, 160 characters for single-byte text) and all parts carry the same reference, the same total equal to the number of packets, and indices 1..total in order, both in the header of the content and in the fields of the packet.',
 ['inputs'],'all messages and encodings that need at most 255 parts, all receiver lists and options',
 'The tests split a few texts; part boundaries depend on every length and on where multi-byte characters fall.',
 ['utils/utils.go','codec/cmpp/submit.go','codec/smgp/submit.go','codec/sgip/submit.go'],'message splitting in the NewSubmit constructors')
p('C06','Authentication accepts exactly the configured credentials',
 'A login request is accepted exactly when the account exists and the credentials in it match the account: the identity, the MD5 authenticator over identity, shared secret and timestamp (CMPP, SMGP) or name and password (SGIP), and a supported version; otherwise the response carries the failure status of the first check that fails. A login request built by this client from an account is accepted by this server for the same account, for every account within the protocol field widths. The response authenticator is the one the protocol derives from the status, the request authenticator and the shared secret.',
 ['inputs','configurations'],'all accounts, all login packets, all timestamps',
 'The tests log in with one account; the decision must hold for every account and every forged packet.',
 ['codec/cmpp/connect.go','codec/smgp/login.go','codec/sgip/bind.go'],'Check and the authenticator computation of the login packets')
p('C07','The server cuts the byte stream exactly at declared packet lengths',
 'A packet is handed on only when its whole declared length has arrived, with exactly the bytes of that packet, which are then removed from the connection and no others; an incomplete packet leaves the connection data untouched. A declared length outside the limits of the protocol, or an unknown command, closes the connection without handing anything on.',
 ['inputs','histories'],'all byte streams and all ways they are cut into reads',
 'Fragmentation and malformed lengths have unboundedly many cases; the tests use a live connection with whole packets only.',
 ['msc_server/server/on_traffic.go','codec/packer.go'],'the header check of OnTraffic')
p('C08','Nothing is served on a connection that has not logged in',
 'Until a login has been accepted on a connection, no packet other than a login request causes a response, a submission or a change of the session, and every one the server would otherwise act upon (submit, active test, termination, and the responses to what a server sends) closes the connection. A session becomes logged in only through an accepted login whose response was sent, and then has the version, client and limits (window, pool, rate) of that account.',
 ['inputs','histories'],'all sequences of packets on a connection and all accounts',
 'The tests only drive the login-first sequence.',
 ['msc_server/server'],'session state checks in the traffic handlers, completion of the login')
p('C09','Every accepted request gets exactly one response, with its own sequence number',
 'For each protocol, every well-formed request packet on a logged-in connection (submit, active test, terminate, unbind, exit) and every login request is answered with exactly one packet, whose command is the matching response command and whose sequence number is the one of the request; a submit over the rate limit is answered with the throttling status, and only an accepted submit may be followed by a status report. Response packets from the peer are never answered, and a termination is answered before the connection is closed.',
 ['inputs','histories'],'all request packets and sequence numbers',
 'The pairing must hold for every packet; the tests look at a few by hand.',
 ['msc_server/server','codec/cmpp','codec/smgp','codec/sgip'],'ToResponse methods and the traffic handlers that send them')
p('C10','Sequence numbers and message ids are never handed out twice',
 'Successive values of each generator (64 bit ids, 32 bit cyclic sequence, 32 bit time based sequence, BCD message ids, the SGIP sequence) are pairwise distinct within the period the generator documents as long as the clock does not go backwards: time and sequence number together always grow, or the number steps through its whole cycle. Each value has the documented layout and width, and carries the node identity that was configured.',
 ['histories','configurations'],'all histories of calls, all clock readings, all node numbers in range',
 'Overflow, wrap-around and clock steps happen after states no test reaches.',
 ['utils/snowflake/snowflake.go','utils/snowflake32/snowflake32.go','utils/cycle_sequence.go','utils/bcd_sequence.go','codec/sgip/sequence.go','codec/sequence.go'],'NextVal of the generators')
p('C11','The client attaches each response and report to the message it belongs to',
 'Every packet of a message is pending under its sequence number before it is sent, and stops being so when it cannot be sent. For each protocol, a submit response updates the result of the message sent with that sequence number with the status, message id and time it carries, and no other result; a status report (CMPP, SMGP) updates the result of the message with that message id, and no other. Deliveries and active tests (CMPP, SMGP) and terminations from the server are answered with exactly one matching response, malformed packets and failed logins close the session, and none of them crashes the client.',
 ['inputs','histories'],'all packets the server can send, all results pending',
 'The correlation must hold for every pending set and packet; the tests need a live server.',
 ['msc_client/session'],'send and onTraffic of the client session, result caches')
p('C12','Submit options override the account defaults, and absent options keep them',
 'In every packet built by NewSubmit, the report flag, priority, service id, calling number, schedule time and validity period (in CMPP also fee user type, fee terminal type and id, fee type, fee code and link id) have the value of the option when one is given within the range of the protocol, and the default from the account otherwise (an option out of range is ignored). Validity and schedule times are written in the format of the protocol.',
 ['inputs','configurations'],'all combinations of options and accounts',
 'The combinations of options and accounts are not enumerable by tests.',
 ['codec/options_mt.go','codec/cmpp/submit.go','codec/smgp/submit.go','codec/sgip/submit.go'],'SetOptions of the submit packets')
p('C13','TLV parameters are encoded, read back and rejected exactly',
 'Reading back an encoded list of TLV parameters gives the same tags and values in the same order, for every list. A stream that ends inside a parameter is reported as an error and not returned as a shorter or different parameter, however the stream is cut into reads.',
 ['inputs','fault_sequences'],'all tags, all values, all streams and ways of cutting them',
 'The tests read one list from memory.',
 ['utils/tlv.go'],'TLV read and write functions')
p('C14','Connection counts are exact and limits are enforced',
 'The number of active sessions of a server always equals the number of accepted connections not yet closed, through every sequence of connection openings, refusals and closings; a connection beyond the configured maximum is refused, and its closing changes nothing. A login beyond the maximum number of connections of its account is refused, and closing a connection releases what the session holds, whether requests of it are being served or its login is being answered at that moment.',
 ['histories','configurations'],'all sequences of opening, refusing, logging in and closing',
 'Counting errors only show after particular sequences that no test performs.',
 ['msc_server/server/server.go','msc_server/server/on_open.go','msc_server/server/on_close.go','msc_server/server/session.go'],'activeSessions, sessionPool, closeResource')
p('C15','The client reads whole packets however the network delivers them',
 'The client reads each packet from the server completely before acting on it, however the stream is divided into reads, and hands on exactly its bytes. A stream that ends early, a packet length outside the limits, or a login response that is short, of another command or carries a failure status, ends the session or the login with an error, closes the connection and is never treated as success.',
 ['inputs','fault_sequences'],'all byte streams, all ways of cutting them, all failures of a read',
 'Short reads depend on the network; the tests need a live server.',
 ['msc_client/session/session.go'],'login and startReceiver of the client session')
p('C16','Text and octet-string helpers lose nothing',
 'Fixed-width strings read from a field are the bytes before the first NUL, hexadecimal and BCD forms identify the value they stand for, and converting a valid text to UCS-2 or GB18030 and back gives the same text. Copying a structure field by field copies every field of the same name and type.',
 ['inputs'],'all strings and byte slices',
 'They must hold for every string; the tests try a few.',
 ['utils/utils.go','utils/bcd_sequence.go'],'string helpers')
p('C17','Registered events run exactly once per call, in order, with their arguments',
 'Calling a registered key runs each of its functions once, in registration order, with the arguments of the call; a key registered once keeps its functions until it is deleted, and a second registration of it is refused. Calling all events of a prefix runs the events of that prefix and no others.',
 ['histories'],'all sequences of registration, call and deletion',
 'The tests register one or two keys.',
 ['event_manager/event_manage.go'],'Register, Call, FuzzyCall')
p('C18','Looking up an account returns that account or nothing',
 'Looking up a protocol and client id returns the account loaded under exactly that protocol and client id, and nothing when there is none; the configuration handed to the protocol code carries the same values. Loading an account file never crashes, whatever the name and contents of the file.',
 ['inputs','configurations'],'all sets of account files, all ids',
 'The tests load the sample files.',
 ['auth/yaml_store.go','auth/mongo_store.go','msc_server/utils.go'],'Load and FindByCid of the account store')
p('C20','Idle and unresponsive peers are dropped, active ones are not',
 'On each tick, a session idle for longer than the configured time or with more than two unanswered active tests is sent a termination, and no other session is; a logged-in session idle for more than a minute is sent one active test (CMPP, SMGP), and a session not logged in is sent none. An active test response resets the count of unanswered ones; an accepted submit, an active test and the responses of the peer mark the session as used at that moment.',
 ['histories','configurations'],'all session states and clock readings',
 'The tests do not tick.',
 ['msc_server/server/on_tick.go'],'OnTick')
p('C19','Results are found under their query until they expire, and messages go to a usable session of their provider',
 'A query id gives exactly the results of the messages sent under it, in order, until they expire; expired results are handed to the persistence handler, all and once, and forgotten, and others are kept. Each phone goes to the first provider (CMPP, SGIP, SMGP) that is configured and whose segment matches; a provider is set up once, with the account, address, window and rate of its configuration. A session is handed out only within the rate and when just found healthy; the pool keeps healthy sessions, the least used first, closes the others, and connects only up to the configured number.',
 ['inputs','histories','configurations'],'all phones, results, ages and configurations; bounded numbers of queries, results and sessions',
 'Which results expire, and which sessions are kept, depends on the history of sends and failures; the tests need live servers.',
 ['msc_client/session_factory.go','msc_client/api.go'],'SelectSession, CreateSessionFactory, PeekSession, lruSort, SendN, Query, expiry of the caches')

p('C21','Concurrent use of a session or a cache has no data race',
 'Fields of a session or an account that are written by one goroutine while another may read them are accessed under their lock or atomically.',
 ['schedules'],'all interleavings of the event loop, the worker pool and the ticker',
 'The tests drive one goroutine.',
 ['msc_server/server','msc_client'],'locks and atomics',False,
 'the verifier proves each function for one thread of control (guarded counters and limits are covered where C14 states so); a permission-based proof of every shared field would need ownership annotations its logic does not have, and session fields are in fact read without synchronisation in several places')
p('C22','Shutdown, signals and configuration reload take effect in time',
 'A termination signal runs every shutdown hook once and then ends the process; a changed configuration file takes effect at the next tick.',
 ['histories','schedules'],'all signals and reload times',
 'The tests start no process.',
 ['msc_server/bootstrap.go','msc_client/destory.go','event_manager'],'signal goroutine, config listener',False,
 'process signals, file watching (viper) and goroutine scheduling are outside sequential contracts: only the hook dispatch itself is decided, in C17')
