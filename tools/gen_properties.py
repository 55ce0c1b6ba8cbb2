import json
P=[]
def p(id,title,st,over,text,why,files,mech,observe=None,state=None):
    d=dict(id=id,title=title,statement=st,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech],observe_at=observe or [],hook_needed=None))
    if state: d['anchors']['state']=[dict(name=a,meaning=b,where=c) for a,b,c in state]
    P.append(d)
p("C01","TDES initial key derivation follows ANSI X9.24-1",
 "For every 16-byte base derivation key and every key serial number of 3 to 10 bytes, TDES initial-key derivation returns exactly the 16-byte initial key prescribed by ANSI X9.24-1 A.6, KSNs shorter than 10 bytes being left-padded with FF. The result does not depend on the 21 transaction-counter bits of the KSN.",
 ["inputs"],"all 2^128 keys x all KSNs of 3..10 bytes","The suite derives one initial key from one BDK and one KSN.",
 ["pkg/des/des.go","pkg/des/des_internal.go","encryption/des_ecb.go"],[("DerivationOfInitialKey","pkg/des/des.go"),("KSN padding, counter masking, C0C0 mask","pkg/des/des_internal.go")],["return value of des.DerivationOfInitialKey"])
p("C02","TDES transaction key is the standard's key for every counter",
 "For every initial key and every KSN whose 21-bit counter has at most ten one bits (zero included, where the key is the initial key itself), TDES transaction-key derivation returns exactly the key the ANSI X9.24-1 non-reversible key generation process yields for that counter.",
 ["inputs"],"all initial keys x all 1,048,576 admissible counters x all KSN prefixes and lengths 3..10","The suite checks five consecutive counters (1..5) of one device; no counter above 5, i.e. only the lowest 3 of 21 bits.",
 ["pkg/des/des.go","pkg/des/des_internal.go"],[("DeriveCurrentTransactionKey","pkg/des/des.go"),("makeNonReversibleKey","pkg/des/des_internal.go")],["return value of des.DeriveCurrentTransactionKey"])
p("C03","AES initial and transaction keys follow ANSI X9.24-3 for 128/192/256",
 "For every base derivation key of 16, 24 or 32 bytes, AES initial-key derivation (from the 8-byte initial key ID or a 12-byte KSN) and AES transaction-key derivation (for every 12-byte KSN whose counter has at most sixteen one bits) return exactly the keys of the ANSI X9.24-3 algorithms. Every derived key has the same length as the key it is derived from.",
 ["inputs"],"all keys of the three sizes x all initial key IDs x all admissible 32-bit counters","The suite covers AES-128 only, one BDK, counters 1..8; AES-192 and AES-256 are never derived.",
 ["pkg/aes/aes.go","pkg/aes/aes_internal.go","encryption/aes_ecb.go"],[("DerivationOfInitialKey, DeriveCurrentTransactionKey","pkg/aes/aes.go"),("createDerivationData, derivationKey","pkg/aes/aes_internal.go")],["return values"])
p("C04","TDES KSN progression visits every admissible counter exactly once, in order",
 "Advancing a TDES KSN of 3 to 10 bytes keeps everything outside the 21-bit counter and sets the counter to the smallest greater value with at most ten one bits; when no such value exists it reports exhaustion and yields no KSN. Hence a device starting at counter zero passes through exactly 1,048,575 KSNs in strictly increasing order.",
 ["inputs","histories"],"all 2^21 counter values x all key identifiers, and whole-life walks","The suite advances one TDES KSN once (1 to 2).",
 ["pkg/util.go"],[("GenerateNextDesKsn, GetDesTcFromKsn","pkg/util.go")],["return values of the next-KSN functions"])
p("C05","AES KSN progression and validity follow the sixteen-bit rule",
 "Advancing a 12-byte AES KSN keeps its 8-byte initial key ID and sets the 32-bit counter to the smallest greater value with at most sixteen one bits; when no such value exists it reports exhaustion and yields no KSN. A 12-byte AES KSN is reported valid exactly when its counter is non-zero and has at most sixteen one bits.",
 ["inputs","histories"],"all 2^32 counter values x all initial key IDs","The suite walks counters 0..9 of one initial key ID; the sixteen-bit rule and exhaustion are never reached.",
 ["pkg/util.go"],[("GenerateNextAesKsn, IsValidAesKsn, GetAesTcFromKsn","pkg/util.go")],["return values"])
p("C06","TDES PIN, MAC and data outputs use the standard's key variants",
 "Under every 16-byte transaction key, TDES PIN encryption/decryption, MAC generation (request and response) and data encryption/decryption (request and response, any message, any initial vector) produce exactly the values of ANSI X9.24-1 with the key variant of that purpose: 2-key TDEA on the formatted PIN block, the ISO 16609 retail CBC-MAC with zero padding of a non-empty message, and TDEA-CBC with the self-encrypted data variant and zero padding. An initial vector that is absent or short is zero-extended, and an action other than 'response' means 'request'.",
 ["inputs"],"all keys, messages of any length, IVs, actions, PIN formats","Five keys, one 17-byte message, null IV, one PIN format.",
 ["pkg/des/des.go","pkg/des/des_internal.go"],[("key variants and modes","pkg/des/des.go")],["return values"])
p("C07","AES PIN, CMAC, HMAC and data outputs use the standard's working keys",
 "Under every AES transaction key of 16, 24 or 32 bytes and every 12-byte KSN, PIN encryption/decryption (ISO 9564 format 4), CMAC, HMAC-SHA256 and data encryption/decryption use the ANSI X9.24-3 working key of the matching length for that purpose and direction (PIN, MAC request, MAC response, data request, data response) and produce exactly that algorithm's value for any message and initial vector. Data is zero-padded AES-CBC, an initial vector that is absent or short is zero-extended, and an action other than 'response' means 'request'.",
 ["inputs"],"all keys of three sizes, KSNs, messages of any length, IVs, actions","Only AES-128/HMAC-128, eight keys, one 17-byte message, null IV; PIN only by self round trip.",
 ["pkg/aes/aes.go","pkg/aes/aes_internal.go"],[("working key usage indicators, derivation data","pkg/aes/aes_internal.go")],["return values"])
p("C08","Encrypted PINs decrypt to the same PIN in every format",
 "For every PIN of 4 to 12 digits, every PAN of 13 to 19 digits (also 12 for AES) and every transaction key, decrypting an encrypted PIN with the same key, PAN and format returns the PIN that the format carries: the whole PIN, except the first four digits for ECI2 and the first six for ECI3 and VISA2. This holds for AES-128/192/256 and for the TDES formats ISO-0..3, ANSI, ECI1..4 and VISA1..4, whose names are accepted in any letter case.",
 ["inputs"],"all PINs, PANs, keys, formats","One 4-digit PIN and PAN, ISO-0 and ISO-4 only.",
 ["pkg/des/des.go","pkg/aes/aes.go"],[("EncryptPin/DecryptPin","pkg/des/des.go, pkg/aes/aes.go")],["return values"])
p("C09","Decrypting encrypted data restores the plaintext",
 "For every plaintext of any length, key, initial vector of any length (absent included) and action, data decryption of the data ciphertext with the same parameters returns the plaintext followed only by the zero bytes that fill its last block, and the ciphertext is the plaintext length rounded up to whole blocks (8 bytes TDES, 16 bytes AES). Decrypting with the other action's key does not return the plaintext.",
 ["inputs"],"all plaintexts, keys, IVs, actions, both algorithms","One 17-byte plaintext with a null IV.",
 ["pkg/des/des.go","pkg/aes/aes.go"],[("EncryptData/DecryptData","pkg/des/des.go, pkg/aes/aes.go")],["return values"])
p("C10","No input makes the library panic",
 "Every exported operation of the key-derivation, KSN, PIN, MAC, data, ECB-cipher and string-parameter (unified) interfaces, and of the machine service, returns either a result or an error for arbitrary arguments: wrong lengths, nil, non-hexadecimal or arbitrary text, unknown formats, key types, actions and algorithms, or ciphertext produced under another key. None of them panics.",
 ["inputs"],"all argument values, malformed ones included","The suite passes only well-formed arguments.",
 ["pkg/util.go","pkg/des/des.go","pkg/aes/aes.go","pkg/server/wrapper.go","pkg/server/service.go","encryption/aes_ecb.go","encryption/des_ecb.go"],[("length checks before slicing, panic guard around pin block formatters","pkg/des, pkg/aes, pkg/util.go")],["recovered panics at the call boundary"])
p("C11","Malformed key material is rejected, never replaced or truncated",
 "Keys of a length the algorithm does not use, key types that are unknown or do not match the key length, KSNs of an impossible length (TDES: under 3 or over 10 bytes; AES: not 12 bytes, or 8 for the initial key), unknown algorithms, PIN formats and AES MAC types, and, in the unified string interface, keys, KSNs, initial vectors and ciphertexts that are not hexadecimal all make the operation that uses them fail with an error and without a result. No operation silently uses a zero, padded or truncated key instead.",
 ["inputs"],"all malformed keys, key types, KSNs, selectors","No negative case exists in the suite.",
 ["pkg/des/des_internal.go","pkg/aes/aes_internal.go","pkg/server/wrapper.go","pkg/util.go"],[("length and type checks","pkg/des/des_internal.go, pkg/aes/aes_internal.go"),("hex parameter checks","pkg/server/wrapper.go")],["error results"])
p("C12","Operations never modify caller buffers and results never alias them",
 "No library operation changes the bytes of any slice passed to it (key, KSN, IV, ciphertext), including the spare capacity behind it, whether it succeeds or fails. A returned slice shares no memory with any argument or with any other returned slice.",
 ["inputs","histories"],"all calls with slices of any length, capacity and offset into larger buffers","The suite never looks at its arguments after a call.",
 ["pkg/util.go","pkg/des/des.go","pkg/aes/aes_internal.go","encryption"],[("copies before in-place updates","pkg/util.go, pkg/aes/aes_internal.go, pkg/des/des.go")],["argument bytes before/after each call, mutation of results"])
p("C13","Library operations are race-free and independent under concurrency",
 "Any number of goroutines may call library operations at the same time, even on the same key, KSN, IV and ciphertext slices and on the same cipher objects: there is no data race and every call returns what it returns when executed alone.",
 ["schedules","inputs"],"all interleavings of concurrent calls with shared arguments","All tests are single-goroutine and run without the race detector.",
 ["pkg","encryption"],[("no shared mutable state; arguments only read","pkg/des, pkg/aes, pkg/util.go, encryption")],["race detector reports, results versus sequential results"])
p("C14","KSN issuance is linearizable: no KSN is issued twice, lost or reordered",
 "For every machine, concurrent requests for the next KSN behave as if executed one at a time: each success returns the admissible successor of the previous KSN, so no two successes return the same KSN, none is skipped, and a request that starts after another finished returns a later KSN; once exhausted every request fails. This holds for the service and for the HTTP endpoint.",
 ["schedules","histories"],"all interleavings of concurrent next-KSN and read requests on any machine","The only MakeNextKSN test issues one KSN per machine, sequentially.",
 ["pkg/server/service.go","pkg/server/repository.go","pkg/server/handlers.go"],[("lock around read-advance-write","pkg/server/service.go MakeNextKSN")],["call/return history at the Service and HTTP boundary"],[("CurrentKSN","last issued KSN of a machine","pkg/server/machine.go")])
p("C15","A machine's KSN and transaction key always match, also under concurrency",
 "Every machine description handed out (creation, get, list, next KSN; service and HTTP) carries the initial key and the transaction key that belong to its base key and its current KSN. Every PIN, MAC and data operation on a machine behaves as one atomic use of the KSN and transaction key that are current at some instant between its call and its return, even while KSNs are being issued concurrently, and no data race occurs.",
 ["schedules","histories"],"all interleavings of reads, crypto operations and KSN advances","No test runs two operations concurrently; after an advance only CurrentKSN is looked at.",
 ["pkg/server/service.go","pkg/server/repository.go"],[("snapshot copies under the service lock","pkg/server/service.go")],["machine snapshots, operation outputs, race detector reports"],[("CurrentKSN/TransactionKey","current pair","pkg/server/machine.go")])
p("C16","The machine registry is linearizable and rejects duplicates",
 "Creating, getting, listing, advancing and deleting machines concurrently behaves like some one-at-a-time order consistent with real time: of several creations with the same initial key exactly one succeeds until a deletion, the others fail with 'already exists'; get and list show exactly the machines created and not deleted, each listed once; a deleted or unknown machine is reported as 'not found' and deletion is idempotent. This holds for the service and for the in-memory repository.",
 ["schedules","histories"],"all interleavings of registry operations over any set of machines","The suite creates and deletes at most two machines, sequentially.",
 ["pkg/server/repository.go","pkg/server/service.go"],[("RWMutex around the map, existence test and insert under one lock","pkg/server/repository.go")],["call/return history at the Service and Repository boundary"],[("machines","registry map by initial key","pkg/server/repository.go")])
p("C17","Failed operations and read operations change nothing",
 "An operation that returns an error (duplicate or invalid creation, exhausted KSN, unknown machine, rejected PIN/MAC/data parameters, failing storage) leaves every stored machine exactly as it was, and so do get, list and all PIN, MAC and data operations; only creation, deletion and next-KSN change state, and only that of the machine they name. Over HTTP, no request but POST /machine and POST /generate_ksn/{ik} changes a registered machine, whatever its method, path, headers and body.",
 ["histories","inputs","fault_sequences"],"all operation histories with failures at any point, including injected storage failures","The suite never inspects state after a failure.",
 ["pkg/server/service.go","pkg/server/repository.go"],[("state written only after every fallible step","pkg/server/service.go MakeNextKSN, CreateMachine")],["full state snapshot before/after each operation"])
p("C18","Over a device's whole life no KSN and no transaction key is used twice",
 "From creation to exhaustion, the sequence of (KSN, transaction key) pairs of a machine never repeats a KSN or a transaction key and KSNs strictly increase; a TDES machine created at counter 1 gives exactly 1,048,575 pairs and then only errors, with its last pair still current. Machines with different key identifiers never share an initial or transaction key.",
 ["histories"],"whole-life histories of machines, both algorithms","The longest history in the suite has two KSNs at the service and eight in the library.",
 ["pkg/server/service.go","pkg/util.go","pkg/des/des.go","pkg/aes/aes.go"],[("MakeNextKSN","pkg/server/service.go"),("counter progression","pkg/util.go")],["event log of issued pairs"])
p("C19","The HTTP API performs the operation its route names, on the machine it names",
 "For every well-formed request, POST /machine, GET /machine/{ik}, GET /machines, POST /generate_ksn, /encrypt_pin, /decrypt_pin, /generate_mac, /encrypt_data and /decrypt_data return with status 200 the result of that DUKPT operation on that machine's current KSN with the request's own parameters (pin, pan, format, encrypted, action, data, macType, iv), in the JSON fields ik, machine, machines, ksn, encrypted, decrypted, generated and data. In particular decrypting over HTTP what was encrypted over HTTP returns what the library decryption of it returns: the original PIN or data.",
 ["inputs","histories"],"all request sequences over any machines, both algorithms","Only creation, list and get are exercised over HTTP, with one TDES machine; no crypto endpoint is.",
 ["pkg/server/handlers.go","pkg/server/routing.go"],[("request decoders and endpoints","pkg/server/handlers.go"),("routes","pkg/server/routing.go")],["HTTP responses"])
p("C20","HTTP failures are reported as failures, successes as successes",
 "Whenever the requested operation fails, the HTTP response has a status of at least 400 and a JSON object whose 'error' is a non-empty string, and carries no result: 404 when the machine does not exist, 400 when a machine already exists. Whenever it succeeds, the status is 200 and 'error' is null.",
 ["inputs","histories"],"all failing and succeeding requests on every endpoint","No failing HTTP request exists in the suite.",
 ["pkg/server/routing.go","pkg/server/handlers.go"],[("encodeResponse/encodeError/codeFrom","pkg/server/routing.go")],["HTTP status and body"])
p("C21","No HTTP request can crash a handler or disturb other requests",
 "Every HTTP request, however malformed its method, path, headers, body or parameters, receives a complete HTTP response: no handler panics and no connection is dropped without a response. Afterwards the server answers well-formed requests on existing machines correctly.",
 ["inputs","histories"],"arbitrary request bytes, paths, bodies, in any order and concurrency","The suite sends four well-formed requests.",
 ["pkg/server/routing.go","pkg/server/handlers.go","pkg/server/wrapper.go"],[("errors instead of panics in every decoder and operation","pkg/server")],["responses, server error log"])
p("C22","dukptcli prints the correct DUKPT result for every documented option",
 "For every valid combination of documented flags, dukptcli exits with status 0 and prints one line 'RESULT: <value>' where the value is the standard's result for the selected operation (initial key, transaction key, encrypt/decrypt PIN, MAC, encrypt/decrypt data), algorithm (des, aes), key type (aes128, aes192, aes256), MAC type (cmac, hmac), action and PIN format. When several operations are selected only the first in the order ik, tk, ep, dp, gm, en, de is executed. What standard input and output are connected to does not matter.",
 ["inputs","configurations"],"all flag combinations and values","The command has no tests at all.",
 ["cmd/dukptcli/main.go","pkg/server/wrapper.go"],[("flag dispatch","cmd/dukptcli/main.go")],["process exit status and stdout"])
p("C23","dukptcli fails visibly on missing or invalid input",
 "When no operation is selected, a required flag of the selected operation is missing, or an option value that the operation uses is invalid (unknown algorithm, key type, MAC action, MAC type or PIN format; malformed key, KSN, IV or ciphertext), dukptcli exits with a non-zero status, prints a message and never prints a RESULT line or crashes with a panic.",
 ["inputs","configurations"],"all incomplete or invalid flag combinations","The command has no tests at all.",
 ["cmd/dukptcli/main.go"],[("flag checks and exit codes","cmd/dukptcli/main.go")],["process exit status and output"])
p("C24","The server process serves, then shuts down without losing requests",
 "The server listens on the configured HTTP and admin addresses (environment variables override flags) and serves the API. On SIGINT or SIGTERM it stops accepting new connections, every request already being handled still receives its complete, correct response, and then the process terminates. It goes on serving until such a signal, whoever started it, under whichever circumstances, and whatever becomes of its parent.",
 ["fault_sequences","schedules","configurations"],"termination signals at any point relative to any set of in-flight requests","The server command has no tests at all.",
 ["cmd/server/main.go"],[("signal handling, http.Server.Shutdown","cmd/server/main.go")],["responses of in-flight requests, process exit"])
p("C25","With a certificate configured the API is served over TLS 1.2+ only",
 "When both a certificate file and a key file are configured the server serves the API only over TLS: handshakes below TLS 1.2 are refused, plaintext HTTP requests never reach the API, and TLS 1.2 and 1.3 clients get correct answers with that certificate, whichever common cipher suite, curve, server name or certificate of their own they bring, and in whichever usual form and place the files were when it started. Without both files it serves plain HTTP.",
 ["configurations","inputs"],"all TLS protocol versions and certificate configurations","The server command has no tests at all.",
 ["cmd/server/main.go"],[("TLSConfig.MinVersion, ListenAndServeTLS","cmd/server/main.go")],["handshake results, responses"])
p("C26","Key material and PINs never reach the server's logs",
 "Whatever requests are served, successful or failing, the server process never writes base derivation keys, transaction keys, PINs, PANs, plaintext data or decrypted results to its standard output or standard error.",
 ["inputs","histories"],"all request histories and both log formats","No test looks at log output.",
 ["cmd/server/main.go","pkg/server"],[("only lifecycle events are logged","cmd/server/main.go")],["stdout and stderr of the server process"])
p("C27","Cross-origin access is granted to allowed origins only",
 "A request whose Origin is 'https://...' or 'http://localhost:...' gets CORS headers that allow exactly that origin, on pre-flight (OPTIONS, any path), ping and every API operation that is executed; for any other or missing Origin no response ever carries an Access-Control-Allow-Origin header.",
 ["inputs"],"all Origin values x endpoints x outcomes","One allowed origin on three successful requests.",
 ["pkg/server/routing.go"],[("saveCORSHeadersIntoContext, respondWithSavedCORSHeaders, preflightHandler","pkg/server/routing.go")],["response headers"])
p("C28","The single-block ciphers are exact, inverse and length-checked",
 "The AES (16/24/32-byte key), DES (8-byte key) and two- and three-key TDES (16/24-byte key) block ciphers compute exactly the standard permutation of one block and its inverse, reject every other key length at construction and every input that is not exactly one block, and keep using the key they were constructed with even if the caller later overwrites its key slice.",
 ["inputs"],"all keys, blocks and wrong lengths","The ciphers are only tested indirectly, with a handful of keys and never with wrong lengths.",
 ["encryption/aes_ecb.go","encryption/des_ecb.go"],[("constructors and length checks","encryption")],["return values"])
p("C29","Service and unified interfaces compute exactly the library's results",
 "Every PIN, MAC and data operation of the machine service, and every unified string-parameter function, returns exactly the standard's DUKPT value for the given parameters as lower-case hexadecimal (decrypted values as text), for both algorithms and all key sizes. Service operations use the machine's current KSN, PIN format ISO-0 when none is given, and the HMAC key type matching the machine's AES key type.",
 ["inputs","histories"],"all parameters, machines and KSN positions","Only AES-128 and one TDES machine at the first KSN with one message.",
 ["pkg/server/service.go","pkg/server/wrapper.go"],[("parameter mapping","pkg/server/service.go, pkg/server/wrapper.go")],["return values"])
p("C30","Machines handed to or by the service are isolated copies",
 "Changing any field of a machine passed to creation or returned by creation, get, list or next-KSN never changes what the service stores or returns later, and later service operations never change a machine description obtained earlier. Operations on one machine never affect another machine.",
 ["histories"],"all histories of service calls interleaved with caller-side modifications","No test modifies or retains a returned machine.",
 ["pkg/server/service.go"],[("copies on store and on return","pkg/server/service.go")],["service state after caller-side modification"])
p("C31","PIN blocks carry fresh random fill",
 "In every PIN block format with random fill (AES ISO-4; TDES ISO-1, ISO-3, ECI2, ECI3, ECI4, VISA2, VISA3) each encryption draws its fill anew: encrypting the same PIN again with the same key, KSN, PAN and format gives another, unpredictable fill (equal only as often as chance allows), one after another or concurrently, in the library, the unified functions, the service, over HTTP and in separate dukptcli processes. Fill therefore never is constant, derived from the parameters, repeated from an earlier call or shared between concurrent calls.",
 ["inputs","histories","schedules"],"all repetitions of PIN encryptions, sequential, concurrent and in different processes","The suite checks single round trips; blocks with constant fill pass it.",
 ["pkg/des/des.go","pkg/aes/aes.go","pkg/des_internal.go"],[("a new formatter with random fill per call","pkg/des/des.go EncryptPin, pkg/aes/aes.go EncryptPin")],["fill characters of decrypted PIN blocks"])
p("C32","What the system holds is bounded by the registered machines",
 "Memory, goroutines, connections and open files in use depend on the registered machines and the requests in progress only, not on how many operations were made before: after any number of library, unified, service and HTTP operations, succeeding, failing or broken off by the client, on few or ever new keys, everything they needed has been released. Deleting a machine releases it, and failed creations and operations on unknown machines leave nothing behind.",
 ["histories"],"arbitrarily long histories of every kind of operation","The suite makes a few dozen operations and never looks at memory or goroutines.",
 ["pkg/server/repository.go","pkg/server/service.go","pkg/server/routing.go","pkg/des/des.go","pkg/aes/aes.go","cmd/server/main.go"],[("no state besides the registry","pkg/server/repository.go")],["live heap after garbage collection, goroutines, open files"])
p("C33","A server that cannot start as configured says why and ends",
 "When the server program cannot listen on its HTTP or admin address (in use, malformed, not an address of this host) or cannot use the configured certificate and key (missing, unreadable, not PEM, not matching), it reports the reason on its output and terminates. It does not crash, does not keep running without its API, does not serve the API at another address or without TLS, and does not disturb a server that already runs at the address.",
 ["configurations","fault_sequences"],"all unusable address and certificate configurations and their combinations","The server command has no tests at all.",
 ["cmd/server/main.go"],[("errors of admin.New, ListenAndServe and ListenAndServeTLS end the process","cmd/server/main.go")],["process exit, output, listening sockets"])
p("C34","Stalled clients are disconnected, slow and other clients are served",
 "A client that stops in the middle of a TLS handshake, a request header or a request body (or only trickles it), that does not read its response, or that leaves its connection idle is disconnected by the API server after a bounded time: 30 seconds for a handshake, a request and a response, 60 seconds for idle connections. Meanwhile all other requests are served without waiting for the stalled ones, and clients that finish their requests within these limits get their correct answers. A server with more connections than it may have files open keeps serving those it has, and new clients once there is room again.",
 ["fault_sequences","schedules"],"clients stalling at any point of a connection, any number of them","The server command has no tests at all.",
 ["cmd/server/main.go"],[("ReadTimeout, ReadHeaderTimeout, WriteTimeout and IdleTimeout of the http.Server","cmd/server/main.go")],["connections held by the server process, responses"])
p("C35","The API address serves only the API, the admin address never serves it",
 "At the API address every request whose method and path are not a documented API route (GET /ping, /machines, /machine/{ik}; POST /machine, /generate_ksn/{ik}, /encrypt_pin/{ik}, /decrypt_pin/{ik}, /generate_mac/{ik}, /encrypt_data/{ik}, /decrypt_data/{ik}; OPTIONS anywhere) is refused with 404 or 405 or redirected to the cleaned path: no metric, profile, version or health page and no key of a machine is served there, and no machine changes. At the admin address GET /live and /ready answer 200 while the server serves, GET /version answers the version, metrics and profiles are there, but no API route is: API requests get 404 or 405, change nothing, and no answer there carries key material.",
 ["inputs","configurations"],"all methods x paths at both addresses, plain, TLS and HTTP/2","The server command has no tests at all and the handler's tests ask for documented routes only.",
 ["cmd/server/main.go","pkg/server/routing.go"],[("separate handlers of two servers","cmd/server/main.go main, pkg/server/routing.go MakeHTTPHandler")],["responses at both addresses, machines before and after"])
p("C36","Every log line is one well-formed record in the configured format",
 "Whatever the server process is configured with, asked for and ended by, and whether its standard output is a file, a pipe, a socket or a terminal, every line it writes there is one complete log record with its time (ts), level and message (msg): a JSON object if the log format is json, otherwise logfmt key=value pairs. The variable LOG_FORMAT, if set and not empty, overrides the flag -log.format. Values from the configuration (odd addresses, file names with quotes or line breaks) cannot forge or break a record. The first record names the version, others name both listening addresses, and the signal that ends the server is recorded.",
 ["configurations","inputs","schedules"],"all log formats, configurations, request histories and ends","No test starts the server command or looks at its log.",
 ["cmd/server/main.go"],[("kitlog JSON or logfmt logger on a SyncWriter, chosen by flag and variable","cmd/server/main.go main")],["standard output of the server process"])
p("C37","Server and CLI leave nothing behind and act only on their connections and output",
 "Machines live in the memory of the server process only. Whatever it is asked, the server creates, changes or deletes no file, starts no process, opens no outgoing connection and reads no file that a request names; after it ends, however it ends, a server started again in the same place knows no machine and creates the same machines anew. dukptcli likewise only prints: it writes no file, starts no process, opens no connection and reads no file named by an option.",
 ["inputs","histories","fault_sequences"],"all request histories, command lines and ends of the process","The suite never looks at files, processes or connections, and tests neither program.",
 ["pkg/server/repository.go","pkg/server/service.go","cmd/server/main.go","cmd/dukptcli/main.go"],[("in-memory repository","pkg/server/repository.go")],["system calls, directories, children and sockets of the processes, machines known after a restart"])
p("C38","Every API response is one well-formed JSON object, whatever the request headers",
 "The response to every request on a documented API route, successful or failing, has status 200 or 400 to 599, exactly one Content-Type 'application/json; charset=utf-8', and a body that is exactly one JSON object in UTF-8 without duplicate members, delimited correctly on the connection; GET /ping answers 'PONG' as text/plain and OPTIONS an empty body. Request headers other than those of the protocol itself do not matter: requests that change nothing get the same status and body whatever their Origin, Accept, Accept-Encoding, Content-Type, authorization, caching, range or other headers and whatever query the URL carries.",
 ["inputs"],"all requests on documented routes x request headers, over HTTP/1.1, TLS and HTTP/2","The suite decodes four successful responses leniently and sets hardly any header.",
 ["pkg/server/routing.go","pkg/server/handlers.go"],[("encodeResponse, encodeError","pkg/server/routing.go")],["raw responses, calls of the ResponseWriter"])
with open('/verif/properties.jsonl','w') as f:
    for d in P: f.write(json.dumps(d)+"\n")
import jsonschema
s=json.load(open('/root/.vp/PROPERTIES.schema.json'))
for d in P: jsonschema.validate(d,s)
print(len(P))
