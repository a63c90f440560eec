import json
P=[]
def p(id,title,statement,over,text,why,files,mech,state=None,observe=None,hook=None):
    assert len(title)<=80,(id,len(title))
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    if observe: a["observe_at"]=observe
    a["hook_needed"]=hook
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,anchors=a))

p("C01","Enciphering then deciphering a file returns the original bytes",
"For every file content and every supported choice of cipher, mode, digest, entropy coder, key length and chunk size, enciphering a file and deciphering the result with the same passphrase reproduces the original bytes exactly, and both commands report success. This does not depend on how the operating system splits reads and writes, on how many other commands run at the same time in the same home directory, or on restarts between the two commands.",
["inputs","configurations","schedules","fault_sequences"],
"every content and option combination x every split of each transfer x every interleaving of concurrent commands sharing one home directory",
"The test suite enciphers a few fixed files with a few option sets, with whole transfers, one command at a time; it never sees a short read or two commands at once.",
["utilities/encipher.c","utilities/decipher.c","utilities/content.c","wizard/blob.c","wizard/cipher.c","wizard/entropy.c","wizard/hmac.c","wizard/secret.c","wizard/keyring.c"],
[("chunk framing and padding","utilities/encipher.c:EncipherChunk loop, utilities/decipher.c"),("stream reads that continue until the chunk is complete","wizard/blob.c:ReadBlobChunk/WriteBlobChunk")],
observe=["exit status of the two commands","bytes of the deciphered file"])

p("C02","A command that reports success has stored complete, correct output",
"If a storage read, write, flush or close fails, the disk fills up, or memory cannot be allocated while a file is enciphered, deciphered, digested or a key is exported or imported, then the command either reports failure through its exit status or its output is nevertheless complete and correct. No fault makes a command crash, hang, or report success over truncated, missing or wrong output.",
["fault_sequences","inputs","configurations"],
"every sequence of I/O and allocation failures at any call made by the command",
"The existing tests run on a healthy disk only; no test makes a single system call or allocation fail.",
["utilities/encipher.c","utilities/decipher.c","utilities/digest.c","utilities/keyring.c","utilities/content.c","wizard/blob.c","wizard/exception.c"],
[("status accumulated per file and turned into the exit status","utilities/*.c:WizardMain"),("stream status on read, write, sync and close","wizard/blob.c:CloseBlob/SyncBlob")],
observe=["exit status","output file content","process termination"])

p("C03","Damaged ciphertext is never deciphered into altered plaintext",
"With authentication left on, deciphering a file that was damaged in any way after it was enciphered (changed, cut, extended, or partly lost bytes, or a wrong passphrase) never produces bytes that differ from the original: whatever is written is a prefix of the original content. If the damage changed any byte of an authenticated chunk, the command reports failure.",
["inputs","crash_points","fault_sequences","histories"],
"every damage (torn, lost, bit-flipped, misdirected, appended bytes; crash of the enciphering command at any point) x every option set",
"The tests decipher only intact files; no test damages a file or stops the enciphering command half way.",
["utilities/decipher.c","utilities/content.c","utilities/encipher.c","wizard/hmac.c","wizard/secret.c","wizard/keyring.c","wizard/string.c"],
[("per-chunk message authentication code checked before plaintext is written","utilities/decipher.c"),("key identity checked against the passphrase","wizard/secret.c:AuthenticateSecretKey")],
observe=["exit status of decipher","bytes written by decipher"])

p("C04","Digests record exactly the bytes of each file and verification finds changes",
"The digest recorded for a file equals the digest of its bytes by the published definition of the algorithm (for the SHA3 family the original Keccak submission), however the bytes arrive. Verifying a recorded digest list reports exactly those files whose digest differs from the recorded one, also after a restart.",
["inputs","schedules","fault_sequences","configurations"],
"every content and algorithm x every split of the reads x every later modification of the files",
"The tests digest a handful of fixed buffers in one piece; they never split the input or run the verification against changed files.",
["utilities/digest.c","wizard/hash.c","wizard/blob.c","wizard/sha1.c","wizard/sha2224.c","wizard/sha2256.c","wizard/sha2384.c","wizard/sha2512.c","wizard/sha3.c","wizard/md5.c","wizard/crc64.c"],
[("incremental update of the digest","wizard/hash.c:UpdateHash"),("chunked file reads","utilities/digest.c:ComputeDigest")],
observe=["digest list file","messages and exit status of digest verification"])

p("C05","Keys stored in the keyring survive and come back exact",
"Once storing a key has reported success, every later lookup of its identifier, by any process, returns exactly the key and nonce that were stored, whatever other processes store, whichever of them are killed at any point and restarted, and whatever storage faults hit them. A lookup never returns success with bytes that were not stored under that identifier, an identifier that was never stored is never found, and a listing shows exactly the stored identifiers.",
["crash_points","schedules","fault_sequences","histories"],
"every interleaving of storing and looking-up processes x every kill point x every storage fault",
"The tests store one key and read it back in one healthy process.",
["wizard/keyring.c","wizard/file.c","wizard/secret.c"],
[("appending records under an advisory lock file","wizard/keyring.c:ImportKeyringKey"),("record scan with signature check","wizard/keyring.c:ExportKeyringKey")],
state=[("keyring file","magic header followed by appended records","~/.wizard/keyring.xdm")],
observe=["status and key/nonce returned by key lookup","keyring listing"])

p("C06","A file lock admits one holder at a time and is recovered after a crash",
"At any moment at most one thread of one process holds the advisory lock of a file, for every interleaving of acquirers and releases. A lock left behind by a process that died does not keep others out for good: once the faults stop, an acquirer that retries gets the lock in bounded time, and a lock that nobody holds leaves no lock file behind.",
["schedules","crash_points","fault_sequences"],
"every interleaving of acquire/release in several processes and threads x every kill point x lock-file I/O faults x delays and clock jumps",
"The tests take the lock in one process without contention, failure or crash.",
["wizard/file.c"],
[("exclusive creation of a lock file naming its owner","wizard/file.c:AcquireFileLock"),("owner liveness probe","wizard/file.c:AcquireFileLock"),("removal of the lock file on release","wizard/file.c:RelinquishFileLock")],
state=[("lock file","<path>.lck holding owner process and thread","wizard/file.c")],
observe=["intervals between successful acquisition and release","existence of the lock file"])

p("C07","Random output never repeats across threads, processes and restarts",
"No two random keys ever coincide: not between threads sharing one generator, between generators, between processes, or between a process and its restarted successor, even if the saved entropy is missing, torn, or damaged, the clock is stuck or runs backwards, or processes are killed at any point. Generators come up and answer under all of these conditions, and the output depends on the system's entropy.",
["schedules","crash_points","fault_sequences","histories"],
"every interleaving of requests x every kill point and restart x every state of the saved reservoir x every clock behaviour",
"The tests draw from one generator in one thread and check simple statistics.",
["wizard/random.c","wizard/file.c","wizard/hash.c","wizard/string.c"],
[("counter-mode hashing of seed, nonce and reservoir under a lock","wizard/random.c:SetRandomKey"),("system entropy gathered at start","wizard/random.c:GenerateEntropicChaos"),("reservoir saved for the next process","wizard/random.c:SaveEntropyToReservoir")],
state=[("reservoir file","entropy handed to the next process","~/.wizard/reservoir.xdm")],
observe=["bytes returned by random requests","process termination"])

p("C08","Byte streams behave exactly like the file they stand for",
"For every sequence of reads or writes of any lengths on a plain, gzip, bzip2, memory-mapped, fifo or descriptor stream, each call returns what the same operation on an array of bytes would return, positions and the end of plain files are reported exactly, and after a successful close the file holds exactly the bytes written. Short transfers by the operating system, mappings it refuses and other threads with streams of their own never change the outcome.",
["inputs","histories","fault_sequences","configurations"],
"every operation sequence x every stream kind x every split of the underlying transfers x every interleaving of threads with their own streams",
"The tests do not drive the stream interface with random operation sequences, and never under short transfers.",
["wizard/blob.c","wizard/blob-private.h"],
[("loops that continue short transfers","wizard/blob.c:ReadBlob/WriteBlob/ReadBlobChunk/WriteBlobChunk"),("choice of the stream kind when a file is opened","wizard/blob.c:OpenBlob")],
observe=["return values of the stream calls","file bytes after close"])

p("C09","Whole-file reads and closed streams are complete or reported as failed",
"Reading a whole file returns exactly its current bytes (or the requested leading part) or reports failure, and a stream whose reads, writes, flush or close failed, or whose compressed file was torn, says so by the time it is closed; if closing reports success, everything read was in the file and everything written is in it. After any such call, failed or not, no descriptor or mapping is left behind and the process is still running.",
["fault_sequences","inputs"],
"every content, size limit and operation sequence x every failing or short system call, interrupted descriptor read, full disk, failed allocation or torn compressed file",
"The tests read and write small files on a healthy disk; no call ever fails.",
["wizard/blob.c","wizard/string.c","wizard/file.c"],
[("error checks around each transfer","wizard/blob.c:FileToBlob"),("status reported when a stream is closed","wizard/blob.c:CloseBlob")],
observe=["return values","file bytes","open descriptors and mappings after the call"])

p("C10","Linked lists and hash maps behave atomically under threads",
"When several threads use one linked list or one hash map, every operation takes effect at a single instant between its call and its return, as in a sequential list or map: nothing is lost, duplicated, or returned after it was removed, and the size and capacity bound are exact. No interleaving crashes, touches freed memory, or deadlocks.",
["schedules","histories","programs"],
"every interleaving of the threads' memory accesses x every short program of operations",
"The tests use these containers from one thread only.",
["wizard/hashmap.c","wizard/semaphore.c"],
[("one lock per container","wizard/hashmap.c"),("lock primitive","wizard/semaphore.c")],
observe=["call/return history of container operations","final content of the container"])

p("C11","Ordered tree maps behave atomically and in order under threads",
"When several threads use one ordered tree map, every insertion, lookup, deletion, removal and size query takes effect at a single instant between its call and its return, as in a sequential sorted map, and a walk of a quiet tree visits exactly the present keys in order. No interleaving crashes, touches freed memory, or deadlocks.",
["schedules","histories","programs"],
"every interleaving of the threads' memory accesses x every short program of operations",
"The tests use one thread only; even lookups restructure the tree, so readers conflict with each other.",
["wizard/splay-tree.c","wizard/semaphore.c"],
[("one lock per tree","wizard/splay-tree.c"),("splaying and rebalancing under that lock","wizard/splay-tree.c")],
observe=["call/return history of tree operations","ordered walk of the final tree"])

p("C12","Resource accounting never exceeds limits and always balances",
"At every moment the amount reported in use for memory, address space, disk, and files equals what was granted minus what was given back, no grant takes it above its limit, and a request that stays below the limit is granted. This holds for every interleaving of threads and after failed requests, so that after everything is given back usage is where it started.",
["schedules","fault_sequences","histories"],
"every interleaving of acquisitions and releases x every limit x every failed allocation, mapping or file operation in between",
"The tests acquire and release in one thread far below every limit.",
["wizard/resource.c","wizard/memory.c"],
[("counters updated under one lock","wizard/resource.c:AcquireWizardResource/RelinquishWizardResource"),("fallback from heap to map to file","wizard/memory.c:AcquireVirtualMemory")],
state=[("usage counters and limits","granted minus returned per resource","wizard/resource.c:resource_info")],
observe=["reported usage","grant decisions"])

p("C13","Temporary files are private, unique and always removed",
"Two temporary files handed out at overlapping times, by any threads or processes, never share a name or content, and an existing file is never overwritten by a new one. A temporary file exists, readable by its owner only, from the moment it is handed out until it is given back, stays when it is given back to be kept, and none other remains after it was given back with success, after orderly shutdown, or after termination by a handled signal, also when file operations failed in between.",
["schedules","fault_sequences","histories","crash_points"],
"every interleaving of requests, releases, shutdown and signals x every failing file operation x every pre-existing directory content",
"The tests request single temporary files in one thread and do not look at what is left behind.",
["wizard/resource.c","wizard/memory.c","wizard/splay-tree.c","wizard/wizard.c"],
[("exclusive creation of a random name","wizard/resource.c:AcquireUniqueFileResource"),("registry of temporary files removed on release and at shutdown","wizard/resource.c:temporary_resources")],
observe=["directory listing","names handed out"])

p("C14","Errors reported by many threads are all kept, once, in order",
"Every error that any thread reports into a shared error record (a repetition of the latest entry aside) is kept exactly once, in the order of each thread's reports, until it is delivered to the handler for its own severity or cleared; the record's severity is that of its latest entry. Reporting, copying to another record, clearing and delivering at the same time neither lose nor duplicate entries, crash, or deadlock.",
["schedules","histories","programs"],
"every interleaving of reports, inheritance, clearing and delivery by several threads",
"The tests never use one error record from two threads.",
["wizard/exception.c","wizard/hashmap.c"],
[("lock in the error record","wizard/exception.c:ThrowException/CatchException/InheritException")],
observe=["entries of the record","handler calls"])

p("C15","The event log holds every event once, whole and in order",
"With file logging on, every event logged by any thread appears exactly once, unbroken by other events, and in the order its thread logged it, across all log file generations, also while the format, the mask or the log file are changed or closed by other threads. A log file that cannot be opened or written never stops or crashes the program, and logging works again when the fault is over.",
["schedules","fault_sequences","configurations"],
"every interleaving of logging threads and reconfiguration x every open/write fault x every rotation limit",
"The tests do not examine the log and log from one thread only.",
["wizard/log.c","wizard/semaphore.c"],
[("one lock around formatting and writing an event","wizard/log.c:LogWizardEventList"),("rotation by size into numbered files","wizard/log.c")],
observe=["log files"])

p("C16","Shared tables are set up exactly once however many threads arrive",
"When several threads use the library for the first time at the same moment, each lock and each shared table (media types, configuration options, log settings, resource registry, error records) is created once, every thread sees it completely filled, and answers are the same as for a single thread. Orderly shutdown followed by renewed use works the same way, and a table whose file cannot be read or allocated leaves the program running with usable defaults.",
["schedules","fault_sequences","histories"],
"every interleaving of first uses x every read fault x every number of shutdown/start cycles",
"The tests start the library once in one thread with readable configuration files.",
["wizard/semaphore.c","wizard/mime.c","wizard/configure.c","wizard/log.c","wizard/resource.c","wizard/wizard.c"],
[("double-checked creation under a global mutex","wizard/semaphore.c:ActivateSemaphoreInfo"),("instantiate-once caches","wizard/mime.c:IsMimeCacheInstantiated, wizard/configure.c:IsConfigureCacheInstantiated, wizard/log.c:IsLogCacheInstantiated")],
observe=["lookup results","process termination"])

p("C17","Elapsed-time measurement is right whatever the wall clock does",
"A stopwatch shows the real (and processor) time since it was last started, added to what it showed before when it was started without reset; reading stops it, continuing makes it count as if it had not been stopped, and resetting returns it to zero, for every sequence of these calls. A delay lasts at least as long as asked for. Jumps of the wall clock in either direction, stalls and slow scheduling change nothing.",
["histories","fault_sequences"],
"every sequence of stopwatch operations x every clock jump, skew and stall",
"The tests use the stopwatch only to print timings.",
["wizard/timer.c","wizard/utility.c"],
[("monotonic tick source","wizard/timer.c:ElapsedTime/UserTime"),("accumulation across stop and continue","wizard/timer.c:StopTimer/ContinueTimer")],
observe=["elapsed seconds reported"])

p("C18","Memory requests give usable disjoint memory or fail cleanly",
"Every successful request for heap, aligned or virtual memory yields a block of the requested size and alignment that overlaps no other live block and keeps its content (through resizing too) until it is given back, whichever backing (heap, anonymous map, or disk) was used. A failing request reports failure, disturbs no other block, and leaves no memory, mapping, descriptor or file behind.",
["fault_sequences","schedules","histories"],
"every sequence of requests, resizes and releases by several threads x every failing allocation, mapping or file operation x every resource limit",
"The tests never make an allocation fail and never reach the map or disk backing.",
["wizard/memory.c","wizard/blob.c","wizard/resource.c"],
[("overflow-checked sizes","wizard/memory.c"),("fallback from heap to anonymous map to file map","wizard/memory.c:AcquireVirtualMemory")],
observe=["block addresses and contents","live blocks, mappings, descriptors and files after release"])

p("C19","The right passphrase unlocks the key and nothing else does",
"After a key was generated under a passphrase and reported as stored, presenting the same passphrase and key identifier in any process at any later time yields exactly that key, and presenting any other passphrase is refused. Two generations never yield the same key or identifier, and a generation whose key could not be stored reports failure.",
["schedules","crash_points","fault_sequences","histories"],
"every interleaving of generating and unlocking processes x every kill point and storage fault x every passphrase",
"The tests generate and unlock one key in one healthy process.",
["wizard/authenticate.c","wizard/secret.c","wizard/keyring.c","wizard/random.c","wizard/hmac.c","wizard/cipher.c"],
[("key stored enciphered under the passphrase with an authentication code as identifier","wizard/secret.c")],
observe=["status and key of unlocking"])

p("C20","Enciphering reveals nothing of the content or the passphrase",
"Whatever happens while files are enciphered (commands running together, kills, signals, full disks, failing calls), no file other than the original, and no program output, ever holds part of the content or of the passphrase in the clear. No two enciphered files show the same cipher data or are masked with the same key stream, even for the same content and options, and neither are two parts of one file.",
["schedules","crash_points","fault_sequences","histories"],
"every cipher, mode and option set x every kill point, signal and fault x every set of commands running together or in sequence",
"The tests only check that deciphering undoes enciphering; they never look at the enciphered bytes, at files left by a killed command, or at two files together.",
["utilities/encipher.c","wizard/cipher.c","wizard/random.c","wizard/secret.c","wizard/authenticate.c","wizard/blob.c"],
[("fresh key and nonce for every file","wizard/secret.c:GenerateSecretKey, wizard/cipher.c:GenerateCipherNonce"),("the content is enciphered in place before it is written","utilities/encipher.c:EncipherContent")],
observe=["all files after the commands ended or were killed","standard output and error"])

p("C21","A passphrase typed at a terminal is taken whole and unseen, or refused",
"A passphrase asked for at a terminal is given back only if the same line was typed twice, complete and byte for byte (beyond 4095 bytes it is cut); a read that fails or is interrupted by a signal makes the request fail with an error, except that a line is asked for again after the program was stopped. The terminal never shows what is typed. Once the request is over, or the process has been ended by a signal or for lack of memory while it was asking, the terminal settings are as before; signal handlers, open files and memory are as before too, and a signal that came meanwhile reaches the program's own handler.",
["inputs","schedules","fault_sequences","histories"],
"every sequence of typed lines, ends of input and pauses x every signal at every point x every failing terminal call and memory request",
"No test has a terminal; the outcome depends on when a signal or failure arrives while somebody types.",
["wizard/passphrase.c","wizard/string.c"],
[("terminal settings and signal handlers are saved, changed and put back around the reading of one line","wizard/passphrase.c:GetPhrase"),("the phrase is asked for until it was typed twice alike","wizard/passphrase.c:GetPassphrase")],
observe=["the passphrase or error given back","terminal settings","signals handled by the program"])

p("C90","Ciphers, digests, checksums and coders match their published definitions",
"Each block cipher, hash, message authentication code, checksum and text encoding computes the function its standard defines, for every input and key.",
["inputs"],
"every input and key of each algorithm",
"Known-answer vectors reach a finite set of inputs.",
["wizard/aes.c","wizard/chacha.c","wizard/serpent.c","wizard/twofish.c","wizard/md5.c","wizard/sha1.c","wizard/sha2224.c","wizard/sha2256.c","wizard/sha2384.c","wizard/sha2512.c","wizard/sha3.c","wizard/crc64.c","wizard/string.c"],
[("the algorithms themselves","wizard/*.c")])
p("C91","Text parsers accept what the formats allow and never misread the rest",
"Parsing of markup, options, property names and numbers returns the value the text denotes and rejects everything else without touching memory outside its input.",
["inputs"],
"every input text",
"The tests parse a few well-formed inputs.",
["wizard/xml-tree.c","wizard/option.c","wizard/token.c","wizard/string.c"],
[("the parsers themselves","wizard/xml-tree.c, wizard/option.c")])
open(__import__('os').path.dirname(__import__('os').path.dirname(__import__('os').path.abspath(__file__)))+'/properties.jsonl','w').write(''.join(json.dumps(x)+'\n' for x in P))
