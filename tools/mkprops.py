import json
P=[]
def p(id,title,statement,over,qtext,why,files,mech,state=None,observe=None,hook=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    if observe: a["observe_at"]=observe
    a["hook_needed"]=hook
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qtext),why_tests_cant=why,anchors=a))
BODY=["body/body.go","body/buffered.go","body/bytes.go","body/readerat.go","body/seeker.go","body/empty.go","body/closed.go"]
p("B01","Sequential reads deliver exactly the source's bytes, then end-of-file",
"Reading any Body to the end yields exactly the bytes of its source (cut off at the declared length, if one was declared), in order, each once, and only then io.EOF. This holds for every way of constructing a Body, every sequence of read sizes, and every source that obeys the io contracts, including sources that return short reads or return their last bytes together with io.EOF. Once io.EOF has been returned, further reads keep returning no bytes and io.EOF.",
["inputs","histories"],"all constructors, source lengths, declared lengths, source chunkings and sequences of read sizes, including sizes around and beyond the internal block size",
"The tests read one 4-byte source one byte at a time with one fixed chunking per body kind; no test uses a source with short reads, a source longer than a block, or a declared length different from the real one.",
BODY,[("Read of each body kind","body/*.go: Read"),("block-wise refill of the shared buffer","body/buffered.go: bufferedBody.Read"),("seek-then-read emulation","body/seeker.go: seekerCommon.readAt")],
[("offset","cursor of one body","body/*.go"),("common.bytes/start","shared buffered window","body/buffered.go")],["Body.Read results"])
p("B02","A copy starts at the same position and is independent from then on",
"A Copy of an open Body represents exactly the same remaining bytes, and the same end-of-file or error state, as the original at that moment, and offers at least the same advanced interfaces. From then on, no sequence of operations on either of them (reading, seeking, copying, writing out, closing) changes what the other one delivers, no matter which of them runs ahead, falls behind, or is closed first.",
["histories","inputs"],"all interleavings of operations on a family of copies made at arbitrary points of the stream, over every kind of body and source",
"No existing test calls Copy at all.",
BODY,[("Copy of each body kind","body/*.go: Copy"),("window trimming keyed to the slowest copy","body/buffered.go: ref/unref/advance/updateStart"),("reference count","body/readerat.go, body/seeker.go: ref/unref")],
[("common.refcnt","number of bodies at the start of the shared window / attached bodies","body/buffered.go, readerat.go, seeker.go")],["results of all operations on every member of a family of copies"])
p("B03","BytesRemaining is exact or -1, and never wrong in between",
"BytesRemaining of a Body always equals the number of bytes that reading it to the end would still deliver from its current position, or is -1 when that is not known; it is never any other negative number. When the length is known at construction it never becomes unknown, it tracks every read, seek and write-out exactly, and it is 0 once end-of-file was returned or the Body was closed. (If a source turns out shorter than the length declared for it, the declared length is used until the end is discovered, and the result still never becomes negative.)",
["histories","inputs"],"all histories of operations on a body and its copies, all sources and declared lengths",
"The tests check BytesRemaining at four fixed moments of one 4-byte body without copies.",
BODY,[("BytesRemaining of each body kind","body/*.go: BytesRemaining"),("length discovered at end of stream","body/*.go: common.length updates")],None,["Body.BytesRemaining"])
p("B04","The source is closed exactly once, by the last Close of its copies",
"A Reader attached to a Body is closed exactly once if it is closeable: during the Close of the last open member of the family of copies attached to it, never earlier, and its error is what that Close returns; every earlier first Close of a member returns nil. The Reader is never touched again afterwards. While a Body is open, Unwrap returns that very Reader (nil for bodies without one), and nil once the Body is closed.",
["histories","schedules"],"all orders of copying, reading, failing and closing within a family of copies, including repeated Close calls and concurrent ones",
"The tests close a single body once; they never have two bodies attached to one reader and never have Close fail.",
["body/buffered.go","body/readerat.go","body/seeker.go"],[("reference counting","body/*.go: ref/unref")],[("refcnt / bodies","attached members","body/*.go")],["Close results, calls received by the source, Unwrap"])
p("B05","A closed Body stays closed and every operation on it says so",
"After Close, every read, positioned read, seek, write-out and further Close of that Body fails with fs.ErrClosed, transfers nothing and has no effect on the source or on any copy; BytesRemaining is 0, Unwrap is nil, and Copy yields a Body that is itself closed. Nothing ever reopens a closed Body.",
["histories"],"all histories before and after Close, for every body kind, with and without open copies",
"The tests make one call of each kind after Close with zero-length buffers and no copies.",
BODY,[("closed flag checks","body/*.go"),("closed singleton","body/closed.go")],None,["results of all operations after Close"])
p("B06","Seek moves to the computed position, clamped to the end, or changes nothing",
"On a Body that supports it, Seek to a valid target makes the next read start exactly at the start-, current- or end-relative position, clamped to the end of the Body, returns that position, and clears any end-of-file or error state. An unknown whence, a negative start offset or a negative computed position fails with the corresponding typed error carrying the offending value, and leaves the position, the end-of-file or error state and the remaining length unchanged. (Offsets whose sum overflows 64 bits are out of scope.)",
["inputs","histories"],"all offsets and whence values at every reachable position and end-of-file/error state, for every seekable body kind",
"The tests issue eight fixed seeks on a 4-byte body and never check that a failed seek leaves the cursor alone.",
["body/bytes.go","body/readerat.go","body/seeker.go","body/empty.go","body/errors.go"],[("Seek of each body kind","body/*.go: Seek")],None,["Seek results, subsequent reads"])
p("B07","ReadAt obeys the io.ReaderAt contract and moves nothing",
"On a Body that supports it, ReadAt returns the bytes at the given absolute position, up to the end of the Body; whenever it returns fewer bytes than asked it also returns a non-nil error, and that error is io.EOF only if the end of the Body was reached. It never changes the position, end-of-file state or remaining length of this Body or of any copy, and a negative position is an error that transfers nothing.",
["inputs","histories"],"all positions and sizes at every reachable state, over sources that return short reads (for emulated positioned reads) or fail",
"The tests make four fixed ReadAt calls, each satisfied by one source call; no short read from the source, no cursor check afterwards.",
["body/bytes.go","body/readerat.go","body/seeker.go","body/empty.go"],[("ReadAt of each body kind","body/*.go: ReadAt")],None,["ReadAt results, subsequent reads"])
p("B08","WriteTo writes out exactly the rest, and reports precisely how much",
"On a Body that supports it, WriteTo hands the writer exactly the bytes that remain, in order, returns their count and nil when all were accepted (also when nothing remained), and leaves the Body at end-of-file. If the writer fails, WriteTo returns the number of bytes the writer accepted together with the writer's error, and exactly the bytes not accepted remain readable from the Body. In particular, copying any open Body to a working writer with io.Copy succeeds.",
["inputs","histories","fault_sequences"],"all starting positions and states, and writers failing after any number of bytes",
"No existing test calls WriteTo or io.Copy.",
["body/bytes.go","body/empty.go","body/closed.go"],[("WriteTo","body/bytes.go, body/empty.go: WriteTo")],None,["WriteTo results, bytes received by the writer, subsequent reads"])
p("B09","A source failure surfaces as itself, at the right place, to the right copies",
"If the source fails with an error other than io.EOF, every byte before the failure is still delivered correctly and the failure reaches the reader as that very error: never as io.EOF, never as silently missing bytes, and it repeats on further reads of that Body until it is repositioned or closed. For a forward-only source every copy sees the same bytes followed by the same error; for a source with random access, a failure seen by one copy does not cut short what any other copy, or the same Body after seeking back, can deliver once the source works again.",
["fault_sequences","histories"],"all positions at which the source fails, transient or permanent, with or without partial data, over all families of copies",
"No existing test injects a source error other than io.EOF.",
["body/buffered.go","body/readerat.go","body/seeker.go"],[("sticky error","body/*.go: err / common.err"),("length adjustment on error","body/readerat.go, body/seeker.go: Read")],None,["Read/ReadAt results of all copies"])
p("B10","Concurrent use of a Body and its copies is linearizable and never deadlocks",
"When several goroutines use one Body and its copies at the same time, every operation takes effect atomically at some instant between its call and its return: each outcome is one that some sequential order of the calls, consistent with real time, would have produced, so no byte is delivered twice, skipped or taken from another position. Operations never deadlock and conflicting memory accesses are always synchronized.",
["schedules","histories"],"all schedules of concurrent Read, ReadAt, Seek, Copy, Close, BytesRemaining, WriteTo and Unwrap calls on shared bodies and on copies sharing one source",
"All existing tests are single-threaded.",
BODY,[("per-body mutex, then shared mutex","body/*.go: body.mu, common.mu")],[("body.mu / common.mu","locks","body/*.go")],["call/return histories","race detector"])
p("B11","A streaming Body retains only what some open copy has yet to read",
"A Body over a forward-only source keeps in memory at most a bounded amount beyond the span between its slowest open copy and its fastest one. Bytes that every open copy has passed are released, and closing a lagging copy releases what only it still needed.",
["histories"],"all histories of reads, copies and closes over streams much longer than the internal block size",
"The tests only use 4-byte streams, for which retention is invisible.",
["body/buffered.go"],[("window trimming","body/buffered.go: advance/updateStart/unref")],[("start, bytes","retained window","body/buffered.go")],["live heap after garbage collection"])
p("B12","A Read never waits for source data that nobody asked for",
"A Read on a Body over a forward-only source returns as soon as the source has supplied (now or earlier) the bytes that Read asked for: it never blocks waiting for further data in order to prefetch, so a consumer that answers each message before the producer sends the next one makes progress. A Read that can be satisfied from data already obtained does not consult the source at all.",
["schedules","histories"],"all ways in which the source's data becomes available over time, and all read sizes not exceeding what is available",
"The existing sources return all their data, or end-of-file, at once, so a blocking prefetch is invisible.",
["body/buffered.go"],[("refill loop","body/buffered.go: bufferedBody.Read")],None,["whether a Read returns while the source withholds further data"])
p("B13","Payload constructors serve exactly the encoded payload",
"A Body made from bytes or a string serves exactly those bytes; one made from a value as JSON serves its JSON encoding, without HTML escaping, that decodes to the same value; the pretty form serves the same JSON indented by two spaces per level, with every line, including the last, ended by CR LF; protobuf bodies serve the message's binary or text encoding. Creating or reading other Bodies afterwards never changes what an earlier one serves, and values that cannot be encoded cause a panic, never a wrong Body.",
["inputs","histories"],"all values (nested arrays and objects, strings with special characters, numbers) and all sequences of constructions",
"One test encodes one fixed array in pretty form; the compact JSON, protobuf and string constructors are never run.",
["body/body.go"],[("JSON encoding through a pooled buffer","body/body.go: fromJSONImpl"),("protobuf encoding","body/body.go: FromProto, FromProtoText")],None,["all bytes served"])
p("B14","FromReader discovers length and interfaces as promised, or reports failure",
"FromReader and FromReaderAndLength return a Body whose known length is the declared one, or else the one reported by Stat, or else the one found by seeking to the end, and which starts at the beginning of a seekable source; a Body passed to FromReader is returned as is. If the source offers io.ReaderAt together with io.Seeker or fs.File, or io.Seeker alone, the Body and all its copies offer io.ReaderAt and io.Seeker. If Stat or Seek fails while determining the length, that error is returned and no Body.",
["inputs","configurations","fault_sequences"],"all combinations of source capabilities, declared lengths (including zero and negative), initial source positions and failures of Stat and Seek",
"The tests cover seven capability combinations without a declared length and without failures; nothing checks the error paths or declared lengths.",
["body/body.go"],[("capability detection","body/body.go: FromReader, FromReaderAndLength")],None,["returned Body, error, interfaces, BytesRemaining"])
RESP=["response/builder.go","response/response.go","response/util.go"]
p("R01","Build yields exactly what was configured, plus defaults, and resets the Builder",
"The Response returned by Build has the status, headers, body and error most recently set on the Builder, with status 200 if none was set, Content-Type application/octet-stream if none was set, and Content-Length from the body's remaining length only if that is known and none was set; explicitly set headers are never overridden. Build leaves the Builder empty except for its page generator, so nothing set before leaks into the next Response. Invalid arguments panic and leave the Builder unchanged.",
["histories","inputs"],"all sequences of Builder calls, including reuse after Build",
"Package response has no tests at all.",
["response/builder.go"],[("Builder setters and Build","response/builder.go")],[("code, hdrs, body, err, gen","accumulated settings","response/builder.go")],["Status, Headers, Body, Err of Builder and Response"])
p("R02","Copies of Builders and Responses do not affect each other",
"A copy of a Builder, or headers handed to a Builder as a whole, share no mutable state with the original: later changes of the caller's map or its value lists, of either Builder's headers, or of anything else set on either of them, are not visible in the other. Copies of a Builder or a Response each serve the complete body, in whatever order or interleaving they are served.",
["histories"],"all interleavings of changes, copies, builds and serves",
"Package response has no tests at all.",
RESP,[("deep copy of headers, Copy of body","response/util.go, Builder.Copy, Response.Copy")],None,["Headers of all builders and responses after each step; bytes served"])
p("R03","An automatic Content-Length equals the number of body bytes served",
"Whenever Build itself set Content-Length, serving the Response, or any copy of it, transfers exactly that many body bytes, for every kind of body and wherever the body's cursor stood, provided the source does not fail. An HTTP client therefore receives a complete, correctly delimited response with exactly the body's bytes.",
["inputs","histories"],"all kinds of bodies at all positions, all payload constructors and generated pages, served directly, through the wrapping writer and over a real connection",
"Package response has no tests at all.",
["response/builder.go","response/response.go","body/body.go"],[("Build reads BytesRemaining","response/builder.go: Build"),("io.Copy of the body","response/response.go: Serve")],None,["Content-Length header vs bytes written; client-side view"])
p("R04","Serve sends headers, status and the whole body once, and always closes the body",
"Serve applies the Response's headers (all but Push), sends the status exactly once before any body byte, then the body's remaining bytes in order; headers unrelated to the Response that are already on the writer are kept. On every return, successful or not, the body has been closed exactly once. The first failure among pushing, writing or reading the body, and closing is the error returned; nil means that everything was transferred and closed.",
["fault_sequences","inputs"],"all bodies and writers, with failures of push, write (after any number of bytes), source read and source close",
"Package response has no tests at all.",
["response/response.go"],[("Serve","response/response.go: Serve")],None,["call sequence seen by the ResponseWriter and the body's source"])
p("R05","Push values become server pushes, never headers",
"If the writer supports server push, Serve pushes each value of the Response's Push header, in order, before sending the status; a not-supported answer is ignored (wrapped or not) and any other push error stops the response before anything is sent and is returned. If the writer does not support push, pushing is skipped. In no case is a Push header sent to the client.",
["fault_sequences","inputs"],"all lists of push values, writers with and without push support, and errors at any push",
"Package response has no tests at all.",
["response/response.go","response/writer.go"],[("push loop","response/response.go: Serve"),("Push delegation","response/writer.go: basicWriter.Push")],None,["Push calls and headers seen by the writer"])
p("R06","Generated redirect and error pages are well-formed and leak nothing",
"RedirectPage and ErrorPage replace the Builder's status, headers, body and error by those of the page: the default redirect page carries the trimmed target in Location and, HTML-escaped, in its HTML body; the default error page states the status code and its standard text and never includes the error's own text. The declared Content-Length equals the body's size, and a page generator set on the Builder is used instead of the default and is kept across Build and Copy. Invalid codes, empty targets and nil errors panic without changing the Builder.",
["inputs","histories"],"all status codes, targets (including ones with markup or surrounding blanks), errors and generators, at any point of a Builder's history",
"Package response has no tests at all.",
["response/builder.go","response/pagegen.go"],[("RedirectPage, ErrorPage","response/builder.go"),("default generator","response/pagegen.go")],None,["Builder and Response contents"])
p("W01","The wrapping writer sends one status, and Status reports that one",
"Through a wrapping Writer, at most one status line ever reaches the underlying writer, before any body byte or flush, and Status always reports exactly the status that was sent (0 while none was). The first body byte or flush without an explicit status sends 200; the conditional form of sending a status does nothing once one was sent; a second explicit one is refused by a panic, recorded as an error, and not forwarded, as are statuses outside 100 to 999 (these change nothing).",
["histories"],"all sequences of status, conditional status, write, read-from, flush and push calls, on every kind of underlying writer",
"Package response has no tests at all.",
["response/writer.go"],[("status latch","response/writer.go: writeHeaderImpl, MaybeWriteHeader, WriteHeader")],[("status","status sent","response/writer.go")],["calls received by the underlying writer, Status"])
p("W02","BytesWritten counts the bytes accepted downstream; bodyless responses send none",
"BytesWritten always equals the total number of body bytes the underlying writer accepted through this Writer, including partial acceptance on failure and bytes passed by read-from. For HEAD requests and for statuses that cannot have a body (204 and 304), body bytes are consumed and reported as written to the caller, but none are forwarded and none are counted. SawError reports whether any forwarded write or read-from failed or a second status was attempted.",
["histories","fault_sequences"],"all sequences of writes and read-froms, request methods and statuses, with downstream failures after any number of bytes",
"Package response has no tests at all.",
["response/writer.go"],[("byte counter","response/writer.go: Write, ReadFrom")],[("bytes, sawError, isHEAD","accounting","response/writer.go")],["BytesWritten, SawError, bytes received downstream"])
p("W03","Wrapping a writer keeps its capabilities and is idempotent",
"A wrapping Writer can flush exactly if the underlying writer can, additionally offers hijacking, close notification and read-from if the underlying writer offers all of those, and delegates these calls, header access and pushes to it unchanged; pushing on a writer without support reports not-supported. Wrapping a writer that is already a wrapping Writer returns it unchanged, with its status and counts, and Unwrap returns the writer that was wrapped.",
["configurations","histories"],"all combinations of optional interfaces on the underlying writer",
"Package response has no tests at all.",
["response/writer.go"],[("capability detection","response/writer.go: NewWriter"),("delegation","response/writer.go: flushWriter, fancyWriter")],None,["interfaces offered, calls received downstream"])
p("H01","Every request is counted exactly once, under the status actually sent",
"For every request handled by the Adaptor, the request counter, latency counter and byte counters are updated exactly once under the status code that the client was sent, also when the handler panicked or serving failed and the Adaptor itself sent the 500; the sent-bytes counter grows by exactly the number of body bytes sent, each of the three histograms gains exactly one observation, and the panic counter grows by one exactly if the handler or serving failed. No other label changes, however many requests run concurrently.",
["fault_sequences","histories","schedules"],"all handler outcomes (normal, panicking before or after output, failing body, failing writer), all statuses and methods, sequential and concurrent requests",
"Package handler has no tests at all.",
["handler/adaptor.go"],[("deferred accounting","handler/adaptor.go: ServeHTTP")],[("Prom*","metrics","handler/adaptor.go")],["values of the metrics before and after each request"])
p("H02","Panics and serve failures are contained and reported exactly once",
"Whatever the handler or the response does, no panic caused by it escapes the Adaptor for the request: if no status had been sent the client gets status 500, and if one had been sent no second one is. The panic callback is called exactly once per failed request, with the panic's own error, or with an error wrapping the panic's value if that is not an error, and never for a successful request; for a failed serve it receives the serve error.",
["fault_sequences","schedules"],"all points at which the handler, the body's source or the writer can fail or panic, and all kinds of panic values",
"Package handler has no tests at all.",
["handler/adaptor.go","handler/onpanic.go"],[("deferred recovery","handler/adaptor.go: ServeHTTP")],None,["statuses sent, OnPanic calls, escaping panics"])
p("H03","A response cut short is never presented to the client as complete",
"If sending a response's body fails part-way, because its source fails or the handler chain panics, an HTTP client of a server using the Adaptor can tell that the response is incomplete: it sees an error or a premature end of the body, never a clean end after only part of the bytes. Conversely, a response that was fully served is never seen as cut short.",
["fault_sequences","configurations"],"all positions of the failure, bodies of known and unknown length, HTTP/1.0 and HTTP/1.1 connections",
"Package handler has no tests at all.",
["handler/adaptor.go","response/builder.go","response/response.go"],[("Content-Length declared for known lengths","response/builder.go: Build"),("recovery in the Adaptor","handler/adaptor.go: ServeHTTP")],None,["client-side view over a loopback connection"])
p("M01","The mock reader follows its script strictly",
"The scripted mock reader used by the tests accepts exactly the scripted sequence of calls: each call must match the next expectation in kind, buffer length, offset, whence and mark text, and then yields precisely the scripted bytes, count, position, file info and error; any other call, including any call beyond the end of the script, panics with an error naming the position, what was expected and what happened. Each wrapper exposes exactly the optional interfaces its name says and forwards every call to the same script.",
["histories","inputs"],"all scripts and all call sequences",
"The mock has no tests of its own; the tests that use it only follow matching scripts, so a mock that accepts too much would go unnoticed.",
["internal/mockreader/mockreader.go","internal/mockreader/wrapper000.go"],[("script matching","internal/mockreader/mockreader.go: next, Matches"),("wrappers","internal/mockreader/wrapper*.go")],[("index","next expectation","internal/mockreader/mockreader.go")],["results and panics of mock calls"])
with open("/verif/properties.jsonl","w") as f:
    for x in P: f.write(json.dumps(x,ensure_ascii=False)+"\n")
import jsonschema
s=json.load(open("/root/.vp/PROPERTIES.schema.json"))
for x in P: jsonschema.validate(x,s)
print(len(P))
