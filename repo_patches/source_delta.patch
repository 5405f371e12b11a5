From fbf7822d2acd1bc09d0f4ba0ba83a0b81e6a9a61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:50:50 +0000
Subject: [PATCH 01/16] fix: FromJSON served an empty body

The encoded payload was copied into a nil slice, so nothing was copied.
---
 body/body.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/body/body.go b/body/body.go
index 1c84c41..74d454a 100644
--- a/body/body.go
+++ b/body/body.go
@@ -202,6 +202,7 @@ func fromJSONImpl(v interface{}, isPretty bool) Body {
 			}
 		}
 	} else {
+		dst = make([]byte, len(src))
 		copy(dst, src)
 	}
 
-- 
2.43.0


From cebe8e2f3e0da62b8304e2aff2c308f53ce08e28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:50:51 +0000
Subject: [PATCH 02/16] fix: WriteTo of an empty body returned io.EOF

io.WriterTo reports success as nil; io.Copy passed the io.EOF on as a failure.
---
 body/empty.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/body/empty.go b/body/empty.go
index 94e752b..c80a1f0 100644
--- a/body/empty.go
+++ b/body/empty.go
@@ -96,7 +96,8 @@ func (body *emptyBody) WriteTo(w io.Writer) (int64, error) {
 		return 0, fs.ErrClosed
 	}
 
-	return 0, io.EOF
+	body.eof = true
+	return 0, nil
 }
 
 func (body *emptyBody) Copy() (Body, error) {
-- 
2.43.0


From b2096f49fd28138aa37fcbe289736143fbc6a9c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:50:52 +0000
Subject: [PATCH 03/16] fix: seeker body's BytesRemaining was racy and could be
 negative

It read the length shared with the copies without its lock, and another copy
that finds the end of the source early can leave this body beyond the end.
---
 body/seeker.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/body/seeker.go b/body/seeker.go
index 34ac623..79bea2e 100644
--- a/body/seeker.go
+++ b/body/seeker.go
@@ -81,7 +81,12 @@ func (body *seekerBody) BytesRemaining() int64 {
 		return 0
 	}
 
-	return (body.common.length - body.offset)
+	length := body.common.BytesRemaining()
+	offset := body.offset
+	if offset >= length {
+		return 0
+	}
+	return (length - offset)
 }
 
 func (body *seekerBody) Read(p []byte) (int, error) {
-- 
2.43.0


From 884d1e530c53582fa1a23eee9b03a6d4fc85afb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:50:53 +0000
Subject: [PATCH 04/16] fix: a short read of the source ended a seeker body
 early

If a Read asked for more than what remained, a short read without error was
reported as io.EOF and the remaining bytes were lost for all copies.
---
 body/seeker.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/body/seeker.go b/body/seeker.go
index 79bea2e..fd73a10 100644
--- a/body/seeker.go
+++ b/body/seeker.go
@@ -126,7 +126,7 @@ func (body *seekerBody) Read(p []byte) (int, error) {
 	if avail > 0 {
 		n, err = common.readAt(p[0:x], offset)
 	}
-	if eof && err == nil {
+	if eof && err == nil && int64(n) == x {
 		err = io.EOF
 	}
 
-- 
2.43.0


From 493684aba043903c2d4a3348a74d0f4005d42457 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:50:54 +0000
Subject: [PATCH 05/16] fix: seeker body's ReadAt returned short reads without
 an error

io.ReaderAt requires a non-nil error whenever fewer bytes than asked are
returned, and io.EOF only at the end.
---
 body/seeker.go | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/body/seeker.go b/body/seeker.go
index fd73a10..0b2758d 100644
--- a/body/seeker.go
+++ b/body/seeker.go
@@ -65,6 +65,19 @@ func (common *seekerCommon) readAt(p []byte, offset int64) (int, error) {
 	return n, err
 }
 
+func (common *seekerCommon) readFullAt(p []byte, offset int64) (int, error) {
+	n, err := common.readAt(p, offset)
+	for n < len(p) && err == nil {
+		var nn int
+		x := len(p) - n
+		nn, err = common.s.Read(p[n:])
+		assert.Assertf(nn >= 0, "Read must return %d >= 0", nn)
+		assert.Assertf(nn <= x, "Read must return %d <= %d", nn, x)
+		n += nn
+	}
+	return n, err
+}
+
 type seekerBody struct {
 	mu     sync.Mutex
 	common *seekerCommon
@@ -232,7 +245,7 @@ func (body *seekerBody) ReadAt(p []byte, offset int64) (int, error) {
 		err error
 	)
 	if avail > 0 {
-		n, err = common.readAt(p[0:x], offset)
+		n, err = common.readFullAt(p[0:x], offset)
 	}
 	if eof && err == nil {
 		err = io.EOF
-- 
2.43.0


From c0c292f42d67d8f26c43bbc40ce1988f74ac3e47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:50:55 +0000
Subject: [PATCH 06/16] fix: any source error truncated random-access bodies
 for all copies

Only io.EOF tells where the source ends.  After another (perhaps transient)
error, other copies and the same body after seeking back ended early with
io.EOF.
---
 body/readerat.go | 2 +-
 body/seeker.go   | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/body/readerat.go b/body/readerat.go
index 41e392a..ca87a3d 100644
--- a/body/readerat.go
+++ b/body/readerat.go
@@ -132,7 +132,7 @@ func (body *readerAtBody) Read(p []byte) (int, error) {
 		body.err = err
 
 		length = offset
-		if length < common.length {
+		if err == io.EOF && length < common.length {
 			common.length = length
 		}
 	}
diff --git a/body/seeker.go b/body/seeker.go
index 0b2758d..919efaf 100644
--- a/body/seeker.go
+++ b/body/seeker.go
@@ -150,7 +150,7 @@ func (body *seekerBody) Read(p []byte) (int, error) {
 		body.err = err
 
 		length = offset
-		if length < common.length {
+		if err == io.EOF && length < common.length {
 			common.length = length
 		}
 	}
-- 
2.43.0


From 86a687069cf2060fb4f4866a906496f85ef11652 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:50:55 +0000
Subject: [PATCH 07/16] fix: bytes body was at EOF after a partial WriteTo

The bytes that the writer did not accept could not be read any more.
---
 body/bytes.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/body/bytes.go b/body/bytes.go
index d7b14f8..fe1f681 100644
--- a/body/bytes.go
+++ b/body/bytes.go
@@ -160,7 +160,7 @@ func (body *bytesBody) WriteTo(w io.Writer) (int64, error) {
 	assert.Assertf(n >= 0, "Write must return %d >= 0", n)
 	assert.Assertf(n <= avail, "Write must return %d <= %d", n, avail)
 	body.offset += int(n)
-	body.eof = true
+	body.eof = (n == avail)
 	return int64(n), err
 }
 
-- 
2.43.0


From 8676186e98999b1a1d331452dc1d84363fd02d0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:50:56 +0000
Subject: [PATCH 08/16] fix: buffered body blocked to prefetch data nobody
 asked for

Read waited until a whole block was filled although the bytes it had been
asked for were already there.
---
 body/buffered.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/body/buffered.go b/body/buffered.go
index 0800f81..7e40a4f 100644
--- a/body/buffered.go
+++ b/body/buffered.go
@@ -182,7 +182,7 @@ func (body *bufferedBody) Read(p []byte) (int, error) {
 		copy(bufNew[0:bufLen], common.bytes[0:bufLen])
 		common.bytes = bufNew[0:bufLen]
 
-		for numToRead > 0 {
+		for numToRead > 0 && endBuffer < endOffset {
 			i := bufLen
 			x := numToRead
 			j := i + x
@@ -206,7 +206,7 @@ func (body *bufferedBody) Read(p []byte) (int, error) {
 			}
 		}
 
-		if eof && common.err == nil {
+		if eof && numToRead == 0 && common.err == nil {
 			common.length = endBuffer
 			common.err = io.EOF
 		}
-- 
2.43.0


From 975d49daa4b00bb059fd7dca5c04d52237371e69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:50:57 +0000
Subject: [PATCH 09/16] fix: Serve did not close the body when pushing failed

---
 response/response.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/response/response.go b/response/response.go
index 9edc07f..8e28a12 100644
--- a/response/response.go
+++ b/response/response.go
@@ -80,6 +80,7 @@ func (resp *Response) Serve(w http.ResponseWriter) error {
 		for _, url := range vlist {
 			err := x.Push(url, &http.PushOptions{})
 			if err != nil && !errors.Is(err, http.ErrNotSupported) {
+				_ = resp.body.Close()
 				return err
 			}
 		}
-- 
2.43.0


From 2379773f10caf3311dea2776cd9031603cf7628e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:50:57 +0000
Subject: [PATCH 10/16] fix: Writer forwarded body bytes for 304 responses

Like 204, 304 has no body; net/http refuses the bytes with an error.
---
 response/writer.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/response/writer.go b/response/writer.go
index a4241e4..474dcaa 100644
--- a/response/writer.go
+++ b/response/writer.go
@@ -57,6 +57,10 @@ func (w *basicWriter) writeHeaderImpl(status int) {
 	w.next.WriteHeader(status)
 }
 
+func (w *basicWriter) isBodyless() bool {
+	return w.isHEAD || w.status == http.StatusNoContent || w.status == http.StatusNotModified
+}
+
 func (w *basicWriter) MaybeWriteHeader(status int) {
 	assert.Assertf(status >= 100, "%d >= %d", status, 100)
 	assert.Assertf(status <= 999, "%d <= %d", status, 999)
@@ -80,7 +84,7 @@ func (w *basicWriter) WriteHeader(status int) {
 func (w *basicWriter) Write(p []byte) (int, error) {
 	w.MaybeWriteHeader(http.StatusOK)
 
-	if w.isHEAD || w.status == http.StatusNoContent {
+	if w.isBodyless() {
 		return len(p), nil
 	}
 
@@ -141,7 +145,7 @@ func (w *fancyWriter) Hijack() (net.Conn, *bufio.ReadWriter, error) {
 func (w *fancyWriter) ReadFrom(r io.Reader) (int64, error) {
 	w.MaybeWriteHeader(http.StatusOK)
 
-	if w.isHEAD || w.status == http.StatusNoContent {
+	if w.isBodyless() {
 		return io.Copy(io.Discard, r)
 	}
 
-- 
2.43.0


From 115573636cd764387997e9b7d38a6592758f85b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:50:58 +0000
Subject: [PATCH 11/16] fix: a failed ReadFrom was not visible in SawError

---
 response/writer.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/response/writer.go b/response/writer.go
index 474dcaa..aaa90db 100644
--- a/response/writer.go
+++ b/response/writer.go
@@ -152,6 +152,9 @@ func (w *fancyWriter) ReadFrom(r io.Reader) (int64, error) {
 	n, err := w.next.(io.ReaderFrom).ReadFrom(r)
 	assert.Assertf(n >= 0, "%d >= 0", n)
 	w.bytes += n
+	if err != nil {
+		w.sawError = true
+	}
 	return n, err
 }
 
-- 
2.43.0


From 22789d739aa4bffb05d62ff675ff880d3999cdbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:50:58 +0000
Subject: [PATCH 12/16] fix: failed requests were counted under status code 0

The label was computed before the 500 was sent.
---
 handler/adaptor.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/handler/adaptor.go b/handler/adaptor.go
index cd3ae56..005c35e 100644
--- a/handler/adaptor.go
+++ b/handler/adaptor.go
@@ -79,6 +79,7 @@ func (a Adaptor) ServeHTTP(w http.ResponseWriter, req *http.Request) {
 
 	defer func() {
 		panicValue := recover()
+		ww.MaybeWriteHeader(http.StatusInternalServerError)
 		code := strconv.Itoa(ww.Status())
 		elapsedDuration := time.Since(startTime)
 		elapsed := float64(elapsedDuration) / float64(time.Second)
@@ -86,7 +87,6 @@ func (a Adaptor) ServeHTTP(w http.ResponseWriter, req *http.Request) {
 		sendBytes := float64(ww.BytesWritten())
 		labels := prometheus.Labels{"code": code}
 
-		ww.MaybeWriteHeader(http.StatusInternalServerError)
 		if panicValue != nil {
 			PromPanicsTotal.Inc()
 		}
-- 
2.43.0


From eb79eb5228f10d0cb0a6b756119431d960157916 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:10:43 +0000
Subject: [PATCH 13/16] fix: ReadAt of an empty body accepted negative offsets

Every other body reports an error for them.
---
 body/empty.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/body/empty.go b/body/empty.go
index c80a1f0..f8c43da 100644
--- a/body/empty.go
+++ b/body/empty.go
@@ -1,6 +1,7 @@
 package body
 
 import (
+	"fmt"
 	"io"
 	"io/fs"
 	"sync"
@@ -81,6 +82,10 @@ func (body *emptyBody) ReadAt(p []byte, offset int64) (int, error) {
 		return 0, fs.ErrClosed
 	}
 
+	if offset < 0 {
+		return 0, fmt.Errorf("ReadAt error: offset %d is negative", offset)
+	}
+
 	if len(p) > 0 {
 		return 0, io.EOF
 	}
-- 
2.43.0


From 26a3d47887cc1068d27cad6c7d2a46eae17ae7cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:56:27 +0000
Subject: [PATCH 14/16] fix: buffered body kept bytes that every copy had
 passed

Reslicing the shared buffer does not free what lies in front of it, so the
whole array stayed alive until the next refill (or, at end of file, until the
last Close), e.g. after closing a lagging copy.
---
 body/buffered.go | 22 ++++++++++++++++++++++
 1 file changed, 22 insertions(+)

diff --git a/body/buffered.go b/body/buffered.go
index 7e40a4f..e3923ab 100644
--- a/body/buffered.go
+++ b/body/buffered.go
@@ -16,6 +16,7 @@ type bufferedCommon struct {
 	err    error
 	bodies map[*bufferedBody]struct{}
 	bytes  []byte
+	size   int
 	length int64
 	start  int64
 	refcnt int32
@@ -42,6 +43,7 @@ func (common *bufferedCommon) unref(body *bufferedBody) error {
 			common.refcnt--
 			if common.refcnt <= 0 {
 				common.updateStart()
+				common.compact()
 			}
 		}
 		return nil
@@ -53,6 +55,7 @@ func (common *bufferedCommon) unref(body *bufferedBody) error {
 	common.err = nil
 	common.bodies = nil
 	common.bytes = nil
+	common.size = 0
 	common.length = 0
 	common.start = 0
 
@@ -102,6 +105,23 @@ func (common *bufferedCommon) updateStart() {
 	common.refcnt = refcnt
 }
 
+// compact releases the array behind common.bytes if most of it is unused.
+// (Reslicing common.bytes does not free the bytes in front of it.)
+func (common *bufferedCommon) compact() {
+	used := len(common.bytes)
+	if common.size-used <= used+blockSize {
+		return
+	}
+	if used == 0 {
+		common.bytes = nil
+	} else {
+		bytesNew := make([]byte, used)
+		copy(bytesNew, common.bytes)
+		common.bytes = bytesNew
+	}
+	common.size = used
+}
+
 type bufferedBody struct {
 	mu     sync.Mutex
 	common *bufferedCommon
@@ -181,6 +201,7 @@ func (body *bufferedBody) Read(p []byte) (int, error) {
 		bufNew := make([]byte, bufCap)
 		copy(bufNew[0:bufLen], common.bytes[0:bufLen])
 		common.bytes = bufNew[0:bufLen]
+		common.size = len(bufNew)
 
 		for numToRead > 0 && endBuffer < endOffset {
 			i := bufLen
@@ -225,6 +246,7 @@ func (body *bufferedBody) Read(p []byte) (int, error) {
 	copy(p[0:n], common.bytes[i:j])
 	body.offset = endOffset
 	common.advance(beginOffset, endOffset)
+	common.compact()
 	return n, err
 }
 
-- 
2.43.0


From 81b6766d927ea8658d7206758adf83b427f367d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:55 +0000
Subject: [PATCH 15/16] fix: Serve shared the Response's header values with the
 writer

---
 response/response.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/response/response.go b/response/response.go
index 8e28a12..ca0ec51 100644
--- a/response/response.go
+++ b/response/response.go
@@ -89,7 +89,7 @@ func (resp *Response) Serve(w http.ResponseWriter) error {
 	h := w.Header()
 	for k, vlist := range resp.hdrs {
 		if k != headerPush {
-			h[k] = vlist
+			h[k] = copyStrings(vlist)
 		}
 	}
 
-- 
2.43.0


From b6c38c008e93701af0408d353eb307a69d25766f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:16:01 +0000
Subject: [PATCH 16/16] fix: FromReader served nothing of pipes and devices

The size that Stat reports for anything but a regular file is not the number
of bytes that can be read (it is 0 for a pipe).
---
 body/body.go | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/body/body.go b/body/body.go
index 74d454a..2c0e260 100644
--- a/body/body.go
+++ b/body/body.go
@@ -275,6 +275,9 @@ func FromProtoText(msg proto.Message, o *prototext.MarshalOptions) Body {
 //   implementation of Body will support io.Seeker and io.ReaderAt, the latter
 //   through emulation using io.ReadSeeker.
 //
+// These promises do not extend to an fs.File that is not a regular file, such
+// as a pipe or a device: that is served as a stream of unknown length.
+//
 func FromReader(r io.Reader) (Body, error) {
 	assert.NotNil(&r)
 
@@ -306,8 +309,15 @@ func FromReaderAndLength(r io.Reader, length int64) (Body, error) {
 			return nil, fmt.Errorf("failed to determine length of body via Stat: %w", err)
 		}
 
-		length = fi.Size()
-		assert.Assertf(length >= 0, "FileInfo.Size must return %d >= 0", length)
+		if fi.Mode().IsRegular() {
+			length = fi.Size()
+			assert.Assertf(length >= 0, "FileInfo.Size must return %d >= 0", length)
+		} else {
+			// Pipes, devices, and so on: the reported size is not the
+			// number of bytes that can be read, and os.File's Seek and
+			// ReadAt don't work on them.
+			sOK, atOK = false, false
+		}
 	}
 
 	if sOK && length < 0 {
-- 
2.43.0

