From 362d07901d85933b54d34298e3e6605e346abbff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:23 +0000
Subject: [PATCH 01/27] fix: listener: Disown of a closed connection no longer
 drops the shard's count twice

---
 graceful/listener/conn.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/graceful/listener/conn.go b/graceful/listener/conn.go
index 7b34b47..d68af24 100644
--- a/graceful/listener/conn.go
+++ b/graceful/listener/conn.go
@@ -141,6 +141,9 @@ func (c *conn) disown() error {
 
 	if c.disowned {
 		return errAlreadyDisowned
+	} else if c.closed {
+		// Close has already given up the shard's reference.
+		return errClosing
 	}
 
 	c.shard.disown(c)
-- 
2.43.0


From 56d5c521d9faa77775ba510a8302dc3268458b12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:36 +0000
Subject: [PATCH 02/27] fix: listener: count a connection only while its shard
 is not draining

Accept added to the shard's WaitGroup without holding the lock, concurrently
with Drain's Wait: WaitGroup misuse, which can panic in Drain.
---
 graceful/listener/conn.go  | 5 +++--
 graceful/listener/shard.go | 3 +++
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/graceful/listener/conn.go b/graceful/listener/conn.go
index d68af24..a6314e3 100644
--- a/graceful/listener/conn.go
+++ b/graceful/listener/conn.go
@@ -24,9 +24,10 @@ type conn struct {
 var errClosing = errors.New("use of closed network connection")
 
 func (c *conn) init() error {
-	c.shard.wg.Add(1)
 	if shouldExit := c.shard.track(c); shouldExit {
-		c.Close()
+		// Never tracked, so there's nothing to release besides the
+		// connection itself.
+		c.Conn.Close()
 		return errClosing
 	}
 	return nil
diff --git a/graceful/listener/shard.go b/graceful/listener/shard.go
index a9addad..2ebbeb4 100644
--- a/graceful/listener/shard.go
+++ b/graceful/listener/shard.go
@@ -30,6 +30,9 @@ func (s *shard) track(c *conn) (shouldClose bool) {
 		s.mu.Unlock()
 		return true
 	}
+	// This has to happen with the lock held: once we've started to drain,
+	// wait may run at any time, and the count must not grow under it.
+	s.wg.Add(1)
 	s.all[c] = struct{}{}
 	s.idle[c] = struct{}{}
 	s.mu.Unlock()
-- 
2.43.0


From b8b78b344e92039a92bb873606d2297f0910ef16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:47 +0000
Subject: [PATCH 03/27] fix: listener: DrainAll leaves a connection alone that
 is disowned while it runs

---
 graceful/listener/conn.go  |  7 +++++--
 graceful/listener/shard.go | 10 +++-------
 2 files changed, 8 insertions(+), 9 deletions(-)

diff --git a/graceful/listener/conn.go b/graceful/listener/conn.go
index a6314e3..ef7f609 100644
--- a/graceful/listener/conn.go
+++ b/graceful/listener/conn.go
@@ -120,11 +120,14 @@ func (c *conn) markInUse() {
 	}
 }
 
-func (c *conn) closeIfIdle() error {
+// closeIfManaged closes the connection on behalf of the listener, which only
+// has a say in it as long as it has not been disowned. Busy connections are left
+// alone unless force is set.
+func (c *conn) closeIfManaged(force bool) error {
 	c.mu.Lock()
 	defer c.mu.Unlock()
 
-	if !c.busy && !c.closed && !c.disowned {
+	if (force || !c.busy) && !c.closed && !c.disowned {
 		c.closed = true
 		c.shard.disown(c)
 		defer c.shard.wg.Done()
diff --git a/graceful/listener/shard.go b/graceful/listener/shard.go
index 2ebbeb4..77edba7 100644
--- a/graceful/listener/shard.go
+++ b/graceful/listener/shard.go
@@ -79,8 +79,8 @@ func (s *shard) closeConns(all, drain bool) {
 		}
 	}
 	// We have to drop the shard lock here to avoid deadlock: we cannot
-	// acquire the shard lock after the connection lock, and the closeIfIdle
-	// call below will grab a connection lock.
+	// acquire the shard lock after the connection lock, and the
+	// closeIfManaged call below will grab a connection lock.
 	s.mu.Unlock()
 
 	for c := range set {
@@ -88,11 +88,7 @@ func (s *shard) closeConns(all, drain bool) {
 		// can do anything about it, so let's just pretend it didn't
 		// happen. (I also expect that most errors returned in this way
 		// are going to be pretty boring)
-		if all {
-			c.Close()
-		} else {
-			c.closeIfIdle()
-		}
+		c.closeIfManaged(all)
 	}
 }
 
-- 
2.43.0


From ca5cdc7316dc04e292a00d3ab88ca9bed4e9750d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:10 +0000
Subject: [PATCH 04/27] fix: listener: marking a closed or disowned connection
 idle no longer retains it

---
 graceful/listener/conn.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/graceful/listener/conn.go b/graceful/listener/conn.go
index ef7f609..17489f5 100644
--- a/graceful/listener/conn.go
+++ b/graceful/listener/conn.go
@@ -96,12 +96,14 @@ func (c *conn) markIdle() {
 	c.mu.Lock()
 	defer c.mu.Unlock()
 
-	if !c.busy {
+	// The shard must not hear of connections it's no longer tracking: it
+	// would hold on to them forever.
+	if !c.busy || c.closed || c.disowned {
 		return
 	}
 	c.busy = false
 
-	if exit := c.shard.markIdle(c); exit && !c.closed && !c.disowned {
+	if exit := c.shard.markIdle(c); exit {
 		c.closed = true
 		c.shard.disown(c)
 		defer c.shard.wg.Done()
-- 
2.43.0


From 2dc33015de96db6d52e81794baabebc1ab145f9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:02 +0000
Subject: [PATCH 05/27] fix: listener: refuse connections with the error
 package graceful takes for a shutdown

An Accept that lost the race with Drain made graceful.Serve return an error,
and goji.Serve exit, in the middle of a graceful shutdown.
---
 graceful/listener/listener.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/graceful/listener/listener.go b/graceful/listener/listener.go
index 6c9c477..6736a67 100644
--- a/graceful/listener/listener.go
+++ b/graceful/listener/listener.go
@@ -86,7 +86,10 @@ func (t *T) Accept() (net.Conn, error) {
 	}
 
 	if err = wc.init(); err != nil {
-		return nil, err
+		// Look just like package net does when a listener is closed under
+		// us: that's how our callers tell a shutdown from a failure.
+		addr := t.l.Addr()
+		return nil, &net.OpError{Op: "accept", Net: addr.Network(), Addr: addr, Err: err}
 	}
 	return wc, nil
 }
-- 
2.43.0


From 018ce28810e57cac5c00e6fd7f550525fd12782c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:15 +0000
Subject: [PATCH 06/27] fix: graceful: a listener registered after the shutdown
 began is shut down too

A signal that arrived before Serve had registered its listener was lost on that
listener: the server kept running, and no later signal could stop it gracefully.
---
 graceful/graceful.go | 6 ++++++
 graceful/signal.go   | 4 ++--
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/graceful/graceful.go b/graceful/graceful.go
index 19490e0..f99b60c 100644
--- a/graceful/graceful.go
+++ b/graceful/graceful.go
@@ -35,6 +35,12 @@ func appendListener(l *listener.T) {
 	defer mu.Unlock()
 
 	listeners = append(listeners, l)
+	if atomic.LoadInt32(&closing) != 0 {
+		// We're late to the party: everyone else has been told to shut
+		// down already, and nobody is going to come back for us.
+		l.Close()
+		go l.Drain()
+	}
 }
 
 const errClosing = "use of closed network connection"
diff --git a/graceful/signal.go b/graceful/signal.go
index 55061a5..48f9b71 100644
--- a/graceful/signal.go
+++ b/graceful/signal.go
@@ -200,13 +200,13 @@ func shutdown(force bool, sig os.Signal) {
 }
 
 func closeListeners(force bool) {
-	atomic.StoreInt32(&closing, 1)
-
 	var wg sync.WaitGroup
 	defer wg.Wait()
 
 	mu.Lock()
 	defer mu.Unlock()
+	// Listeners that are added from here on close themselves.
+	atomic.StoreInt32(&closing, 1)
 	wg.Add(len(listeners))
 
 	for _, l := range listeners {
-- 
2.43.0


From 503ae2a86fbcc7fc64fc54766724732f45e64023 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:13 +0000
Subject: [PATCH 07/27] fix: graceful: a connection handling a pipelined
 request is in use

---
 graceful/serve13.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/graceful/serve13.go b/graceful/serve13.go
index 68cac04..c7a956b 100644
--- a/graceful/serve13.go
+++ b/graceful/serve13.go
@@ -45,6 +45,14 @@ func (c connState) Wrap(nc net.Conn, s http.ConnState) {
 	// I'd be very eager to find a better way to do this, so reach out to me
 	// if you have any ideas.
 	switch s {
+	case http.StateActive:
+		// Reading from the connection marks it in use, which is all we
+		// need to know about most requests. A pipelined request however
+		// was read along with the one before it, and its connection has
+		// been marked idle since.
+		if err := listener.MarkInUse(nc); err != nil {
+			log.Printf("error marking conn as in use: %v", err)
+		}
 	case http.StateIdle:
 		if err := listener.MarkIdle(nc); err != nil {
 			log.Printf("error marking conn as idle: %v", err)
-- 
2.43.0


From 71ae721baaddc7e6940cf9a90cfb4352a49b32dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:49 +0000
Subject: [PATCH 08/27] fix: web: matching a regexp pattern no longer binds its
 URL parameters

Match is consulted for every plausible route, whether or not the route is then
selected; a regexp route of another method left its submatches in the
URLParams of the request.
---
 web/regexp_pattern.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/web/regexp_pattern.go b/web/regexp_pattern.go
index 95e7e09..7b2a1c5 100644
--- a/web/regexp_pattern.go
+++ b/web/regexp_pattern.go
@@ -19,7 +19,7 @@ func (p regexpPattern) Prefix() string {
 	return p.prefix
 }
 func (p regexpPattern) Match(r *http.Request, c *C) bool {
-	return p.match(r, c, false)
+	return p.match(r, c, true)
 }
 func (p regexpPattern) Run(r *http.Request, c *C) {
 	p.match(r, c, false)
-- 
2.43.0


From 458395d7de08b994f2e5e4072c491467200bb6c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:49 +0000
Subject: [PATCH 09/27] fix: web: anchor every alternative of a regexp pattern

Prefixing \A to the source anchors only the first of several top-level
alternatives.
---
 web/regexp_pattern.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/web/regexp_pattern.go b/web/regexp_pattern.go
index 7b2a1c5..c107e6e 100644
--- a/web/regexp_pattern.go
+++ b/web/regexp_pattern.go
@@ -87,7 +87,7 @@ func sketchOnRegex(re *regexp.Regexp) (*regexp.Regexp, string) {
 	}
 	if p.StartCond()&syntax.EmptyBeginText == 0 {
 		// I hope doing this is always legal...
-		newRe, err := regexp.Compile(`\A` + rawRe)
+		newRe, err := regexp.Compile(`\A(?:` + rawRe + `)`)
 		if err != nil {
 			log.Printf("WARN(web): unable to create a left-"+
 				"anchored regexp from %v. This route might "+
-- 
2.43.0


From 0ef35525229460f281e13a6e62b915e740d27dab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:12 +0000
Subject: [PATCH 10/27] fix: graceful: run hooks without holding the package's
 lock

While a hook ran, the signal loop waited for it: signals that came in
meanwhile started their timeout, and the double-kick window, late. And a hook
that called back into the package deadlocked the shutdown.
---
 graceful/signal.go | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/graceful/signal.go b/graceful/signal.go
index 48f9b71..b2ff531 100644
--- a/graceful/signal.go
+++ b/graceful/signal.go
@@ -170,8 +170,11 @@ var preOnce, closeOnce, forceOnce, postOnce, notifyOnce sync.Once
 func shutdown(force bool, sig os.Signal) {
 	preOnce.Do(func() {
 		mu.Lock()
-		defer mu.Unlock()
-		for _, f := range prehooks {
+		hooks := prehooks
+		mu.Unlock()
+		// Hooks may take their time, and may call us back: neither they
+		// nor signals that come in meanwhile should have to wait.
+		for _, f := range hooks {
 			f(sig)
 		}
 	})
@@ -188,8 +191,9 @@ func shutdown(force bool, sig os.Signal) {
 
 	postOnce.Do(func() {
 		mu.Lock()
-		defer mu.Unlock()
-		for _, f := range posthooks {
+		hooks := posthooks
+		mu.Unlock()
+		for _, f := range hooks {
 			f(sig)
 		}
 	})
-- 
2.43.0


From 4e85c815d361da8285e9e45ae5be22b379efccd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:49 +0000
Subject: [PATCH 11/27] fix: mutil: let informational headers precede the final
 one

A proxied WriteHeader(103) was taken for the final header: Status reported
103 and the real status was never sent.
---
 web/mutil/writer_proxy_go1_8.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/web/mutil/writer_proxy_go1_8.go b/web/mutil/writer_proxy_go1_8.go
index 2019c98..5b920d9 100644
--- a/web/mutil/writer_proxy_go1_8.go
+++ b/web/mutil/writer_proxy_go1_8.go
@@ -55,8 +55,12 @@ type basicWriter struct {
 
 func (b *basicWriter) WriteHeader(code int) {
 	if !b.wroteHeader {
-		b.code = code
-		b.wroteHeader = true
+		// Any number of informational headers may precede the final
+		// one. As in package http, 101 is a final status.
+		if code < 100 || code > 199 || code == http.StatusSwitchingProtocols {
+			b.code = code
+			b.wroteHeader = true
+		}
 		b.ResponseWriter.WriteHeader(code)
 	}
 }
-- 
2.43.0


From 7ed85e9b17d962f137e4c05d007f5ee2c81d1253 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:49 +0000
Subject: [PATCH 12/27] fix: mutil: a flushed response has a status

Flush makes package http send the header with status 200. The proxy did not
notice: Status stayed 0, and could then become one that was never sent.
---
 web/mutil/writer_proxy_go1_8.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/web/mutil/writer_proxy_go1_8.go b/web/mutil/writer_proxy_go1_8.go
index 5b920d9..7743b56 100644
--- a/web/mutil/writer_proxy_go1_8.go
+++ b/web/mutil/writer_proxy_go1_8.go
@@ -114,6 +114,8 @@ func (f *fancyWriter) Push(target string, opts *http.PushOptions) error {
 }
 
 func (f *fancyWriter) Flush() {
+	// Flushing sends the header.
+	f.basicWriter.maybeWriteHeader()
 	fl := f.basicWriter.ResponseWriter.(http.Flusher)
 	fl.Flush()
 }
-- 
2.43.0


From b8dd7d28cc09f6a3c78c97a97fb78b924b06723e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:49 +0000
Subject: [PATCH 13/27] fix: mutil: count the bytes ReadFrom sends

---
 web/mutil/writer_proxy_go1_8.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/web/mutil/writer_proxy_go1_8.go b/web/mutil/writer_proxy_go1_8.go
index 7743b56..de47aa7 100644
--- a/web/mutil/writer_proxy_go1_8.go
+++ b/web/mutil/writer_proxy_go1_8.go
@@ -131,7 +131,9 @@ func (f *fancyWriter) ReadFrom(r io.Reader) (int64, error) {
 	}
 	rf := f.basicWriter.ResponseWriter.(io.ReaderFrom)
 	f.basicWriter.maybeWriteHeader()
-	return rf.ReadFrom(r)
+	n, err := rf.ReadFrom(r)
+	f.basicWriter.bytes += int(n)
+	return n, err
 }
 
 var (
-- 
2.43.0


From f4e28af3380f55ee4fc526058dd8751602210382 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:49 +0000
Subject: [PATCH 14/27] fix: mutil: return ErrNotSupported from Push if there
 is no Pusher

Wrapping any HTTP/1 response writer yields a proxy with a Push method, which
used to panic.
---
 web/mutil/writer_proxy_go1_8.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/web/mutil/writer_proxy_go1_8.go b/web/mutil/writer_proxy_go1_8.go
index de47aa7..51ea50e 100644
--- a/web/mutil/writer_proxy_go1_8.go
+++ b/web/mutil/writer_proxy_go1_8.go
@@ -110,7 +110,10 @@ type fancyWriter struct {
 }
 
 func (f *fancyWriter) Push(target string, opts *http.PushOptions) error {
-	return f.basicWriter.ResponseWriter.(http.Pusher).Push(target, opts)
+	if ps, ok := f.basicWriter.ResponseWriter.(http.Pusher); ok {
+		return ps.Push(target, opts)
+	}
+	return http.ErrNotSupported
 }
 
 func (f *fancyWriter) Flush() {
-- 
2.43.0


From 3f56350f57a343454d9cbd571f50d8825a2a6ecb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:49 +0000
Subject: [PATCH 15/27] fix: mutil: proxy Flusher for writers that cannot be
 hijacked

Since the go1.8 variant of this file, wrapping the response writer of an
HTTP/2 request (or any Flusher that is not also a Hijacker and ReaderFrom)
gave a proxy that could not be flushed.
---
 web/mutil/writer_proxy_go1_8.go | 25 +++++++++++++++++++++++++
 1 file changed, 25 insertions(+)

diff --git a/web/mutil/writer_proxy_go1_8.go b/web/mutil/writer_proxy_go1_8.go
index 51ea50e..b00b8bc 100644
--- a/web/mutil/writer_proxy_go1_8.go
+++ b/web/mutil/writer_proxy_go1_8.go
@@ -40,6 +40,9 @@ func WrapWriter(w http.ResponseWriter) WriterProxy {
 	if fl && hj && rf {
 		return &fancyWriter{bw}
 	}
+	if fl {
+		return &flushWriter{bw}
+	}
 	return &bw
 }
 
@@ -139,9 +142,31 @@ func (f *fancyWriter) ReadFrom(r io.Reader) (int64, error) {
 	return n, err
 }
 
+// flushWriter is a writer that additionally satisfies http.Flusher and
+// http.Pusher. Package http's HTTP/2 support hands out such writers.
+type flushWriter struct {
+	basicWriter
+}
+
+func (f *flushWriter) Flush() {
+	// Flushing sends the header.
+	f.basicWriter.maybeWriteHeader()
+	fl := f.basicWriter.ResponseWriter.(http.Flusher)
+	fl.Flush()
+}
+
+func (f *flushWriter) Push(target string, opts *http.PushOptions) error {
+	if ps, ok := f.basicWriter.ResponseWriter.(http.Pusher); ok {
+		return ps.Push(target, opts)
+	}
+	return http.ErrNotSupported
+}
+
 var (
 	_ http.Pusher   = &fancyWriter{}
 	_ http.Flusher  = &fancyWriter{}
 	_ http.Hijacker = &fancyWriter{}
 	_ io.ReaderFrom = &fancyWriter{}
+	_ http.Flusher  = &flushWriter{}
+	_ http.Pusher   = &flushWriter{}
 )
-- 
2.43.0


From 0905d812a6c31f9e3d81a35057640192d2743c46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:57 +0000
Subject: [PATCH 16/27] fix: mutil: let ReadFrom of an empty or failing reader
 leave the header alone

Package http sends the header with the first byte. The proxy sent it with
status 200 before there was one, so that a handler whose io.Copy failed at
once could no longer report an error.
---
 web/mutil/writer_proxy_go1_8.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/web/mutil/writer_proxy_go1_8.go b/web/mutil/writer_proxy_go1_8.go
index b00b8bc..309dbc2 100644
--- a/web/mutil/writer_proxy_go1_8.go
+++ b/web/mutil/writer_proxy_go1_8.go
@@ -136,8 +136,13 @@ func (f *fancyWriter) ReadFrom(r io.Reader) (int64, error) {
 		return io.Copy(&f.basicWriter, r)
 	}
 	rf := f.basicWriter.ResponseWriter.(io.ReaderFrom)
-	f.basicWriter.maybeWriteHeader()
 	n, err := rf.ReadFrom(r)
+	if n > 0 && !f.basicWriter.wroteHeader {
+		// Sending a body sends the header. If r had nothing to offer
+		// it is still up to the caller.
+		f.basicWriter.code = http.StatusOK
+		f.basicWriter.wroteHeader = true
+	}
 	f.basicWriter.bytes += int(n)
 	return n, err
 }
-- 
2.43.0


From 0d67fe7498120441637a11cc9f449ef451a314c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:38 +0000
Subject: [PATCH 17/27] fix: requests that came by TLS had no TLS state

net/http only fills in Request.TLS if the connection it is given is a
*tls.Conn or has its ConnectionState and HandshakeContext methods, which the
listener's own connections hid.
---
 graceful/listener/listener.go |  8 +++----
 graceful/listener/tls.go      | 39 +++++++++++++++++++++++++++++++++++
 graceful/listener/tls16.go    | 14 +++++++++++++
 3 files changed, 57 insertions(+), 4 deletions(-)
 create mode 100644 graceful/listener/tls.go
 create mode 100644 graceful/listener/tls16.go

diff --git a/graceful/listener/listener.go b/graceful/listener/listener.go
index 6736a67..70316ea 100644
--- a/graceful/listener/listener.go
+++ b/graceful/listener/listener.go
@@ -91,7 +91,7 @@ func (t *T) Accept() (net.Conn, error) {
 		addr := t.l.Addr()
 		return nil, &net.OpError{Op: "accept", Net: addr.Network(), Addr: addr, Err: err}
 	}
-	return wc, nil
+	return expose(wc), nil
 }
 
 // Addr returns the wrapped listener's network address.
@@ -152,7 +152,7 @@ var errNotManaged = errors.New("listener: passed net.Conn is not managed by this
 // passed connection must have been returned by a call to Accept from this
 // listener.
 func Disown(c net.Conn) error {
-	if cn, ok := c.(*conn); ok {
+	if cn, ok := managed(c); ok {
 		return cn.disown()
 	}
 	return errNotManaged
@@ -162,7 +162,7 @@ func Disown(c net.Conn) error {
 // closing at any time. The passed connection must have been returned by a call
 // to Accept from this listener.
 func MarkIdle(c net.Conn) error {
-	if cn, ok := c.(*conn); ok {
+	if cn, ok := managed(c); ok {
 		cn.markIdle()
 		return nil
 	}
@@ -173,7 +173,7 @@ func MarkIdle(c net.Conn) error {
 // connections which are eligible for closing. The passed connection must have
 // been returned by a call to Accept from this listener.
 func MarkInUse(c net.Conn) error {
-	if cn, ok := c.(*conn); ok {
+	if cn, ok := managed(c); ok {
 		cn.markInUse()
 		return nil
 	}
diff --git a/graceful/listener/tls.go b/graceful/listener/tls.go
new file mode 100644
index 0000000..f87ccf0
--- /dev/null
+++ b/graceful/listener/tls.go
@@ -0,0 +1,39 @@
+// +build go1.17
+
+package listener
+
+import (
+	"context"
+	"crypto/tls"
+	"net"
+)
+
+// tlsState is what net/http wants of a connection in order to fill in the TLS
+// field of requests.
+type tlsState interface {
+	ConnectionState() tls.ConnectionState
+	HandshakeContext(ctx context.Context) error
+}
+
+// A conn that speaks TLS.
+type tlsConn struct {
+	*conn
+	tlsState
+}
+
+// expose returns what is handed out in place of the given connection.
+func expose(c *conn) net.Conn {
+	if s, ok := c.Conn.(tlsState); ok {
+		return tlsConn{c, s}
+	}
+	return c
+}
+
+// managed is the inverse of expose.
+func managed(c net.Conn) (*conn, bool) {
+	if t, ok := c.(tlsConn); ok {
+		return t.conn, true
+	}
+	cn, ok := c.(*conn)
+	return cn, ok
+}
diff --git a/graceful/listener/tls16.go b/graceful/listener/tls16.go
new file mode 100644
index 0000000..bb81d48
--- /dev/null
+++ b/graceful/listener/tls16.go
@@ -0,0 +1,14 @@
+// +build !go1.17
+
+package listener
+
+import "net"
+
+func expose(c *conn) net.Conn {
+	return c
+}
+
+func managed(c net.Conn) (*conn, bool) {
+	cn, ok := c.(*conn)
+	return cn, ok
+}
-- 
2.43.0


From 9a0fc0e1d9aa17d66c86eff80a34ec6a265a410f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:53:05 +0000
Subject: [PATCH 18/27] fix: graceful: keep all of a Server's TLSConfig, not
 just the fields of Go 1.6

ListenAndServeTLS copied a TLSConfig field by field and so silently dropped
GetConfigForClient, VerifyPeerCertificate, VerifyConnection and others.
---
 graceful/clone16.go |  2 +-
 graceful/clone18.go | 15 +++++++++++++++
 2 files changed, 16 insertions(+), 1 deletion(-)
 create mode 100644 graceful/clone18.go

diff --git a/graceful/clone16.go b/graceful/clone16.go
index 810b3a2..18fbbbc 100644
--- a/graceful/clone16.go
+++ b/graceful/clone16.go
@@ -1,4 +1,4 @@
-// +build go1.6
+// +build go1.6,!go1.8
 
 package graceful
 
diff --git a/graceful/clone18.go b/graceful/clone18.go
new file mode 100644
index 0000000..3fb663e
--- /dev/null
+++ b/graceful/clone18.go
@@ -0,0 +1,15 @@
+// +build go1.8
+
+package graceful
+
+import "crypto/tls"
+
+// cloneTLSConfig leaves it to crypto/tls to know all of the fields there are:
+// going through them by hand we would lose the ones that came after us, many of
+// which decide whom a server talks to.
+func cloneTLSConfig(cfg *tls.Config) *tls.Config {
+	if cfg == nil {
+		return &tls.Config{}
+	}
+	return cfg.Clone()
+}
-- 
2.43.0


From 677ebfe576ce4159bbf2aba4f8c4668dab95e89b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:53:12 +0000
Subject: [PATCH 19/27] fix: graceful: ListenAndServeTLS takes the certificates
 of TLSConfig

As with net/http, the files need not be given if the TLSConfig has certificates
or a way to come by them.
---
 graceful/clone.go   |  5 +++++
 graceful/clone16.go |  5 +++++
 graceful/clone18.go |  6 ++++++
 graceful/server.go  | 10 ++++++----
 4 files changed, 22 insertions(+), 4 deletions(-)

diff --git a/graceful/clone.go b/graceful/clone.go
index a9027e5..7a615bd 100644
--- a/graceful/clone.go
+++ b/graceful/clone.go
@@ -9,3 +9,8 @@ func cloneTLSConfig(cfg *tls.Config) *tls.Config {
 	c := *cfg
 	return &c
 }
+
+// hasCertificate reports whether a server can do without a certificate file.
+func hasCertificate(cfg *tls.Config) bool {
+	return len(cfg.Certificates) > 0
+}
diff --git a/graceful/clone16.go b/graceful/clone16.go
index 18fbbbc..d278b2a 100644
--- a/graceful/clone16.go
+++ b/graceful/clone16.go
@@ -32,3 +32,8 @@ func cloneTLSConfig(cfg *tls.Config) *tls.Config {
 		CurvePreferences:         cfg.CurvePreferences,
 	}
 }
+
+// hasCertificate reports whether a server can do without a certificate file.
+func hasCertificate(cfg *tls.Config) bool {
+	return len(cfg.Certificates) > 0 || cfg.GetCertificate != nil
+}
diff --git a/graceful/clone18.go b/graceful/clone18.go
index 3fb663e..e29801b 100644
--- a/graceful/clone18.go
+++ b/graceful/clone18.go
@@ -13,3 +13,9 @@ func cloneTLSConfig(cfg *tls.Config) *tls.Config {
 	}
 	return cfg.Clone()
 }
+
+// hasCertificate reports whether a server can do without a certificate file.
+func hasCertificate(cfg *tls.Config) bool {
+	return len(cfg.Certificates) > 0 || cfg.GetCertificate != nil ||
+		cfg.GetConfigForClient != nil
+}
diff --git a/graceful/server.go b/graceful/server.go
index ae9a5fb..3534533 100644
--- a/graceful/server.go
+++ b/graceful/server.go
@@ -65,10 +65,12 @@ func (srv *Server) ListenAndServeTLS(certFile, keyFile string) error {
 	}
 
 	var err error
-	config.Certificates = make([]tls.Certificate, 1)
-	config.Certificates[0], err = tls.LoadX509KeyPair(certFile, keyFile)
-	if err != nil {
-		return err
+	if !hasCertificate(config) || certFile != "" || keyFile != "" {
+		config.Certificates = make([]tls.Certificate, 1)
+		config.Certificates[0], err = tls.LoadX509KeyPair(certFile, keyFile)
+		if err != nil {
+			return err
+		}
 	}
 
 	ln, err := net.Listen("tcp", addr)
-- 
2.43.0


From 8d9b4e3ebc6e26fd4cb0641c8c8dc10bfeaadf46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:58 +0000
Subject: [PATCH 20/27] fix: middleware: AutomaticOptions answers in spite of
 informational headers

A 404 that was preceded by, say, 103 Early Hints was let through.
---
 web/middleware/options.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/web/middleware/options.go b/web/middleware/options.go
index 4bdce5f..bb9e98d 100644
--- a/web/middleware/options.go
+++ b/web/middleware/options.go
@@ -43,6 +43,11 @@ func (p *autoOptionsProxy) WriteHeader(code int) {
 	methods := getValidMethods(*p.c)
 	switch p.state {
 	case aosInit:
+		if code >= 100 && code < 200 && code != http.StatusSwitchingProtocols {
+			// There's more to come: we can't tell yet.
+			p.w.WriteHeader(code)
+			return
+		}
 		if methods != nil && code == http.StatusNotFound {
 			p.state = aosProxying
 			break
-- 
2.43.0


From df9c843b89cabc9ca81b02e6e32a4882c67a48e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:58 +0000
Subject: [PATCH 21/27] fix: middleware: AutomaticOptions does not announce the
 body it drops

---
 web/middleware/options.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/web/middleware/options.go b/web/middleware/options.go
index bb9e98d..d7827e4 100644
--- a/web/middleware/options.go
+++ b/web/middleware/options.go
@@ -61,6 +61,8 @@ func (p *autoOptionsProxy) WriteHeader(code int) {
 
 	methods = addMethod(methods, "OPTIONS")
 	p.w.Header().Set("Allow", strings.Join(methods, ", "))
+	// This was the length of a body we are going to drop.
+	p.w.Header().Del("Content-Length")
 	p.w.WriteHeader(http.StatusOK)
 }
 
-- 
2.43.0


From 023aba4bf20095575a29c193cf23105a9fd471b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:58 +0000
Subject: [PATCH 22/27] fix: middleware: RealIP takes the first of addresses
 separated by a bare comma

The space after a comma in X-Forwarded-For is optional.
---
 web/middleware/realip.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/web/middleware/realip.go b/web/middleware/realip.go
index ae5599f..3323deb 100644
--- a/web/middleware/realip.go
+++ b/web/middleware/realip.go
@@ -38,11 +38,11 @@ func realIP(r *http.Request) string {
 	var ip string
 
 	if xff := r.Header.Get(xForwardedFor); xff != "" {
-		i := strings.Index(xff, ", ")
+		i := strings.Index(xff, ",")
 		if i == -1 {
 			i = len(xff)
 		}
-		ip = xff[:i]
+		ip = strings.TrimSpace(xff[:i])
 	} else if xrip := r.Header.Get(xRealIP); xrip != "" {
 		ip = xrip
 	}
-- 
2.43.0


From e1624533f0ecbe2c8bd1d286c9c2e9656c95e73a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:33 +0000
Subject: [PATCH 23/27] fix: middleware: NoCache's Expires does not depend on
 the local time zone

It was written in local time and with the name of the local zone, which is not a
date in HTTP; the documentation promises UTC.
---
 web/middleware/nocache.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/web/middleware/nocache.go b/web/middleware/nocache.go
index ae3d260..754d463 100644
--- a/web/middleware/nocache.go
+++ b/web/middleware/nocache.go
@@ -6,7 +6,7 @@ import (
 )
 
 // Unix epoch time
-var epoch = time.Unix(0, 0).Format(time.RFC1123)
+var epoch = time.Unix(0, 0).UTC().Format(time.RFC1123)
 
 // Taken from https://github.com/mytrile/nocache
 var noCacheHeaders = map[string]string{
-- 
2.43.0


From b0e11ba2104f5269b7a01e7045da4d3f6a98de31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:03:33 +0000
Subject: [PATCH 24/27] fix: RawPattern returned another regexp than the one
 that was registered

---
 web/match.go          | 2 +-
 web/regexp_pattern.go | 8 +++++---
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/web/match.go b/web/match.go
index 1a44144..2cbcdfa 100644
--- a/web/match.go
+++ b/web/match.go
@@ -42,7 +42,7 @@ func GetMatch(c C) Match {
 func (m Match) RawPattern() PatternType {
 	switch v := m.Pattern.(type) {
 	case regexpPattern:
-		return v.re
+		return v.raw
 	case stringPattern:
 		return v.raw
 	default:
diff --git a/web/regexp_pattern.go b/web/regexp_pattern.go
index c107e6e..2007809 100644
--- a/web/regexp_pattern.go
+++ b/web/regexp_pattern.go
@@ -10,6 +10,7 @@ import (
 )
 
 type regexpPattern struct {
+	raw    *regexp.Regexp
 	re     *regexp.Regexp
 	prefix string
 	names  []string
@@ -49,7 +50,7 @@ func (p regexpPattern) String() string {
 }
 
 func (p regexpPattern) Raw() *regexp.Regexp {
-	return p.re
+	return p.raw
 }
 
 /*
@@ -129,8 +130,8 @@ Sadness:
 	return re, buf.String()
 }
 
-func parseRegexpPattern(re *regexp.Regexp) regexpPattern {
-	re, prefix := sketchOnRegex(re)
+func parseRegexpPattern(raw *regexp.Regexp) regexpPattern {
+	re, prefix := sketchOnRegex(raw)
 	rnames := re.SubexpNames()
 	// We have to make our own copy since package regexp forbids us
 	// from scribbling over the slice returned by SubexpNames().
@@ -142,6 +143,7 @@ func parseRegexpPattern(re *regexp.Regexp) regexpPattern {
 		names[i] = rname
 	}
 	return regexpPattern{
+		raw:    raw,
 		re:     re,
 		prefix: prefix,
 		names:  names,
-- 
2.43.0


From 169b759bc8b957898ce0675b0ec3dc3cc71290d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:03:33 +0000
Subject: [PATCH 25/27] fix: a regexp pattern with U+FFFD did not match paths
 that are not UTF-8

---
 web/regexp_pattern.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/web/regexp_pattern.go b/web/regexp_pattern.go
index 2007809..314f0dc 100644
--- a/web/regexp_pattern.go
+++ b/web/regexp_pattern.go
@@ -7,6 +7,7 @@ import (
 	"net/http"
 	"regexp"
 	"regexp/syntax"
+	"unicode/utf8"
 )
 
 type regexpPattern struct {
@@ -116,7 +117,8 @@ Sadness:
 			syntax.InstRuneAnyNotNL:
 
 			atStart = false
-			if len(i.Rune) != 1 ||
+			// U+FFFD also matches bytes that are not UTF-8.
+			if len(i.Rune) != 1 || i.Rune[0] == utf8.RuneError ||
 				syntax.Flags(i.Arg)&syntax.FoldCase != 0 {
 				break Sadness
 			}
-- 
2.43.0


From 39480c1a9f8f4f351aa88c88f750e71d55eb98b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:01:43 +0000
Subject: [PATCH 26/27] fix: middleware: NoCache left a conditional header
 whose first value was empty

---
 web/middleware/nocache.go | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/web/middleware/nocache.go b/web/middleware/nocache.go
index 754d463..f392673 100644
--- a/web/middleware/nocache.go
+++ b/web/middleware/nocache.go
@@ -38,9 +38,7 @@ func NoCache(h http.Handler) http.Handler {
 
 		// Delete any ETag headers that may have been set
 		for _, v := range etagHeaders {
-			if r.Header.Get(v) != "" {
-				r.Header.Del(v)
-			}
+			r.Header.Del(v)
 		}
 
 		// Set our NoCache headers
-- 
2.43.0


From 5f436b42f5783a0880e86ff7204f97b5bec1f304 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:23:00 +0000
Subject: [PATCH 27/27] fix: listener: a read that loses the race with a close
 has no data, whatever its error

---
 graceful/listener/conn.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/graceful/listener/conn.go b/graceful/listener/conn.go
index 17489f5..733c667 100644
--- a/graceful/listener/conn.go
+++ b/graceful/listener/conn.go
@@ -46,7 +46,11 @@ func (c *conn) Read(b []byte) (n int, err error) {
 		// concerned about the general case (it's fundamentally racy),
 		// but are mostly trying to prevent a race between a new request
 		// getting read off the wire in one thread while the connection
-		// is being gracefully shut down in another.
+		// is being gracefully shut down in another. Data can come along
+		// with an error, too.
+		if c.closed && err != nil {
+			n = 0
+		}
 		if c.closed && err == nil {
 			n = 0
 			err = errClosing
-- 
2.43.0

