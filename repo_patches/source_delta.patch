From 1fea9017d29090d8044dc7434cfcfdf437791021 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:04:49 +0000
Subject: [PATCH 01/42] fix: rate limiter admitted too many queries at window
 boundaries

---
 rate-limiter.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/rate-limiter.go b/rate-limiter.go
index 98b56f4..a512bba 100644
--- a/rate-limiter.go
+++ b/rate-limiter.go
@@ -78,12 +78,13 @@ func (r *RateLimiter) Resolve(q *dns.Msg, ci ClientInfo) (*dns.Msg, error) {
 	}
 	key := source.String()
 
-	// Calculate the current (fixed) window
-	windowID := time.Now().Unix() / int64(r.Window)
-
 	var reject bool
 	r.mu.Lock()
 
+	// Calculate the current (fixed) window. Must happen under the lock or a
+	// query that was waiting for it could re-open an earlier window.
+	windowID := time.Now().Unix() / int64(r.Window)
+
 	// If we have moved on to the next window, re-initialize the counters
 	if windowID != r.currWinID {
 		r.currWinID = windowID
-- 
2.43.0


From 9dd9f2e018d8c6b4b8fb5c1f920aa43ea43094f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:10:25 +0000
Subject: [PATCH 02/42] fix: request-dedup mixed queries whose client subnets
 only differ in family or presence

---
 request-dedup.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/request-dedup.go b/request-dedup.go
index ce551b4..3127be1 100644
--- a/request-dedup.go
+++ b/request-dedup.go
@@ -14,6 +14,7 @@ type dedupKey struct {
 	qclass      uint16
 	do          bool
 	cd          bool
+	ecs_family  uint16 // 0 if the query has no ECS option
 	ecs_ipv4    uint32
 	ecs_ipv6_hi uint64
 	ecs_ipv6_lo uint64
@@ -50,6 +51,7 @@ func NewRequestDedup(id string, resolver Resolver) *requestDedup {
 
 func (r *requestDedup) Resolve(q *dns.Msg, ci ClientInfo) (*dns.Msg, error) {
 	var (
+		ecsFamily            uint16
 		ecsIPv4              uint32
 		ecsIPv6Lo, ecsIPv6Hi uint64
 		ecsMask              uint8
@@ -65,6 +67,7 @@ func (r *requestDedup) Resolve(q *dns.Msg, ci ClientInfo) (*dns.Msg, error) {
 			if !ok {
 				continue
 			}
+			ecsFamily = ecs.Family
 			switch ecs.Family {
 			case 1: // ip4
 				ecsIPv4 = byteToUint32(ecs.Address.To4())
@@ -82,6 +85,7 @@ func (r *requestDedup) Resolve(q *dns.Msg, ci ClientInfo) (*dns.Msg, error) {
 		qclass:      q.Question[0].Qclass,
 		do:          do,
 		cd:          q.CheckingDisabled,
+		ecs_family:  ecsFamily,
 		ecs_ipv4:    ecsIPv4,
 		ecs_ipv6_hi: ecsIPv6Hi,
 		ecs_ipv6_lo: ecsIPv6Lo,
-- 
2.43.0


From 1353e6381bb7926d5beb7de978644e6d9ea6c424 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:50:40 +0000
Subject: [PATCH 03/42] fix: cache prefetch replaced a valid answer with an
 upstream failure

---
 cache.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/cache.go b/cache.go
index 792130d..3f4cf85 100644
--- a/cache.go
+++ b/cache.go
@@ -247,6 +247,11 @@ func (r *Cache) Resolve(q *dns.Msg, ci ClientInfo) (*dns.Msg, error) {
 						return
 					}
 
+					// Don't replace a good answer with a failure, it is still valid
+					if prefetchA.Rcode != dns.RcodeSuccess && prefetchA.Rcode != dns.RcodeNameError {
+						return
+					}
+
 					// If the prefetched record has a lower TTL than what we had already, there
 					// is no point in storing it in the cache. This can happen when the upstream
 					// resolver also uses caching.
-- 
2.43.0


From e0a62a259b837a8b385f0b99f12eac9b0464223f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:08:04 +0000
Subject: [PATCH 04/42] fix: IPv4-mapped networks in CIDR lists matched the
 wrong addresses

---
 cidr-db.go | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/cidr-db.go b/cidr-db.go
index 611a9a0..9b4f852 100644
--- a/cidr-db.go
+++ b/cidr-db.go
@@ -35,19 +35,24 @@ func NewCidrDB(name string, loader BlocklistLoader) (*CidrDB, error) {
 		}
 		// Append a mask suffix if there isn't one already
 		if !strings.Contains(r, "/") {
-			if strings.Contains(r, ".") { // ip4
-				r += "/32"
-			} else if strings.Contains(r, ":") { // ip6
+			if strings.Contains(r, ":") { // ip6
 				r += "/128"
+			} else if strings.Contains(r, ".") { // ip4
+				r += "/32"
 			}
 		}
-		ip, n, err := net.ParseCIDR(r)
+		_, n, err := net.ParseCIDR(r)
 		if err != nil {
 			return nil, err
 		}
-		if addr := ip.To4(); addr == nil {
+		addr := n.IP.To4()
+		if addr == nil {
 			db.ip6.add(n)
 		} else {
+			// IPv4-mapped IPv6 networks match IPv4 addresses
+			if ones, bits := n.Mask.Size(); bits == 128 {
+				n = &net.IPNet{IP: addr, Mask: net.CIDRMask(ones-96, 32)}
+			}
 			db.ip4.add(n)
 		}
 	}
-- 
2.43.0


From 98b1dd23e15823d3f9f076e1467a2a3893a9e8fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:19:27 +0000
Subject: [PATCH 05/42] fix: response blocklists could judge one response by
 two versions of a list

---
 response-blocklist-ip.go   | 28 +++++++++++++++-------------
 response-blocklist-name.go | 16 ++++++----------
 2 files changed, 21 insertions(+), 23 deletions(-)

diff --git a/response-blocklist-ip.go b/response-blocklist-ip.go
index 698c3a5..f362d5a 100644
--- a/response-blocklist-ip.go
+++ b/response-blocklist-ip.go
@@ -82,15 +82,6 @@ func (r *ResponseBlocklistIP) String() string {
 	return r.id
 }
 
-// Match the IP against the blocklist while holding the lock. The refresh
-// loop closes the old database after swapping in a new one, so the match
-// must complete under the lock to never use a closed database.
-func (r *ResponseBlocklistIP) match(ip net.IP) (*BlocklistMatch, bool) {
-	r.mu.RLock()
-	defer r.mu.RUnlock()
-	return r.BlocklistDB.Match(ip)
-}
-
 func (r *ResponseBlocklistIP) refreshLoopBlocklist(refresh time.Duration) {
 	for {
 		time.Sleep(refresh)
@@ -113,7 +104,11 @@ func (r *ResponseBlocklistIP) refreshLoopBlocklist(refresh time.Duration) {
 	}
 }
 
+// Hold the lock until all records have been matched so the whole response is judged
+// by the same version of the blocklist. The refresh loop closes the old database after
+// swapping in a new one, so it can't be used without the lock either.
 func (r *ResponseBlocklistIP) blockIfMatch(query, answer *dns.Msg, ci ClientInfo) (*dns.Msg, error) {
+	r.mu.RLock()
 	for _, records := range [][]dns.RR{answer.Answer, answer.Ns, answer.Extra} {
 		for _, rr := range records {
 			var ip net.IP
@@ -125,7 +120,8 @@ func (r *ResponseBlocklistIP) blockIfMatch(query, answer *dns.Msg, ci ClientInfo
 			default:
 				continue
 			}
-			if match, ok := r.match(ip); ok != r.Inverted {
+			if match, ok := r.BlocklistDB.Match(ip); ok != r.Inverted {
+				r.mu.RUnlock()
 				log := logger(r.id, query, ci).With(
 					slog.String("list", match.GetList()),
 					slog.String("rule", match.GetRule()),
@@ -144,11 +140,18 @@ func (r *ResponseBlocklistIP) blockIfMatch(query, answer *dns.Msg, ci ClientInfo
 			}
 		}
 	}
+	r.mu.RUnlock()
 	return answer, nil
 }
 
 func (r *ResponseBlocklistIP) filterMatch(query, answer *dns.Msg, ci ClientInfo) (*dns.Msg, error) {
+	// Filter all sections with the same version of the blocklist
+	r.mu.RLock()
 	answer.Answer = r.filterRR(query, ci, answer.Answer)
+	answer.Ns = r.filterRR(query, ci, answer.Ns)
+	answer.Extra = r.filterRR(query, ci, answer.Extra)
+	r.mu.RUnlock()
+
 	// If there's nothing left after applying the filter, return NXDOMAIN or send to the alternative resolver
 	if len(answer.Answer) == 0 {
 		log := Log.With("qname", qName(query))
@@ -159,11 +162,10 @@ func (r *ResponseBlocklistIP) filterMatch(query, answer *dns.Msg, ci ClientInfo)
 		log.Debug("no answers after filtering, blocking response")
 		return nxdomain(query), nil
 	}
-	answer.Ns = r.filterRR(query, ci, answer.Ns)
-	answer.Extra = r.filterRR(query, ci, answer.Extra)
 	return answer, nil
 }
 
+// Remove matching records, must be called with the lock held.
 func (r *ResponseBlocklistIP) filterRR(query *dns.Msg, ci ClientInfo, rrs []dns.RR) []dns.RR {
 	newRRs := make([]dns.RR, 0, len(rrs))
 	for _, rr := range rrs {
@@ -177,7 +179,7 @@ func (r *ResponseBlocklistIP) filterRR(query *dns.Msg, ci ClientInfo, rrs []dns.
 			newRRs = append(newRRs, rr)
 			continue
 		}
-		if match, ok := r.match(ip); ok != r.Inverted {
+		if match, ok := r.BlocklistDB.Match(ip); ok != r.Inverted {
 			log := logger(r.id, query, ci).With(
 				slog.String("list", match.GetList()),
 				slog.String("rule", match.GetRule()),
diff --git a/response-blocklist-name.go b/response-blocklist-name.go
index f656afc..de4a9c7 100644
--- a/response-blocklist-name.go
+++ b/response-blocklist-name.go
@@ -61,15 +61,6 @@ func (r *ResponseBlocklistName) String() string {
 	return r.id
 }
 
-// Match the name against the blocklist while holding the lock to
-// synchronize with the refresh loop swapping the database.
-func (r *ResponseBlocklistName) match(msg *dns.Msg) (*BlocklistMatch, bool) {
-	r.mu.RLock()
-	defer r.mu.RUnlock()
-	_, _, match, ok := r.BlocklistDB.Match(msg)
-	return match, ok
-}
-
 func (r *ResponseBlocklistName) refreshLoopBlocklist(refresh time.Duration) {
 	for {
 		time.Sleep(refresh)
@@ -86,7 +77,10 @@ func (r *ResponseBlocklistName) refreshLoopBlocklist(refresh time.Duration) {
 	}
 }
 
+// Hold the lock until all records have been matched so the whole response is judged
+// by the same version of the blocklist, even while that is being refreshed.
 func (r *ResponseBlocklistName) blockIfMatch(query, answer *dns.Msg, ci ClientInfo) (*dns.Msg, error) {
+	r.mu.RLock()
 	for _, records := range [][]dns.RR{answer.Answer, answer.Ns, answer.Extra} {
 		for _, rr := range records {
 			var name string
@@ -114,7 +108,8 @@ func (r *ResponseBlocklistName) blockIfMatch(query, answer *dns.Msg, ci ClientIn
 			}
 			msg := new(dns.Msg)
 			msg.SetQuestion(name, 0)
-			if rule, ok := r.match(msg); ok != r.Inverted {
+			if _, _, rule, ok := r.BlocklistDB.Match(msg); ok != r.Inverted {
+				r.mu.RUnlock()
 				log := logger(r.id, query, ci).With("rule", rule.GetRule())
 				if r.BlocklistResolver != nil {
 					log.Debug("blocklist match, forwarding to blocklist-resolver", "resolver", r.BlocklistResolver)
@@ -129,6 +124,7 @@ func (r *ResponseBlocklistName) blockIfMatch(query, answer *dns.Msg, ci ClientIn
 			}
 		}
 	}
+	r.mu.RUnlock()
 	return answer, nil
 }
 
-- 
2.43.0


From bd64480861744d538b2d3887c154387531a1da68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:20:24 +0000
Subject: [PATCH 06/42] fix: response name blocklists missed the target of
 HTTPS and SVCB records with parameters

---
 response-blocklist-name.go | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/response-blocklist-name.go b/response-blocklist-name.go
index de4a9c7..9602d68 100644
--- a/response-blocklist-name.go
+++ b/response-blocklist-name.go
@@ -83,7 +83,7 @@ func (r *ResponseBlocklistName) blockIfMatch(query, answer *dns.Msg, ci ClientIn
 	r.mu.RLock()
 	for _, records := range [][]dns.RR{answer.Answer, answer.Ns, answer.Extra} {
 		for _, rr := range records {
-			var name string
+			var name, target string
 			switch r := rr.(type) {
 			case *dns.CNAME:
 				name = r.Target
@@ -96,11 +96,11 @@ func (r *ResponseBlocklistName) blockIfMatch(query, answer *dns.Msg, ci ClientIn
 			case *dns.SRV:
 				name = r.Target
 			case *dns.HTTPS:
-				name = svcbString(&r.SVCB)
+				name, target = svcbString(&r.SVCB), r.Target
 			case *dns.TXT:
 				name = strings.Join(r.Txt, " ")
 			case *dns.SVCB:
-				name = svcbString(r)
+				name, target = svcbString(r), r.Target
 			case *dns.SOA:
 				name = r.Ns
 			default:
@@ -108,7 +108,13 @@ func (r *ResponseBlocklistName) blockIfMatch(query, answer *dns.Msg, ci ClientIn
 			}
 			msg := new(dns.Msg)
 			msg.SetQuestion(name, 0)
-			if _, _, rule, ok := r.BlocklistDB.Match(msg); ok != r.Inverted {
+			_, _, rule, ok := r.BlocklistDB.Match(msg)
+			if !ok && target != "" {
+				// Domain rules can't match the text with parameters, try the target name
+				msg.SetQuestion(target, 0)
+				_, _, rule, ok = r.BlocklistDB.Match(msg)
+			}
+			if ok != r.Inverted {
 				r.mu.RUnlock()
 				log := logger(r.id, query, ci).With("rule", rule.GetRule())
 				if r.BlocklistResolver != nil {
-- 
2.43.0


From b043d012faa92225a8cb61c772e70868ca3c13f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:35:39 +0000
Subject: [PATCH 07/42] fix: close the upstream connection when the reader
 gives up on it

A writer blocked on a peer that stopped reading kept the connection
alive forever, so no later query could open a new one.
---
 pipeline.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pipeline.go b/pipeline.go
index a01a94c..b2a84b1 100644
--- a/pipeline.go
+++ b/pipeline.go
@@ -134,6 +134,9 @@ func (c *Pipeline) start() {
 			}
 		}()
 		go func() { // reader
+			// The writer could be blocked sending to a peer that stopped reading. It
+			// can only notice that this connection is done once it's closed.
+			defer conn.Close()
 			for {
 				// Set the idle deadline on the reader, not the writer since when using UDP "connections",
 				// a network topology change wouldn't be noticed. Putting the idle timeout here ensures
-- 
2.43.0


From 7d3c17705dd90f82aa121a234b261a74ddff698f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:35:39 +0000
Subject: [PATCH 08/42] fix: fail queries whose response can't be decoded

A response with a broken record section was handed to the caller as an
answer without records.
---
 pipeline.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/pipeline.go b/pipeline.go
index b2a84b1..2e77a35 100644
--- a/pipeline.go
+++ b/pipeline.go
@@ -165,8 +165,8 @@ func (c *Pipeline) start() {
 							return
 						}
 						// It's possible the response can't be correctly parsed, but we do have a response.
-						// In this case, return it and carry on, don't terminate the connection because we
-						// got a bad packet (like a truncated one for example).
+						// In this case, fail the query (or return the response if it's a truncated one) and
+						// carry on, don't terminate the connection because we got a bad packet.
 						if a == nil {
 							c.metrics.err.Add("read", 1)
 							log.Warn("read failed", "error", err)
@@ -183,6 +183,12 @@ func (c *Pipeline) start() {
 					log.With("qname", qName(a)).Warn("unexpected answer received, ignoring")
 					continue
 				}
+				if err != nil && !a.Truncated {
+					// Only part of the response could be decoded, it's not an answer.
+					c.metrics.err.Add("read", 1)
+					req.markDone(nil, err)
+					continue
+				}
 				c.metrics.response.Add(rCode(a), 1)
 				req.markDone(a, nil)
 				ql := c.inFlight.maxQueueLen()
-- 
2.43.0


From cb76204c0c25717332c5f3bbcf9a6ee26572bc7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:48:30 +0000
Subject: [PATCH 09/42] fix: ODoH target config without keys no longer crashes
 the client

An empty config list was indexed without checking its length.
---
 odohclient.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/odohclient.go b/odohclient.go
index 8c43b45..2a629fe 100644
--- a/odohclient.go
+++ b/odohclient.go
@@ -181,6 +181,9 @@ func (d *ODoHClient) getTargetConfig() (*odoh.ObliviousDoHConfig, error) {
 		if err != nil {
 			return nil, fmt.Errorf("failed to unmarshal odohConfig: %w", err)
 		}
+		if len(odohConfigs.Configs) == 0 {
+			return nil, errors.New("no usable key in odohConfig")
+		}
 		d.odohConfig = &odohConfigs.Configs[0]
 	} else if d.odohConfig == nil || time.Now().After(d.odohConfigExpiry) {
 		d.odohConfig, d.odohConfigExpiry, err = d.refreshTargetKey()
@@ -206,10 +209,14 @@ func (d *ODoHClient) refreshTargetKey() (*odoh.ObliviousDoHConfig, time.Time, er
 	odohConfigs, err := odoh.UnmarshalObliviousDoHConfigs(bodyBytes)
 	expiry := time.Now().Add(24 * time.Hour)
 
-	if err != nil || len(odohConfigs.Marshal()) < 1 {
+	if err != nil {
 		Log.Warn("Could not load the targets ODoH config")
 		return nil, time.Time{}, err
 	}
+	if len(odohConfigs.Configs) == 0 {
+		Log.Warn("Could not load the targets ODoH config")
+		return nil, time.Time{}, errors.New("no usable key in the target's ODoH config")
+	}
 	Log.Info("Successfully loaded ODoH config", "config", fmt.Sprintf("%x", odohConfigs.Marshal()))
 	return &odohConfigs.Configs[0], expiry, err
 }
-- 
2.43.0


From e554fa7df4151f8064036b315b74c48f35e80eed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:50:38 +0000
Subject: [PATCH 10/42] fix: limit the time to fetch the ODoH target config

A target that stalled while sending its config blocked all queries for good.
---
 odohclient.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/odohclient.go b/odohclient.go
index 2a629fe..55d46e9 100644
--- a/odohclient.go
+++ b/odohclient.go
@@ -193,7 +193,9 @@ func (d *ODoHClient) getTargetConfig() (*odoh.ObliviousDoHConfig, error) {
 
 func (d *ODoHClient) refreshTargetKey() (*odoh.ObliviousDoHConfig, time.Time, error) {
 	var url string = "https://" + d.targetName + ":" + d.targetPort + ODOH_CONFIG_PATH
-	req, err := http.NewRequest(http.MethodGet, url, nil)
+	ctx, cancel := context.WithTimeout(context.Background(), d.proxy.opt.QueryTimeout)
+	defer cancel()
+	req, err := http.NewRequestWithContext(ctx, http.MethodGet, url, nil)
 	if err != nil {
 		return nil, time.Time{}, err
 	}
@@ -202,6 +204,7 @@ func (d *ODoHClient) refreshTargetKey() (*odoh.ObliviousDoHConfig, time.Time, er
 	if err != nil {
 		return nil, time.Time{}, err
 	}
+	defer resp.Body.Close()
 	bodyBytes, err := readBoundedBody(resp.Body, maxDoHResponseSize)
 	if err != nil {
 		return nil, time.Time{}, err
-- 
2.43.0


From 681bb9ef94e7dc44a4d181f331d6db4c92c94e45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:49:02 +0000
Subject: [PATCH 11/42] fix: don't crash the DoQ listener when a query is
 dropped

A resolver can return no response to say that the query is to be dropped.
The listener tried to encode it and panicked. Close the stream instead.
---
 doqlistener.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/doqlistener.go b/doqlistener.go
index 7c6458e..ed48a49 100644
--- a/doqlistener.go
+++ b/doqlistener.go
@@ -268,6 +268,12 @@ func (s *DoQListener) handleStream(stream *quic.Stream, connection *quic.Conn, c
 		a.SetRcode(q, dns.RcodeServerFailure)
 	}
 
+	// A nil response from the resolvers means "drop", close the stream without responding
+	if a == nil {
+		s.metrics.drop.Add(1)
+		return
+	}
+
 	p, err := a.Pack()
 	if err != nil {
 		log.Warn("failed to encode response", "error", err)
-- 
2.43.0


From 7f4f9576f4d6c7da9b1c314f04b33dea37fbf740 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:49:02 +0000
Subject: [PATCH 12/42] fix: truncate UDP responses if the listener is limited
 to an IP version

Listeners with ip-version use the network name udp4 or udp6, which was not
recognized as UDP. Responses were sent in full regardless of the size the
client can take.
---
 dnslistener.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/dnslistener.go b/dnslistener.go
index b93a6d8..ade00fb 100644
--- a/dnslistener.go
+++ b/dnslistener.go
@@ -32,12 +32,14 @@ type ListenOptions struct {
 
 // NewDNSListener returns an instance of either a UDP or TCP DNS listener.
 func NewDNSListener(id, addr, net string, opt ListenOptions, resolver Resolver) *DNSListener {
+	// The network can be limited to an IP version (like "udp4"), the protocol is the same
+	protocol := strings.TrimRight(net, "46")
 	return &DNSListener{
 		id: id,
 		Server: &dns.Server{
 			Addr:    addr,
 			Net:     net,
-			Handler: listenHandler(id, net, addr, resolver, opt.AllowedNet),
+			Handler: listenHandler(id, protocol, addr, resolver, opt.AllowedNet),
 		},
 		opt: opt,
 	}
-- 
2.43.0


From 80e7ff56211bfb13bd92c49caee8915bcd92120c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:50:52 +0000
Subject: [PATCH 13/42] fix: apply allowed-net in the ODoH listener

Clients outside the allowed networks were served if they used oblivious
queries, or the proxy function.
---
 odohlistener.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/odohlistener.go b/odohlistener.go
index c315081..b8d3f61 100644
--- a/odohlistener.go
+++ b/odohlistener.go
@@ -110,6 +110,10 @@ func (s *ODoHListener) Stop() error {
 }
 
 func (s *ODoHListener) ODoHproxyHandler(w http.ResponseWriter, r *http.Request) {
+	if !isAllowed(s.opt.AllowedNet, s.doh.extractClientAddress(r)) {
+		http.Error(w, "client ip not allowed", http.StatusForbidden)
+		return
+	}
 	if r.Method != http.MethodPost {
 		http.Error(w, "only POST allowed", http.StatusMethodNotAllowed)
 		return
@@ -203,6 +207,10 @@ func (s *ODoHListener) ODoHqueryHandler(w http.ResponseWriter, r *http.Request)
 		http.Error(w, "only contentType oblivious-dns-message allowed", http.StatusMethodNotAllowed)
 		return
 	}
+	if !isAllowed(s.opt.AllowedNet, s.doh.extractClientAddress(r)) {
+		http.Error(w, "client ip not allowed", http.StatusForbidden)
+		return
+	}
 	b, err := io.ReadAll(io.LimitReader(r.Body, 4096))
 	if err != nil {
 		http.Error(w, err.Error(), http.StatusBadRequest)
-- 
2.43.0


From aa04138376685827c1d4ed67d6da31e84f5cbc5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:10:18 +0000
Subject: [PATCH 14/42] fix: send large responses compressed on stream
 listeners

Responses above 64K without compression were not sent at all over TCP,
DoT, DoH and ODoH, and had a wrong length prefix over DoQ, even if the
compressed response fits.
---
 dnslistener.go  | 3 +++
 dohlistener.go  | 5 +++++
 doqlistener.go  | 5 +++++
 odohlistener.go | 5 +++++
 4 files changed, 18 insertions(+)

diff --git a/dnslistener.go b/dnslistener.go
index ade00fb..fbb6fac 100644
--- a/dnslistener.go
+++ b/dnslistener.go
@@ -154,6 +154,9 @@ func listenHandler(id, protocol, addr string, r Resolver, allowedNet []*net.IPNe
 				maxSize = int(edns0.UDPSize())
 			}
 			a.Truncate(maxSize)
+		} else if a.Len() > dns.MaxMsgSize {
+			// Large responses may only fit into a DNS message with compression
+			a.Truncate(dns.MaxMsgSize)
 		}
 
 		metrics.response.Add(rCode(a), 1)
diff --git a/dohlistener.go b/dohlistener.go
index eb89737..63999e5 100644
--- a/dohlistener.go
+++ b/dohlistener.go
@@ -383,6 +383,11 @@ func (s *DoHListener) parseAndRespond(b []byte, w http.ResponseWriter, r *http.R
 	// Pad the packet according to rfc8467 and rfc7830
 	padAnswer(q, a)
 
+	// Large responses may only fit into a DNS message with compression
+	if a.Len() > dns.MaxMsgSize {
+		a.Truncate(dns.MaxMsgSize)
+	}
+
 	s.metrics.response.Add(rCode(a), 1)
 	out, err := a.Pack()
 	if err != nil {
diff --git a/doqlistener.go b/doqlistener.go
index ed48a49..9c7cd95 100644
--- a/doqlistener.go
+++ b/doqlistener.go
@@ -274,6 +274,11 @@ func (s *DoQListener) handleStream(stream *quic.Stream, connection *quic.Conn, c
 		return
 	}
 
+	// Large responses may only fit into a DNS message with compression
+	if a.Len() > dns.MaxMsgSize {
+		a.Truncate(dns.MaxMsgSize)
+	}
+
 	p, err := a.Pack()
 	if err != nil {
 		log.Warn("failed to encode response", "error", err)
diff --git a/odohlistener.go b/odohlistener.go
index b8d3f61..5e56ca9 100644
--- a/odohlistener.go
+++ b/odohlistener.go
@@ -257,6 +257,11 @@ func (s *ODoHListener) ODoHqueryHandler(w http.ResponseWriter, r *http.Request)
 		return
 	}
 
+	// Large responses may only fit into a DNS message with compression
+	if a.Len() > dns.MaxMsgSize {
+		a.Truncate(dns.MaxMsgSize)
+	}
+
 	p, err := a.Pack()
 	if err != nil {
 		Log.Error("failed to encode response", "error", err)
-- 
2.43.0


From 39e5fd7310a5946625e3b6fb0c09e37fbc0931ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:11:22 +0000
Subject: [PATCH 15/42] fix: don't pass on upstream padding to clients without
 EDNS0

A padded upstream response could exceed 512 bytes and lose its records
over DTLS although the answer itself fits.
---
 padding.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/padding.go b/padding.go
index f6b6841..19f6854 100644
--- a/padding.go
+++ b/padding.go
@@ -17,6 +17,7 @@ var queryPadBuf [QueryPaddingBlockSize]byte
 func padAnswer(q, a *dns.Msg) {
 	edns0q := q.IsEdns0()
 	if edns0q == nil { // Don't pad if the client does not support EDNS0
+		stripPadding(a)
 		return
 	}
 
-- 
2.43.0


From f7e80b3df0044ae0e49b85b1af5c8b9e54943654 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:40:59 +0000
Subject: [PATCH 16/42] fix: don't crash DNSSEC validation when a key lookup is
 dropped

A resolver that drops the query returns no response and no error.
---
 dnssec/validator.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/dnssec/validator.go b/dnssec/validator.go
index 10a019e..f4dbc7d 100644
--- a/dnssec/validator.go
+++ b/dnssec/validator.go
@@ -314,6 +314,9 @@ func (v *Validator) lookupDNSKEY(name string) (zsk, ksk []*dns.DNSKEY, sigs []*d
 	if err != nil {
 		return nil, nil, nil, err
 	}
+	if a == nil {
+		return nil, nil, nil, fmt.Errorf("no response to DNSKEY lookup for %q", name)
+	}
 	if a.Rcode != dns.RcodeSuccess {
 		return nil, nil, nil, fmt.Errorf("DNSKEY lookup for %q failed: rcode %s", name, dns.RcodeToString[a.Rcode])
 	}
@@ -345,6 +348,9 @@ func (v *Validator) lookupDS(name string) ([]*dns.DS, []*dns.RRSIG, *dns.Msg, er
 	if err != nil {
 		return nil, nil, nil, err
 	}
+	if a == nil {
+		return nil, nil, nil, fmt.Errorf("no response to DS lookup for %q", name)
+	}
 	var (
 		ds   []*dns.DS
 		sigs []*dns.RRSIG
-- 
2.43.0


From b40a2a4f41a9ec456e3c3257e3b34ea77b314a1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:43:11 +0000
Subject: [PATCH 17/42] fix: don't let insecure records hide bogus ones in
 DNSSEC validation

An answer with records from an unsigned zone was accepted without
looking at its other records, depending on map order.
---
 dnssec/validator.go | 31 +++++++++++++++++++++----------
 1 file changed, 21 insertions(+), 10 deletions(-)

diff --git a/dnssec/validator.go b/dnssec/validator.go
index f4dbc7d..2fe2373 100644
--- a/dnssec/validator.go
+++ b/dnssec/validator.go
@@ -91,21 +91,32 @@ func (v *Validator) Validate(answer *dns.Msg) error {
 
 	rrsets, sigs := groupRRsByTypeAndName(answer.Answer)
 
+	// An insecure RRset (e.g. the target of a CNAME) must not hide a bogus
+	// one, all of them need to be checked.
+	var insecure error
 	for key, rrset := range rrsets {
-		rrsigs := sigs[key]
-		if len(rrsigs) == 0 {
-			// Check if this is an insecure delegation by looking for DS in parent
-			zone := rrset[0].Header().Name
-			if err := v.checkInsecureDelegation(zone); err != nil {
-				return err
-			}
-			return fmt.Errorf("%w: %s/%s", ErrNoSignature, key.name, dns.TypeToString[key.rrtype])
+		err := v.validateAnswerRRset(key, rrset, sigs[key])
+		if errors.Is(err, ErrInsecureDelegation) {
+			insecure = err
+			continue
 		}
-		if err := v.validateRRset(rrset, rrsigs); err != nil {
+		if err != nil {
 			return err
 		}
 	}
-	return nil
+	return insecure
+}
+
+func (v *Validator) validateAnswerRRset(key rrsetKey, rrset []dns.RR, rrsigs []*dns.RRSIG) error {
+	if len(rrsigs) == 0 {
+		// Check if this is an insecure delegation by looking for DS in parent
+		zone := rrset[0].Header().Name
+		if err := v.checkInsecureDelegation(zone); err != nil {
+			return err
+		}
+		return fmt.Errorf("%w: %s/%s", ErrNoSignature, key.name, dns.TypeToString[key.rrtype])
+	}
+	return v.validateRRset(rrset, rrsigs)
 }
 
 // checkInsecureDelegation walks the delegation chain from the root toward
-- 
2.43.0


From aafad5a313324e47cb03eaf36113ca7593b61d14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:43:14 +0000
Subject: [PATCH 18/42] fix: require proof if the queried records are missing
 in a DNSSEC answer

Any signed record set, or just signatures, in the answer section was
enough to have a forged NXDOMAIN or an empty response accepted. Neither
was the end of a CNAME chain checked, nor that the response is about the
question asked.
---
 dnssec.go                  |  5 ++++-
 dnssec/denial_existence.go |  9 +--------
 dnssec/validator.go        | 37 +++++++++++++++++++++++++++++++++++--
 3 files changed, 40 insertions(+), 11 deletions(-)

diff --git a/dnssec.go b/dnssec.go
index 091e3b9..09d4b1c 100644
--- a/dnssec.go
+++ b/dnssec.go
@@ -130,7 +130,10 @@ func (r *DNSSECValidator) Resolve(q *dns.Msg, ci ClientInfo) (*dns.Msg, error) {
 		return answer, nil
 	}
 
-	if err := r.validator.Validate(answer); err != nil {
+	// Validate the response as an answer to the question that was asked
+	response := *answer
+	response.Question = qUpstream.Question
+	if err := r.validator.Validate(&response); err != nil {
 		if errors.Is(err, dnssec.ErrInsecureDelegation) {
 			log.Debug("insecure delegation, passing through", "error", err)
 			stripDNSSEC(answer, clientSetDo, clientHadEdns0, qtype)
diff --git a/dnssec/denial_existence.go b/dnssec/denial_existence.go
index 482479d..8a7bbd2 100644
--- a/dnssec/denial_existence.go
+++ b/dnssec/denial_existence.go
@@ -19,14 +19,7 @@ import (
 // Without this, an attacker could forge an NXDOMAIN/NODATA with an empty
 // answer section to suppress a record (e.g. a DANE/CAA downgrade) and have it
 // accepted as authentic.
-func (v *Validator) validateDenial(answer *dns.Msg) error {
-	if len(answer.Question) == 0 {
-		return fmt.Errorf("%w: response has no question", ErrDenialOfExistence)
-	}
-	q := answer.Question[0]
-	qname := dns.CanonicalName(q.Name)
-	qtype := q.Qtype
-
+func (v *Validator) validateDenial(answer *dns.Msg, qname string, qtype uint16) error {
 	nsecs, nsec3s := v.collectVerifiedDenialRecords(answer.Ns, qname)
 
 	if nsecProvesDenial(nsecs, qname, qtype, answer.Rcode) {
diff --git a/dnssec/validator.go b/dnssec/validator.go
index 2fe2373..9b1f715 100644
--- a/dnssec/validator.go
+++ b/dnssec/validator.go
@@ -85,8 +85,8 @@ func (v *Validator) SetAnchor(owner string, tag uint16, alg, digestType uint8, d
 // It groups the answer section into RRsets, finds covering RRSIGs,
 // and validates each signed RRset against a chain of trust.
 func (v *Validator) Validate(answer *dns.Msg) error {
-	if len(answer.Answer) == 0 {
-		return v.validateDenial(answer)
+	if len(answer.Question) == 0 {
+		return fmt.Errorf("%w: response has no question", ErrDenialOfExistence)
 	}
 
 	rrsets, sigs := groupRRsByTypeAndName(answer.Answer)
@@ -104,9 +104,42 @@ func (v *Validator) Validate(answer *dns.Msg) error {
 			return err
 		}
 	}
+	if err := v.validateConclusion(answer, rrsets, sigs); err != nil {
+		return err
+	}
 	return insecure
 }
 
+// validateConclusion follows the question through any CNAMEs in the answer
+// and, unless that leads to an RRset of the queried type, requires proof that
+// there is none. Otherwise records could be suppressed with any other signed
+// RRset in the answer section.
+func (v *Validator) validateConclusion(answer *dns.Msg, rrsets map[rrsetKey][]dns.RR, sigs map[rrsetKey][]*dns.RRSIG) error {
+	qtype := answer.Question[0].Qtype
+	name := dns.CanonicalName(answer.Question[0].Name)
+	if qtype == dns.TypeRRSIG || qtype == dns.TypeANY {
+		for key := range sigs {
+			if key.name == name {
+				return nil
+			}
+		}
+	}
+	for range len(rrsets) + 1 {
+		if len(rrsets[rrsetKey{name, qtype}]) > 0 {
+			if answer.Rcode == dns.RcodeNameError {
+				return fmt.Errorf("%w: %s exists", ErrDenialOfExistence, name)
+			}
+			return nil
+		}
+		cname := rrsets[rrsetKey{name, dns.TypeCNAME}]
+		if len(cname) == 0 {
+			return v.validateDenial(answer, name, qtype)
+		}
+		name = dns.CanonicalName(cname[0].(*dns.CNAME).Target)
+	}
+	return fmt.Errorf("%w: CNAME loop at %s", ErrDenialOfExistence, name)
+}
+
 func (v *Validator) validateAnswerRRset(key rrsetKey, rrset []dns.RR, rrsigs []*dns.RRSIG) error {
 	if len(rrsigs) == 0 {
 		// Check if this is an insecure delegation by looking for DS in parent
-- 
2.43.0


From e2c8d4fcc54f1e478222ac97bfdf0ff38121a7b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:43:59 +0000
Subject: [PATCH 19/42] fix: validate zones with other key setups than one KSK
 and ZSK

Zones signed with a single key, by keys without the SEP flag, or with a
revoked key in the key set failed DNSSEC validation. Key sets queried by
clients failed as well as those are signed by the KSK.
---
 dnssec/denial_existence.go |  4 +--
 dnssec/validator.go        | 53 +++++++++++++++++++-------------------
 2 files changed, 29 insertions(+), 28 deletions(-)

diff --git a/dnssec/denial_existence.go b/dnssec/denial_existence.go
index 8a7bbd2..3e6290b 100644
--- a/dnssec/denial_existence.go
+++ b/dnssec/denial_existence.go
@@ -75,11 +75,11 @@ func (v *Validator) rrsetSignedFromAncestor(rrset []dns.RR, sigs []*dns.RRSIG, q
 		if !dns.IsSubDomain(signer, qname) {
 			continue
 		}
-		zsk, _, err := v.buildChainOfTrust(signer)
+		keys, err := v.zoneKeys(signer)
 		if err != nil {
 			continue
 		}
-		if verifyRRSIG(sig, zsk, rrset, v.now()) == nil {
+		if verifyRRSIG(sig, keys, rrset, v.now()) == nil {
 			return true
 		}
 	}
diff --git a/dnssec/validator.go b/dnssec/validator.go
index 9b1f715..9f3dfa4 100644
--- a/dnssec/validator.go
+++ b/dnssec/validator.go
@@ -189,14 +189,14 @@ func (v *Validator) proveNoDS(zone string) (bool, error) {
 		return false, nil
 	}
 	parent := parentZone(zone)
-	parentZSK, _, err := v.buildChainOfTrust(parent)
+	parentKeys, err := v.zoneKeys(parent)
 	if err != nil {
 		if errors.Is(err, ErrInsecureDelegation) {
 			return true, nil
 		}
 		return false, err
 	}
-	if err := verifyDSDenial(resp, zone, parentZSK, v.now()); err != nil {
+	if err := verifyDSDenial(resp, zone, parentKeys, v.now()); err != nil {
 		return false, err
 	}
 	return true, nil
@@ -222,12 +222,12 @@ func (v *Validator) validateRRset(rrset []dns.RR, sigs []*dns.RRSIG) error {
 			lastErr = fmt.Errorf("%w: %s cannot sign %s", ErrSignerOutOfBailiwick, signer, owner)
 			continue
 		}
-		zsk, _, err := v.buildChainOfTrust(signer)
+		keys, err := v.zoneKeys(signer)
 		if err != nil {
 			lastErr = err
 			continue
 		}
-		if err := verifyRRSIG(sig, zsk, rrset, v.now()); err != nil {
+		if err := verifyRRSIG(sig, keys, rrset, v.now()); err != nil {
 			lastErr = err
 			continue
 		}
@@ -236,6 +236,13 @@ func (v *Validator) validateRRset(rrset []dns.RR, sigs []*dns.RRSIG) error {
 	return lastErr
 }
 
+// zoneKeys returns the validated keys of a zone. Any of them may be used to
+// sign, the SEP flag that sets KSKs apart is just a hint (RFC 4034 §2.1.1).
+func (v *Validator) zoneKeys(zone string) ([]*dns.DNSKEY, error) {
+	zsk, ksk, err := v.buildChainOfTrust(zone)
+	return slices.Concat(zsk, ksk), err
+}
+
 // buildChainOfTrust recursively builds a DNSSEC chain of trust from
 // the root trust anchor down to the specified zone. It returns the
 // validated ZSK and KSK for the zone.
@@ -248,20 +255,13 @@ func (v *Validator) buildChainOfTrust(zone string) (zsk, ksk []*dns.DNSKEY, err
 	}
 
 	// Fetch DNSKEY records for this zone
-	fetchedZSK, fetchedKSK, dnsSigs, err := v.lookupDNSKEY(zone)
+	fetchedZSK, fetchedKSK, allKeys, dnsSigs, err := v.lookupDNSKEY(zone)
 	if err != nil {
 		return nil, nil, fmt.Errorf("failed to lookup DNSKEY for %s: %w", zone, err)
 	}
-	if len(fetchedKSK) == 0 {
-		return nil, nil, fmt.Errorf("%w: no KSK for %s", ErrNoKey, zone)
-	}
-
-	allKeys := make([]dns.RR, 0, len(fetchedZSK)+len(fetchedKSK))
-	for _, k := range fetchedZSK {
-		allKeys = append(allKeys, k)
-	}
-	for _, k := range fetchedKSK {
-		allKeys = append(allKeys, k)
+	zoneKeys := slices.Concat(fetchedZSK, fetchedKSK)
+	if len(zoneKeys) == 0 {
+		return nil, nil, fmt.Errorf("%w: no key for %s", ErrNoKey, zone)
 	}
 
 	// Obtain authenticated DS records for this zone — from the configured
@@ -283,13 +283,13 @@ func (v *Validator) buildChainOfTrust(zone string) (zsk, ksk []*dns.DNSKEY, err
 		}
 
 		parent := parentZone(zone)
-		parentZSK, _, err := v.buildChainOfTrust(parent)
+		parentKeys, err := v.zoneKeys(parent)
 		if err != nil {
 			return nil, nil, fmt.Errorf("failed to build chain of trust for parent %s: %w", parent, err)
 		}
 
 		if len(dsRecords) == 0 {
-			if err := verifyDSDenial(dsResp, zone, parentZSK, v.now()); err != nil {
+			if err := verifyDSDenial(dsResp, zone, parentKeys, v.now()); err != nil {
 				return nil, nil, err
 			}
 			return nil, nil, fmt.Errorf("%w: %s", ErrInsecureDelegation, zone)
@@ -304,7 +304,7 @@ func (v *Validator) buildChainOfTrust(zone string) (zsk, ksk []*dns.DNSKEY, err
 		}
 		var verified bool
 		for _, dsSig := range dsSigs {
-			if err := verifyRRSIG(dsSig, parentZSK, dsRRset, v.now()); err == nil {
+			if err := verifyRRSIG(dsSig, parentKeys, dsRRset, v.now()); err == nil {
 				verified = true
 				break
 			}
@@ -317,7 +317,7 @@ func (v *Validator) buildChainOfTrust(zone string) (zsk, ksk []*dns.DNSKEY, err
 	// RFC 4035 §5.2: the DNSKEY RRset must be signed by a key that itself
 	// chains to an authenticated DS. Restrict candidate signing keys to
 	// those matching a DS before accepting the self-signature.
-	trustedKSK := filterKeysByDS(fetchedKSK, dsRecords)
+	trustedKSK := filterKeysByDS(zoneKeys, dsRecords)
 	if len(trustedKSK) == 0 {
 		return nil, nil, fmt.Errorf("KSK doesn't match DS for %s: %w", zone, ErrDSMismatch)
 	}
@@ -341,32 +341,33 @@ func (v *Validator) buildChainOfTrust(zone string) (zsk, ksk []*dns.DNSKEY, err
 	}
 
 	// Cache the validated keys
-	allDNSKEYs := slices.Concat(fetchedZSK, fetchedKSK)
-	v.ks.addDNSKEY(zone, allDNSKEYs)
+	v.ks.addDNSKEY(zone, zoneKeys)
 
 	return fetchedZSK, fetchedKSK, nil
 }
 
 // lookupDNSKEY queries for DNSKEY records for the given zone and returns
-// the ZSKs, KSKs, and RRSIGs from the response.
-func (v *Validator) lookupDNSKEY(name string) (zsk, ksk []*dns.DNSKEY, sigs []*dns.RRSIG, err error) {
+// the ZSKs, KSKs, all DNSKEYs including those that can't be used (e.g. revoked),
+// and RRSIGs from the response.
+func (v *Validator) lookupDNSKEY(name string) (zsk, ksk []*dns.DNSKEY, all []dns.RR, sigs []*dns.RRSIG, err error) {
 	q := new(dns.Msg)
 	q.SetQuestion(dns.CanonicalName(name), dns.TypeDNSKEY)
 	q.SetEdns0(4096, true)
 	q.MsgHdr.CheckingDisabled = true
 	a, err := v.resolver(q)
 	if err != nil {
-		return nil, nil, nil, err
+		return nil, nil, nil, nil, err
 	}
 	if a == nil {
-		return nil, nil, nil, fmt.Errorf("no response to DNSKEY lookup for %q", name)
+		return nil, nil, nil, nil, fmt.Errorf("no response to DNSKEY lookup for %q", name)
 	}
 	if a.Rcode != dns.RcodeSuccess {
-		return nil, nil, nil, fmt.Errorf("DNSKEY lookup for %q failed: rcode %s", name, dns.RcodeToString[a.Rcode])
+		return nil, nil, nil, nil, fmt.Errorf("DNSKEY lookup for %q failed: rcode %s", name, dns.RcodeToString[a.Rcode])
 	}
 	for _, rr := range a.Answer {
 		switch r := rr.(type) {
 		case *dns.DNSKEY:
+			all = append(all, r)
 			switch r.Flags {
 			case 257:
 				ksk = append(ksk, r)
-- 
2.43.0


From 3829189d83109066ca9fc31afd67ebea250c43df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:44:02 +0000
Subject: [PATCH 20/42] fix: limit the time DNSSEC keys are kept to their
 signed TTL

The TTL of a key in a response can be altered without breaking its
signature, which kept keys in use for up to 136 years.
---
 dnssec/validator.go | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/dnssec/validator.go b/dnssec/validator.go
index 9f3dfa4..634d3e8 100644
--- a/dnssec/validator.go
+++ b/dnssec/validator.go
@@ -322,7 +322,10 @@ func (v *Validator) buildChainOfTrust(zone string) (zsk, ksk []*dns.DNSKEY, err
 		return nil, nil, fmt.Errorf("KSK doesn't match DS for %s: %w", zone, ErrDSMismatch)
 	}
 
-	var sigSeen, sigVerified bool
+	var (
+		sigSeen, sigVerified bool
+		maxTTL               uint32
+	)
 	for _, sig := range dnsSigs {
 		if dns.CanonicalName(sig.SignerName) != zone || sig.TypeCovered != dns.TypeDNSKEY {
 			continue
@@ -330,6 +333,8 @@ func (v *Validator) buildChainOfTrust(zone string) (zsk, ksk []*dns.DNSKEY, err
 		sigSeen = true
 		if err := verifyRRSIG(sig, trustedKSK, allKeys, v.now()); err == nil {
 			sigVerified = true
+			// The TTL in the record itself isn't protected by the signature (RFC 4035 §5.3.3)
+			maxTTL = min(sig.OrigTtl, sig.Expiration-uint32(v.now().Unix()))
 			break
 		}
 	}
@@ -341,6 +346,11 @@ func (v *Validator) buildChainOfTrust(zone string) (zsk, ksk []*dns.DNSKEY, err
 	}
 
 	// Cache the validated keys
+	for i, key := range zoneKeys {
+		key = dns.Copy(key).(*dns.DNSKEY)
+		key.Hdr.Ttl = min(key.Hdr.Ttl, maxTTL)
+		zoneKeys[i] = key
+	}
 	v.ks.addDNSKEY(zone, zoneKeys)
 
 	return fetchedZSK, fetchedKSK, nil
-- 
2.43.0


From 1356dcee34436f88f2b9fd0d5860993dbed03f89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:44:06 +0000
Subject: [PATCH 21/42] fix: don't use denial records of a parent zone for
 names in its child zones

The genuine NSEC or NSEC3 record of a delegation was accepted as proof
that names at or below it don't exist, so any name in a signed zone could
be made to disappear.
---
 dnssec/denial_existence.go | 39 +++++++++++++++++++++++++++++++++-----
 1 file changed, 34 insertions(+), 5 deletions(-)

diff --git a/dnssec/denial_existence.go b/dnssec/denial_existence.go
index 3e6290b..dfe961f 100644
--- a/dnssec/denial_existence.go
+++ b/dnssec/denial_existence.go
@@ -20,7 +20,7 @@ import (
 // answer section to suppress a record (e.g. a DANE/CAA downgrade) and have it
 // accepted as authentic.
 func (v *Validator) validateDenial(answer *dns.Msg, qname string, qtype uint16) error {
-	nsecs, nsec3s := v.collectVerifiedDenialRecords(answer.Ns, qname)
+	nsecs, nsec3s := v.collectVerifiedDenialRecords(answer.Ns, qname, qtype)
 
 	if nsecProvesDenial(nsecs, qname, qtype, answer.Rcode) {
 		return nil
@@ -42,8 +42,9 @@ func (v *Validator) validateDenial(answer *dns.Msg, qname string, qtype uint16)
 // collectVerifiedDenialRecords returns the NSEC and NSEC3 records from the
 // authority section whose covering RRSIG is signed by a zone at or above qname
 // and chains to the trust anchor. Unsigned or unauthenticated records are
-// discarded so a forged proof cannot be used.
-func (v *Validator) collectVerifiedDenialRecords(ns []dns.RR, qname string) (nsecs []*dns.NSEC, nsec3s []*dns.NSEC3) {
+// discarded so a forged proof cannot be used. So are those of a zone above
+// that has no say in the queried name.
+func (v *Validator) collectVerifiedDenialRecords(ns []dns.RR, qname string, qtype uint16) (nsecs []*dns.NSEC, nsec3s []*dns.NSEC3) {
 	rrsets, sigs := groupRRsByTypeAndName(ns)
 	for key, rrset := range rrsets {
 		if key.rrtype != dns.TypeNSEC && key.rrtype != dns.TypeNSEC3 {
@@ -55,15 +56,43 @@ func (v *Validator) collectVerifiedDenialRecords(ns []dns.RR, qname string) (nse
 		for _, rr := range rrset {
 			switch r := rr.(type) {
 			case *dns.NSEC:
-				nsecs = append(nsecs, r)
+				if !outsideZone(r.TypeBitMap, qname, qtype, func(name string) bool { return dns.CanonicalName(r.Hdr.Name) == name }) {
+					nsecs = append(nsecs, r)
+				}
 			case *dns.NSEC3:
-				nsec3s = append(nsec3s, r)
+				if !outsideZone(r.TypeBitMap, qname, qtype, r.Match) {
+					nsec3s = append(nsec3s, r)
+				}
 			}
 		}
 	}
 	return nsecs, nsec3s
 }
 
+// outsideZone reports whether a denial record belongs to a zone that isn't
+// authoritative for the queried name and type. At a delegation, the parent
+// knows only about the DS while everything else, and all names below, are in
+// the child zone. Similar for names below a DNAME. RFC 6840 §4.1, §4.4.
+func outsideZone(bitmap []uint16, qname string, qtype uint16, match func(string) bool) bool {
+	apex := slices.Contains(bitmap, dns.TypeSOA)
+	if match(qname) && qtype == dns.TypeDS {
+		return apex && qname != "."
+	}
+	delegation := slices.Contains(bitmap, dns.TypeNS) && !apex
+	if match(qname) {
+		return delegation
+	}
+	if !delegation && !slices.Contains(bitmap, dns.TypeDNAME) {
+		return false
+	}
+	for n := dns.CountLabel(qname) - 1; n >= 0; n-- {
+		if match(lastNLabels(qname, n)) {
+			return true
+		}
+	}
+	return false
+}
+
 // rrsetSignedFromAncestor reports whether any of the supplied RRSIGs
 // authenticates rrset under a signer at or above qname that chains to the trust
 // anchor. An NSEC/NSEC3 from an unrelated zone proves nothing about qname, so
-- 
2.43.0


From ff65d0ffbc0fa53ed36ea2f0b3643d502a3bb660 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:44:08 +0000
Subject: [PATCH 22/42] fix: recognize empty non-terminals in NSEC denial

Names that exist only because there are names below them failed DNSSEC
validation, and could be denied altogether.
---
 dnssec/denial_existence.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/dnssec/denial_existence.go b/dnssec/denial_existence.go
index dfe961f..5df744f 100644
--- a/dnssec/denial_existence.go
+++ b/dnssec/denial_existence.go
@@ -149,6 +149,10 @@ func nsecProvesNODATA(nsecs []*dns.NSEC, qname string, qtype uint16) bool {
 		if !nsecCovers(cover, qname) {
 			continue
 		}
+		// Empty non-terminal: there are only names below qname
+		if dns.IsSubDomain(qname, cover.NextDomain) {
+			return true
+		}
 		wildcard := dns.CanonicalName("*." + nsecClosestEncloser(qname, cover))
 		for _, w := range nsecs {
 			if dns.CanonicalName(w.Hdr.Name) != wildcard {
@@ -169,7 +173,7 @@ func nsecProvesNXDOMAIN(nsecs []*dns.NSEC, qname string) bool {
 	var ce string
 	covered := false
 	for _, n := range nsecs {
-		if nsecCovers(n, qname) {
+		if nsecCovers(n, qname) && !dns.IsSubDomain(qname, n.NextDomain) {
 			ce = nsecClosestEncloser(qname, n)
 			covered = true
 			break
-- 
2.43.0


From 2c9d5cbc7a7a0633c4fe51ac829aa5bf24139769 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:44:43 +0000
Subject: [PATCH 23/42] fix: require proof that a wildcard applies in DNSSEC
 validation

Records made from a wildcard were accepted for names that have records of
their own.
---
 dnssec/denial_existence.go | 19 +++++++++++++++++++
 dnssec/validator.go        | 16 +++++++++++-----
 2 files changed, 30 insertions(+), 5 deletions(-)

diff --git a/dnssec/denial_existence.go b/dnssec/denial_existence.go
index 5df744f..0d3b411 100644
--- a/dnssec/denial_existence.go
+++ b/dnssec/denial_existence.go
@@ -93,6 +93,25 @@ func outsideZone(bitmap []uint16, qname string, qtype uint16, match func(string)
 	return false
 }
 
+// provesWildcard reports whether an RRset whose signature covers the given
+// number of labels of its owner name may be used. If there are fewer than in
+// the owner, it was expanded from a wildcard and ns has to prove that the
+// owner doesn't exist and that there's no closer wildcard. Without this, names
+// that do exist could be replaced by the wildcard. RFC 4035 §5.3.4, RFC 5155
+// §8.8.
+func (v *Validator) provesWildcard(owner string, rrtype uint16, labels int, ns []dns.RR) bool {
+	if labels >= dns.CountLabel(strings.TrimPrefix(owner, "*.")) {
+		return true
+	}
+	nsecs, nsec3s := v.collectVerifiedDenialRecords(ns, owner, rrtype)
+	for _, n := range nsecs {
+		if nsecCovers(n, owner) && dns.CountLabel(nsecClosestEncloser(owner, n)) == labels {
+			return true
+		}
+	}
+	return nsec3CoverAny(nsec3s, lastNLabels(owner, labels+1))
+}
+
 // rrsetSignedFromAncestor reports whether any of the supplied RRSIGs
 // authenticates rrset under a signer at or above qname that chains to the trust
 // anchor. An NSEC/NSEC3 from an unrelated zone proves nothing about qname, so
diff --git a/dnssec/validator.go b/dnssec/validator.go
index 634d3e8..0148e45 100644
--- a/dnssec/validator.go
+++ b/dnssec/validator.go
@@ -95,7 +95,7 @@ func (v *Validator) Validate(answer *dns.Msg) error {
 	// one, all of them need to be checked.
 	var insecure error
 	for key, rrset := range rrsets {
-		err := v.validateAnswerRRset(key, rrset, sigs[key])
+		err := v.validateAnswerRRset(key, rrset, sigs[key], answer.Ns)
 		if errors.Is(err, ErrInsecureDelegation) {
 			insecure = err
 			continue
@@ -140,7 +140,7 @@ func (v *Validator) validateConclusion(answer *dns.Msg, rrsets map[rrsetKey][]dn
 	return fmt.Errorf("%w: CNAME loop at %s", ErrDenialOfExistence, name)
 }
 
-func (v *Validator) validateAnswerRRset(key rrsetKey, rrset []dns.RR, rrsigs []*dns.RRSIG) error {
+func (v *Validator) validateAnswerRRset(key rrsetKey, rrset []dns.RR, rrsigs []*dns.RRSIG, ns []dns.RR) error {
 	if len(rrsigs) == 0 {
 		// Check if this is an insecure delegation by looking for DS in parent
 		zone := rrset[0].Header().Name
@@ -149,7 +149,7 @@ func (v *Validator) validateAnswerRRset(key rrsetKey, rrset []dns.RR, rrsigs []*
 		}
 		return fmt.Errorf("%w: %s/%s", ErrNoSignature, key.name, dns.TypeToString[key.rrtype])
 	}
-	return v.validateRRset(rrset, rrsigs)
+	return v.validateRRset(rrset, rrsigs, ns)
 }
 
 // checkInsecureDelegation walks the delegation chain from the root toward
@@ -206,8 +206,10 @@ func (v *Validator) proveNoDS(zone string) (bool, error) {
 // a chain of trust to each signer's DNSKEY. An RRset is accepted as soon as one
 // of its RRSIGs verifies; this tolerates ZSK rollovers, where the set carries
 // signatures from both the outgoing and incoming keys and only one is valid
-// against the currently-published DNSKEY RRset.
-func (v *Validator) validateRRset(rrset []dns.RR, sigs []*dns.RRSIG) error {
+// against the currently-published DNSKEY RRset. If it was expanded from a
+// wildcard, the authority section ns needs to prove that there is no closer
+// match.
+func (v *Validator) validateRRset(rrset []dns.RR, sigs []*dns.RRSIG, ns []dns.RR) error {
 	owner := dns.CanonicalName(rrset[0].Header().Name)
 	var lastErr error
 	for _, sig := range sigs {
@@ -231,6 +233,10 @@ func (v *Validator) validateRRset(rrset []dns.RR, sigs []*dns.RRSIG) error {
 			lastErr = err
 			continue
 		}
+		if !v.provesWildcard(owner, rrset[0].Header().Rrtype, int(sig.Labels), ns) {
+			lastErr = fmt.Errorf("%w: %s not proven to match a wildcard", ErrDenialOfExistence, owner)
+			continue
+		}
 		return nil
 	}
 	return lastErr
-- 
2.43.0


From 0876016b758adb5f67f22c73e8292fef50e465b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:44:47 +0000
Subject: [PATCH 24/42] fix: validate zones delegated more than one label below
 their parent

Every label was expected to be a zone of its own. Names in zones like
those below ip6.arpa failed DNSSEC validation, signed or not.
---
 dnssec/denial.go    | 37 +++++++++++++++++++++++++++++++++++++
 dnssec/validator.go | 39 +++++++++++++++++++++++++++++++++------
 2 files changed, 70 insertions(+), 6 deletions(-)

diff --git a/dnssec/denial.go b/dnssec/denial.go
index 28f723e..9ae212d 100644
--- a/dnssec/denial.go
+++ b/dnssec/denial.go
@@ -45,6 +45,43 @@ func verifyDSDenial(resp *dns.Msg, name string, parentKeys []*dns.DNSKEY, now ti
 	return fmt.Errorf("%w for %s", ErrBogusDenial, name)
 }
 
+// errNoZoneCut is returned when a name is proven to be part of the zone above.
+var errNoZoneCut = errors.New("dnssec: not a zone")
+
+// provesNoZoneCut reports whether resp's authority section carries NSEC or
+// NSEC3 records, signed by one of the supplied keys of the enclosing zone, that
+// prove name exists in that zone and isn't delegated.
+func provesNoZoneCut(resp *dns.Msg, name string, keys []*dns.DNSKEY, now time.Time) bool {
+	name = dns.CanonicalName(name)
+	rrsets, sigs := groupRRsByTypeAndName(resp.Ns)
+
+	for key, rrset := range rrsets {
+		if key.rrtype != dns.TypeNSEC && key.rrtype != dns.TypeNSEC3 {
+			continue
+		}
+		if !verifyAnyRRSIG(sigs[key], keys, rrset, now) {
+			continue
+		}
+		for _, rr := range rrset {
+			switch r := rr.(type) {
+			case *dns.NSEC:
+				if key.name == name && !slices.Contains(r.TypeBitMap, dns.TypeNS) {
+					return true
+				}
+				// Empty non-terminal
+				if nsecCovers(r, name) && dns.IsSubDomain(name, r.NextDomain) {
+					return true
+				}
+			case *dns.NSEC3:
+				if r.Match(name) && !slices.Contains(r.TypeBitMap, dns.TypeNS) {
+					return true
+				}
+			}
+		}
+	}
+	return false
+}
+
 // nsecDeniesDS reports whether the NSEC record proves an insecure delegation
 // at name: the name exists as a delegation (NS bit set) in the parent zone
 // but carries no DS. RFC 6840 §4.4.
diff --git a/dnssec/validator.go b/dnssec/validator.go
index 0148e45..282cab2 100644
--- a/dnssec/validator.go
+++ b/dnssec/validator.go
@@ -178,7 +178,7 @@ func (v *Validator) checkInsecureDelegation(name string) error {
 
 // proveNoDS returns true when zone has no DS RRset and that absence is
 // authenticated by the parent zone's signed NSEC/NSEC3. It returns false when
-// DS records are present, and an error when the absence cannot be
+// DS records are present or zone is just a name in the parent, and an error when the absence cannot be
 // authenticated.
 func (v *Validator) proveNoDS(zone string) (bool, error) {
 	ds, _, resp, err := v.lookupDS(zone)
@@ -188,8 +188,7 @@ func (v *Validator) proveNoDS(zone string) (bool, error) {
 	if len(ds) > 0 {
 		return false, nil
 	}
-	parent := parentZone(zone)
-	parentKeys, err := v.zoneKeys(parent)
+	parentKeys, err := v.enclosingZoneKeys(zone)
 	if err != nil {
 		if errors.Is(err, ErrInsecureDelegation) {
 			return true, nil
@@ -197,6 +196,9 @@ func (v *Validator) proveNoDS(zone string) (bool, error) {
 		return false, err
 	}
 	if err := verifyDSDenial(resp, zone, parentKeys, v.now()); err != nil {
+		if provesNoZoneCut(resp, zone, parentKeys, v.now()) {
+			return false, nil
+		}
 		return false, err
 	}
 	return true, nil
@@ -249,6 +251,19 @@ func (v *Validator) zoneKeys(zone string) ([]*dns.DNSKEY, error) {
 	return slices.Concat(zsk, ksk), err
 }
 
+// enclosingZoneKeys returns the validated keys of the zone above the given
+// one. That isn't necessarily one label up, names in between that are proven
+// not to be zones are skipped.
+func (v *Validator) enclosingZoneKeys(zone string) ([]*dns.DNSKEY, error) {
+	for {
+		zone = parentZone(zone)
+		keys, err := v.zoneKeys(zone)
+		if !errors.Is(err, errNoZoneCut) {
+			return keys, err
+		}
+	}
+}
+
 // buildChainOfTrust recursively builds a DNSSEC chain of trust from
 // the root trust anchor down to the specified zone. It returns the
 // validated ZSK and KSK for the zone.
@@ -267,6 +282,19 @@ func (v *Validator) buildChainOfTrust(zone string) (zsk, ksk []*dns.DNSKEY, err
 	}
 	zoneKeys := slices.Concat(fetchedZSK, fetchedKSK)
 	if len(zoneKeys) == 0 {
+		if zone != "." {
+			_, _, dsResp, err := v.lookupDS(zone)
+			if err != nil {
+				return nil, nil, fmt.Errorf("failed to lookup DS for %s: %w", zone, err)
+			}
+			parentKeys, err := v.enclosingZoneKeys(zone)
+			if err != nil {
+				return nil, nil, err
+			}
+			if provesNoZoneCut(dsResp, zone, parentKeys, v.now()) {
+				return nil, nil, errNoZoneCut
+			}
+		}
 		return nil, nil, fmt.Errorf("%w: no key for %s", ErrNoKey, zone)
 	}
 
@@ -288,10 +316,9 @@ func (v *Validator) buildChainOfTrust(zone string) (zsk, ksk []*dns.DNSKEY, err
 			return nil, nil, fmt.Errorf("failed to lookup DS for %s: %w", zone, err)
 		}
 
-		parent := parentZone(zone)
-		parentKeys, err := v.zoneKeys(parent)
+		parentKeys, err := v.enclosingZoneKeys(zone)
 		if err != nil {
-			return nil, nil, fmt.Errorf("failed to build chain of trust for parent %s: %w", parent, err)
+			return nil, nil, fmt.Errorf("failed to build chain of trust for parent of %s: %w", zone, err)
 		}
 
 		if len(dsRecords) == 0 {
-- 
2.43.0


From 384682a94e151f894258ebee4ad93cdb6057b3ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:51:55 +0000
Subject: [PATCH 25/42] fix: recognize unsigned zones below names left out by
 NSEC3 opt-out

In an NSEC3 zone with opt-out, the names between the zone and an
unsigned delegation several labels below it aren't part of the denial
chain. Answers of such unsigned zones that carry signatures were
rejected.
---
 dnssec/validator.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/dnssec/validator.go b/dnssec/validator.go
index 282cab2..2273a2a 100644
--- a/dnssec/validator.go
+++ b/dnssec/validator.go
@@ -294,6 +294,9 @@ func (v *Validator) buildChainOfTrust(zone string) (zsk, ksk []*dns.DNSKEY, err
 			if provesNoZoneCut(dsResp, zone, parentKeys, v.now()) {
 				return nil, nil, errNoZoneCut
 			}
+			if verifyDSDenial(dsResp, zone, parentKeys, v.now()) == nil {
+				return nil, nil, fmt.Errorf("%w: %s", ErrInsecureDelegation, zone)
+			}
 		}
 		return nil, nil, fmt.Errorf("%w: no key for %s", ErrNoKey, zone)
 	}
-- 
2.43.0


From dfb97d896289b5f3e96500169ed210646a1ccc31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:52:16 +0000
Subject: [PATCH 26/42] fix: don't mark answers as authenticated if NSEC3
 opt-out is involved

A denial record with opt-out proves the absence of a name only as far as
signed names go, it could still be an unsigned delegation. Responses
that rely on one must not have the AD flag set (RFC 5155 section 9.2).
---
 dnssec/denial_existence.go | 33 +++++++++++++++++++++++++++------
 dnssec/validator.go        |  6 +-----
 2 files changed, 28 insertions(+), 11 deletions(-)

diff --git a/dnssec/denial_existence.go b/dnssec/denial_existence.go
index 0d3b411..599811e 100644
--- a/dnssec/denial_existence.go
+++ b/dnssec/denial_existence.go
@@ -26,7 +26,7 @@ func (v *Validator) validateDenial(answer *dns.Msg, qname string, qtype uint16)
 		return nil
 	}
 	if nsec3ProvesDenial(nsec3s, qname, qtype, answer.Rcode) {
-		return nil
+		return nsec3OptOut(nsec3s, qname)
 	}
 
 	// No authenticated proof of denial. Determine whether the name is in a
@@ -93,23 +93,44 @@ func outsideZone(bitmap []uint16, qname string, qtype uint16, match func(string)
 	return false
 }
 
-// provesWildcard reports whether an RRset whose signature covers the given
+// provesWildcard checks whether an RRset whose signature covers the given
 // number of labels of its owner name may be used. If there are fewer than in
 // the owner, it was expanded from a wildcard and ns has to prove that the
 // owner doesn't exist and that there's no closer wildcard. Without this, names
 // that do exist could be replaced by the wildcard. RFC 4035 §5.3.4, RFC 5155
 // §8.8.
-func (v *Validator) provesWildcard(owner string, rrtype uint16, labels int, ns []dns.RR) bool {
+func (v *Validator) provesWildcard(owner string, rrtype uint16, labels int, ns []dns.RR) error {
 	if labels >= dns.CountLabel(strings.TrimPrefix(owner, "*.")) {
-		return true
+		return nil
 	}
 	nsecs, nsec3s := v.collectVerifiedDenialRecords(ns, owner, rrtype)
 	for _, n := range nsecs {
 		if nsecCovers(n, owner) && dns.CountLabel(nsecClosestEncloser(owner, n)) == labels {
-			return true
+			return nil
 		}
 	}
-	return nsec3CoverAny(nsec3s, lastNLabels(owner, labels+1))
+	nextCloser := lastNLabels(owner, labels+1)
+	if nsec3OptOutCovers(nsec3s, nextCloser) {
+		return fmt.Errorf("%w: %s may be left out by opt-out", ErrInsecureDelegation, owner)
+	}
+	if nsec3CoverAny(nsec3s, nextCloser) {
+		return nil
+	}
+	return fmt.Errorf("%w: %s not proven to match a wildcard", ErrDenialOfExistence, owner)
+}
+
+// nsec3OptOut returns ErrInsecureDelegation if the records prove that there's
+// no qname only as far as signed names go. It could still be an unsigned
+// delegation, the response must not be considered authenticated. RFC 5155 §9.2.
+func nsec3OptOut(nsec3s []*dns.NSEC3, qname string) error {
+	if nsec3MatchAny(nsec3s, qname) {
+		return nil
+	}
+	_, nextCloser, ok := nsec3ClosestEncloser(nsec3s, qname)
+	if !ok || nsec3OptOutCovers(nsec3s, nextCloser) || nsec3OptOutCovers(nsec3s, qname) {
+		return fmt.Errorf("%w: %s may be left out by opt-out", ErrInsecureDelegation, qname)
+	}
+	return nil
 }
 
 // rrsetSignedFromAncestor reports whether any of the supplied RRSIGs
diff --git a/dnssec/validator.go b/dnssec/validator.go
index 2273a2a..52682f4 100644
--- a/dnssec/validator.go
+++ b/dnssec/validator.go
@@ -235,11 +235,7 @@ func (v *Validator) validateRRset(rrset []dns.RR, sigs []*dns.RRSIG, ns []dns.RR
 			lastErr = err
 			continue
 		}
-		if !v.provesWildcard(owner, rrset[0].Header().Rrtype, int(sig.Labels), ns) {
-			lastErr = fmt.Errorf("%w: %s not proven to match a wildcard", ErrDenialOfExistence, owner)
-			continue
-		}
-		return nil
+		return v.provesWildcard(owner, rrset[0].Header().Rrtype, int(sig.Labels), ns)
 	}
 	return lastErr
 }
-- 
2.43.0


From cf713c399be210860e16f64753696b31948822d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:54:18 +0000
Subject: [PATCH 27/42] fix: don't accept NSEC3 records of existing names as
 proof of their absence

The NSEC3 record of a name was taken as covering that name as well, so
it could be used to deny the existence of the name or of a wildcard.
---
 dnssec/denial_existence.go | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/dnssec/denial_existence.go b/dnssec/denial_existence.go
index 599811e..3930c12 100644
--- a/dnssec/denial_existence.go
+++ b/dnssec/denial_existence.go
@@ -358,16 +358,23 @@ func nsec3MatchAny(nsec3s []*dns.NSEC3, name string) bool {
 
 func nsec3CoverAny(nsec3s []*dns.NSEC3, name string) bool {
 	for _, r := range nsec3s {
-		if r.Cover(name) {
+		if nsec3Covers(r, name) {
 			return true
 		}
 	}
 	return false
 }
 
+// nsec3Covers reports whether the hashed name falls between the record's owner
+// and the next one. Other than in (*dns.NSEC3).Cover(), the owner itself isn't
+// included, that one exists.
+func nsec3Covers(r *dns.NSEC3, name string) bool {
+	return r.Cover(name) && !r.Match(name)
+}
+
 func nsec3OptOutCovers(nsec3s []*dns.NSEC3, name string) bool {
 	for _, r := range nsec3s {
-		if r.Flags&1 == 1 && r.Cover(name) {
+		if r.Flags&1 == 1 && nsec3Covers(r, name) {
 			return true
 		}
 	}
-- 
2.43.0


From dab0d7a0d8f82ff85aa6f36165b52fc94f9fd6e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:03:37 +0000
Subject: [PATCH 28/42] fix: don't combine denial records of different zones

NSEC3 records of a parent zone say nothing about the names in a child
zone, but could be used together with those of the child to deny names
that exist or to prove that a wildcard applies.
---
 dnssec/denial_existence.go | 65 ++++++++++++++++++++++----------------
 dnssec/validator.go        |  2 +-
 2 files changed, 39 insertions(+), 28 deletions(-)

diff --git a/dnssec/denial_existence.go b/dnssec/denial_existence.go
index 3930c12..bda7392 100644
--- a/dnssec/denial_existence.go
+++ b/dnssec/denial_existence.go
@@ -20,13 +20,13 @@ import (
 // answer section to suppress a record (e.g. a DANE/CAA downgrade) and have it
 // accepted as authentic.
 func (v *Validator) validateDenial(answer *dns.Msg, qname string, qtype uint16) error {
-	nsecs, nsec3s := v.collectVerifiedDenialRecords(answer.Ns, qname, qtype)
-
-	if nsecProvesDenial(nsecs, qname, qtype, answer.Rcode) {
-		return nil
-	}
-	if nsec3ProvesDenial(nsec3s, qname, qtype, answer.Rcode) {
-		return nsec3OptOut(nsec3s, qname)
+	for _, d := range v.collectVerifiedDenialRecords(answer.Ns, qname, qtype) {
+		if nsecProvesDenial(d.nsecs, qname, qtype, answer.Rcode) {
+			return nil
+		}
+		if nsec3ProvesDenial(d.nsec3s, qname, qtype, answer.Rcode) {
+			return nsec3OptOut(d.nsec3s, qname)
+		}
 	}
 
 	// No authenticated proof of denial. Determine whether the name is in a
@@ -39,34 +39,45 @@ func (v *Validator) validateDenial(answer *dns.Msg, qname string, qtype uint16)
 	return fmt.Errorf("%w: %s/%s", ErrDenialOfExistence, qname, dns.TypeToString[qtype])
 }
 
+// denialRecords are the NSEC and NSEC3 records of one zone. Those of different
+// zones must not be combined in a proof.
+type denialRecords struct {
+	nsecs  []*dns.NSEC
+	nsec3s []*dns.NSEC3
+}
+
 // collectVerifiedDenialRecords returns the NSEC and NSEC3 records from the
 // authority section whose covering RRSIG is signed by a zone at or above qname
-// and chains to the trust anchor. Unsigned or unauthenticated records are
-// discarded so a forged proof cannot be used. So are those of a zone above
-// that has no say in the queried name.
-func (v *Validator) collectVerifiedDenialRecords(ns []dns.RR, qname string, qtype uint16) (nsecs []*dns.NSEC, nsec3s []*dns.NSEC3) {
+// and chains to the trust anchor, by the name of that zone. Unsigned or
+// unauthenticated records are discarded so a forged proof cannot be used. So
+// are those of a zone above that has no say in the queried name.
+func (v *Validator) collectVerifiedDenialRecords(ns []dns.RR, qname string, qtype uint16) map[string]denialRecords {
+	zones := make(map[string]denialRecords)
 	rrsets, sigs := groupRRsByTypeAndName(ns)
 	for key, rrset := range rrsets {
 		if key.rrtype != dns.TypeNSEC && key.rrtype != dns.TypeNSEC3 {
 			continue
 		}
-		if !v.rrsetSignedFromAncestor(rrset, sigs[key], qname) {
+		zone, ok := v.rrsetSignedFromAncestor(rrset, sigs[key], qname)
+		if !ok {
 			continue
 		}
+		d := zones[zone]
 		for _, rr := range rrset {
 			switch r := rr.(type) {
 			case *dns.NSEC:
 				if !outsideZone(r.TypeBitMap, qname, qtype, func(name string) bool { return dns.CanonicalName(r.Hdr.Name) == name }) {
-					nsecs = append(nsecs, r)
+					d.nsecs = append(d.nsecs, r)
 				}
 			case *dns.NSEC3:
 				if !outsideZone(r.TypeBitMap, qname, qtype, r.Match) {
-					nsec3s = append(nsec3s, r)
+					d.nsec3s = append(d.nsec3s, r)
 				}
 			}
 		}
+		zones[zone] = d
 	}
-	return nsecs, nsec3s
+	return zones
 }
 
 // outsideZone reports whether a denial record belongs to a zone that isn't
@@ -96,24 +107,24 @@ func outsideZone(bitmap []uint16, qname string, qtype uint16, match func(string)
 // provesWildcard checks whether an RRset whose signature covers the given
 // number of labels of its owner name may be used. If there are fewer than in
 // the owner, it was expanded from a wildcard and ns has to prove that the
-// owner doesn't exist and that there's no closer wildcard. Without this, names
-// that do exist could be replaced by the wildcard. RFC 4035 §5.3.4, RFC 5155
-// §8.8.
-func (v *Validator) provesWildcard(owner string, rrtype uint16, labels int, ns []dns.RR) error {
+// owner doesn't exist in the zone and that there's no closer wildcard. Without
+// this, names that do exist could be replaced by the wildcard. RFC 4035 §5.3.4,
+// RFC 5155 §8.8.
+func (v *Validator) provesWildcard(zone, owner string, rrtype uint16, labels int, ns []dns.RR) error {
 	if labels >= dns.CountLabel(strings.TrimPrefix(owner, "*.")) {
 		return nil
 	}
-	nsecs, nsec3s := v.collectVerifiedDenialRecords(ns, owner, rrtype)
-	for _, n := range nsecs {
+	d := v.collectVerifiedDenialRecords(ns, owner, rrtype)[zone]
+	for _, n := range d.nsecs {
 		if nsecCovers(n, owner) && dns.CountLabel(nsecClosestEncloser(owner, n)) == labels {
 			return nil
 		}
 	}
 	nextCloser := lastNLabels(owner, labels+1)
-	if nsec3OptOutCovers(nsec3s, nextCloser) {
+	if nsec3OptOutCovers(d.nsec3s, nextCloser) {
 		return fmt.Errorf("%w: %s may be left out by opt-out", ErrInsecureDelegation, owner)
 	}
-	if nsec3CoverAny(nsec3s, nextCloser) {
+	if nsec3CoverAny(d.nsec3s, nextCloser) {
 		return nil
 	}
 	return fmt.Errorf("%w: %s not proven to match a wildcard", ErrDenialOfExistence, owner)
@@ -135,10 +146,10 @@ func nsec3OptOut(nsec3s []*dns.NSEC3, qname string) error {
 
 // rrsetSignedFromAncestor reports whether any of the supplied RRSIGs
 // authenticates rrset under a signer at or above qname that chains to the trust
-// anchor. An NSEC/NSEC3 from an unrelated zone proves nothing about qname, so
+// anchor, and which one that is. An NSEC/NSEC3 from an unrelated zone proves nothing about qname, so
 // the signer-bailiwick check is applied per signature; trying every RRSIG
 // tolerates a key rollover where the set carries more than one.
-func (v *Validator) rrsetSignedFromAncestor(rrset []dns.RR, sigs []*dns.RRSIG, qname string) bool {
+func (v *Validator) rrsetSignedFromAncestor(rrset []dns.RR, sigs []*dns.RRSIG, qname string) (string, bool) {
 	for _, sig := range sigs {
 		signer := dns.CanonicalName(sig.SignerName)
 		if !dns.IsSubDomain(signer, qname) {
@@ -149,10 +160,10 @@ func (v *Validator) rrsetSignedFromAncestor(rrset []dns.RR, sigs []*dns.RRSIG, q
 			continue
 		}
 		if verifyRRSIG(sig, keys, rrset, v.now()) == nil {
-			return true
+			return signer, true
 		}
 	}
-	return false
+	return "", false
 }
 
 // nsecProvesDenial reports whether the authenticated NSEC records prove the
diff --git a/dnssec/validator.go b/dnssec/validator.go
index 52682f4..086d686 100644
--- a/dnssec/validator.go
+++ b/dnssec/validator.go
@@ -235,7 +235,7 @@ func (v *Validator) validateRRset(rrset []dns.RR, sigs []*dns.RRSIG, ns []dns.RR
 			lastErr = err
 			continue
 		}
-		return v.provesWildcard(owner, rrset[0].Header().Rrtype, int(sig.Labels), ns)
+		return v.provesWildcard(signer, owner, rrset[0].Header().Rrtype, int(sig.Labels), ns)
 	}
 	return lastErr
 }
-- 
2.43.0


From 48a0ba98d9df4ecb4f6f9207c130a4fe448dd3d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:20:37 +0000
Subject: [PATCH 29/42] fix: map answer names back to the original in replace
 regardless of case

---
 replace.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/replace.go b/replace.go
index 9a42dc3..e6da0d6 100644
--- a/replace.go
+++ b/replace.go
@@ -2,6 +2,7 @@ package rdns
 
 import (
 	"regexp"
+	"strings"
 
 	"github.com/miekg/dns"
 )
@@ -87,7 +88,7 @@ func (r *Replace) Resolve(q *dns.Msg, ci ClientInfo) (*dns.Msg, error) {
 	// Now put the original name in all answer records that have the
 	// new name
 	for _, answer := range a.Answer {
-		if answer.Header().Name == newName {
+		if strings.EqualFold(answer.Header().Name, newName) {
 			answer.Header().Name = oldName
 		}
 	}
-- 
2.43.0


From a7bdeffaedd5f3d3f47d27cf95d2bb4167e55a68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:20:47 +0000
Subject: [PATCH 30/42] fix: keep the owner name of the A record in synthesized
 AAAA records

---
 dns64.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dns64.go b/dns64.go
index 7317eb2..0228223 100644
--- a/dns64.go
+++ b/dns64.go
@@ -168,7 +168,7 @@ func (r *DNS64) synthesizeAAAA(aAnswer *dns.Msg, question dns.Question) []dns.RR
 				ipv6 := synthesizeIPv6(prefix, ipv4)
 				aaaa = append(aaaa, &dns.AAAA{
 					Hdr: dns.RR_Header{
-						Name:   question.Name,
+						Name:   rec.Hdr.Name,
 						Rrtype: dns.TypeAAAA,
 						Class:  question.Qclass,
 						Ttl:    rec.Hdr.Ttl,
-- 
2.43.0


From fe5b55c7aff9c001fabe5722fd9dd2477e194477 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:53:24 +0000
Subject: [PATCH 31/42] fix: keep all address records when moving the fastest
 to the top

---
 fastest-tcp.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/fastest-tcp.go b/fastest-tcp.go
index 1cd045e..1acf295 100644
--- a/fastest-tcp.go
+++ b/fastest-tcp.go
@@ -149,10 +149,11 @@ func (r *FastestTCP) probeFastest(log queryLogger, rrs []dns.RR) ([]dns.RR, erro
 		rr := res.rr
 		err := res.err
 		for i := range rrs {
-			if rrs[i] == rr {
+			found := rrs[i] == res.rr
+			rrs[i], rr = rr, rrs[i]
+			if found {
 				return rrs, err
 			}
-			rrs[i], rr = rr, rrs[i]
 		}
 		return rrs, err
 	case <-ctx.Done():
-- 
2.43.0


From acc324368cb0e0169f6ae853fb0d018fbc7cf734 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:30:29 +0000
Subject: [PATCH 32/42] fix: only replace stale sockets, not other files, when
 starting the fd-server

---
 xsocketserver_linux.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/xsocketserver_linux.go b/xsocketserver_linux.go
index 10fc87c..857ea1b 100644
--- a/xsocketserver_linux.go
+++ b/xsocketserver_linux.go
@@ -102,6 +102,10 @@ func (s *XSocketServer) listen() (*net.UnixListener, error) {
 		} else if !errors.Is(derr, syscall.ECONNREFUSED) {
 			return nil, err
 		}
+		// Connections to other kinds of files are refused as well.
+		if fi, serr := os.Lstat(s.path); serr != nil || fi.Mode()&fs.ModeSocket == 0 {
+			return nil, err
+		}
 		Log.Info("removing stale socket", "socket", s.path)
 		if rerr := os.Remove(s.path); rerr != nil {
 			return nil, err
-- 
2.43.0


From 6a2ea29deea54e688a43aeeadd7d1b1cb3d46c43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:30:48 +0000
Subject: [PATCH 33/42] fix: keep the fd-server running when it is out of
 descriptors

---
 xsocketserver_linux.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/xsocketserver_linux.go b/xsocketserver_linux.go
index 857ea1b..45744b5 100644
--- a/xsocketserver_linux.go
+++ b/xsocketserver_linux.go
@@ -72,6 +72,12 @@ func (s *XSocketServer) Start() error {
 			if errors.Is(err, net.ErrClosed) {
 				return nil
 			}
+			if errors.Is(err, unix.EMFILE) || errors.Is(err, unix.ENFILE) {
+				// Descriptors become available again as clients disconnect.
+				Log.Warn("unable to accept xsocket client", "error", err)
+				time.Sleep(50 * time.Millisecond)
+				continue
+			}
 			return err
 		}
 		go s.handle(conn)
-- 
2.43.0


From aa37a38f2c478154f9a8440d92bdea9929677283 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:40:59 +0000
Subject: [PATCH 34/42] fix: remove all values a lua script returned from its
 stack

---
 lua-script.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lua-script.go b/lua-script.go
index eb9c10e..60abde4 100644
--- a/lua-script.go
+++ b/lua-script.go
@@ -91,6 +91,7 @@ func (s *LuaScript) Call(fnName string, nret int, params ...any) ([]any, error)
 
 	// Grab return values from the stack and add them to the result slice
 	// in reverse order
+	defer s.L.SetTop(s.L.GetTop() - nret)
 	ret := make([]any, nret)
 	for i := range slices.Backward(ret) {
 		lv := s.L.Get(-1)
-- 
2.43.0


From 14825d7175d01b19efd3fc1ec1eaa14eb864c8e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:31:50 +0000
Subject: [PATCH 35/42] fix: don't miss namespace changes while subscribing

The current state was looked up before the subscriber was registered. A
namespace appearing or disappearing in between was never reported, leaving
a listener down or running without its namespace.
---
 netns_watch_linux.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/netns_watch_linux.go b/netns_watch_linux.go
index da7abcd..7afd930 100644
--- a/netns_watch_linux.go
+++ b/netns_watch_linux.go
@@ -149,9 +149,11 @@ func (w *netnsWatcher) dispatch(name string, state NetNSState) {
 
 func (w *netnsWatcher) subscribe(name string) (<-chan NetNSState, func()) {
 	s := &netnsSubscriber{name: name, ch: make(chan NetNSState, 16)}
-	state := currentNetNSState(name)
 
 	w.mu.Lock()
+	// Look at the state with the lock held. A change from here on is only
+	// dispatched once the subscriber is registered and can't be missed.
+	state := currentNetNSState(name)
 	w.subs = append(w.subs, s)
 	// Deliver the current state immediately so the caller learns the
 	// namespace is absent even when /var/run/netns doesn't exist yet and the
-- 
2.43.0


From 78e457c0f1ab24e3d26c01233c551e4254cea6c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:31:59 +0000
Subject: [PATCH 36/42] fix: keep the latest namespace state when a subscriber
 falls behind

With 16 unread states the newest one was dropped. If no further event came,
the listener kept following a state that was long gone.
---
 netns_watch_linux.go | 25 +++++++++++++++++--------
 1 file changed, 17 insertions(+), 8 deletions(-)

diff --git a/netns_watch_linux.go b/netns_watch_linux.go
index 7afd930..3bdb891 100644
--- a/netns_watch_linux.go
+++ b/netns_watch_linux.go
@@ -227,17 +227,26 @@ func currentNetNSState(name string) NetNSState {
 
 // notifyLocked delivers a state change to a subscriber, skipping it if the
 // subscriber's last delivered state is identical. The send is non-blocking; if
-// the channel buffer is full the state is dropped without being recorded, so
-// it is retried on the next event rather than being deduplicated away. Must be
-// called with w.mu held.
+// the channel buffer is full, the two oldest states are dropped to make room.
+// States alternate, so the subscriber still sees them alternating and ends up
+// with the latest one. Must be called with w.mu held.
 func (w *netnsWatcher) notifyLocked(s *netnsSubscriber, state NetNSState) {
 	if s.hasLast && s.last == state {
 		return
 	}
-	select {
-	case s.ch <- state:
-		s.last = state
-		s.hasLast = true
-	default:
+	for {
+		select {
+		case s.ch <- state:
+			s.last = state
+			s.hasLast = true
+			return
+		default:
+		}
+		for range 2 {
+			select {
+			case <-s.ch:
+			default:
+			}
+		}
 	}
 }
-- 
2.43.0


From 183acf26c3edb824b6528c386d7e0a1879d17f6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:48:19 +0000
Subject: [PATCH 37/42] fix: use allowlist-format for static allowlists in
 blocklist-v2

---
 cmd/routedns/main.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmd/routedns/main.go b/cmd/routedns/main.go
index 4270abe..1d8d8ad 100644
--- a/cmd/routedns/main.go
+++ b/cmd/routedns/main.go
@@ -573,7 +573,7 @@ func instantiateGroup(id string, g group, resolvers map[string]rdns.Resolver) er
 		}
 		var allowlistDB rdns.BlocklistDB
 		if len(g.Allowlist) > 0 {
-			allowlistDB, err = newBlocklistDB(list{Format: g.BlocklistFormat}, g.Allowlist)
+			allowlistDB, err = newBlocklistDB(list{Format: g.AllowlistFormat}, g.Allowlist)
 			if err != nil {
 				return err
 			}
-- 
2.43.0


From e6829bbedfabbf0007c326a3d5560dacf9b0b693 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:48:21 +0000
Subject: [PATCH 38/42] fix: use edns0-ede in response-blocklist-name groups

---
 cmd/routedns/main.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/cmd/routedns/main.go b/cmd/routedns/main.go
index 1d8d8ad..c72077f 100644
--- a/cmd/routedns/main.go
+++ b/cmd/routedns/main.go
@@ -901,11 +901,16 @@ func instantiateGroup(id string, g group, resolvers map[string]rdns.Resolver) er
 				return err
 			}
 		}
+		edeTpl, err := rdns.NewEDNS0EDETemplate(g.EDNS0EDE.Code, g.EDNS0EDE.Text)
+		if err != nil {
+			return fmt.Errorf("failed to parse edn0 template in %q: %w", id, err)
+		}
 		opt := rdns.ResponseBlocklistNameOptions{
 			BlocklistResolver: resolvers[g.BlockListResolver],
 			BlocklistDB:       blocklistDB,
 			BlocklistRefresh:  time.Duration(g.BlocklistRefresh) * time.Second,
 			Inverted:          g.Inverted,
+			EDNS0EDETemplate:  edeTpl,
 		}
 		resolvers[id], err = rdns.NewResponseBlocklistName(id, gr[0], opt)
 		if err != nil {
-- 
2.43.0


From b86bb79904d7a5351f56008e435f6b922c20da98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:48:23 +0000
Subject: [PATCH 39/42] fix: refuse groups without any resolvers to choose from

---
 cmd/routedns/main.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/cmd/routedns/main.go b/cmd/routedns/main.go
index c72077f..a3e5c89 100644
--- a/cmd/routedns/main.go
+++ b/cmd/routedns/main.go
@@ -483,6 +483,12 @@ func instantiateGroup(id string, g group, resolvers map[string]rdns.Resolver) er
 		gr = append(gr, resolver)
 	}
 	switch g.Type {
+	case "round-robin", "fail-rotate", "fail-back", "fastest", "load-balance", "random":
+		if len(gr) == 0 {
+			return fmt.Errorf("type %s requires at least one resolver in '%s'", g.Type, id)
+		}
+	}
+	switch g.Type {
 	case "round-robin":
 		resolvers[id] = rdns.NewRoundRobin(id, gr...)
 	case "fail-rotate":
-- 
2.43.0


From 1bbdac90ad9ab57d9db1078711d4d02d97a6b166 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:48:29 +0000
Subject: [PATCH 40/42] fix: don't panic in rate-limiter with a window that
 began at the epoch

---
 rate-limiter.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rate-limiter.go b/rate-limiter.go
index a512bba..0ffaaa1 100644
--- a/rate-limiter.go
+++ b/rate-limiter.go
@@ -86,7 +86,7 @@ func (r *RateLimiter) Resolve(q *dns.Msg, ci ClientInfo) (*dns.Msg, error) {
 	windowID := time.Now().Unix() / int64(r.Window)
 
 	// If we have moved on to the next window, re-initialize the counters
-	if windowID != r.currWinID {
+	if windowID != r.currWinID || r.counters == nil {
 		r.currWinID = windowID
 		r.counters = make(map[string]*uint)
 	}
-- 
2.43.0


From fd41a70091e4e79d3b5591cf1d812760c69ba505 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 09:44:56 +0000
Subject: [PATCH 41/42] fix: split names at label boundaries when looking for
 an NXDOMAIN ancestor in the cache

A dot that is part of a label was taken as a separator.
---
 cache.go | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/cache.go b/cache.go
index 3f4cf85..ce24141 100644
--- a/cache.go
+++ b/cache.go
@@ -4,7 +4,6 @@ import (
 	"expvar"
 	"math"
 	"math/rand"
-	"strings"
 	"sync"
 	"sync/atomic"
 	"time"
@@ -308,9 +307,8 @@ func (r *Cache) answerFromCache(q *dns.Msg) (*dns.Msg, bool, bool) {
 	if r.HardenBelowNXDOMAIN {
 		name := q.Question[0].Name
 		newQ := q.Copy()
-		fragments := strings.Split(name, ".")
-		for i := 1; i < len(fragments)-1; i++ {
-			newQ.Question[0].Name = strings.Join(fragments[i:], ".")
+		for i, end := dns.NextLabel(name, 0); !end; i, end = dns.NextLabel(name, i) {
+			newQ.Question[0].Name = name[i:]
 			if a, _, ok := r.backend.Lookup(newQ); ok {
 				if a.Rcode == dns.RcodeNameError {
 					return nxdomain(q), false, true
-- 
2.43.0


From 846f3aa595a56c7fa9ad8400046d860a8eedba71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 10:07:28 +0000
Subject: [PATCH 42/42] fix: keep escaped dots inside their label when matching
 domain blocklists

---
 blocklistdb-domain.go | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/blocklistdb-domain.go b/blocklistdb-domain.go
index e036144..c1857b7 100644
--- a/blocklistdb-domain.go
+++ b/blocklistdb-domain.go
@@ -85,7 +85,7 @@ func newDomainDB(name string, loader BlocklistLoader, includeSubdomains bool) (*
 
 		// Break up the domain into its parts and iterate backwards over them, building
 		// a graph of maps
-		parts := strings.Split(r, ".")
+		parts := splitDomain(r)
 		n := root
 		for i := len(parts) - 1; i >= 0; i-- {
 			part := parts[i]
@@ -184,7 +184,7 @@ func (m *DomainDB) Match(msg *dns.Msg) ([]net.IP, []string, *BlocklistMatch, boo
 	q := msg.Question[0]
 	s := strings.ToLower(strings.TrimSuffix(q.Name, "."))
 	var matched []string
-	parts := strings.Split(s, ".")
+	parts := splitDomain(s)
 	n := m.root
 	for i := len(parts) - 1; i >= 0; i-- {
 		part := parts[i]
@@ -227,6 +227,22 @@ func (m *DomainDB) String() string {
 	return "Domain"
 }
 
+// Break up a domain at its dots, except escaped ones which are part of a label.
+func splitDomain(name string) []string {
+	parts := make([]string, 0, strings.Count(name, ".")+1)
+	start := 0
+	for i := 0; i < len(name); i++ {
+		switch name[i] {
+		case '\\':
+			i++
+		case '.':
+			parts = append(parts, name[start:i])
+			start = i + 1
+		}
+	}
+	return append(parts, name[start:])
+}
+
 // Turn a list of matched domain fragments into a domain (rule)
 func matchedDomainParts(prefix string, p []string) string {
 	for i := len(p)/2 - 1; i >= 0; i-- {
-- 
2.43.0

