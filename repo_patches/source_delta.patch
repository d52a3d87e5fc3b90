From 56329b4c1da8c30c20b316c6a8d6723231bc799b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:29 +0000
Subject: [PATCH 001/116] fix: leave a POST queued until the pipeline has
 drained instead of starting it early and again

---
 pyslet/pyslet/rfc2616.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyslet/pyslet/rfc2616.py b/pyslet/pyslet/rfc2616.py
index bc2e377..7e1aa81 100644
--- a/pyslet/pyslet/rfc2616.py
+++ b/pyslet/pyslet/rfc2616.py
@@ -156,7 +156,7 @@ class Connection(object):
 				if self.response is None or self.IDEMPOTENT.get(request.method,False):
 					# If we are waiting for a response we only accept idempotent methods
 					self.requestQueue=self.requestQueue[1:]
-				self._StartRequest(request)
+					self._StartRequest(request)
 			if self.request or self.response:
 				if self.socket is None:
 					self.NewSocket()
-- 
2.43.0


From 6bd2f0413674ccf1d76b0d01e36ab350fa8fa274 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:29 +0000
Subject: [PATCH 002/116] fix: process a pipelined response that arrived
 together with the previous one

---
 pyslet/pyslet/rfc2616.py | 28 ++++++++++++++++++----------
 1 file changed, 18 insertions(+), 10 deletions(-)

diff --git a/pyslet/pyslet/rfc2616.py b/pyslet/pyslet/rfc2616.py
index 7e1aa81..6e79889 100644
--- a/pyslet/pyslet/rfc2616.py
+++ b/pyslet/pyslet/rfc2616.py
@@ -99,6 +99,7 @@ class Connection(object):
 		self.sendBuffer=[]
 		self.recvBuffer=[]
 		self.recvBufferSize=0
+		self.recvPending=False				# True if recvBuffer may hold the start of the next response
 
 	def ThreadTargetKey(self):
 		return (self.threadId,self.scheme,self.host,self.port)
@@ -215,7 +216,7 @@ class Connection(object):
 					if e:
 						# there is an error on our socket...
 						self.Close("socket error indicated by select")
-					elif r:
+					elif r or self.recvPending:
 						if self._RecvResponseData():
 							# The response is done
 							closeConnection=False
@@ -224,6 +225,7 @@ class Connection(object):
 							if self.responseQueue:
 								self.response=self.responseQueue[0]
 								self.responseQueue=self.responseQueue[1:]
+								self.recvPending=self.recvBufferSize>0
 							elif self.response:
 								self.response=None
 								if self.requestMode==self.CLOSE_WAIT:
@@ -304,6 +306,7 @@ class Connection(object):
 		self.sendBuffer=[]
 		self.recvBuffer=[]
 		self.recvBufferSize=0
+		self.recvPending=False
 		self.requestMode=self.REQ_READY
 
 	def Kill(self):
@@ -394,15 +397,20 @@ class Connection(object):
 		#	satisfy that, we return True when the response has been
 		#	received completely, False otherwise"""
 		err=None
-		try:
-			data=self.socket.recv(SOCKET_CHUNK)
-		except socket.error, e:
-			# We can't truly tell if the server hung-up except by getting an error
-			# here so this error could be fairly benign.
-			err=e
-			data=None
-		logging.debug("Reading from %s: \n%s",self.host,repr(data))
-		if data:
+		data=None
+		if not self.recvPending:
+			try:
+				data=self.socket.recv(SOCKET_CHUNK)
+			except socket.error, e:
+				# We can't truly tell if the server hung-up except by getting an error
+				# here so this error could be fairly benign.
+				err=e
+				data=None
+			logging.debug("Reading from %s: \n%s",self.host,repr(data))
+		if self.recvPending:
+			# start with the data left over from the previous response
+			self.recvPending=False
+		elif data:
 			nBytes=len(data)
 			self.recvBuffer.append(data)
 			self.recvBufferSize+=nBytes
-- 
2.43.0


From 00bba4c688bb342ed163e857f4047cddc77a0dc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:29 +0000
Subject: [PATCH 003/116] fix: accept 3xx responses with no Location and
 relative redirect locations

---
 pyslet/pyslet/rfc2616.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/pyslet/pyslet/rfc2616.py b/pyslet/pyslet/rfc2616.py
index 6e79889..0b28671 100644
--- a/pyslet/pyslet/rfc2616.py
+++ b/pyslet/pyslet/rfc2616.py
@@ -1707,13 +1707,13 @@ class HTTPRequest(HTTPMessage):
 			# If the 302 status code is received in response to a request other
 			# than GET or HEAD, the user agent MUST NOT automatically redirect the
 			# request unless it can be confirmed by the user
-			location=self.response.GetHeader("Location").strip()
-			if location:
-				url=uri.URIFactory.URI(location)
+			location=self.response.GetHeader("Location")
+			if location and location.strip():
+				url=uri.URIFactory.URI(location.strip())
 				if not url.host:
 					# This is an error but a common one (thanks IIS!)
-					location=location.Resolve(self.requestURI)
-				self.Resend(location)
+					url=url.Resolve(self.requestURI)
+				self.Resend(url)
 		elif self.status==401:
 			challenges=self.response.GetWWWAuthenticate()
 			for c in challenges:
-- 
2.43.0


From 84a0ffb23d6870e663c615f209952c373fed2955 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:24 +0000
Subject: [PATCH 004/116] fix: report a response cut short by the server as an
 error, keep the reason of a complete one

---
 pyslet/pyslet/rfc2616.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/pyslet/pyslet/rfc2616.py b/pyslet/pyslet/rfc2616.py
index 0b28671..60f2cfa 100644
--- a/pyslet/pyslet/rfc2616.py
+++ b/pyslet/pyslet/rfc2616.py
@@ -419,7 +419,7 @@ class Connection(object):
 			# up, we should implement the HTTP retry strategy for the
 			# related request
 			logging.debug("%s: closing connection after recv returned no data on ready to read socket",self.host)
-			self.Close()
+			self.Close(err)
 			return True
 		# Now loop until we can't satisfy the response anymore (or the response is done)
 		while self.response is not None:
@@ -1644,7 +1644,7 @@ class HTTPRequest(HTTPMessage):
 	def ResponseFinished(self,err=None):
 		self.status=self.response.status
 		self.error=err
-		if self.status is None:
+		if self.status is None or err is not None:
 			logging.error("Error receiving response, %s",str(self.error))
 			self.status=0
 			self.Finished()
@@ -1977,5 +1977,11 @@ class HTTPResponse(HTTPMessage):
 		response.  We pass this information on to the request.  Note that if we
 		are reading forever 'err' may or may not be set when the server finally
 		hangs up and stops sending."""
-		self.reason=str(err)
-		self.request.ResponseFinished(err)
+		if err is None and self.mode==self.RESP_DATA and not self.transferLength:
+			# we were reading forever, this is the normal end of the response
+			self.request.ResponseFinished()
+		else:
+			if err is None:
+				err=HTTPException("Server disconnected before the response was complete")
+			self.reason=str(err)
+			self.request.ResponseFinished(err)
-- 
2.43.0


From 7f1fd5672cad95213ffdfdd31c4c0773becd403a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:29 +0000
Subject: [PATCH 005/116] fix: refuse threads waiting for a connection when the
 manager closes, and keep to their time-out

---
 pyslet/pyslet/rfc2616.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/pyslet/pyslet/rfc2616.py b/pyslet/pyslet/rfc2616.py
index 60f2cfa..e521b7f 100644
--- a/pyslet/pyslet/rfc2616.py
+++ b/pyslet/pyslet/rfc2616.py
@@ -653,9 +653,9 @@ class HTTPRequestManager(object):
 		threadTarget=(threadId,request.scheme,request.hostname,request.port)
 		target=(request.scheme,request.hostname,request.port)
 		with self.managerLock:
-			if self.closing:
-				raise ConnectionClosed
 			while True:
+				if self.closing:
+					raise ConnectionClosed
 				# Step 1: search for an active connection to the same
 				# target already bound to our thread
 				if threadTarget in self.cActiveThreadTargets:
@@ -687,11 +687,14 @@ class HTTPRequestManager(object):
 					if timeout==0:
 						logging.warn("non-blocking call to QueueRequest failed to obtain an HTTP connection") 
 						raise RequestManagerBusy
-					elif timeout is not None and now>start+timeout:
+					elif timeout is not None and now>=start+timeout:
 						logging.warn("QueueRequest timed out while waiting for an HTTP connection")
 						raise RequestManagerBusy
 					logging.debug("QueueRequest forced to wait for an HTTP connection")
-					self.managerLock.wait(timeout)
+					if timeout is None:
+						self.managerLock.wait()
+					else:
+						self.managerLock.wait(start+timeout-now)
 					logging.debug("QueueRequest resuming search for an HTTP connection")
 			# add this request tot he queue on the connection
 			connection.requestQueue.append(request)
@@ -891,6 +894,7 @@ class HTTPRequestManager(object):
 		while True:
 			with self.managerLock:
 				self.closing=True
+				self.managerLock.notifyAll()
 				if len(self.cActiveThreadTargets)+len(self.cIdleList)==0:
 					break
 			self.ActiveCleanup(0)
-- 
2.43.0


From d96b8cab3024749be1a4d29bd67f4f8109313ed7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:29 +0000
Subject: [PATCH 006/116] fix: a connection just given to a thread is not
 inactive

---
 pyslet/pyslet/rfc2616.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pyslet/pyslet/rfc2616.py b/pyslet/pyslet/rfc2616.py
index e521b7f..a22520b 100644
--- a/pyslet/pyslet/rfc2616.py
+++ b/pyslet/pyslet/rfc2616.py
@@ -715,6 +715,7 @@ class HTTPRequestManager(object):
 	def _ActivateConnection(self,connection,threadId):
 		# safe if connection is new and not in the idle list
 		connection.threadId=threadId
+		connection.lastActive=time.time()
 		target=connection.TargetKey()
 		threadTarget=connection.ThreadTargetKey()
 		with self.managerLock:
-- 
2.43.0


From acc9347b699d606f85373d6b4a0f6baa58121801 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:29 +0000
Subject: [PATCH 007/116] fix: a killed connection going idle must not displace
 the one that replaced it

---
 pyslet/pyslet/rfc2616.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyslet/pyslet/rfc2616.py b/pyslet/pyslet/rfc2616.py
index a22520b..d1b7109 100644
--- a/pyslet/pyslet/rfc2616.py
+++ b/pyslet/pyslet/rfc2616.py
@@ -738,7 +738,7 @@ class HTTPRequestManager(object):
 		target=connection.TargetKey()
 		threadTarget=connection.ThreadTargetKey()
 		with self.managerLock:
-			if threadTarget in self.cActiveThreadTargets:
+			if self.cActiveThreadTargets.get(threadTarget) is connection:
 				del self.cActiveThreadTargets[threadTarget]
 				self.cIdleList[connection.id]=connection
 				if target in self.cIdleTargets:
-- 
2.43.0


From 8cb68fc2f4f80b0bdd61928255c6ffddc0c6852d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:29 +0000
Subject: [PATCH 008/116] fix: a connection killed before or while it connects
 stays dead

---
 pyslet/pyslet/rfc2616.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyslet/pyslet/rfc2616.py b/pyslet/pyslet/rfc2616.py
index d1b7109..67ad1e4 100644
--- a/pyslet/pyslet/rfc2616.py
+++ b/pyslet/pyslet/rfc2616.py
@@ -335,7 +335,7 @@ class Connection(object):
 				except socket.error, msg:
 					# ignore errors, most likely the server has stopped listening
 					pass
-				self.connectionClosed=True
+			self.connectionClosed=True
 
 	def _StartRequest(self,request):
 		# Starts processing the request.  Returns True if the request
@@ -519,7 +519,7 @@ class Connection(object):
 			with self.connectionLock:
 				if self.connectionClosed:
 					# This connection has been killed
-					self._CloseSocket(newS)
+					self._CloseSocket(sNew)
 					logging.error("Connection killed while connecting to %s",self.host)
 					raise HTTPException("Connection closed")
 				else:
-- 
2.43.0


From 5676a1a68678fcaa671f85af67f57a9f119676dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:29 +0000
Subject: [PATCH 009/116] fix: unbound names when a socket cannot be created or
 select fails

---
 pyslet/pyslet/rfc2616.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pyslet/pyslet/rfc2616.py b/pyslet/pyslet/rfc2616.py
index 67ad1e4..ff3ea5a 100644
--- a/pyslet/pyslet/rfc2616.py
+++ b/pyslet/pyslet/rfc2616.py
@@ -211,8 +211,9 @@ class Connection(object):
 					try:
 						r,w,e=self.socketSelect([self.socketFile],[],[self.socketFile],0)
 					except select.error, err:
-						r=[]
+						r=[];e=[]
 						self.Close(err)
+						continue
 					if e:
 						# there is an error on our socket...
 						self.Close("socket error indicated by select")
@@ -498,6 +499,7 @@ class Connection(object):
 			self.socket=None
 			self.socketFile=None
 			self.socketSelect=select.select
+		sNew=None
 		try:
 			for target in self.manager.DNSLookup(self.host,self.port):
 				family, socktype, protocol, canonname, address = target
-- 
2.43.0


From a5818416c4877909cdcf60c63928c2764367c52c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:29 +0000
Subject: [PATCH 010/116] fix: a request is not finished by an interim response

---
 pyslet/pyslet/rfc2616.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyslet/pyslet/rfc2616.py b/pyslet/pyslet/rfc2616.py
index ff3ea5a..4e75f92 100644
--- a/pyslet/pyslet/rfc2616.py
+++ b/pyslet/pyslet/rfc2616.py
@@ -1552,8 +1552,8 @@ class HTTPRequest(HTTPMessage):
 		request, may be before or after the response is received
 		and handled!"""
 		self.connection=None
-		if self.status>0:
-			# The response has finished
+		if self.status>0 and not (self.status>=100 and self.status<=199):
+			# The (final) response has finished
 			self.Finished()
 		
 	def ReadRequestHeader(self):
-- 
2.43.0


From 2002aae248ea812eac65f64ca73d291dd8edda43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:29 +0000
Subject: [PATCH 011/116] fix: stop waiting for 100-continue once the final
 response has arrived

---
 pyslet/pyslet/rfc2616.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/pyslet/pyslet/rfc2616.py b/pyslet/pyslet/rfc2616.py
index 4e75f92..36397cf 100644
--- a/pyslet/pyslet/rfc2616.py
+++ b/pyslet/pyslet/rfc2616.py
@@ -1679,10 +1679,11 @@ class HTTPRequest(HTTPMessage):
 						# don't plan to send it so we have to hang up!
 						self.connection.RequestDisconnect()
 					# else, we were finished anyway... the connection will discover this itself
-				elif self.response>=200:
+				elif self.status>=200:
 					# For 2xx result codes we let the connection finish spooling
-					# and disconnect from us when it is done
-					pass
+					# and disconnect from us when it is done, there will be no
+					# 100-continue now
+					self.connection.Continue(self)
 				else:
 					# A bad information response (with body) or a bad status code
 					self.connection.RequestDisconnect()
-- 
2.43.0


From 375448c29318a5fe75617f3467f20c92218c697c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:29 +0000
Subject: [PATCH 012/116] fix: enter CLOSE_WAIT when nothing more can be sent

---
 pyslet/pyslet/rfc2616.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyslet/pyslet/rfc2616.py b/pyslet/pyslet/rfc2616.py
index 36397cf..662ccea 100644
--- a/pyslet/pyslet/rfc2616.py
+++ b/pyslet/pyslet/rfc2616.py
@@ -382,7 +382,7 @@ class Connection(object):
 				# requests!
 				self.request.Disconnect()
 				self.request=None
-				self.requestMode==self.CLOSE_WAIT
+				self.requestMode=self.CLOSE_WAIT
 				self.sendBuffer=[]
 			elif nBytes<len(data):
 				# Some of the data went:
-- 
2.43.0


From e119c1dbd2f6dab764205042ed06c130e421f612 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:58 +0000
Subject: [PATCH 013/116] fix: report malformed responses as HTTP errors

---
 pyslet/pyslet/rfc2616.py        | 27 +++++++++++++++++++--------
 pyslet/pyslet/rfc2616_params.py |  2 +-
 2 files changed, 20 insertions(+), 9 deletions(-)

diff --git a/pyslet/pyslet/rfc2616.py b/pyslet/pyslet/rfc2616.py
index 662ccea..a979d5d 100644
--- a/pyslet/pyslet/rfc2616.py
+++ b/pyslet/pyslet/rfc2616.py
@@ -1149,7 +1149,10 @@ class HTTPMessage(object):
 		If no Content-Length header was present None is returned."""
 		fieldValue=self.GetHeader("Content-Length")
 		if fieldValue is not None:
-			return int(fieldValue.strip())
+			fieldValue=fieldValue.strip()
+			if not fieldValue.isdigit():
+				raise HTTPException("Badly formed Content-Length: %s"%fieldValue)
+			return int(fieldValue)
 		else:
 			return None
 
@@ -1870,13 +1873,16 @@ class HTTPResponse(HTTPMessage):
 	def RecvLine(self,line):
 		if self.mode==self.RESP_STATUS:
 			# Read the status line
-			statusLine=ParameterParser(line[:-2],ignoreSpace=False)
+			try:
+				statusLine=ParameterParser(line[:-2],ignoreSpace=False)
+			except ValueError:
+				raise HTTPException("Badly formed status line: %s"%repr(line))
 			self.protocolVersion=statusLine.ParseHTTPVersion()
 			statusLine.ParseSP()
-			if statusLine.IsInteger():
+			if self.protocolVersion is not None and statusLine.IsInteger():
 				self.status=statusLine.ParseInteger()
 			else:
-				self.status=0
+				raise HTTPException("Badly formed status line: %s"%repr(line))
 			statusLine.ParseSP()
 			self.reason=statusLine.ParseRemainder()
 			self.mode=self.RESP_HEADER
@@ -1899,9 +1905,14 @@ class HTTPResponse(HTTPMessage):
 				self.request.HandleResponseHeader()
 		elif self.mode==self.RESP_CHUNK_SIZE:
 			# Read the chunk size
-			p=ParameterParser(line[:-2])
-			chunkLine=p.ParseToken()
-			self.transferLength=int(chunkLine,16)
+			try:
+				p=ParameterParser(line[:-2])
+				chunkLine=p.ParseToken()
+				self.transferLength=int(chunkLine,16)
+			except (ValueError,TypeError):
+				raise HTTPException("Badly formed chunk size: %s"%repr(line))
+			if self.transferLength<0:
+				raise HTTPException("Badly formed chunk size: %s"%repr(line))
 			self.transferPos=0
 			if self.transferLength==0:
 				# We've read the last chunk, parse through any headers
@@ -1944,7 +1955,7 @@ class HTTPResponse(HTTPMessage):
 					self.currHeader=ch
 				else:
 					# badly formed header line
-					raise HTTP2616ProtocolError("Badly formed header line: %s"%h)
+					raise HTTPException("Badly formed header line: %s"%h)
 			return True
 
 	def RecvBytes(self,data):
diff --git a/pyslet/pyslet/rfc2616_params.py b/pyslet/pyslet/rfc2616_params.py
index 7f8078d..5bb4286 100755
--- a/pyslet/pyslet/rfc2616_params.py
+++ b/pyslet/pyslet/rfc2616_params.py
@@ -590,7 +590,7 @@ class ParameterParser(WordParser):
 				raise SyntaxError("Expected version, found %s"%repr(token))
 			return HTTPVersion(major=int(version[0]),minor=int(version[1]))
 		except SyntaxError:
-			self.SetPos(savePost)
+			self.SetPos(savePos)
 			return None
 
 	wkday=["Mon","Tue","Wed","Thu","Fri","Sat","Sun"]
-- 
2.43.0


From 9f94f9b7831a94543030f2006e356f64d93d8e59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:58 +0000
Subject: [PATCH 014/116] fix: add the missing
 HTTPRequestManager.RemoveCredentials used when credentials are rejected

---
 pyslet/pyslet/rfc2616.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/pyslet/pyslet/rfc2616.py b/pyslet/pyslet/rfc2616.py
index a979d5d..b3e000b 100644
--- a/pyslet/pyslet/rfc2616.py
+++ b/pyslet/pyslet/rfc2616.py
@@ -912,6 +912,14 @@ class HTTPRequestManager(object):
 		with self.managerLock:
 			self.credentials.append(credentials)
 	
+	def RemoveCredentials(self,credentials):
+		"""Removes a :py:class:`pyslet.rfc2617.Credentials` instance from
+		this manager, it is not an error if it has been removed
+		already."""
+		with self.managerLock:
+			if credentials in self.credentials:
+				self.credentials.remove(credentials)
+
 	def DNSLookup(self,host,port):
 		"""Given a host name (string) and a port number performs a DNS lookup
 		using the native socket.getaddrinfo function.  The resulting value is
-- 
2.43.0


From 78b3144b119f50401271a79ac1ec3b26d5d246c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:58 +0000
Subject: [PATCH 015/116] fix: an empty list of challenges when there is no
 WWW-Authenticate header

---
 pyslet/pyslet/rfc2616.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyslet/pyslet/rfc2616.py b/pyslet/pyslet/rfc2616.py
index b3e000b..39cff70 100644
--- a/pyslet/pyslet/rfc2616.py
+++ b/pyslet/pyslet/rfc2616.py
@@ -1837,7 +1837,7 @@ class HTTPResponse(HTTPMessage):
 		if fieldValue is not None:
 			return Challenge.ListFromString(fieldValue)
 		else:
-			return None
+			return []
 
 	def SetWWWAuthenticate(self,challenges):
 		"""Sets the "WWW-Authenticate" header, replacing any exsiting
-- 
2.43.0


From 22d9a81c15454a688310bf014e3be15b466ecca2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:58 +0000
Subject: [PATCH 016/116] fix: answer one matching challenge only

---
 pyslet/pyslet/rfc2616.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pyslet/pyslet/rfc2616.py b/pyslet/pyslet/rfc2616.py
index 39cff70..df58049 100644
--- a/pyslet/pyslet/rfc2616.py
+++ b/pyslet/pyslet/rfc2616.py
@@ -1741,6 +1741,7 @@ class HTTPRequest(HTTPMessage):
 				if self.tryCredentials:
 					self.SetHeader('Authorization',str(self.tryCredentials))
 					self.Resend()	# to the same URL
+					break
 
 class HTTPResponse(HTTPMessage):
 	
-- 
2.43.0


From e4d6b88c72431d373d5f37b4a6449c3e8308ae95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:58 +0000
Subject: [PATCH 017/116] fix: note a success path under the manager's lock and
 only for a real response

---
 pyslet/pyslet/rfc2616.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pyslet/pyslet/rfc2616.py b/pyslet/pyslet/rfc2616.py
index df58049..f34b42b 100644
--- a/pyslet/pyslet/rfc2616.py
+++ b/pyslet/pyslet/rfc2616.py
@@ -1717,10 +1717,11 @@ class HTTPRequest(HTTPMessage):
 			if self.status==401:
 				# we must remove these credentials, they matched the challenge but still resulted in 401
 				self.manager.RemoveCredentials(self.tryCredentials)
-			else:
+			elif self.status>0:
 				if isinstance(self.tryCredentials,BasicCredentials):
 					# path rule only works for BasicCredentials
-					self.tryCredentials.AddSuccessPath(self.requestURI.absPath)
+					with self.manager.managerLock:
+						self.tryCredentials.AddSuccessPath(self.requestURI.absPath)
 			self.tryCredentials=None
 		if self.autoRedirect and self.status>=300 and self.status<=399 and (self.status!=302 or self.method.upper() in ("GET","HEAD")):
 			# If the 302 status code is received in response to a request other
-- 
2.43.0


From 0ccfbca1e9a7068da9fd9868fdb8f19e20851e3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:58 +0000
Subject: [PATCH 018/116] fix: match the realm of a challenge

---
 pyslet/pyslet/rfc2617.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyslet/pyslet/rfc2617.py b/pyslet/pyslet/rfc2617.py
index 6c606f3..34c441a 100755
--- a/pyslet/pyslet/rfc2617.py
+++ b/pyslet/pyslet/rfc2617.py
@@ -148,7 +148,7 @@ class Credentials(object):
 		if self.protectionSpace!=challenge.protectionSpace:
 			return False
 		if self.realm:
-			if self.realm!=challenge.realm:
+			if self.realm!=challenge["realm"]:
 				return False
 		return True
 
-- 
2.43.0


From 295ac5ff33dcaf2ab3514b905e7b5c15d2024518 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:58 +0000
Subject: [PATCH 019/116] fix: do not take credentials or an old response body
 along when redirected

---
 pyslet/pyslet/rfc2616.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/pyslet/pyslet/rfc2616.py b/pyslet/pyslet/rfc2616.py
index f34b42b..1cc0c1f 100644
--- a/pyslet/pyslet/rfc2616.py
+++ b/pyslet/pyslet/rfc2616.py
@@ -1422,6 +1422,7 @@ class HTTPRequest(HTTPMessage):
 		self.autoRedirect=True	#: flag indicating whether or not to auto-redirect 3xx responses
 		self.done=False			
 		self.tryCredentials=None
+		self.managerAuthorization=False	# True if the Authorization header was set from the manager's credentials
 		
 	def Resend(self,url=None):
 		self.done=False
@@ -1430,7 +1431,13 @@ class HTTPRequest(HTTPMessage):
 		self.status=0
 		self.error=None
 		if url is not None:
+			oldRoot=self.requestURI.GetCanonicalRoot()
 			self.SetRequestURI(url)
+			if self.managerAuthorization or self.requestURI.GetCanonicalRoot()!=oldRoot:
+				# never take credentials along to another resource
+				self.SetHeader('Authorization',None)
+				self.managerAuthorization=False
+		self.resBody=''
 		if self.reqBodyStream:
 			self.reqBodyStream.seek(self.reqBodyStart)
 		if self.resBodyStream:
@@ -1580,6 +1587,7 @@ class HTTPRequest(HTTPMessage):
 			credentials=self.manager.FindCredentialsForURL(self.requestURI)
 			if credentials:
 				self.SetHeader('Authorization',str(credentials))			
+				self.managerAuthorization=True
 		hList=self.GetHeaderList()
 		for hKey in hList:
 			hName,hValue=self.headers[hKey]
@@ -1741,6 +1749,7 @@ class HTTPRequest(HTTPMessage):
 				self.tryCredentials=self.manager.FindCredentials(c)
 				if self.tryCredentials:
 					self.SetHeader('Authorization',str(self.tryCredentials))
+					self.managerAuthorization=True
 					self.Resend()	# to the same URL
 					break
 
-- 
2.43.0


From 76a7763ee35760abdddb2a33dbf1bbfa52bd9617 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:46 +0000
Subject: [PATCH 020/116] fix: read data already buffered by a secure socket

---
 pyslet/pyslet/rfc2616.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/pyslet/pyslet/rfc2616.py b/pyslet/pyslet/rfc2616.py
index 1cc0c1f..58486f1 100644
--- a/pyslet/pyslet/rfc2616.py
+++ b/pyslet/pyslet/rfc2616.py
@@ -217,7 +217,7 @@ class Connection(object):
 					if e:
 						# there is an error on our socket...
 						self.Close("socket error indicated by select")
-					elif r or self.recvPending:
+					elif r or self.recvPending or self._TransportPending():
 						if self._RecvResponseData():
 							# The response is done
 							closeConnection=False
@@ -393,6 +393,12 @@ class Connection(object):
 			# shouldn't get empty strings in the buffer but if we do, delete them
 			del self.sendBuffer[0]
 		
+	def _TransportPending(self):
+		#	A secure socket may hold data it has already read from the
+		#	underlying socket, select does not know about that.
+		pending=getattr(self.socket,'pending',None)
+		return pending is not None and pending()>0
+
 	def _RecvResponseData(self):
 		#	We ask the response what it is expecting and try and
 		#	satisfy that, we return True when the response has been
-- 
2.43.0


From 36891867c98bc9535b0852526c86a48baaf16e6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:19 +0000
Subject: [PATCH 021/116] fix: recognise the identity transfer encoding in a
 received header

---
 pyslet/pyslet/rfc2616.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyslet/pyslet/rfc2616.py b/pyslet/pyslet/rfc2616.py
index 58486f1..8e743c4 100644
--- a/pyslet/pyslet/rfc2616.py
+++ b/pyslet/pyslet/rfc2616.py
@@ -1328,7 +1328,7 @@ class HTTPMessage(object):
 			return
 		# If there is an encoding other than 'identity' then we're using chunked
 		encoding=self.GetTransferEncoding()
-		if encoding is not None and encoding!="identity":
+		if encoding is not None and encoding.strip().lower()!="identity":
 			self.transferChunked=True
 			self.transferLength=None
 			# overrides any Content-Length setting
-- 
2.43.0


From 52838f425a71b2f5fe4961567c49d42040e424b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:49 +0000
Subject: [PATCH 022/116] fix: do not finish a request twice when its body
 cannot be read after an error response

---
 pyslet/pyslet/rfc2616.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/pyslet/pyslet/rfc2616.py b/pyslet/pyslet/rfc2616.py
index 8e743c4..05f6573 100644
--- a/pyslet/pyslet/rfc2616.py
+++ b/pyslet/pyslet/rfc2616.py
@@ -1699,7 +1699,12 @@ class HTTPRequest(HTTPMessage):
 				# The response was received before the connection finished with us
 				if self.status>=300:
 					# Some type of error condition....
-					if self.ReadRequestBody():
+					try:
+						moreData=self.ReadRequestBody()
+					except HTTPException:
+						# there should be more data but it can't be read
+						moreData=True
+					if moreData:
 						# There was more data to send in the request but we
 						# don't plan to send it so we have to hang up!
 						self.connection.RequestDisconnect()
-- 
2.43.0


From 6e81073afa2910b38eb9ccf016b29921a1fd8f86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:36 +0000
Subject: [PATCH 023/116] fix: stop waiting for 100-continue after an error
 response to a request with no body

---
 pyslet/pyslet/rfc2616.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pyslet/pyslet/rfc2616.py b/pyslet/pyslet/rfc2616.py
index 05f6573..231056d 100644
--- a/pyslet/pyslet/rfc2616.py
+++ b/pyslet/pyslet/rfc2616.py
@@ -1708,7 +1708,10 @@ class HTTPRequest(HTTPMessage):
 						# There was more data to send in the request but we
 						# don't plan to send it so we have to hang up!
 						self.connection.RequestDisconnect()
-					# else, we were finished anyway... the connection will discover this itself
+					else:
+						# we were finished anyway... the connection will
+						# discover this itself, if it is not waiting for 100-continue
+						self.connection.Continue(self)
 				elif self.status>=200:
 					# For 2xx result codes we let the connection finish spooling
 					# and disconnect from us when it is done, there will be no
-- 
2.43.0


From 4931142cd92cb6e8fb32a31ff9cd3b0e6d026158 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:59 +0000
Subject: [PATCH 024/116] fix: a control character in a received header must
 not loop for ever

---
 pyslet/pyslet/rfc2616_core.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pyslet/pyslet/rfc2616_core.py b/pyslet/pyslet/rfc2616_core.py
index fe38fc0..7c6e596 100755
--- a/pyslet/pyslet/rfc2616_core.py
+++ b/pyslet/pyslet/rfc2616_core.py
@@ -386,7 +386,11 @@ class WordParser(object):
 					self.words.append(p.theChar)
 					p.NextChar()
 			else:
-				self.words.append(p.ParseToken())
+				token=p.ParseToken()
+				if token:
+					self.words.append(token)
+				elif p.theChar is not None:
+					raise SyntaxError("Expected token, found %s"%repr(p.theChar))
 		self.pos=0
 		if self.words:
 			self.cWord=self.words[0]
-- 
2.43.0


From 8a48c1fd2b7529a605c18491670ad580549a084a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:04 +0000
Subject: [PATCH 025/116] fix: close the connection when the Connection header
 cannot be parsed

---
 pyslet/pyslet/rfc2616.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pyslet/pyslet/rfc2616.py b/pyslet/pyslet/rfc2616.py
index 231056d..ad9e461 100644
--- a/pyslet/pyslet/rfc2616.py
+++ b/pyslet/pyslet/rfc2616.py
@@ -222,7 +222,11 @@ class Connection(object):
 							# The response is done
 							closeConnection=False
 							if self.response:
-								closeConnection="close" in self.response.GetConnection() or self.response.protocolVersion<HTTP_1_1
+								try:
+									closeConnection="close" in self.response.GetConnection() or self.response.protocolVersion<HTTP_1_1
+								except (SyntaxError,ValueError), err:
+									logging.error("Can't parse Connection header: %s",str(err))
+									closeConnection=True
 							if self.responseQueue:
 								self.response=self.responseQueue[0]
 								self.responseQueue=self.responseQueue[1:]
-- 
2.43.0


From 37d82c18b37b58b086bd85baa5ac42a5e1481f73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:04 +0000
Subject: [PATCH 026/116] fix: a redirect or challenge that cannot be
 understood must not raise out of the thread loop

---
 pyslet/pyslet/rfc2616.py | 21 ++++++++++++++++-----
 1 file changed, 16 insertions(+), 5 deletions(-)

diff --git a/pyslet/pyslet/rfc2616.py b/pyslet/pyslet/rfc2616.py
index ad9e461..ff8b212 100644
--- a/pyslet/pyslet/rfc2616.py
+++ b/pyslet/pyslet/rfc2616.py
@@ -1754,14 +1754,25 @@ class HTTPRequest(HTTPMessage):
 			# than GET or HEAD, the user agent MUST NOT automatically redirect the
 			# request unless it can be confirmed by the user
 			location=self.response.GetHeader("Location")
+			url=None
 			if location and location.strip():
-				url=uri.URIFactory.URI(location.strip())
-				if not url.host:
-					# This is an error but a common one (thanks IIS!)
-					url=url.Resolve(self.requestURI)
+				try:
+					url=uri.URIFactory.URI(location.strip())
+					if not url.IsAbsolute():
+						# This is an error but a common one (thanks IIS!)
+						url=url.Resolve(self.requestURI)
+				except (uri.URIException,ValueError), err:
+					logging.error("Can't follow redirect to %s: %s",repr(location),str(err))
+					url=None
+			if isinstance(url,HTTPURL) and url.host and not url.userinfo:
+				# we only follow redirects to URLs we know how to request
 				self.Resend(url)
 		elif self.status==401:
-			challenges=self.response.GetWWWAuthenticate()
+			try:
+				challenges=self.response.GetWWWAuthenticate()
+			except (SyntaxError,ValueError), err:
+				logging.error("Can't parse challenge: %s",str(err))
+				challenges=[]
 			for c in challenges:
 				c.protectionSpace=self.requestURI.GetCanonicalRoot()
 				self.tryCredentials=self.manager.FindCredentials(c)
-- 
2.43.0


From c521d890082bb202a145b6d509bfa6377f784327 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:49 +0000
Subject: [PATCH 027/116] fix: delete an entity under the container's lock

---
 pyslet/pyslet/odata2/memds.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pyslet/pyslet/odata2/memds.py b/pyslet/pyslet/odata2/memds.py
index 304bab0..531572f 100644
--- a/pyslet/pyslet/odata2/memds.py
+++ b/pyslet/pyslet/odata2/memds.py
@@ -447,6 +447,11 @@ class EntityCollection(odata.EntityCollection):
 		"""We do a cascade delete of everything that *must* be linked to
 		us. We don't need to bother about deleting links because the
 		delete hooks on entityStore do this automatically."""
+		with self.entityStore.container.lock:
+			self._DeleteEntity(key)
+
+	def _DeleteEntity(self,key):
+		# must only be called if you have acquired the container lock
 		if not self.entityStore.StartDeletingEntity(key):
 			# we're already being deleted so do nothing
 			return
-- 
2.43.0


From 6a6e78e413f248df912546c4bf847e6803b8256b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:17 +0000
Subject: [PATCH 028/116] fix: choose an automatic key under the lock that
 stores the entity

---
 pyslet/pyslet/odata2/memds.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/pyslet/pyslet/odata2/memds.py b/pyslet/pyslet/odata2/memds.py
index 531572f..9947332 100644
--- a/pyslet/pyslet/odata2/memds.py
+++ b/pyslet/pyslet/odata2/memds.py
@@ -396,13 +396,14 @@ class EntityCollection(odata.EntityCollection):
 		suppress a constraint check (on the assumption that it has
 		already been checked) by passing *fromEnd* directly to
 		:py:meth:`Entity.CheckNavigationConstraints`."""
-		try:
-			key=entity.Key()
-		except KeyError:
-			# if the entity doesn't have a key, autogenerate one
-			key=self.entityStore.NextKey()
-			entity.SetKey(key)
 		with self.entityStore.container.lock:
+			try:
+				key=entity.Key()
+			except KeyError:
+				# if the entity doesn't have a key, autogenerate one, the
+				# lock ensures that nobody else can take it
+				key=self.entityStore.NextKey()
+				entity.SetKey(key)
 			# This is a bit clumsy, but we lock the whole container while we
 			# check all constraints and perform any nested deletes 
 			if key in self:
-- 
2.43.0


From 1843be83dbdab3423f7a50f8ef940aafd9c75067 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:17 +0000
Subject: [PATCH 029/116] fix: check the filter when looking up a linked entity

---
 pyslet/pyslet/odata2/memds.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/pyslet/pyslet/odata2/memds.py b/pyslet/pyslet/odata2/memds.py
index 9947332..25f91c5 100644
--- a/pyslet/pyslet/odata2/memds.py
+++ b/pyslet/pyslet/odata2/memds.py
@@ -550,10 +550,7 @@ class NavigationCollection(odata.NavigationCollection):
 		resultSet=self.lookupMethod(self.key)
 		if key in resultSet:
 			result=self.collection[key]
-			if self.filter is None:
-				if self.CheckFilter(result):
-					return result
-			else:
+			if self.CheckFilter(result):
 				return result
 		raise KeyError(key)
 		
-- 
2.43.0


From e95f25650123df0786131b96e593c80ab0a2f1a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:17 +0000
Subject: [PATCH 030/116] fix: skip entities deleted while iterating over links
 to them

---
 pyslet/pyslet/odata2/memds.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/pyslet/pyslet/odata2/memds.py b/pyslet/pyslet/odata2/memds.py
index 25f91c5..c91e323 100644
--- a/pyslet/pyslet/odata2/memds.py
+++ b/pyslet/pyslet/odata2/memds.py
@@ -538,7 +538,12 @@ class NavigationCollection(odata.NavigationCollection):
 		# we create a collection from the appropriate entity set first
 		resultSet=self.lookupMethod(self.key)
 		for k in resultSet:
-			yield self.collection[k]
+			try:
+				e=self.collection[k]
+			except KeyError:
+				# deleted since we looked up the links
+				continue
+			yield e
 		
 	def itervalues(self):
 		return self.OrderEntities(
-- 
2.43.0


From 6d2e1e714946b535bd976bc5b017e01ec1d3ef11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:17 +0000
Subject: [PATCH 031/116] fix: allow for entities already deleted through
 another cascade

---
 pyslet/pyslet/odata2/memds.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pyslet/pyslet/odata2/memds.py b/pyslet/pyslet/odata2/memds.py
index c91e323..701db4f 100644
--- a/pyslet/pyslet/odata2/memds.py
+++ b/pyslet/pyslet/odata2/memds.py
@@ -472,6 +472,9 @@ class EntityCollection(odata.EntityCollection):
 					if associationIndex:
 						with associationIndex.toEntityStore.entitySet.OpenCollection() as toCollection:
 							for toKey in associationIndex.GetLinksFrom(key):
+								if toKey not in associationIndex.GetLinksFrom(key):
+									# already gone, through another cascade
+									continue
 								if navName is None and not associationIndex.toEntityStore.DeletingEntity(toKey):
 									# if we are not in the process of deleting toKey
 									# and there is no navigation property linking us
@@ -485,6 +488,8 @@ class EntityCollection(odata.EntityCollection):
 						associationIndex=self.entityStore.reverseAssociations.get(linkEnd.parent.name,None)
 						with associationIndex.fromEntityStore.entitySet.OpenCollection() as fromCollection:
 							for fromKey in associationIndex.GetLinksTo(key):
+								if fromKey not in associationIndex.GetLinksTo(key):
+									continue
 								if navName is None and not associationIndex.fromEntityStore.DeletingEntity(fromKey):
 									raise edm.NavigationConstraintError("Can't cascade delete from an entity in %s as the association set %s is not bound to a navigation property"%(self.entitySet.name,associationSetName))
 								associationIndex.RemoveLink(fromKey,key)
-- 
2.43.0


From a924c766bb0774003ff51706654ce538ea51eeea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:17 +0000
Subject: [PATCH 032/116] fix: check and change links under the lock, undoing
 the changes of an operation that fails

---
 pyslet/pyslet/odata2/memds.py | 108 +++++++++++++++++++++++++++++++---
 1 file changed, 99 insertions(+), 9 deletions(-)

diff --git a/pyslet/pyslet/odata2/memds.py b/pyslet/pyslet/odata2/memds.py
index 701db4f..d0104e9 100644
--- a/pyslet/pyslet/odata2/memds.py
+++ b/pyslet/pyslet/odata2/memds.py
@@ -10,7 +10,7 @@ import pyslet.xmlnames20091208 as xmlns
 import pyslet.iso8601 as iso8601
 import pyslet.rfc2616 as http
 
-import string, hashlib, threading
+import string, hashlib, threading, contextlib
 
 			
 class InMemoryEntityStore(object):
@@ -73,6 +73,21 @@ class InMemoryEntityStore(object):
 			self.data[key]=tuple(value)
 			# At this point the entity exists
 			e.exists=True
+			self.container.AddUndo(self._UndoAdd,e,key)
+
+	def _UndoAdd(self,e,key):
+		self.data.pop(key,None)
+		self.streams.pop(key,None)
+		e.exists=False
+
+	def _UndoUpdate(self,key,value):
+		self.data[key]=value
+
+	def _UndoStream(self,key,stream):
+		if stream is None:
+			self.streams.pop(key,None)
+		else:
+			self.streams[key]=stream
 
 	def CountEntities(self):
 		with self.container.lock:
@@ -152,10 +167,14 @@ class InMemoryEntityStore(object):
 					elif isinstance(p,edm.SimpleValue):
 						value[i]=p.value
 				i=i+1
+			self.container.AddUndo(self._UndoUpdate,key,self.data[key])
 			self.data[key]=tuple(value)
 
 	def UpdateEntityStream(self,key,streamType,stream):
 		with self.container.lock:
+			if key not in self.data:
+				raise KeyError(repr(key))
+			self.container.AddUndo(self._UndoStream,key,self.streams.get(key,None))
 			self.streams[key]=(streamType,stream)
 
 	def GetTupleFromComplex(self,complexValue):
@@ -204,8 +223,10 @@ class InMemoryEntityStore(object):
 				associationIndex.DeleteHook(key)
 			for associationIndex in self.reverseAssociations.values():
 				associationIndex.ReverseDeleteHook(key)
+			self.container.AddUndo(self._UndoUpdate,key,self.data[key])
 			del self.data[key]
 			if key in self.streams:
+				self.container.AddUndo(self._UndoStream,key,self.streams[key])
 				del self.streams[key]
 		
 	def NextKey(self):
@@ -272,6 +293,8 @@ class InMemoryAssociationIndex(object):
 	def AddLink(self,fromKey,toKey):
 		"""Adds a link from *fromKey* to *toKey*"""
 		with self.container.lock:
+			if toKey not in self.index.get(fromKey,()):
+				self.container.AddUndo(self.RemoveLink,fromKey,toKey)
 			self.index.setdefault(fromKey,set()).add(toKey)
 			self.reverseIndex.setdefault(toKey,set()).add(fromKey)
 
@@ -288,6 +311,8 @@ class InMemoryAssociationIndex(object):
 	def RemoveLink(self,fromKey,toKey):
 		"""Removes a link from *fromKey* to *toKey*"""
 		with self.container.lock:
+			if toKey in self.index.get(fromKey,()):
+				self.container.AddUndo(self.AddLink,fromKey,toKey)
 			self.index.get(fromKey,set()).discard(toKey)
 			self.reverseIndex.get(toKey,set()).discard(fromKey)
 		
@@ -296,6 +321,7 @@ class InMemoryAssociationIndex(object):
 		try:
 			toKeys=self.index[fromKey]
 			for toKey in toKeys:
+				self.container.AddUndo(self.AddLink,fromKey,toKey)
 				fromKeys=self.reverseIndex[toKey]
 				fromKeys.remove(fromKey)
 				if len(fromKeys)==0:
@@ -309,6 +335,7 @@ class InMemoryAssociationIndex(object):
 		try:
 			fromKeys=self.reverseIndex[toKey]
 			for fromKey in fromKeys:
+				self.container.AddUndo(self.AddLink,fromKey,toKey)
 				toKeys=self.index[fromKey]
 				toKeys.remove(toKey)
 				if len(toKeys)==0:
@@ -364,7 +391,7 @@ class Entity(odata.Entity):
 			etag.SetFromValue(h.digest())
 		if h is not None:
 			# we need the lock to ensure the stream and etag are updated together
-			with self.entityStore.container.lock:
+			with self.entityStore.container.Transaction():
 				self.entityStore.UpdateEntityStream(key,streamType,data)
 				self.Update()
 		else:
@@ -396,7 +423,7 @@ class EntityCollection(odata.EntityCollection):
 		suppress a constraint check (on the assumption that it has
 		already been checked) by passing *fromEnd* directly to
 		:py:meth:`Entity.CheckNavigationConstraints`."""
-		with self.entityStore.container.lock:
+		with self.entityStore.container.Transaction():
 			try:
 				key=entity.Key()
 			except KeyError:
@@ -439,7 +466,7 @@ class EntityCollection(odata.EntityCollection):
 	def UpdateEntity(self,entity):
 		# force an error if we don't have a key
 		key=entity.Key()
-		with self.entityStore.container.lock:
+		with self.entityStore.container.Transaction():
 			self.entityStore.UpdateEntity(entity)
 			# now process any bindings
 			self.UpdateBindings(entity)
@@ -448,7 +475,7 @@ class EntityCollection(odata.EntityCollection):
 		"""We do a cascade delete of everything that *must* be linked to
 		us. We don't need to bother about deleting links because the
 		delete hooks on entityStore do this automatically."""
-		with self.entityStore.container.lock:
+		with self.entityStore.container.Transaction():
 			self._DeleteEntity(key)
 
 	def _DeleteEntity(self,key):
@@ -525,9 +552,17 @@ class NavigationCollection(odata.NavigationCollection):
 	def InsertEntity(self,entity):
 		"""Inserts a new *entity* into the target entity set *and*
 		simultaneously creates a link to it from the source entity."""
-		with self.entitySet.OpenCollection() as baseCollection:
-			baseCollection.InsertEntity(entity,fromEnd=self.fromEnd.otherEnd)
-			self[entity.Key()]=entity
+		with self.associationIndex.container.Transaction():
+			self.CheckFromEntity()
+			with self.entitySet.OpenCollection() as baseCollection:
+				baseCollection.InsertEntity(entity,fromEnd=self.fromEnd.otherEnd)
+				self[entity.Key()]=entity
+
+	def CheckFromEntity(self):
+		# must only be called if you have acquired the container lock
+		with self.fromEntity.entitySet.OpenCollection() as fromCollection:
+			if self.key not in fromCollection:
+				raise edm.NonExistentEntity("Attempt to link from a non-existent entity: %s"%self.fromEntity.GetLocation())
 
 	def __len__(self):
 		if self.filter is None:
@@ -565,10 +600,16 @@ class NavigationCollection(odata.NavigationCollection):
 		raise KeyError(key)
 		
 	def __setitem__(self,key,value):
+		with self.associationIndex.container.lock:
+			self._AddLink(key,value)
+
+	def _AddLink(self,key,value):
+		# must only be called if you have acquired the container lock
 		resultSet=self.lookupMethod(self.key)
 		if key in resultSet:
 			# no operation
 			return
+		self.CheckFromEntity()
 		# forces a check of value to ensure it is good
 		self.collection[key]=value
 		if self.toMultiplicity!=edm.Multiplicity.Many:
@@ -586,6 +627,11 @@ class NavigationCollection(odata.NavigationCollection):
 			self.associationIndex.AddLink(self.key,key)
 	
 	def __delitem__(self,key):
+		with self.associationIndex.container.lock:
+			self._RemoveLink(key)
+
+	def _RemoveLink(self,key):
+		# must only be called if you have acquired the container lock
 		#	Before we remove a link we need to know if either entity
 		#	requires a link, if so, this deletion will result in a
 		#	constraint violation
@@ -600,6 +646,11 @@ class NavigationCollection(odata.NavigationCollection):
 			self.associationIndex.RemoveLink(self.key,key)
 
 	def Replace(self,entity):
+		with self.associationIndex.container.lock:
+			self._Replace(entity)
+
+	def _Replace(self,entity):
+		# must only be called if you have acquired the container lock
 		key=entity.Key()
 		resultSet=list(self.lookupMethod(self.key))
 		if resultSet==[key]:
@@ -614,6 +665,11 @@ class NavigationCollection(odata.NavigationCollection):
 		else:
 			# add the new link first
 			if key not in resultSet:
+				self.CheckFromEntity()
+				# forces a check of entity to ensure it is good
+				self.collection[key]=entity
+				if self.fromMultiplicity!=edm.Multiplicity.Many and self.rLookupMethod(key):
+					raise edm.NavigationConstraintError("Entity %s is already bound through this association"%entity.GetLocation())
 				if self.reverse:
 					self.associationIndex.AddLink(key,self.key)
 				else:
@@ -637,6 +693,7 @@ class InMemoryEntityContainer(object):
 		self.lock=threading.RLock()			#: a lock that must be acquired before modifying any entity or association in this container
 		self.entityStorage={}				#: a mapping from entity set names to :py:class:`InMemoryEntityStore` instances
 		self.associationStorage={}			#: a mapping from association set name to :py:class:`InMemoryAssociationIndex` instances
+		self.undoLog=None					#: list of calls that undo the current transaction or None if there isn't one
 		# for each entity set in this container, bind some storage
 		for es in self.containerDef.EntitySet:
 			self.entityStorage[es.name]=InMemoryEntityStore(self,es)
@@ -657,4 +714,37 @@ class InMemoryEntityContainer(object):
 					if target is None:
 						raise edm.ModelIncomplete("Target of navigation property %s.%s is not bound to an entity set"%(es.name,np.name))
 					toStorage=self.entityStorage[target.name]
-					self.associationStorage[associationSet.name]=InMemoryAssociationIndex(self,associationSet,fromStorage,toStorage,np.name)
\ No newline at end of file
+					self.associationStorage[associationSet.name]=InMemoryAssociationIndex(self,associationSet,fromStorage,toStorage,np.name)
+
+	@contextlib.contextmanager
+	def Transaction(self):
+		"""Returns a context manager that acquires the container's lock.
+		
+		If the body raises an exception all the changes it made to the
+		container are undone before the lock is released.  Transactions
+		may be nested."""
+		with self.lock:
+			outermost=self.undoLog is None
+			if outermost:
+				self.undoLog=[]
+			mark=len(self.undoLog)
+			try:
+				yield
+			except:
+				log=self.undoLog
+				# the undo calls must not be recorded themselves
+				self.undoLog=None
+				for method,args in reversed(log[mark:]):
+					method(*args)
+				del log[mark:]
+				self.undoLog=log
+				raise
+			finally:
+				if outermost:
+					self.undoLog=None
+
+	def AddUndo(self,method,*args):
+		"""Records a call that undoes a change, must only be called if
+		you have acquired the lock."""
+		if self.undoLog is not None:
+			self.undoLog.append((method,args))
-- 
2.43.0


From a3e9b133c522a1fc01f8f2ac607d462138c382cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:51 +0000
Subject: [PATCH 033/116] fix: read a media stream together with the entity so
 that type, size and data match

---
 pyslet/pyslet/odata2/memds.py | 24 +++++++++++++++++-------
 1 file changed, 17 insertions(+), 7 deletions(-)

diff --git a/pyslet/pyslet/odata2/memds.py b/pyslet/pyslet/odata2/memds.py
index d0104e9..48b0fe9 100644
--- a/pyslet/pyslet/odata2/memds.py
+++ b/pyslet/pyslet/odata2/memds.py
@@ -29,6 +29,8 @@ class InMemoryEntityStore(object):
 	threads can open separate collections and access the entities
 	safely."""
 	
+	NO_STREAM=(http.MediaType.FromString('application/octet-stream'),'')
+	
 	def __init__(self,container,entitySet=None):
 		self.container=container	#: the :py:class:`InMemoryEntityContainer` that contains this entity set
 		self.entitySet=entitySet	#: the entity set we're bound to
@@ -131,6 +133,8 @@ class InMemoryEntityStore(object):
 						p.SetNull()
 					else:
 						p.SetFromValue(None)
+			# the stream must match the property values
+			e.stream=self.ReadStream(key)
 			e.exists=True
 		return e
 		
@@ -151,7 +155,7 @@ class InMemoryEntityStore(object):
 				type,stream=self.streams[key]
 				return type,stream
 			else:
-				return http.MediaType.FromString('application/octet-stream'),''
+				return self.NO_STREAM
 
 	def UpdateEntity(self,e):
 		# e is an EntityTypeInstance, we need to convert it to a tuple
@@ -352,23 +356,28 @@ class Entity(odata.Entity):
 	def __init__(self,entitySet,entityStore):
 		super(Entity,self).__init__(entitySet)
 		self.entityStore=entityStore		#: points to the entity storage
+		self.stream=None					#: a tuple of (content type, data) read with this entity, or None
+	
+	def ReadStream(self):
+		"""Returns a tuple of (content type, data) of the entity's media stream."""
+		if self.stream is None:
+			return self.entityStore.ReadStream(self.Key())
+		else:
+			return self.stream
 			
 	def GetStreamType(self):
 		"""Returns the content type of the entity's media stream.
 		
 		Must return a :py:class:`pyslet.rfc2616.MediaType` instance."""
-		key=self.Key()
-		return self.entityStore.ReadStream(key)[0]
+		return self.ReadStream()[0]
 			
 	def GetStreamSize(self):
 		"""Returns the size of the entity's media stream in bytes."""
-		key=self.Key()
-		return len(self.entityStore.ReadStream(key)[1])
+		return len(self.ReadStream()[1])
 		
 	def GetStreamGenerator(self):
 		"""A generator function that yields blocks (strings) of data from the entity's media stream."""
-		key=self.Key()
-		yield self.entityStore.ReadStream(key)[1]
+		yield self.ReadStream()[1]
 
 	def SetStreamFromGenerator(self,streamType,src):
 		"""Replaces the contents of this stream with the strings output by iterating over src.
@@ -396,6 +405,7 @@ class Entity(odata.Entity):
 				self.Update()
 		else:
 			self.entityStore.UpdateEntityStream(key,streamType,data)
+		self.stream=(streamType,data)
 	
 
 class EntityCollection(odata.EntityCollection):
-- 
2.43.0


From 6746e728f06a10b396f1fc6772553b320295077e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:38 +0000
Subject: [PATCH 034/116] fix: end the iteration over the lines of a request
 body at its end

---
 pyslet/pyslet/rfc5023.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pyslet/pyslet/rfc5023.py b/pyslet/pyslet/rfc5023.py
index 76075ec..2e55786 100644
--- a/pyslet/pyslet/rfc5023.py
+++ b/pyslet/pyslet/rfc5023.py
@@ -373,6 +373,8 @@ class InputWrapper(io.RawIOBase):
 			line=self.readline()
 			if line:
 				yield line
+			else:
+				break
 
 
 class Server(object):
-- 
2.43.0


From 4a0cd2b38e4bb53f82bec1f5d519bbea716f1ca0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:38 +0000
Subject: [PATCH 035/116] fix: count bytes skipped by a seek once

---
 pyslet/pyslet/rfc5023.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/pyslet/pyslet/rfc5023.py b/pyslet/pyslet/rfc5023.py
index 2e55786..39d92fb 100644
--- a/pyslet/pyslet/rfc5023.py
+++ b/pyslet/pyslet/rfc5023.py
@@ -273,8 +273,6 @@ class InputWrapper(io.RawIOBase):
 				data=self.read(n)
 				if len(data)==0:
 					break
-				else:
-					self.pos+=len(data)
 		# newPos may be beyond the end of the input stream, that's OK
 		self.pos=newPos
 
-- 
2.43.0


From 5cf72120b0513c5c388e44f46f9012b31dce0409 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:38 +0000
Subject: [PATCH 036/116] fix: honour the maximum block size

---
 pyslet/pyslet/rfc5023.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyslet/pyslet/rfc5023.py b/pyslet/pyslet/rfc5023.py
index 39d92fb..5d7becc 100644
--- a/pyslet/pyslet/rfc5023.py
+++ b/pyslet/pyslet/rfc5023.py
@@ -345,7 +345,7 @@ class InputWrapper(io.RawIOBase):
 	def iterblocks(self,maxSize=io.DEFAULT_BUFFER_SIZE):
 		"""Returns an iterable of blocks of maximum size *maxSize*"""
 		while True:
-			data=self.read(io.DEFAULT_BUFFER_SIZE)
+			data=self.read(maxSize)
 			if data:
 				yield data
 			else:
-- 
2.43.0


From de1d52dbef1f5b53ddfb799cf45bbc8909ad75aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:38 +0000
Subject: [PATCH 037/116] fix: do not read past the content length after a seek
 beyond it

---
 pyslet/pyslet/rfc5023.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyslet/pyslet/rfc5023.py b/pyslet/pyslet/rfc5023.py
index 5d7becc..31a7c8b 100644
--- a/pyslet/pyslet/rfc5023.py
+++ b/pyslet/pyslet/rfc5023.py
@@ -233,7 +233,7 @@ class InputWrapper(io.RawIOBase):
 		if n and self.inputStream is not None:
 			if self.inputLength is not None and self.pos+n>self.inputLength:
 				# application should not attempt to read past the CONTENT_LENGTH
-				n=self.inputLength-self.pos
+				n=max(0,self.inputLength-self.pos)
 			iData=self.inputStream.read(n)
 			if len(iData)==0:
 				self.inputStream=None
-- 
2.43.0


From a11ad5846caa30c1144ff1ade9c31015fa2a28ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:38 +0000
Subject: [PATCH 038/116] fix: read everything when the size is None or
 negative

---
 pyslet/pyslet/rfc5023.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyslet/pyslet/rfc5023.py b/pyslet/pyslet/rfc5023.py
index 31a7c8b..2b5e5c8 100644
--- a/pyslet/pyslet/rfc5023.py
+++ b/pyslet/pyslet/rfc5023.py
@@ -223,7 +223,7 @@ class InputWrapper(io.RawIOBase):
 		the inputStream itself."""
 		if self.closed:
 			raise IOError("InputWrapper was closed") 
-		if n==-1:
+		if n is None or n<0:
 			return self.readall()
 		data=''
 		if n and self.pos<self.buffSize:
-- 
2.43.0


From 6e0de476a93cca74c5efbee9b009b5f475d5f572 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:38 +0000
Subject: [PATCH 039/116] fix: treat an empty content length as unknown and
 refuse a negative one

---
 pyslet/pyslet/rfc5023.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pyslet/pyslet/rfc5023.py b/pyslet/pyslet/rfc5023.py
index 2b5e5c8..c903e9f 100644
--- a/pyslet/pyslet/rfc5023.py
+++ b/pyslet/pyslet/rfc5023.py
@@ -194,8 +194,10 @@ class InputWrapper(io.RawIOBase):
 		super(InputWrapper,self).__init__()
 		self.inputStream=environ['wsgi.input']
 		self.inputLength=None
-		if "CONTENT_LENGTH" in environ:
+		if environ.get("CONTENT_LENGTH",''):
 			self.inputLength=int(environ['CONTENT_LENGTH'])
+			if self.inputLength<0:
+				raise ValueError("Bad CONTENT_LENGTH: %s"%environ['CONTENT_LENGTH'])
 			if self.inputLength<seekSize:
 				# we can buffer the entire stream
 				seekSize=self.inputLength
-- 
2.43.0


From 11565f3e1bf1d0dce89134bc18d05834af4ed479 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:38 +0000
Subject: [PATCH 040/116] fix: report a request body that is shorter than its
 content length

---
 pyslet/pyslet/rfc5023.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/pyslet/pyslet/rfc5023.py b/pyslet/pyslet/rfc5023.py
index c903e9f..a5fcce3 100644
--- a/pyslet/pyslet/rfc5023.py
+++ b/pyslet/pyslet/rfc5023.py
@@ -211,6 +211,7 @@ class InputWrapper(io.RawIOBase):
 				data=self.inputStream.read(seekSize-self.buffSize)
 				if len(data)==0:
 					# we ran out of data
+					self.CheckEnd(self.buffSize)
 					self.inputStream=None
 					break
 				self.buffer.write(data)
@@ -218,6 +219,12 @@ class InputWrapper(io.RawIOBase):
 			# now reset the buffer ready for reading
 			self.buffer.seek(0)
 						
+	def CheckEnd(self,pos):
+		"""Raises IOError if *pos*, the position at which the input
+		stream ended, is before the end of the content."""
+		if self.inputLength is not None and pos<self.inputLength:
+			raise IOError("Request body incomplete, expected %i bytes but got only %i"%(self.inputLength,pos))
+		
 	def read(self,n=-1):
 		"""This is the heart of our wrapper.
 		
@@ -238,7 +245,9 @@ class InputWrapper(io.RawIOBase):
 				n=max(0,self.inputLength-self.pos)
 			iData=self.inputStream.read(n)
 			if len(iData)==0:
-				self.inputStream=None
+				if not data:
+					self.CheckEnd(self.pos)
+					self.inputStream=None
 			else:
 				self.pos+=len(iData)
 				if data:
-- 
2.43.0


From c4f508f812fdea133f2ec57e224652b5978103fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:47 +0000
Subject: [PATCH 041/116] fix: pass native strings in WSGI headers

---
 pyslet/pyslet/odata2/server.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyslet/pyslet/odata2/server.py b/pyslet/pyslet/odata2/server.py
index b49e765..efe99f2 100755
--- a/pyslet/pyslet/odata2/server.py
+++ b/pyslet/pyslet/odata2/server.py
@@ -377,7 +377,7 @@ class Server(app.Server):
 		if etag is not None:
 			s="%s" if entity.ETagIsStrong() else "W/%s"
 			etag=s%http.QuoteString(string.join(map(ODataURI.FormatLiteral,etag),','))
-			responseHeaders.append(("ETag",etag))
+			responseHeaders.append(("ETag",str(etag)))
 	
 	def HandleRequest(self,request,environ,start_response,responseHeaders):
 		"""Handles a request that has been identified as being an OData request.
@@ -782,7 +782,7 @@ class Server(app.Server):
 		if responseType is None:
 			return self.ODataError(request,environ,start_response,"Not Acceptable",'media stream type refused, try application/octet-stream',406)
 		responseHeaders.append(("Content-Type",str(responseType)))
-		responseHeaders.append(("Content-Length",entity.GetStreamSize()))
+		responseHeaders.append(("Content-Length",str(entity.GetStreamSize())))
 		self.SetETag(entity,responseHeaders)
 		start_response("%i %s"%(200,"Success"),responseHeaders)
 		return entity.GetStreamGenerator()
-- 
2.43.0


From c1ccc8d1bb7d3f238287d4260d4924a008fd0e67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:47 +0000
Subject: [PATCH 042/116] fix: read the media resource before creating its
 entry

---
 pyslet/pyslet/odata2/server.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/pyslet/pyslet/odata2/server.py b/pyslet/pyslet/odata2/server.py
index efe99f2..6757913 100755
--- a/pyslet/pyslet/odata2/server.py
+++ b/pyslet/pyslet/odata2/server.py
@@ -508,13 +508,14 @@ class Server(app.Server):
 							if propertyDef.GetTargetPath()==[(atom.ATOM_NAMESPACE,"title")]:
 								entity[k].SetFromValue(slug)
 								break					
-					resource.InsertEntity(entity)
 					if "CONTENT_TYPE" in environ:
 						resourceType=http.MediaType.FromString(environ["CONTENT_TYPE"])
 					else:
 						resourceType=http.MediaType.FromString('application/octet-stream')
-					input=app.InputWrapper(environ)
-					entity.SetStreamFromGenerator(resourceType,input.iterblocks())
+					# read everything first, a bad request must not leave an entry behind
+					data=list(app.InputWrapper(environ).iterblocks())
+					resource.InsertEntity(entity)
+					entity.SetStreamFromGenerator(resourceType,data)
 					responseHeaders.append(('Location',str(entity.GetLocation())))
 					return self.ReturnEntity(entity,request,environ,start_response,responseHeaders,201,"Created")
 				elif method=="POST":
-- 
2.43.0


From 48275d0e093f4ae2dc0f50dff7c74c88c1115776 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:47 +0000
Subject: [PATCH 043/116] fix: refuse a POST whose response would not be
 acceptable before creating anything

---
 pyslet/pyslet/odata2/server.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pyslet/pyslet/odata2/server.py b/pyslet/pyslet/odata2/server.py
index 6757913..c88e784 100755
--- a/pyslet/pyslet/odata2/server.py
+++ b/pyslet/pyslet/odata2/server.py
@@ -497,6 +497,9 @@ class Server(app.Server):
 					inlineCount=request.sysQueryOptions.get(SystemQueryOption.inlinecount,None)
 					resource.SetInlineCount(inlineCount==InlineCount.allpages)
 					return self.ReturnEntityCollection(resource,request,environ,start_response,responseHeaders)
+				elif method=="POST" and self.ContentNegotiation(request,environ,self.EntryTypes) is None:
+					# check this first: after an error nothing must have changed
+					return self.ODataError(request,environ,start_response,"Not Acceptable",'xml, json or plain text formats supported',406)
 				elif method=="POST" and resource.IsMediaLinkEntryCollection():
 					# POST of a media resource
 					entity=resource.NewEntity()
-- 
2.43.0


From d16fcbb69330d5c22a0bc85efea20948779d3541 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:47 +0000
Subject: [PATCH 044/116] fix: names used when a request body cannot be parsed

---
 pyslet/pyslet/odata2/server.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/pyslet/pyslet/odata2/server.py b/pyslet/pyslet/odata2/server.py
index c88e784..c62046a 100755
--- a/pyslet/pyslet/odata2/server.py
+++ b/pyslet/pyslet/odata2/server.py
@@ -2,7 +2,7 @@
 """This module implements the Open Data Protocol specification defined by Microsoft."""
 
 from types import *
-import sys, cgi, urllib, string, itertools, traceback, StringIO, json, base64, decimal, uuid, math, warnings, logging
+import sys, cgi, codecs, urllib, string, itertools, traceback, StringIO, json, base64, decimal, uuid, math, warnings, logging
 
 import pyslet.info as info
 import pyslet.iso8601 as iso
@@ -269,7 +269,7 @@ class Server(app.Server):
 		identify an enity set, entity, complex or simple value."""
 		if not href.IsAbsolute():
 			# resolve relative to the service root
-			href=URIFactory.Resolve(self.serviceRoot,href)
+			href=uri.URIFactory.Resolve(self.serviceRoot,href)
 		# check the canonical roots
 		if not self.serviceRoot.GetCanonicalRoot().Match(href.GetCanonicalRoot()):
 			# This isn't even for us
@@ -646,7 +646,7 @@ class Server(app.Server):
 			if isinstance(input.root,URI):
 				return self.GetResourceFromURI(uri.URIFactory.URI(input.root.GetValue()))
 			else:
-				raise InvalidData("Unable to parse link from request body (found <%s>)"%doc.root.xmlname)
+				raise InvalidData("Unable to parse link from request body (found <%s>)"%input.root.xmlname)
 		else:
 			# must be a json object
 			try:
@@ -753,7 +753,7 @@ class Server(app.Server):
 				# we have an entry, which is a relief!
 				input.root.GetValue(entity,self.GetResourceFromURI,True)
 			else:
-				raise InvalidData("Unable to parse atom Entry from request body (found <%s>)"%doc.root.xmlname)
+				raise InvalidData("Unable to parse atom Entry from request body (found <%s>)"%input.root.xmlname)
 		else:
 			# must be a json object
 			entity.SetFromJSONObject(input,self.GetResourceFromURI,True)
@@ -797,7 +797,7 @@ class Server(app.Server):
 			if isinstance(input.root,Property):
 				input.root.GetValue(value)
 			else:
-				raise InvalidData("Unable to parse property from request body (found <%s>)"%doc.root.xmlname)
+				raise InvalidData("Unable to parse property from request body (found <%s>)"%input.root.xmlname)
 		else:
 			if isinstance(value,edm.SimpleValue):
 				ReadEntityPropertyInJSON1(value,input)
@@ -836,13 +836,14 @@ class Server(app.Server):
 				
 	def ReadDereferencedValue(self,value,environ):
 		encoding=None
+		requestType=None
 		if "CONTENT_TYPE" in environ:
 			requestType=http.MediaType.FromString(environ["CONTENT_TYPE"])
 		if value.mType is None:
 			acceptType=False
 			if isinstance(value,edm.BinaryValue):
 				if requestType:
-					for r in DeferenceBinaryRanges:
+					for r in self.DereferenceBinaryRanges:
 						if r.MatchMediaType(requestType):
 							acceptType=True
 				else:
-- 
2.43.0


From 1ad39e58867230deffe939f41988a58f3e4f76be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:15 +0000
Subject: [PATCH 045/116] fix: keep values of a new entity with their
 properties when some are not selected

---
 pyslet/pyslet/odata2/memds.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/pyslet/pyslet/odata2/memds.py b/pyslet/pyslet/odata2/memds.py
index 48b0fe9..b3d36ec 100644
--- a/pyslet/pyslet/odata2/memds.py
+++ b/pyslet/pyslet/odata2/memds.py
@@ -64,8 +64,7 @@ class InMemoryEntityStore(object):
 		key=e.Key()
 		value=[]
 		for pName in e.DataKeys():
-			if not e.Selected(pName):
-				continue
+			# one value for each property, selected or not: ReadEntity relies on it
 			p=e[pName]
 			if isinstance(p,edm.Complex):
 				value.append(self.GetTupleFromComplex(p))
-- 
2.43.0


From 6ba4cce914ecd882dff84733d594f81d7bdc2485 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:15 +0000
Subject: [PATCH 046/116] fix: quote the path of a WSGI request again before
 parsing it

---
 pyslet/pyslet/odata2/server.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyslet/pyslet/odata2/server.py b/pyslet/pyslet/odata2/server.py
index c62046a..f81b786 100755
--- a/pyslet/pyslet/odata2/server.py
+++ b/pyslet/pyslet/odata2/server.py
@@ -188,7 +188,8 @@ class Server(app.Server):
 			if version is None:
 				return self.ODataError(ODataURI('error'),environ,start_response,"DataServiceVersionMismatch","Maximum supported protocol version: 2.0")
 			appPath=environ.get('SCRIPT_NAME',"")
-			path=appPath+environ['PATH_INFO']
+			# these are not escaped in the WSGI environment
+			path=urllib.quote(appPath+environ['PATH_INFO'],"/!$&'()*+,;=:@~")
 			query=environ.get('QUERY_STRING',None)
 			if query is not None:
 				path=path+'?'+query
-- 
2.43.0


From 62972b1395915467342d55711a4b156900b542ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:15 +0000
Subject: [PATCH 047/116] fix: an error message with characters outside ASCII
 must not raise

---
 pyslet/pyslet/odata2/server.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pyslet/pyslet/odata2/server.py b/pyslet/pyslet/odata2/server.py
index f81b786..35f2c7e 100755
--- a/pyslet/pyslet/odata2/server.py
+++ b/pyslet/pyslet/odata2/server.py
@@ -245,6 +245,8 @@ class Server(app.Server):
 		"""Generates and ODataError, typically as the result of a bad request."""
 		responseHeaders=[]
 		e=Error(None)
+		if isinstance(message,str):
+			message=message.decode('utf-8','replace')
 		e.ChildElement(Code).SetValue(subCode)
 		e.ChildElement(Message).SetValue(message)
 		responseType=self.ContentNegotiation(request,environ,self.ErrorTypes)
-- 
2.43.0


From fbc175daacd3672fa9f057e43cc8ca7caa4ed70e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:05 +0000
Subject: [PATCH 048/116] fix: read and write DateTimeOffset values in JSON

---
 pyslet/pyslet/odata2/core.py | 32 ++++++++++++++------------------
 1 file changed, 14 insertions(+), 18 deletions(-)

diff --git a/pyslet/pyslet/odata2/core.py b/pyslet/pyslet/odata2/core.py
index 0c487b0..03f50e6 100644
--- a/pyslet/pyslet/odata2/core.py
+++ b/pyslet/pyslet/odata2/core.py
@@ -2313,8 +2313,8 @@ def EntityPropertyValueInJSON(v):
 	elif isinstance(v,(edm.DateTimeOffsetValue)):
 		# a strange format based on ticks, by definition, DateTime has no offset
 		ticks=(v.value.date.GetAbsoluteDay()-BASE_DAY)*TICKS_PER_DAY+int(v.value.time.GetTotalSeconds()*1000)
-		dir,offset=v.GetZone()
-		if dir>0:
+		dir,offset=v.value.GetZone()
+		if dir>=0:
 			s=u"+"
 		else:
 			s=u"-"
@@ -2345,25 +2345,21 @@ def ReadEntityPropertyValueInJSON(v,jsonValue):
 		v.SetFromLiteral(jsonValue)
 	elif isinstance(v,(edm.DateTimeOffsetValue)):
 		if jsonValue.startswith("/Date(") and jsonValue.endswith(")/"):
-			ticks=int(jsonValue[6:-2])
-			if '+' in ticks:
-				# split by +
-				ticks=ticks.split('+')
-				zDir=1
-			elif '-' in ticks:
-				# split by -
-				ticks=ticks.split('-')
-				zDir=-1
+			ticks=jsonValue[6:-2]
+			# ignore the sign of the ticks themselves
+			zPos=max(ticks.rfind('+'),ticks.rfind('-'))
+			if zPos>0:
+				zDir=1 if ticks[zPos]=='+' else -1
+				zOffset=int(ticks[zPos+1:])
+				ticks=ticks[:zPos]
+				if not zOffset:
+					zDir=0
 			else:
 				zDir=0
-			if zDir:
-				if len(ticks)!=2:
-					raise ValueError("Illegal value for DateTimeOffset: %s"%jsonValue)
-				zOffset=int(ticks[1])
-			else:
 				zOffset=0
-			t,overflow=Time().Offset(seconds=int(ticks[0])/1000.0).WithZone(zDir,zOffset//60,zOffset%60)
-			d=Date(absoluteDay=BASE_DAY+overflow)
+			t,overflow=iso.Time().Offset(seconds=int(ticks)/1000.0)
+			t=t.WithZone(zDir,zOffset//60,zOffset%60)
+			d=iso.Date(absoluteDay=BASE_DAY+overflow)
 			v.SetFromValue(iso.TimePoint(date=d,time=t))
 		else:
 			raise ValueError("Illegal value for DateTimeOffset: %s"%jsonValue)			
-- 
2.43.0


From f91b90891ec3fd72e7776c8352cae421809f7c47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:05 +0000
Subject: [PATCH 049/116] fix: yield native strings for property values in JSON

---
 pyslet/pyslet/odata2/server.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyslet/pyslet/odata2/server.py b/pyslet/pyslet/odata2/server.py
index 35f2c7e..6d0c607 100755
--- a/pyslet/pyslet/odata2/server.py
+++ b/pyslet/pyslet/odata2/server.py
@@ -824,6 +824,7 @@ class Server(app.Server):
 					data='{"d":%s}'%EntityPropertyInJSON2(value)
 				else:
 					data='{"d":{%s}}'%EntityPropertyInJSON(value)					
+			data=str(data)
 		else:
 			e=Property(None)
 			e.SetXMLName((ODATA_DATASERVICES_NAMESPACE,value.pDef.name))
@@ -905,7 +906,7 @@ class Server(app.Server):
 		if responseType is None:
 			return self.ODataError(request,environ,start_response,"Not Acceptable",'xml, json or plain text formats supported',406)
 		if responseType=="application/json":
-			data='{"d":%s}'%string.join(collection.GenerateCollectionInJSON(request.version))
+			data=str('{"d":%s}'%string.join(collection.GenerateCollectionInJSON(request.version),''))
 		else:
 			e=Collection(None)
 			e.SetXMLName((ODATA_METADATA_NAMESPACE,collection.name))
-- 
2.43.0


From 9a8f3ac9ae70ab84f96cad8d88b92c05577fbfb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:41 +0000
Subject: [PATCH 050/116] fix: storing a media stream must not write back
 other, possibly outdated, properties

---
 pyslet/pyslet/odata2/memds.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/pyslet/pyslet/odata2/memds.py b/pyslet/pyslet/odata2/memds.py
index b3d36ec..d8ffc56 100644
--- a/pyslet/pyslet/odata2/memds.py
+++ b/pyslet/pyslet/odata2/memds.py
@@ -156,14 +156,15 @@ class InMemoryEntityStore(object):
 			else:
 				return self.NO_STREAM
 
-	def UpdateEntity(self,e):
+	def UpdateEntity(self,e,names=None):
 		# e is an EntityTypeInstance, we need to convert it to a tuple
+		# names: if given, the only properties to write
 		key=e.Key()
 		with self.container.lock:
 			value=list(self.data[key])		
 			i=0
 			for pName in e.DataKeys():
-				if e.Selected(pName):
+				if e.Selected(pName) if names is None else pName in names:
 					p=e[pName]
 					if isinstance(p,edm.Complex):
 						value[i]=self.GetTupleFromComplex(p)
@@ -401,7 +402,7 @@ class Entity(odata.Entity):
 			# we need the lock to ensure the stream and etag are updated together
 			with self.entityStore.container.Transaction():
 				self.entityStore.UpdateEntityStream(key,streamType,data)
-				self.Update()
+				self.entityStore.UpdateEntity(self,[etag.pDef.name])
 		else:
 			self.entityStore.UpdateEntityStream(key,streamType,data)
 		self.stream=(streamType,data)
-- 
2.43.0


From 44001782a3728f2c5150ea989371888789a5223d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:41 +0000
Subject: [PATCH 051/116] fix: concurrent updates of different properties of an
 entity must not undo each other

---
 pyslet/pyslet/odata2/server.py | 21 ++++++++++++++++++---
 1 file changed, 18 insertions(+), 3 deletions(-)

diff --git a/pyslet/pyslet/odata2/server.py b/pyslet/pyslet/odata2/server.py
index 6d0c607..d72ef8f 100755
--- a/pyslet/pyslet/odata2/server.py
+++ b/pyslet/pyslet/odata2/server.py
@@ -2,7 +2,7 @@
 """This module implements the Open Data Protocol specification defined by Microsoft."""
 
 from types import *
-import sys, cgi, codecs, urllib, string, itertools, traceback, StringIO, json, base64, decimal, uuid, math, warnings, logging
+import sys, cgi, codecs, urllib, string, itertools, traceback, StringIO, threading, json, base64, decimal, uuid, math, warnings, logging
 
 import pyslet.info as info
 import pyslet.iso8601 as iso
@@ -144,6 +144,7 @@ class Server(app.Server):
 		self.ws.ChildElement(atom.Title).SetValue("Default")
 		self.model=None			#: a :py:class:`metadata.Edmx` instance containing the model for the service
 		self.topmax=100			#: the maximum number of entities to return per request
+		self.updateLock=threading.RLock()	#: held from reading the entity to be updated until the update is complete
 		
 	def SetModel(self,model):
 		"""Sets the model for the server from a parentless
@@ -387,6 +388,19 @@ class Server(app.Server):
 		
 		*	*request* is an :py:class:`ODataURI` instance with a non-empty resourcePath."""
 		method=environ["REQUEST_METHOD"].upper()
+		if method=="PUT":
+			# read the body before acquiring the lock
+			data=app.InputWrapper(environ).read()
+			environ=dict(environ)
+			environ['wsgi.input']=StringIO.StringIO(data)
+			environ['CONTENT_LENGTH']=str(len(data))
+		if method in ("PUT","DELETE"):
+			with self.updateLock:
+				return self.HandleMethod(method,request,environ,start_response,responseHeaders)
+		else:
+			return self.HandleMethod(method,request,environ,start_response,responseHeaders)
+
+	def HandleMethod(self,method,request,environ,start_response,responseHeaders):
 		try:
 			resource,parentEntity=self.GetResource(request)
 			if request.pathOption==PathOption.metadata:
@@ -520,8 +534,9 @@ class Server(app.Server):
 						resourceType=http.MediaType.FromString('application/octet-stream')
 					# read everything first, a bad request must not leave an entry behind
 					data=list(app.InputWrapper(environ).iterblocks())
-					resource.InsertEntity(entity)
-					entity.SetStreamFromGenerator(resourceType,data)
+					with self.updateLock:
+						resource.InsertEntity(entity)
+						entity.SetStreamFromGenerator(resourceType,data)
 					responseHeaders.append(('Location',str(entity.GetLocation())))
 					return self.ReturnEntity(entity,request,environ,start_response,responseHeaders,201,"Created")
 				elif method=="POST":
-- 
2.43.0


From 0e6c878f543d614e1053b933213eea7f06083315 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:17 +0000
Subject: [PATCH 052/116] fix: exceptions with messages outside ASCII must not
 escape from the server

---
 pyslet/pyslet/odata2/server.py | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/pyslet/pyslet/odata2/server.py b/pyslet/pyslet/odata2/server.py
index d72ef8f..dc3dede 100755
--- a/pyslet/pyslet/odata2/server.py
+++ b/pyslet/pyslet/odata2/server.py
@@ -20,6 +20,14 @@ import csdl as edm
 from core import *
 import metadata as edmx
 	
+
+def ErrorMessage(e):
+	"""Returns the message of exception *e*, which may contain any characters."""
+	try:
+		return str(e)
+	except UnicodeError:
+		return unicode(e)
+
 					
 class WSGIWrapper(object):
 	def __init__(self,environ,start_response,responseHeaders):
@@ -227,20 +235,20 @@ class Server(app.Server):
 			else:
 				return self.HandleRequest(request,environ,start_response,responseHeaders)
 		except InvalidSystemQueryOption,e:
-			return self.ODataError(ODataURI('error'),environ,start_response,"InvalidSystemQueryOption","Invalid System Query Option: %s"%str(e))
+			return self.ODataError(ODataURI('error'),environ,start_response,"InvalidSystemQueryOption","Invalid System Query Option: %s"%ErrorMessage(e))
 		except InvalidPathOption,e:
-			return self.ODataError(ODataURI('error'),environ,start_response,"Bad Request","Path option is invalid or incompatible with this form of URI: %s"%str(e),400)			
+			return self.ODataError(ODataURI('error'),environ,start_response,"Bad Request","Path option is invalid or incompatible with this form of URI: %s"%ErrorMessage(e),400)			
 		except InvalidMethod,e:
-			return self.ODataError(ODataURI('error'),environ,start_response,"Bad Request","Method not allowed: %s"%str(e),400)			
+			return self.ODataError(ODataURI('error'),environ,start_response,"Bad Request","Method not allowed: %s"%ErrorMessage(e),400)			
 		except ValueError,e:
 			traceback.print_exception(*sys.exc_info())
 			# This is a bad request
-			return self.ODataError(ODataURI('error'),environ,start_response,"ValueError",str(e))
+			return self.ODataError(ODataURI('error'),environ,start_response,"ValueError",ErrorMessage(e))
 		except:
 			eInfo=sys.exc_info()
 			traceback.print_exception(*eInfo)
 			# return self.HandleError(ODataURI('error'),environ,start_response)
-			return self.ODataError(ODataURI('error'),environ,start_response,"UnexpectedError","%s: %s"%(eInfo[0],eInfo[1]),500)
+			return self.ODataError(ODataURI('error'),environ,start_response,"UnexpectedError","%s: %s"%(eInfo[0],ErrorMessage(eInfo[1])),500)
 
 	def ODataError(self,request,environ,start_response,subCode,message='',code=400):
 		"""Generates and ODataError, typically as the result of a bad request."""
-- 
2.43.0


From ba9e2aaa468d9ca76f8548e337f8d5079034a44d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:48 +0000
Subject: [PATCH 053/116] fix: unescape keys in a URI before parsing them and
 split them outside string literals only

---
 pyslet/pyslet/odata2/core.py | 22 +++++++++++++++++-----
 1 file changed, 17 insertions(+), 5 deletions(-)

diff --git a/pyslet/pyslet/odata2/core.py b/pyslet/pyslet/odata2/core.py
index 03f50e6..ef8b779 100644
--- a/pyslet/pyslet/odata2/core.py
+++ b/pyslet/pyslet/odata2/core.py
@@ -1943,29 +1943,41 @@ class ODataURI:
 			return segment,None
 		elif '(' in segment and segment[-1]==')':
 			name=uri.UnescapeData(segment[:segment.index('(')]).decode('utf-8')
-			keys=segment[segment.index('(')+1:-1]
+			keys=uri.UnescapeData(segment[segment.index('(')+1:-1]).decode('utf-8')
 			if keys=='':
 				keys=[]
 			else:
-				keys=keys.split(',')
+				keys=self.SplitUnquoted(keys,',')
 			if len(keys)==0:
 				return name,{}
-			elif len(keys)==1 and '=' not in keys[0]:
+			elif len(keys)==1 and len(self.SplitUnquoted(keys[0],'='))==1:
 				return name,{u'':ParseURILiteral(keys[0])}
 			else:
 				keyPredicate={}
 				for k in keys:
-					nv=k.split('=')
+					nv=self.SplitUnquoted(k,'=')
 					if len(nv)!=2:
 						raise ValueError("unrecognized key predicate: %s"%repr(keys))
 					kname,value=nv
-					kname=uri.UnescapeData(kname).decode('utf-8')
 					kvalue=ParseURILiteral(value)
 					keyPredicate[kname]=kvalue
 				return name,keyPredicate
 		else:
 			return uri.UnescapeData(segment).decode('utf-8'),None
 	
+	@staticmethod
+	def SplitUnquoted(source,sep):
+		"""Splits *source* at each *sep* that is not part of a string literal."""
+		# a quote within a literal is doubled so there is always an odd
+		# number of quotes before a separator that is part of one
+		result=[]
+		for part in source.split(sep):
+			if result and result[-1].count("'")%2:
+				result[-1]=result[-1]+sep+part
+			else:
+				result.append(part)
+		return result
+		
 	def GetParamValue(self,paramName):
 		if paramName in self.paramTable:
 			paramDef=self.queryOptions[self.paramTable[paramName]]
-- 
2.43.0


From 50adc47e9b44f9ebd8a7ee70936e15faf118a425 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:48 +0000
Subject: [PATCH 054/116] fix: properties of complex type that are not selected
 must not raise

---
 pyslet/pyslet/odata2/core.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyslet/pyslet/odata2/core.py b/pyslet/pyslet/odata2/core.py
index ef8b779..a4e395e 100644
--- a/pyslet/pyslet/odata2/core.py
+++ b/pyslet/pyslet/odata2/core.py
@@ -2058,7 +2058,7 @@ class Entity(edm.Entity):
 					# assume a complex value then
 					ReadEntityCTValue(v,obj[k])
 			else:
-				v.SetFromValue(None)
+				v.SetNull()
 		if self.exists==False:
 			# we need to look for any link bindings
 			for navProperty in self.NavigationKeys():
@@ -3001,7 +3001,7 @@ class Entry(atom.Entry):
 					selected.add(k)
 				else:
 					# Property is not selected!
-					v.SetFromValue(None)
+					v.SetNull()
 					unselected.add(k)
 		# Now set this entity's select property...
 		if not unselected:
-- 
2.43.0


From 8a6633b222d7b25d99c1b8e9b2216e0055a89e57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:48 +0000
Subject: [PATCH 055/116] fix: white space in property values must not be
 collapsed

---
 pyslet/pyslet/odata2/core.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/pyslet/pyslet/odata2/core.py b/pyslet/pyslet/odata2/core.py
index a4e395e..6fe4545 100644
--- a/pyslet/pyslet/odata2/core.py
+++ b/pyslet/pyslet/odata2/core.py
@@ -2585,6 +2585,14 @@ class Property(ODataElement):
 		ODataElement.__init__(self,parent)
 		self.edmValue=None		# an :py:class:`pyslet.mc_csdl.EDMValue` instance
 
+	def GetCanonicalChildren(self):
+		"""Overridden because white space in a simple value is significant."""
+		children=list(self.GetChildren())
+		for child in children:
+			if type(child) not in StringTypes:
+				return super(Property,self).GetCanonicalChildren()
+		return iter(children)
+		
 	def GetSimpleType(self):
 		type=self.GetNSAttribute((ODATA_METADATA_NAMESPACE,'type'))
 		if type:			
-- 
2.43.0


From 636a909ea8305c45a9355e06b23e7be2340d9776 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:48 +0000
Subject: [PATCH 056/116] fix: an expanded link to nothing is an empty
 expansion

---
 pyslet/pyslet/odata2/core.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pyslet/pyslet/odata2/core.py b/pyslet/pyslet/odata2/core.py
index 6fe4545..739f750 100644
--- a/pyslet/pyslet/odata2/core.py
+++ b/pyslet/pyslet/odata2/core.py
@@ -2856,6 +2856,9 @@ class Link(atom.Link):
 						entity.exists=exists
 						entry.GetValue(entity)
 						entries.append(entity)
+				else:
+					# expanded but there is nothing there
+					entries=[]
 				deferred.SetExpansion(ExpandedEntityCollection(fromEntity=deferred.fromEntity,name=deferred.name,entitySet=targetEntitySet,entityList=entries))
 
 		
-- 
2.43.0


From 3e52e99cfc08fee08ce7ba1c7035d72ce529c7bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:49 +0000
Subject: [PATCH 057/116] fix: write exponents of floating point values in the
 literal form that is accepted

---
 pyslet/pyslet/odata2/csdl.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/pyslet/pyslet/odata2/csdl.py b/pyslet/pyslet/odata2/csdl.py
index 89397a7..3b5b5ca 100755
--- a/pyslet/pyslet/odata2/csdl.py
+++ b/pyslet/pyslet/odata2/csdl.py
@@ -1332,7 +1332,12 @@ class FloatValue(NumericValue):
 	:py:class:`DoubleValue` only differ in the Max value used
 	when range checking.
 	
-	Values are formatted using Python's default unicode conversion."""
+	Values are formatted using Python's default unicode conversion
+	except that positive exponents have no sign, as required for the
+	literal form."""
+	def __unicode__(self):
+		return super(FloatValue,self).__unicode__().replace(u'e+',u'e')
+
 	def SetFromValue(self,newValue):
 		if newValue is None:
 			self.value=None
-- 
2.43.0


From b884eba72bc4fa3e14d20fa7dbd0d17479582a2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:49 +0000
Subject: [PATCH 058/116] fix: answer HEAD requests like GET without a body

---
 pyslet/pyslet/odata2/server.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/pyslet/pyslet/odata2/server.py b/pyslet/pyslet/odata2/server.py
index dc3dede..c4db3ce 100755
--- a/pyslet/pyslet/odata2/server.py
+++ b/pyslet/pyslet/odata2/server.py
@@ -191,6 +191,14 @@ class Server(app.Server):
 		
 	def __call__(self,environ, start_response):
 		"""wsgi interface for the server."""
+		if environ["REQUEST_METHOD"].upper()=="HEAD":
+			# the same as GET except that there is no response body
+			environ=dict(environ)
+			environ["REQUEST_METHOD"]="GET"
+			response=self(environ,start_response)
+			if hasattr(response,'close'):
+				response.close()
+			return []
 		responseHeaders=[]
 		try:
 			version=self.CheckCapabilityNegotiation(environ,start_response,responseHeaders)
-- 
2.43.0


From 0b63a3b53f5a9fbd0423690e502f133e167c59fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:49 +0000
Subject: [PATCH 059/116] fix: apply $filter to $count

---
 pyslet/pyslet/odata2/server.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pyslet/pyslet/odata2/server.py b/pyslet/pyslet/odata2/server.py
index c4db3ce..e51c1a9 100755
--- a/pyslet/pyslet/odata2/server.py
+++ b/pyslet/pyslet/odata2/server.py
@@ -427,6 +427,7 @@ class Server(app.Server):
 				if isinstance(resource,edm.Entity):
 					return self.ReturnCount(1,request,environ,start_response,responseHeaders)
 				elif isinstance(resource,edm.EntityCollection):
+					resource.Filter(request.sysQueryOptions.get(SystemQueryOption.filter,None))
 					return self.ReturnCount(len(resource),request,environ,start_response,responseHeaders)
 				else:
 					raise BadURISegment("$count must be applied to an EntitySet or single EntityType instance")
-- 
2.43.0


From d6a3fab136289629a993db38a26efd63fd818b3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:23 +0000
Subject: [PATCH 060/116] fix: reading the target of a binding must not commit
 the transaction in progress

---
 pyslet/pyslet/odata2/sqlds.py | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/pyslet/pyslet/odata2/sqlds.py b/pyslet/pyslet/odata2/sqlds.py
index e0bbb2c..e4e9ea4 100755
--- a/pyslet/pyslet/odata2/sqlds.py
+++ b/pyslet/pyslet/odata2/sqlds.py
@@ -496,6 +496,14 @@ class SQLCollectionBase(core.EntityCollection):
 			self.pageGenerator(setNextPage))
 
 	def __getitem__(self,key):
+		return self.ReadEntitySQL(key)
+
+	def ReadEntitySQL(self,key,transaction=None):
+		"""Returns the entity with *key*
+
+		transaction
+			An optional transaction.  If present, the connection is left
+			uncommitted."""
 		entity=self.NewEntity()
 		entity.SetKey(key)
 		params=self.container.ParamsClass()
@@ -507,7 +515,8 @@ class SQLCollectionBase(core.EntityCollection):
 		query.append(self.JoinClause())
 		query.append(self.WhereClause(entity,params))
 		query=string.join(query,'')
-		transaction=SQLTransaction(self.container.dbapi,self.dbc)
+		if transaction is None:
+			transaction=SQLTransaction(self.container.dbapi,self.dbc)
 		try:
 			transaction.Begin()
 			logging.info("%s; %s",query,unicode(params.params))
@@ -1258,7 +1267,7 @@ class SQLEntityCollection(SQLCollectionBase):
 					# just a key, grab the entity
 					with targetSet.OpenCollection() as targetCollection:
 						targetCollection.SelectKeys()
-						targetEntity=targetCollection[binding]
+						targetEntity=targetCollection.ReadEntitySQL(binding,transaction)
 					dv.bindings[0]=targetEntity
 				else:
 					targetEntity=binding
@@ -1299,7 +1308,7 @@ class SQLEntityCollection(SQLCollectionBase):
 						binding=dv.bindings[0]
 						if not isinstance(binding,edm.Entity):
 							targetCollection.SelectKeys()
-							binding=targetCollection[binding]
+							binding=targetCollection.ReadEntitySQL(binding,transaction)
 						if binding.exists:
 							navCollection.InsertLink(binding,transaction)
 						else:
@@ -1385,7 +1394,7 @@ class SQLEntityCollection(SQLCollectionBase):
 					# just a key, grab the entity
 					with targetSet.OpenCollection() as targetCollection:
 						targetCollection.SelectKeys()
-						targetEntity=targetCollection[binding]
+						targetEntity=targetCollection.ReadEntitySQL(binding,transaction)
 					dv.bindings[0]=targetEntity
 				else:
 					targetEntity=binding
@@ -1450,7 +1459,7 @@ class SQLEntityCollection(SQLCollectionBase):
 						binding=dv.bindings[0]
 						if not isinstance(binding,edm.Entity):
 							targetCollection.SelectKeys()
-							binding=targetCollection[binding]
+							binding=targetCollection.ReadEntitySQL(binding,transaction)
 						if binding.exists:
 							if dv.isCollection:
 								navCollection.InsertLink(binding,transaction)
-- 
2.43.0


From b61f0a898065804a692ed6c5a246637c48fb4a3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:23 +0000
Subject: [PATCH 061/116] fix: a cascading delete must not commit after reading
 the linked entities

---
 pyslet/pyslet/odata2/sqlds.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/pyslet/pyslet/odata2/sqlds.py b/pyslet/pyslet/odata2/sqlds.py
index e4e9ea4..7e57350 100755
--- a/pyslet/pyslet/odata2/sqlds.py
+++ b/pyslet/pyslet/odata2/sqlds.py
@@ -301,7 +301,7 @@ class SQLCollectionBase(core.EntityCollection):
 		finally:
 			transaction.Close()
 
-	def entityGenerator(self):
+	def entityGenerator(self,transaction=None):
 		entity,values=None,None
 		if self._sqlGen is None:
 			entity=self.NewEntity()
@@ -321,7 +321,8 @@ class SQLCollectionBase(core.EntityCollection):
 			self._sqlGen=query,params
 		else:
 			query,params=self._sqlGen
-		transaction=SQLTransaction(self.container.dbapi,self.dbc)
+		if transaction is None:
+			transaction=SQLTransaction(self.container.dbapi,self.dbc)
 		try:
 			transaction.Begin()
 			logging.info("%s; %s",query,unicode(params.params))
@@ -1610,7 +1611,7 @@ class SQLEntityCollection(SQLCollectionBase):
 							targetEntitySet=linkEnd.otherEnd.entitySet
 							with entity[navName].OpenCollection() as links, targetEntitySet.OpenCollection() as cascade:
 								links.SelectKeys()
-								for targetEntity in links.values():
+								for targetEntity in list(links.entityGenerator(transaction)):
 									links.DeleteLink(targetEntity,transaction)
 									cascade.DeleteEntity(targetEntity,linkEnd.otherEnd,transaction)
 						else:
-- 
2.43.0


From cb9752f67415b76580cd4d4f604f9c4ad407e404 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:23 +0000
Subject: [PATCH 062/116] fix: entities inserted with an update must be part of
 its transaction

---
 pyslet/pyslet/odata2/sqlds.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyslet/pyslet/odata2/sqlds.py b/pyslet/pyslet/odata2/sqlds.py
index 7e57350..ed940ef 100755
--- a/pyslet/pyslet/odata2/sqlds.py
+++ b/pyslet/pyslet/odata2/sqlds.py
@@ -1402,7 +1402,7 @@ class SQLEntityCollection(SQLCollectionBase):
 					if not targetEntity.exists:
 						# add this entity to it's base collection
 						with targetSet.OpenCollection() as targetCollection:
-							targetCollection.InsertEntitySQL(targetEntity,linkEnd.otherEnd,transaction)
+							targetCollection.InsertEntitySQL(targetEntity,linkEnd.otherEnd,transaction=transaction)
 				# Finally, we have a target entity, add the foreign key to fkValues
 				for keyName in targetSet.keys:
 					fkValues.append((self.container.mangledNames[(self.entitySet.name,associationSetName,keyName)],targetEntity[keyName]))
@@ -1477,7 +1477,7 @@ class SQLEntityCollection(SQLCollectionBase):
 								targetCollection.InsertEntitySQL(binding,linkEnd.otherEnd,targetFKValues,transaction)
 							else:
 								# foreign keys are in an auxiliary table
-								targetCollection.InsertEntitySQL(binding,linkEnd.otherEnd)
+								targetCollection.InsertEntitySQL(binding,linkEnd.otherEnd,transaction=transaction)
 								if dv.isCollection:
 									navCollection.InsertLink(binding,transaction)
 								else:
-- 
2.43.0


From c86a41b3e759d0e9b6e0633ba61c3a823f55f875 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:23 +0000
Subject: [PATCH 063/116] fix: undefined names in the SQL navigation
 collections

---
 pyslet/pyslet/odata2/sqlds.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/pyslet/pyslet/odata2/sqlds.py b/pyslet/pyslet/odata2/sqlds.py
index ed940ef..bbf248b 100755
--- a/pyslet/pyslet/odata2/sqlds.py
+++ b/pyslet/pyslet/odata2/sqlds.py
@@ -1389,7 +1389,7 @@ class SQLEntityCollection(SQLCollectionBase):
 				targetSet=linkEnd.otherEnd.entitySet
 				nullable,unique=fkMapping[linkEnd]
 				if len(dv.bindings)>1:
-					raise NavigationError("Unexpected error: found multiple bindings for foreign key constraint %s"%k)
+					raise edm.NavigationError("Unexpected error: found multiple bindings for foreign key constraint %s"%k)
 				binding=dv.bindings[0]
 				if not isinstance(binding,edm.Entity):
 					# just a key, grab the entity
@@ -1647,7 +1647,7 @@ class SQLEntityCollection(SQLCollectionBase):
 				raise KeyError
 			elif rowcount>1:
 				# whoops, that was unexpected
-				raise SQLError("Integrity check failure, non-unique key: %s"%repr(key))
+				raise SQLError("Integrity check failure, non-unique key: %s"%repr(entity.Key()))
 			transaction.Commit()
 		except Exception as e:
 			transaction.Rollback(e)
@@ -2004,7 +2004,7 @@ class SQLForeignKeyCollection(SQLNavigationCollection):
 			# could be a ConstraintError if we are already linked to a
 			# different entity
 			transaction.Rollback(e,swallowErr=True)
-			raise NavigationError(str(e))
+			raise edm.NavigationError(str(e))
 		except Exception as e:
 			transaction.Rollback(e)
 		finally:			
@@ -2261,12 +2261,12 @@ class SQLAssociationCollection(SQLNavigationCollection):
 				# if this is a 1-1 relationship InsertEntitySQL will fail (with
 				# an unbound navigation property) so we need to suppress the
 				# back-link.
-				baseCollection.InsertEntitySQL(entity,linkEnd.otherEnd,transaction=transaction)
+				baseCollection.InsertEntitySQL(entity,self.fromEnd.otherEnd,transaction=transaction)
 			self.InsertLink(entity,transaction)
 			transaction.Commit()	
 		except self.container.dbapi.IntegrityError as e:
 			transaction.Rollback(e,swallowErr=True)
-			raise NavigationError(str(entity.GetLocation()))
+			raise edm.NavigationError(str(entity.GetLocation()))
 		except Exception as e:
 			transaction.Rollback(e)
 		finally:
-- 
2.43.0


From 84c9e406213533e47682e76617f57955bb4dfe31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:23 +0000
Subject: [PATCH 064/116] fix: error raised for a link that does not exist

---
 pyslet/pyslet/odata2/sqlds.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyslet/pyslet/odata2/sqlds.py b/pyslet/pyslet/odata2/sqlds.py
index bbf248b..d8acf2a 100755
--- a/pyslet/pyslet/odata2/sqlds.py
+++ b/pyslet/pyslet/odata2/sqlds.py
@@ -1708,7 +1708,7 @@ class SQLEntityCollection(SQLCollectionBase):
 			transaction.Execute(query,params)
 			if transaction.cursor.rowcount==0:
 				# no rows matched this constraint, entity either doesn't exist or wasn't linked to the target
-				raise KeyError("Entity %s does not exist or is not linked to %s"%str(entity.GetLocation(),targetEntity.GetLocation))					
+				raise KeyError("Entity %s does not exist or is not linked to %s"%(str(entity.GetLocation()),str(targetEntity.GetLocation())))					
 			transaction.Commit()
 		except Exception as e:
 			transaction.Rollback(e)
-- 
2.43.0


From 676ee2cfd4296af5cc9d30c8cb8a17af622dda76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:06 +0000
Subject: [PATCH 065/116] fix: navigation to entities with compound keys in SQL

---
 pyslet/pyslet/odata2/sqlds.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyslet/pyslet/odata2/sqlds.py b/pyslet/pyslet/odata2/sqlds.py
index d8acf2a..ae46a19 100755
--- a/pyslet/pyslet/odata2/sqlds.py
+++ b/pyslet/pyslet/odata2/sqlds.py
@@ -1960,7 +1960,7 @@ class SQLForeignKeyCollection(SQLNavigationCollection):
 				self.sourceName,
 				self.container.mangledNames[(self.fromEntity.entitySet.name,self.associationSetName,keyName)]))
 		return ' INNER JOIN %s AS %s ON '%(
-			self.container.mangledNames[(self.fromEntity.entitySet.name,)],self.sourceName)+string.join(join,', ')
+			self.container.mangledNames[(self.fromEntity.entitySet.name,)],self.sourceName)+string.join(join,' AND ')
 
 	def WhereClause(self,entity,params,useFilter=True,useSkip=False):
 		"""Overridden to add the constraint for entities linked from *fromEntity* only.
@@ -2221,7 +2221,7 @@ class SQLAssociationCollection(SQLNavigationCollection):
 				self.container.mangledNames[(self.entitySet.name,keyName)],
 				self.associationTableName,
 				self.container.mangledNames[(self.associationSetName,self.entitySet.name,self.toNavName,keyName)]))
-		return ' INNER JOIN %s ON '%self.associationTableName+string.join(join,', ')
+		return ' INNER JOIN %s ON '%self.associationTableName+string.join(join,' AND ')
 	
 	def WhereClause(self,entity,params,useFilter=True,useSkip=False):
 		"""Overridden to provide the *fromEntity* constraint in the auxiliary table."""
-- 
2.43.0


From b1b85b7ff40fe34bdbd3eb4414904ea4fe69ee58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:06 +0000
Subject: [PATCH 066/116] fix: ambiguous column name when looking up a key
 through a foreign key

---
 pyslet/pyslet/odata2/sqlds.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pyslet/pyslet/odata2/sqlds.py b/pyslet/pyslet/odata2/sqlds.py
index ae46a19..0caef72 100755
--- a/pyslet/pyslet/odata2/sqlds.py
+++ b/pyslet/pyslet/odata2/sqlds.py
@@ -613,7 +613,10 @@ class SQLCollectionBase(core.EntityCollection):
 		entity
 			An expression is added to restrict the query to this entity"""
 		for k,v in entity.KeyDict().items():
-			where.append('%s=%s'%(self.container.mangledNames[(self.entitySet.name,k)],params.AddParam(self.container.PrepareSQLValue(v))))
+			mangledName=self.container.mangledNames[(self.entitySet.name,k)]
+			if self.qualifyNames:
+				mangledName="%s.%s"%(self.tableName,mangledName)
+			where.append('%s=%s'%(mangledName,params.AddParam(self.container.PrepareSQLValue(v))))
 	
 	def WhereSkiptokenClause(self,where,params):
 		"""Adds the entity constraint expression to a list of SQL expressions.
-- 
2.43.0


From 63dae13c85e2797760535bee28603cc4134a9371 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:51 +0000
Subject: [PATCH 067/116] fix: SQLite connections may be closed and broken from
 any thread

---
 pyslet/pyslet/odata2/sqlds.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pyslet/pyslet/odata2/sqlds.py b/pyslet/pyslet/odata2/sqlds.py
index 0caef72..4e1c0ae 100755
--- a/pyslet/pyslet/odata2/sqlds.py
+++ b/pyslet/pyslet/odata2/sqlds.py
@@ -3359,6 +3359,10 @@ class SQLiteEntityContainer(SQLEntityContainer):
 	must be passed on construction except *dbapi* which is automatically
 	set to the Python sqlite3 module."""
 	def __init__(self,filePath,sqlite_options={},**kwArgs):
+		# the pool hands out connections exclusively but closes or
+		# reuses them in any thread
+		sqlite_options=dict(sqlite_options)
+		sqlite_options.setdefault('check_same_thread',False)
 		super(SQLiteEntityContainer,self).__init__(dbapi=sqlite3,**kwArgs)
 		if not isinstance(filePath,OSFilePath) and not type(filePath) in StringTypes:
 			raise TypeError("SQLiteDB requires an OS file path")
-- 
2.43.0


From 686cfdaaa4fce80c7a71ff778a429b5394aa13aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:51 +0000
Subject: [PATCH 068/116] fix: failing to open a connection must release the
 module lock and let waiting threads try

---
 pyslet/pyslet/odata2/sqlds.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/pyslet/pyslet/odata2/sqlds.py b/pyslet/pyslet/odata2/sqlds.py
index 4e1c0ae..2ec9d16 100755
--- a/pyslet/pyslet/odata2/sqlds.py
+++ b/pyslet/pyslet/odata2/sqlds.py
@@ -2920,7 +2920,7 @@ class SQLEntityContainer(object):
 				elif len(self.cPoolUnlocked)+len(self.cPoolLocked)<self.cPoolMax:
 					# Add a new connection
 					cLock=SQLConnectionLock(self.connectionLocker)
-					cLock.dbc=self.OpenConnection()
+					self.OpenLockedConnection(cLock)
 				elif self.cPoolUnlocked:
 					# take a connection that doesn't belong to us, popped at random
 					oldThreadId,cLock=self.cPoolUnlocked.popitem()
@@ -2929,7 +2929,7 @@ class SQLEntityContainer(object):
 					else:
 						logging.debug("Thread[%i] closed an unused database connection (max connections reached)",oldThreadId)
 						cLock.dbc.close()	# is it ok to close a connection from a different thread?
-						cLock.dbc=self.OpenConnection()
+						self.OpenLockedConnection(cLock)
 				else:
 					now=time.time()
 					if timeout is not None and now>start+timeout:
@@ -2950,6 +2950,15 @@ class SQLEntityContainer(object):
 		self.moduleLock.release()
 		return None
 						
+	def OpenLockedConnection(self,cLock):
+		try:
+			cLock.dbc=self.OpenConnection()
+		except:
+			# we are not going to use this slot, someone else might
+			self.moduleLock.release()
+			self.cPoolLock.notify()
+			raise
+
 	def ReleaseConnection(self,c):
 		threadId=threading.current_thread().ident
 		with self.cPoolLock:
-- 
2.43.0


From 4ca6d7c9a12ff341490a4b48611f99852118d45b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:52 +0000
Subject: [PATCH 069/116] fix: a thread waiting for the database module must
 not give up just when it is released

---
 pyslet/pyslet/odata2/sqlds.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pyslet/pyslet/odata2/sqlds.py b/pyslet/pyslet/odata2/sqlds.py
index 2ec9d16..4b17f42 100755
--- a/pyslet/pyslet/odata2/sqlds.py
+++ b/pyslet/pyslet/odata2/sqlds.py
@@ -2896,11 +2896,13 @@ class SQLEntityContainer(object):
 				# don't open connections when we are trying to close them
 				return None
 			while not self.moduleLock.acquire(False):
-				self.cPoolLock.wait(timeout)
 				now=time.time()
 				if timeout is not None and now>start+timeout:
 					logging.warn("Thread[%i] timed out waiting for the the database module lock",threadId)
 					return None
+				self.cPoolLock.wait(timeout)
+				if self.cPoolClosing:
+					return None
 			# we have the module lock
 			if threadId in self.cPoolLocked:
 				# our threadId is in the locked table
-- 
2.43.0


From 209f874ce04d74aabdcec08c2aa58ca5455de4c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:52 +0000
Subject: [PATCH 070/116] fix: no connection is opened while the container is
 closing or after that

---
 pyslet/pyslet/odata2/sqlds.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pyslet/pyslet/odata2/sqlds.py b/pyslet/pyslet/odata2/sqlds.py
index 4b17f42..b6a41e2 100755
--- a/pyslet/pyslet/odata2/sqlds.py
+++ b/pyslet/pyslet/odata2/sqlds.py
@@ -2939,6 +2939,8 @@ class SQLEntityContainer(object):
 						break
 					logging.debug("Thread[%i] forced to wait for a database connection",threadId)
 					self.cPoolLock.wait(timeout)
+					if self.cPoolClosing:
+						break
 					logging.debug("Thread[%i] resuming search for database connection",threadId)
 					continue
 				cLock.lock.acquire()
@@ -3068,6 +3070,8 @@ class SQLEntityContainer(object):
 		collector to dispose of."""
 		with self.cPoolLock:
 			self.cPoolClosing=True
+			# threads waiting for a connection will not get one now
+			self.cPoolLock.notifyAll()
 			while self.cPoolUnlocked:
 				threadId,cLock=self.cPoolUnlocked.popitem()
 				# we don't bother to acquire the lock
-- 
2.43.0


From 28589c15b34ddeef20c3ec4cd3e50af4d9ddd832 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:52 +0000
Subject: [PATCH 071/116] fix: closing the container must close the connections
 released while it waits and those of dead threads

---
 pyslet/pyslet/odata2/sqlds.py | 26 +++++++++++++++-----------
 1 file changed, 15 insertions(+), 11 deletions(-)

diff --git a/pyslet/pyslet/odata2/sqlds.py b/pyslet/pyslet/odata2/sqlds.py
index b6a41e2..c3a59a2 100755
--- a/pyslet/pyslet/odata2/sqlds.py
+++ b/pyslet/pyslet/odata2/sqlds.py
@@ -2975,7 +2975,10 @@ class SQLEntityContainer(object):
 					cLock.locked-=1
 					if not cLock.locked:
 						del self.cPoolLocked[threadId]
-						self.cPoolUnlocked[threadId]=cLock
+						if self.cPoolClosing:
+							cLock.dbc.close()
+						else:
+							self.cPoolUnlocked[threadId]=cLock
 						self.cPoolLock.notify()
 					return
 			logging.error("Thread[%i] attempting to release a database connection it didn't acquire",threadId) 
@@ -3076,25 +3079,25 @@ class SQLEntityContainer(object):
 				threadId,cLock=self.cPoolUnlocked.popitem()
 				# we don't bother to acquire the lock
 				cLock.dbc.close()
-			while self.cPoolLocked:
+			for threadId,cLock in self.cPoolLocked.items():
 				# trickier, these are in use
-				threadId,cLock=self.cPoolLocked.popitem()
 				noWait=False
-				while True:
-					if cLock.lock.acquire(False):
-						cLock.dbc.close()
-						break
-					elif cLock.thread.isAlive():
-						if noWait:
+				start=time.time()
+				while self.cPoolLocked.get(threadId) is cLock:
+					if cLock.thread.isAlive():
+						if noWait and timeout is not None and time.time()>=start+timeout:
+							# it will be closed when it is released
 							break
 						else:
-							self.BreakConnection(cLock.dbc)
-							logging.warn("Waiting to break database connection acquired by Thread[%i]",threadId)
+							if not noWait:
+								self.BreakConnection(cLock.dbc)
+								logging.warn("Waiting to break database connection acquired by Thread[%i]",threadId)
 							self.cPoolLock.wait(timeout)
 							noWait=True						
 					else:
 						# This connection will never be released properly
 						cLock.dbc.close()
+						del self.cPoolLocked[threadId]
 			while self.cPoolDead:
 				cLock=self.cPoolDead.pop()
 				noWait=False
@@ -3113,6 +3116,7 @@ class SQLEntityContainer(object):
 					else:
 						# This connection will never be released properly
 						cLock.dbc.close()
+						break
 						
 	def __del__(self):
 		self.close()
-- 
2.43.0


From 8e3abdfabe5ca2ddfbb76caee51403114f9b6f8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:52 +0000
Subject: [PATCH 072/116] fix: a navigation collection that fails to open must
 release its connection

---
 pyslet/pyslet/odata2/sqlds.py | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/pyslet/pyslet/odata2/sqlds.py b/pyslet/pyslet/odata2/sqlds.py
index c3a59a2..bdb3fbe 100755
--- a/pyslet/pyslet/odata2/sqlds.py
+++ b/pyslet/pyslet/odata2/sqlds.py
@@ -1914,8 +1914,13 @@ class SQLForeignKeyCollection(SQLNavigationCollection):
 		# absorb qualifyNames just in case
 		if not kwArgs.pop('qualifyNames',True):
 			logging.warn("SQLForeignKeyCollection ignored qualifyNames=False")
+		self.keyCollection=None
 		super(SQLForeignKeyCollection,self).__init__(qualifyNames=True,**kwArgs)
-		self.keyCollection=self.fromEntity.entitySet.OpenCollection()
+		try:
+			self.keyCollection=self.fromEntity.entitySet.OpenCollection()
+		except:
+			self.close()
+			raise
 		navName=self.entitySet.linkEnds[self.fromEnd.otherEnd]
 		if not navName:
 			self.sourceName=self.container.mangledNames[(self.entitySet.name,self.fromEnd.name)]
@@ -2056,8 +2061,13 @@ class SQLReverseKeyCollection(SQLNavigationCollection):
 	The implementation is actually simpler in this direction as no JOIN
 	clause is required."""	 	
 	def __init__(self,**kwArgs):
+		self.keyCollection=None
 		super(SQLReverseKeyCollection,self).__init__(**kwArgs)
-		self.keyCollection=self.entitySet.OpenCollection()
+		try:
+			self.keyCollection=self.entitySet.OpenCollection()
+		except:
+			self.close()
+			raise
 
 	def WhereClause(self,entity,params,useFilter=True,useSkip=False):
 		"""Overridden to add the constraint to entities linked from *fromEntity* only."""
@@ -2148,7 +2158,8 @@ class SQLReverseKeyCollection(SQLNavigationCollection):
 		self.keyCollection.ClearLinks(self.fromEnd.otherEnd,self.fromEntity,transaction)
 			
 	def close(self):
-		self.keyCollection.close()
+		if self.keyCollection is not None:
+			self.keyCollection.close()
 		super(SQLReverseKeyCollection,self).close()
 
 
-- 
2.43.0


From 21e8a582bcc5fdfc928c72915a8fe82a84f5f09c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:30 +0000
Subject: [PATCH 073/116] fix: time based concurrency tokens must never return
 to an earlier value, undefined name

---
 pyslet/pyslet/odata2/csdl.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/pyslet/pyslet/odata2/csdl.py b/pyslet/pyslet/odata2/csdl.py
index 3b5b5ca..0692629 100755
--- a/pyslet/pyslet/odata2/csdl.py
+++ b/pyslet/pyslet/odata2/csdl.py
@@ -2299,13 +2299,13 @@ class Entity(TypeInstance):
 					t.SetFromValue(t.value+1)
 				else:
 					t.SetFromValue(1)
-			elif isinstance(t,(DateTimeValue,DateTimeOffset)):
+			elif isinstance(t,(DateTimeValue,DateTimeOffsetValue)):
 				oldT=t.value
 				t.SetFromValue(iso8601.TimePoint.FromNowUTC())
-				if t.value==oldT:
-					# that was quick, push it 1s into the future
-					newTime,overflow=t.value.time.Offset(seconds=1)
-					t.SetFromValue(date=t.value.date.Offset(days=overflow),time=newTime)
+				if oldT is not None and t.value<=oldT:
+					# that was quick, push it 1s beyond the previous value
+					newTime,overflow=oldT.time.Offset(seconds=1)
+					t.SetFromValue(iso8601.TimePoint(date=oldT.date.Offset(days=overflow),time=newTime))
 			elif isinstance(t,GuidValue):
 				oldT=t.value
 				while t.value==oldT:
-- 
2.43.0


From aa4aaddc70b784de0bb9507825960cbe743e766b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:30 +0000
Subject: [PATCH 074/116] fix: a failed update must leave the concurrency
 tokens of the entity alone

---
 pyslet/pyslet/odata2/sqlds.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/pyslet/pyslet/odata2/sqlds.py b/pyslet/pyslet/odata2/sqlds.py
index bdb3fbe..f7a61da 100755
--- a/pyslet/pyslet/odata2/sqlds.py
+++ b/pyslet/pyslet/odata2/sqlds.py
@@ -1374,6 +1374,7 @@ class SQLEntityCollection(SQLCollectionBase):
 		fkValues=[]
 		fkMapping=self.container.fkTable[self.entitySet.name]
 		transaction=SQLTransaction(self.container.dbapi,self.dbc)
+		tokens=[(t,t.value) for t in entity.ETagValues()]
 		try:
 			transaction.Begin()
 			navigationDone=set()
@@ -1489,13 +1490,23 @@ class SQLEntityCollection(SQLCollectionBase):
 			transaction.Commit()
 		except self.container.dbapi.IntegrityError as e:
 			# we might need to distinguish between a failure due to fkValues or a missing key
+			self.RestoreTokens(tokens)
 			transaction.Rollback(e,swallowErr=True)
 			raise edm.ConstraintError("Update failed for %s : %s"%(str(entity.GetLocation()),str(e)))
 		except Exception as e:
+			self.RestoreTokens(tokens)
 			transaction.Rollback(e)
 		finally:
 			transaction.Close()
 	
+	def RestoreTokens(self,tokens):
+		"""Restores the values of concurrency tokens after a failed update
+		
+		Without this, repeating the update would be checked against a
+		version that this entity is not based on."""
+		for t,value in tokens:
+			t.value=value
+
 	def UpdateLink(self,entity,linkEnd,targetEntity,noReplace=False,transaction=None):
 		"""Updates a link when this table contains the foreign key
 		
-- 
2.43.0


From cce58b64542b60df97ba6b19e7ad6806e64a7d56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:26 +0000
Subject: [PATCH 075/116] fix: no token for a next page when all entities were
 returned

---
 pyslet/pyslet/odata2/csdl.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyslet/pyslet/odata2/csdl.py b/pyslet/pyslet/odata2/csdl.py
index 0692629..99813d8 100755
--- a/pyslet/pyslet/odata2/csdl.py
+++ b/pyslet/pyslet/odata2/csdl.py
@@ -2757,11 +2757,11 @@ class EntityCollection(DictionaryLike):
 		Data providers should override this implementation for a more
 		efficient implementation.  The default implementation simply
 		wraps :py:meth:`itervalues`."""
+		self.nextSkiptoken=None
 		if self.top==0:
 			# end of paging
 			return
 		i=0
-		self.nextSkiptoken=None
 		try:
 			eMin=int(self.skiptoken,16)
 		except (TypeError,ValueError):
@@ -2815,6 +2815,7 @@ class EntityCollection(DictionaryLike):
 		finally:
 			self.paging=False
 		# no more pages
+		self.nextSkiptoken=None
 		if setNextPage:
 			self.top=self.skip=0
 			self.skiptoken=None
-- 
2.43.0


From 0bbe47bc8ec2e7fac6c5b10c55847d41da97e5b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:26 +0000
Subject: [PATCH 076/116] fix: the link to the next page must ask for what
 remains of $top

---
 pyslet/pyslet/odata2/core.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pyslet/pyslet/odata2/core.py b/pyslet/pyslet/odata2/core.py
index 739f750..5a805a5 100644
--- a/pyslet/pyslet/odata2/core.py
+++ b/pyslet/pyslet/odata2/core.py
@@ -2403,6 +2403,11 @@ class EntityCollection(edm.EntityCollection):
 				sysQueryOptions[SystemQueryOption.select]=FormatSelect(self.select)
 			if self.orderby is not None:
 				sysQueryOptions[SystemQueryOption.orderby]=CommonExpression.OrderByToString(self.orderby)
+			if self.top is not None and self.topmax is not None:
+				# this page accounts for topmax of them
+				if self.top<=self.topmax:
+					return None
+				sysQueryOptions[SystemQueryOption.top]=unicode(self.top-self.topmax)
 			sysQueryOptions[SystemQueryOption.skiptoken]=unicode(token)
 			return uri.URIFactory.URI(str(baseURL)+"?"+ODataURI.FormatSysQueryOptions(sysQueryOptions))
 		else:
-- 
2.43.0


From ff448db3ce210d7a70d55ef4d5ced0e5e6805e92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:26 +0000
Subject: [PATCH 077/116] fix: page tokens with NULL, binary and floating point
 values

---
 pyslet/pyslet/odata2/sqlds.py | 24 +++++++++++++++++++-----
 1 file changed, 19 insertions(+), 5 deletions(-)

diff --git a/pyslet/pyslet/odata2/sqlds.py b/pyslet/pyslet/odata2/sqlds.py
index f7a61da..952d0d1 100755
--- a/pyslet/pyslet/odata2/sqlds.py
+++ b/pyslet/pyslet/odata2/sqlds.py
@@ -402,7 +402,11 @@ class SQLCollectionBase(core.EntityCollection):
 		if self.nextSkiptoken:
 			token=[]
 			for t in self.nextSkiptoken:
-				token.append(core.ODataURI.FormatLiteral(t))
+				if isinstance(t,edm.DoubleValue) and t:
+					# the token must identify the exact value
+					token.append(u"%sD"%repr(t.value).replace("e+","e"))
+				else:
+					token.append(core.ODataURI.FormatLiteral(t))
 			return string.join(token,u",")
 		else:
 			return None
@@ -628,13 +632,21 @@ class SQLCollectionBase(core.EntityCollection):
 		while True:
 			oName,dir=self.orderNames[i]
 			v=self.skiptoken[i]
-			op=">" if dir>0 else "<"
-			skipExpression.append("(%s %s %s"%(oName,op,params.AddParam(self.container.PrepareSQLValue(v))))
+			# NULL comes before all other values
+			if not v:
+				skipExpression.append("(%s IS NOT NULL"%oName if dir>0 else "(1=0")
+			elif dir>0:
+				skipExpression.append("(%s > %s"%(oName,params.AddParam(self.container.PrepareSQLValue(v))))
+			else:
+				skipExpression.append("(%s < %s OR %s IS NULL"%(oName,params.AddParam(self.container.PrepareSQLValue(v)),oName))
 			ket+=1
 			i+=1
 			if i<len(self.orderNames):
 				# more to come
-				skipExpression.append(" OR (%s = %s AND "%(oName,params.AddParam(self.container.PrepareSQLValue(v))))
+				if not v:
+					skipExpression.append(" OR (%s IS NULL AND "%oName)
+				else:
+					skipExpression.append(" OR (%s = %s AND "%(oName,params.AddParam(self.container.PrepareSQLValue(v))))
 				ket+=1
 				continue
 			else:
@@ -3374,6 +3386,8 @@ class SQLEntityContainer(object):
 		
 		You may need to override this method to identify the appropriate
 		value type."""
+		if sqlValue is None:
+			return edm.EDMValue.NewSimpleValue(None)
 		return edm.EDMValue.NewSimpleValueFromValue(sqlValue)
 
 			
@@ -3529,7 +3543,7 @@ class SQLiteEntityContainer(SQLEntityContainer):
 		underlying DB API are converted to strings.  Otherwise
 		*sqlValue* is passed directly to the parent."""
 		if type(sqlValue)==BufferType:
-			result=edm.BinaryValue()
+			result=edm.EDMValue.NewSimpleValue(edm.SimpleType.Binary)
 			result.SetFromValue(str(sqlValue))
 			return result
 		else:
-- 
2.43.0


From ec0497fb9c9b70ddf7a13869cd82659a1166a84d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:26 +0000
Subject: [PATCH 078/116] fix: paging beyond values too long for a page token

---
 pyslet/pyslet/odata2/sqlds.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/pyslet/pyslet/odata2/sqlds.py b/pyslet/pyslet/odata2/sqlds.py
index 952d0d1..bc832cb 100755
--- a/pyslet/pyslet/odata2/sqlds.py
+++ b/pyslet/pyslet/odata2/sqlds.py
@@ -390,7 +390,7 @@ class SQLCollectionBase(core.EntityCollection):
 			if len(self.skiptoken)==orderLen+len(self.entitySet.keys)+1:
 				# the last value must be an integer we add to skip
 				if isinstance(self.skiptoken[-1],edm.Int32Value):
-					self.skip+=self.skiptoken[-1].value
+					self.skip=(self.skip or 0)+self.skiptoken[-1].value
 					self.skiptoken=self.skiptoken[:-1]
 				else:
 					raise core.InvalidSystemQueryOption("skiptoken incompatible with ordering: %s"%skiptoken)
@@ -468,13 +468,15 @@ class SQLCollectionBase(core.EntityCollection):
 							if v and isinstance(v,(edm.StringValue,edm.BinaryValue)):
 								tokenLen+=len(v.value)
 						# a really large skiptoken is no use to anyone
-						if tokenLen>512:
+						if tokenLen>512 and self.skiptoken is not None:
 							# ditch this one, copy the previous one and add a skip
 							self.nextSkiptoken=list(self.skiptoken)
 							v=edm.Int32Value()
-							v.SetFromValue(self.topmax)
+							v.SetFromValue((self.skip or 0)+self.topmax)
 							self.nextSkiptoken.append(v)
-						if setNextPage:
+							if setNextPage:
+								self.skip=v.value
+						elif setNextPage:
 							self.skiptoken=self.nextSkiptoken
 							self.skip=0
 						break
-- 
2.43.0


From 5aed7270373ca2700c8158f96417166db94f2e45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:26 +0000
Subject: [PATCH 079/116] fix: a page token must not outlive its page

---
 pyslet/pyslet/odata2/sqlds.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyslet/pyslet/odata2/sqlds.py b/pyslet/pyslet/odata2/sqlds.py
index bc832cb..0863727 100755
--- a/pyslet/pyslet/odata2/sqlds.py
+++ b/pyslet/pyslet/odata2/sqlds.py
@@ -412,6 +412,7 @@ class SQLCollectionBase(core.EntityCollection):
 			return None
 			
 	def pageGenerator(self,setNextPage=False):
+		self.nextSkiptoken=None
 		if self.top==0:
 			# end of paging
 			return
@@ -442,7 +443,7 @@ class SQLCollectionBase(core.EntityCollection):
 					# no more pages
 					if setNextPage:
 						self.top=self.skip=0
-						self.skipToken=None
+						self.skiptoken=None
 					break
 				if skip:
 					skip=skip-1
-- 
2.43.0


From dc9a9af72b2ad10c8d434ed4f49ef4b7c92277dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:09 +0000
Subject: [PATCH 080/116] fix: the client must not go on paging by index after
 the last page

---
 pyslet/pyslet/odata2/client.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/pyslet/pyslet/odata2/client.py b/pyslet/pyslet/odata2/client.py
index 520df7b..cb6d7ab 100755
--- a/pyslet/pyslet/odata2/client.py
+++ b/pyslet/pyslet/odata2/client.py
@@ -248,6 +248,10 @@ class ClientCollection(core.EntityCollection):
 		self.skiptoken=skiptoken	# opaque in the client implementation
 		
 	def iterpage(self,setNextPage=False):
+		if self.top==0:
+			# end of paging
+			self.nextSkiptoken=None
+			return
 		feedURL=self.baseURI
 		sysQueryOptions={}
 		if self.filter is not None:
@@ -293,6 +297,10 @@ class ClientCollection(core.EntityCollection):
 				if self.nextSkiptoken is not None:
 					self.skiptoken=self.nextSkiptoken
 					self.skip=None
+				elif self.top is None or len(doc.root.Entry)<self.top:
+					# no more pages
+					self.top=self.skip=0
+					self.skiptoken=None
 				elif self.skip is not None:
 					self.skip+=len(doc.root.Entry)
 				else:
-- 
2.43.0


From 369fcf755b45db21ffad92b158540984db7d45df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:08 +0000
Subject: [PATCH 081/116] fix: error messages may quote characters that XML
 does not allow

---
 pyslet/pyslet/odata2/server.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pyslet/pyslet/odata2/server.py b/pyslet/pyslet/odata2/server.py
index e51c1a9..7e31af5 100755
--- a/pyslet/pyslet/odata2/server.py
+++ b/pyslet/pyslet/odata2/server.py
@@ -264,6 +264,8 @@ class Server(app.Server):
 		e=Error(None)
 		if isinstance(message,str):
 			message=message.decode('utf-8','replace')
+		# the message may quote the request
+		message=string.join(map(lambda c:c if xml.IsChar(c) else u'\ufffd',message),u'')
 		e.ChildElement(Code).SetValue(subCode)
 		e.ChildElement(Message).SetValue(message)
 		responseType=self.ContentNegotiation(request,environ,self.ErrorTypes)
-- 
2.43.0


From b10c4af94693bd98a05b8d789c102335d11567f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:36 +0000
Subject: [PATCH 082/116] fix: two threads must not both be told that a nonce
 is fresh

---
 pyslet/pyslet/imsbltiv1p0.py | 32 +++++++++++++++++---------------
 1 file changed, 17 insertions(+), 15 deletions(-)

diff --git a/pyslet/pyslet/imsbltiv1p0.py b/pyslet/pyslet/imsbltiv1p0.py
index 137c0ca..53e647d 100644
--- a/pyslet/pyslet/imsbltiv1p0.py
+++ b/pyslet/pyslet/imsbltiv1p0.py
@@ -5,7 +5,7 @@ This is an experimental module and subject to significant change in future
 releases.  Use with caution.
 """
 
-import os, random, string, time
+import os, random, string, threading, time
 
 BLTI_VERSION="LTI-1p0"
 BLTI_LAUNCH_REQUEST="basic-lti-launch-request"
@@ -28,23 +28,25 @@ try:
 		def __init__(self,key,secret):
 			oauth.OAuthConsumer.__init__(self,key,secret)
 			self.nonces=[]
+			self.nonceLock=threading.Lock()
 		
 		def CheckNonce(self,nonce):
 			"""Returns True if the nonce has been checked in the last 90 mins"""
-			now=time.time()
-			old=now-5400.0
-			trim=0
-			for n,t in self.nonces:
-				if t<old:
-					trim=trim+1
-				else:
-					break
-			if trim:
-				self.nonces=self.nonces[trim:]
-			for n,t in self.nonces:
-				if n==nonce:
-					return True
-			self.nonces.append((nonce,now))
+			with self.nonceLock:
+				now=time.time()
+				old=now-5400.0
+				trim=0
+				for n,t in self.nonces:
+					if t<old:
+						trim=trim+1
+					else:
+						break
+				if trim:
+					self.nonces=self.nonces[trim:]
+				for n,t in self.nonces:
+					if n==nonce:
+						return True
+				self.nonces.append((nonce,now))
 	
 	
 	class BLTIToolProvider(oauth.OAuthDataStore):
-- 
2.43.0


From 0c758af3104e5022a161b6fc040b128ef50f543c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:36 +0000
Subject: [PATCH 083/116] fix: two threads must not both add a consumer with
 the same key

---
 pyslet/pyslet/imsbltiv1p0.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pyslet/pyslet/imsbltiv1p0.py b/pyslet/pyslet/imsbltiv1p0.py
index 53e647d..ab09750 100644
--- a/pyslet/pyslet/imsbltiv1p0.py
+++ b/pyslet/pyslet/imsbltiv1p0.py
@@ -88,7 +88,9 @@ try:
 			elif key in self.consumers:
 				raise BLTIDuplicateKeyError(key)
 			secret=self.GenerateKey()
-			self.consumers[key]=BLTIConsumer(key,secret)
+			consumer=BLTIConsumer(key,secret)
+			if self.consumers.setdefault(key,consumer) is not consumer:
+				raise BLTIDuplicateKeyError(key)
 			return key,secret
 		
 		def lookup_consumer(self, key):
-- 
2.43.0


From 3d121041b9dcc8c583068c34a66255ce254d0a50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:36 +0000
Subject: [PATCH 084/116] fix: a malformed launch request must be refused with
 BLTIAuthenticationError

---
 pyslet/pyslet/imsbltiv1p0.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pyslet/pyslet/imsbltiv1p0.py b/pyslet/pyslet/imsbltiv1p0.py
index ab09750..bc04e95 100644
--- a/pyslet/pyslet/imsbltiv1p0.py
+++ b/pyslet/pyslet/imsbltiv1p0.py
@@ -132,8 +132,8 @@ try:
 			BLTIConsumer instance and a dictionary of parameters on success. If
 			the incoming request is not authorized then
 			:class:`BLTIAuthenticationError` is raised."""
-			oauth_request=oauth.OAuthRequest.from_request(command,url,headers=headers,query_string=query_string)
 			try:
+				oauth_request=oauth.OAuthRequest.from_request(command,url,headers=headers,query_string=query_string)
 				if oauth_request:
 					# verify the request has been oauth authorized, copied from verify_request
 					# but we omit the token as BLTI does not use it.
@@ -147,6 +147,9 @@ try:
 					raise BLTIOAuthParameterError
 			except oauth.OAuthError, err:
 				raise BLTIAuthenticationError(err.message)						
+			except ValueError, err:
+				# the timestamp is not a number
+				raise BLTIAuthenticationError(str(err))
 
 except ImportError:
 	oauth=None
-- 
2.43.0


From 919afebc8fecaa15db8e33b571622238498f513a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:36 +0000
Subject: [PATCH 085/116] fix: generated keys must be hexadecimal and have at
 least the requested number of bits

---
 pyslet/pyslet/imsbltiv1p0.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyslet/pyslet/imsbltiv1p0.py b/pyslet/pyslet/imsbltiv1p0.py
index bc04e95..106abbd 100644
--- a/pyslet/pyslet/imsbltiv1p0.py
+++ b/pyslet/pyslet/imsbltiv1p0.py
@@ -64,7 +64,7 @@ try:
 			separated by '.' to make them easier to read and transcribe into
 			other systems."""
 			key=[]
-			nFours=(keyLength+1)//16
+			nFours=(keyLength+15)//16
 			try:
 				rBytes=os.urandom(nFours*2)
 				for i in xrange(nFours):
@@ -74,7 +74,7 @@ try:
 				for i in xrange(nFours):
 					four=[]
 					for j in xrange(4):
-						four.append(random.choice('0123456789ABCDEFG'))
+						four.append(random.choice('0123456789ABCDEF'))
 					key.append(string.join(four,''))
 			return string.join(key,'.')
 			
-- 
2.43.0


From 649506c9c0baaa2082ded74c86e380f7e50b9988 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:29 +0000
Subject: [PATCH 086/116] fix: a consumer that the file format cannot represent
 must not be saved as something else

---
 pyslet/pyslet/imsbltiv1p0.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/pyslet/pyslet/imsbltiv1p0.py b/pyslet/pyslet/imsbltiv1p0.py
index 106abbd..449268c 100644
--- a/pyslet/pyslet/imsbltiv1p0.py
+++ b/pyslet/pyslet/imsbltiv1p0.py
@@ -121,9 +121,16 @@ try:
 		
 		def SaveToFile(self,f):
 			"""Saves the list of trusted consumers to a simple file suitable for
-			reading with :meth:`LoadFromFile`."""
+			reading with :meth:`LoadFromFile`.
+			
+			The format cannot represent keys that are empty, contain white
+			space or start with '#', ValueError is raised (and nothing is
+			written) if there are any."""
 			keys=self.consumers.keys()
 			keys.sort()
+			for key in keys:
+				if key.split()!=[key] or key[0]=='#':
+					raise ValueError("Can't save consumer key: %s"%repr(key))
 			for key in keys:
 				f.write("%s %s\n"%(key,self.consumers[key].secret))
 		
-- 
2.43.0


From 308c003907699a58cdfe767183d27c7d28e47a46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:29 +0000
Subject: [PATCH 087/116] fix: loading a list of consumers must not replace one
 that another thread adds

---
 pyslet/pyslet/imsbltiv1p0.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pyslet/pyslet/imsbltiv1p0.py b/pyslet/pyslet/imsbltiv1p0.py
index 449268c..dda8b09 100644
--- a/pyslet/pyslet/imsbltiv1p0.py
+++ b/pyslet/pyslet/imsbltiv1p0.py
@@ -117,7 +117,9 @@ try:
 				if len(fields)>=2:
 					if fields[0] in self.consumers:
 						raise BLTIDuplicateKeyError(fields[0])
-					self.consumers[fields[0]]=BLTIConsumer(fields[0],fields[1])
+					consumer=BLTIConsumer(fields[0],fields[1])
+					if self.consumers.setdefault(fields[0],consumer) is not consumer:
+						raise BLTIDuplicateKeyError(fields[0])
 		
 		def SaveToFile(self,f):
 			"""Saves the list of trusted consumers to a simple file suitable for
-- 
2.43.0


From e5ee9132e8d0d3ad9c38c3f6ee2713df7d118271 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:30 +0000
Subject: [PATCH 088/116] fix: test sessions without a system source of
 randomness (undefined name)

---
 pyslet/pyslet/qtiv2/variables.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyslet/pyslet/qtiv2/variables.py b/pyslet/pyslet/qtiv2/variables.py
index 37e2bfe..bff0372 100755
--- a/pyslet/pyslet/qtiv2/variables.py
+++ b/pyslet/pyslet/qtiv2/variables.py
@@ -9,7 +9,7 @@ from pyslet.rfc2396  import URI, URIFactory
 import pyslet.qtiv2.core as core
 import pyslet.qtiv2.tests as tests
 
-import os, time, hashlib, types
+import os, random, time, hashlib, types
 import string, itertools
 from types import BooleanType,IntType,LongType,FloatType,StringTypes,DictType,TupleType,ListType
 
-- 
2.43.0


From a5075a9bb348a8b905ae5012249b3c9ff70e73a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:30 +0000
Subject: [PATCH 089/116] fix: a session key must never repeat when the clock
 stands still or goes back, nor time run backwards

---
 pyslet/pyslet/qtiv2/variables.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pyslet/pyslet/qtiv2/variables.py b/pyslet/pyslet/qtiv2/variables.py
index bff0372..24777ff 100755
--- a/pyslet/pyslet/qtiv2/variables.py
+++ b/pyslet/pyslet/qtiv2/variables.py
@@ -2003,12 +2003,14 @@ class TestSessionState(SessionState):
 			self.prevKey=self.key
 			dt=self.t
 			self.t=time.time()
-			dt=self.t-dt
+			# ignore time passing backwards if the clock is put back
+			dt=max(0.0,self.t-dt)
 		else:
 			self.t=time.time()
 			dt=0.0
 		hash=hashlib.sha224()
-		hash.update(self.salt+"%.6f"%self.t)
+		# the previous key makes the new one unique even if the time is not
+		hash.update(self.salt+str(self.key)+"%.6f"%self.t)
 		self.key=unicode(hash.hexdigest())
 		return dt
 		
-- 
2.43.0


From c0768fde473e8557c4277f6cbf924b097e864da2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:30 +0000
Subject: [PATCH 090/116] fix: a session key must not be accepted from two
 threads at once

---
 pyslet/pyslet/qtiv2/variables.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pyslet/pyslet/qtiv2/variables.py b/pyslet/pyslet/qtiv2/variables.py
index 24777ff..454bcf9 100755
--- a/pyslet/pyslet/qtiv2/variables.py
+++ b/pyslet/pyslet/qtiv2/variables.py
@@ -1999,7 +1999,10 @@ class TestSessionState(SessionState):
 			else:
 				raise SessionKeyMismatch(keyCheck)
 		if self.key:
-			self.keyMap[self.key]=True
+			claim=object()
+			if self.keyMap.setdefault(keyCheck,claim) is not claim:
+				# another thread has just used this key
+				raise SessionKeyExpired(keyCheck)
 			self.prevKey=self.key
 			dt=self.t
 			self.t=time.time()
-- 
2.43.0


From 8ca5dc54e636d41df9f54e386f9906c8571f88f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:30 +0000
Subject: [PATCH 091/116] fix: undefined names when saving the parameters of an
 item session

---
 pyslet/pyslet/qtiv2/variables.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/pyslet/pyslet/qtiv2/variables.py b/pyslet/pyslet/qtiv2/variables.py
index 454bcf9..cba2b1c 100755
--- a/pyslet/pyslet/qtiv2/variables.py
+++ b/pyslet/pyslet/qtiv2/variables.py
@@ -24,6 +24,10 @@ class SessionKeyExpired(core.QTIError):
 
 class SessionActionMissing(core.QTIError):
 	"""Exception raised when an unrecognised action is handled by a test session."""
+
+class BadSessionParams(core.QTIError):
+	"""Exception raised when the parameters submitted to a session are not valid."""
+	pass
 	
 class BaseType(xsi.Enumeration):
 	"""A base-type is simply a description of a set of atomic values (atomic to
@@ -1837,10 +1841,8 @@ class ItemSessionState(SessionState):
 				if len(rName)!=2:
 					continue
 				try:
-					if rd.baseType==BaseType.Identifier and core.ValidateIdentifier(rName[1]):
-						if type(sValue) in StringTypes:
-							v.SetValue(sValue)
-						else:
+					if rd.baseType==BaseType.identifier and xmlns.IsValidNCName(rName[1]):
+						if type(sValue) not in StringTypes:
 							raise ValueError
 						rank=xsi.DecodeInteger(sValue)
 						sValue=rName[1]
-- 
2.43.0


From bc95ecbd88af441b4456609d0ca621362f5e0659 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:30 +0000
Subject: [PATCH 092/116] fix: a choice interaction bound to a NULL multiple
 response must be rendered

---
 pyslet/pyslet/qtiv2/interactions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyslet/pyslet/qtiv2/interactions.py b/pyslet/pyslet/qtiv2/interactions.py
index 212c95b..340cf69 100755
--- a/pyslet/pyslet/qtiv2/interactions.py
+++ b/pyslet/pyslet/qtiv2/interactions.py
@@ -243,7 +243,7 @@ class SimpleChoice(content.FlowContainerMixin,Choice):
 				htmlInput.type=html.InputType.checkbox
 				htmlInput.name=itemState.formPrefix+interaction.responseIdentifier
 				htmlInput.value=self.identifier
-				htmlInput.checked=(self.identifier in v.value)
+				htmlInput.checked=bool(v) and (self.identifier in v.value)
 			else:
 				# we should be a radio button
 				htmlInput.type=html.InputType.radio
-- 
2.43.0


From 119da5ef92a54b018746fda8a50723ca029a22e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:02 +0000
Subject: [PATCH 093/116] fix: undefined names when saving the parameters of an
 item session, ordered responses

---
 pyslet/pyslet/qtiv2/variables.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/pyslet/pyslet/qtiv2/variables.py b/pyslet/pyslet/qtiv2/variables.py
index cba2b1c..ba6a8bb 100755
--- a/pyslet/pyslet/qtiv2/variables.py
+++ b/pyslet/pyslet/qtiv2/variables.py
@@ -1863,14 +1863,13 @@ class ItemSessionState(SessionState):
 			# we've gathered ordered parameters in a dictionary of dictionaries
 			# keyed first on response identifier and then on rank.  For each
 			# response we just sort them, so missing ranks are OK.
-			for response in orderedParams:
-				rParams=orderedParams[response]
+			for saveName in orderedParams:
+				rParams=orderedParams[saveName]
 				ranks=rParams.keys()
 				ranks.sort()
 				sValue=[]
 				for r in ranks:
 					sValue.append(rParams[r])
-				saveName=response+".SAVED"
 				v=self.map[saveName]
 				v.SetValue(sValue)				
 				
-- 
2.43.0


From 76a7d42de98f6758504fb2fbdfe7cd28f745339e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:41 +0000
Subject: [PATCH 094/116] fix: parameters that are not for a response variable
 or have a bad value must raise BadSessionParams

---
 pyslet/pyslet/qtiv2/variables.py | 21 ++++++++++++++++-----
 1 file changed, 16 insertions(+), 5 deletions(-)

diff --git a/pyslet/pyslet/qtiv2/variables.py b/pyslet/pyslet/qtiv2/variables.py
index ba6a8bb..f389407 100755
--- a/pyslet/pyslet/qtiv2/variables.py
+++ b/pyslet/pyslet/qtiv2/variables.py
@@ -1809,7 +1809,10 @@ class ItemSessionState(SessionState):
 			if not rName:
 				continue
 			# rName must be the name of a response variable
-			rd=self.GetDeclaration(rName[0])
+			try:
+				rd=self.GetDeclaration(rName[0])
+			except KeyError:
+				rd=None
 			if rd is None or not isinstance(rd,ResponseDeclaration):
 				# unexpected item in bagging area!
 				raise BadSessionParams("Unexpected item submitted wth form: %s"%p)
@@ -1824,16 +1827,16 @@ class ItemSessionState(SessionState):
 			if rd.cardinality==Cardinality.single:
 				# We are expecting a single value from the form
 				if type(sValue) in StringTypes:
-					v.SetValue(sValue)
+					self._SaveValue(p,v,sValue)
 				else:
 					raise BadSessionParams("Unexpected multi-value submission: %s"%p)
 			elif rd.cardinality==Cardinality.multiple:
 				# we are expecting a simple list of values
 				if type(sValue) in StringTypes:
 					# single item list
-					v.SetValue([sValue])
+					self._SaveValue(p,v,[sValue])
 				else:
-					v.SetValue(sValue)
+					self._SaveValue(p,v,sValue)
 			elif rd.cardinality==Cardinality.ordered:
 				# there are two ways of setting these values, either RESPONSE.rank=VALUE
 				# or RESPONSE.VALUE=rank.  The latter representation is only valid for
@@ -1871,7 +1874,15 @@ class ItemSessionState(SessionState):
 				for r in ranks:
 					sValue.append(rParams[r])
 				v=self.map[saveName]
-				v.SetValue(sValue)				
+				self._SaveValue(saveName,v,sValue)
+	
+	def _SaveValue(self,p,v,sValue):
+		oldValue=v.value
+		try:
+			v.SetValue(sValue)
+		except ValueError:
+			v.value=oldValue
+			raise BadSessionParams("Bad value in submission for: %s"%p)
 				
 	def EndAttempt(self):
 		"""Called at the end of an attempt.  Invokes response processing if present."""
-- 
2.43.0


From 15c2b247704c9790276909ea228ad9f7e540e097 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:16 +0000
Subject: [PATCH 095/116] fix: EXIT_SECTION must leave the current section and
 not a later subsection of it

---
 pyslet/pyslet/qtiv2/variables.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/pyslet/pyslet/qtiv2/variables.py b/pyslet/pyslet/qtiv2/variables.py
index f389407..f9ef931 100755
--- a/pyslet/pyslet/qtiv2/variables.py
+++ b/pyslet/pyslet/qtiv2/variables.py
@@ -2056,6 +2056,8 @@ class TestSessionState(SessionState):
 			return len(self.form)
 		else:
 			qPos=qPos+1
+			# the number of sections opened since the starting point
+			depth=0
 			while True:
 				if qPos>=len(self.form):
 					return qPos
@@ -2065,7 +2067,12 @@ class TestSessionState(SessionState):
 				qPos=qPos+1
 				# handle the other special identifiers which move to the point just
 				# after the end of the part being exited
-				if id[0]==u"-":
+				if id[0]!=u"-":
+					if isinstance(self.test.GetPart(id),tests.AssessmentSection):
+						depth=depth+1
+				elif depth:
+					depth=depth-1
+				else:
 					if target==u"EXIT_SECTION":
 						return qPos
 					elif target==u"EXIT_TESTPART" and isinstance(self.test.GetPart(id[1:]),tests.TestPart):
-- 
2.43.0


From efb4fd5467c59b7222fb6f2cf0f6d67d34b1fe7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:16 +0000
Subject: [PATCH 096/116] fix: a section or test part whose pre-conditions are
 not met must be skipped with its contents

---
 pyslet/pyslet/qtiv2/variables.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pyslet/pyslet/qtiv2/variables.py b/pyslet/pyslet/qtiv2/variables.py
index f9ef931..e5c75df 100755
--- a/pyslet/pyslet/qtiv2/variables.py
+++ b/pyslet/pyslet/qtiv2/variables.py
@@ -2138,7 +2138,11 @@ class TestSessionState(SessionState):
 						self.cQuestion=iQ
 						break
 				else:
-					# skip this item
+					# skip this item, or the whole of this section or test part
+					if not isinstance(part,tests.AssessmentItemRef):
+						endId=u"-"+part.identifier
+						while self.form[iQ]!=endId:
+							iQ=iQ+1
 					iQ=iQ+1
 
 			
-- 
2.43.0


From 696c76e767d39105eea81dea169e5dbfdb2c9ef1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:39 +0000
Subject: [PATCH 097/116] fix: sections in a shuffled selection must be
 expanded from the section and not from its identifier, and only when asked

---
 pyslet/pyslet/qtiv2/tests.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyslet/pyslet/qtiv2/tests.py b/pyslet/pyslet/qtiv2/tests.py
index 3d17299..f782c41 100755
--- a/pyslet/pyslet/qtiv2/tests.py
+++ b/pyslet/pyslet/qtiv2/tests.py
@@ -599,8 +599,8 @@ class TestForm(object):
 				for childID in b:
 					newBucket.append(childID)
 					child=self.test.GetPart(childID)
-					if isinstance(child,AssessmentSection):
-						newBucket.extend(self.Select(childID,True))
+					if isinstance(child,AssessmentSection) and expandChildren:
+						newBucket.extend(self.Select(child,True))
 						newBucket.append(u"-"+childID)	
 				i=selection.index(None)
 				selection[i:i+1]=newBucket
-- 
2.43.0


From a2993fdee9ea7eaba90dccadb33358bff1ad0e95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:39 +0000
Subject: [PATCH 098/116] fix: shuffling fewer components than there are free
 slots must leave the spare slots empty

---
 pyslet/pyslet/qtiv2/tests.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/pyslet/pyslet/qtiv2/tests.py b/pyslet/pyslet/qtiv2/tests.py
index f782c41..c01bae6 100755
--- a/pyslet/pyslet/qtiv2/tests.py
+++ b/pyslet/pyslet/qtiv2/tests.py
@@ -572,7 +572,7 @@ class TestForm(object):
 					newSelection=newSelection+self.Select(child,True)
 					newSelection.append(u"-"+child.identifier)
 		selection=newSelection
-		if shuffleList:
+		if None in selection:
 			# Step 5: shuffle!
 			random.shuffle(shuffleList)
 			# Expanded invisible sections may mean we have more shuffled items than free slots
@@ -581,12 +581,14 @@ class TestForm(object):
 			# This gives the expected result in the case where the shuffle list contains one
 			# item for each slot.  It also preserves the relative order of fixed items and
 			# ensures that adjacent fixed items are not split by a random choice.  Similarly,
-			# items fixed at the start or end of the section remain in place
+			# items fixed at the start or end of the section remain in place.
+			# An expanded invisible section may also be empty, leaving us with fewer
+			# shuffled items than free slots, the remaining buckets are left empty
 			i=0
 			buckets=[]
 			for child in selection:
 				if child is None:
-					buckets.append([shuffleList[i]])
+					buckets.append(shuffleList[i:i+1])
 					i+=1
 			while i<len(shuffleList):
 				# choose a random bucket
-- 
2.43.0


From 7924824b3173fff37462e8299431e21dabcd2a1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:54 +0000
Subject: [PATCH 099/116] fix: a multiple container set from its own
 representation must keep the frequency of each value

---
 pyslet/pyslet/qtiv2/variables.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pyslet/pyslet/qtiv2/variables.py b/pyslet/pyslet/qtiv2/variables.py
index e5c75df..4a069cc 100755
--- a/pyslet/pyslet/qtiv2/variables.py
+++ b/pyslet/pyslet/qtiv2/variables.py
@@ -857,6 +857,9 @@ class MultipleContainer(Container):
 		if value is None:
 			self.value=None
 		else:
+			if type(value) is DictType:
+				# a mapping from values to their frequency, see Value.value
+				value=[v for v,n in value.items() for i in xrange(n)]
 			self.value={}
 			for v in value:
 				if v is None:
-- 
2.43.0


From b262be4aeaab603b572bc846ffaf2cbb43d3d0f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:54 +0000
Subject: [PATCH 100/116] fix: template references in attributes are checked
 with a function of the wrong module

---
 pyslet/pyslet/qtiv2/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyslet/pyslet/qtiv2/core.py b/pyslet/pyslet/qtiv2/core.py
index ba319e2..3afafc8 100755
--- a/pyslet/pyslet/qtiv2/core.py
+++ b/pyslet/pyslet/qtiv2/core.py
@@ -367,6 +367,6 @@ def GetTemplateRef(value):
 	the value does not look like a template variable reference."""
 	if value.startswith('{') and value.endswith('}'):
 		idValue=value[1:-1]
-		if xsi.IsValidNCName(idValue):
+		if xmlns.IsValidNCName(idValue):
 			return idValue
 	return None
-- 
2.43.0


From 409ec1ff1de77bd6dc7bb5f43d9695cf2c11295b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:18 +0000
Subject: [PATCH 101/116] fix: zip hooks taken and released by different
 threads can be left in place or removed while in use

---
 pyslet/pyslet/vfs.py | 21 ++++++++++++---------
 1 file changed, 12 insertions(+), 9 deletions(-)

diff --git a/pyslet/pyslet/vfs.py b/pyslet/pyslet/vfs.py
index 8ba0155..890e305 100755
--- a/pyslet/pyslet/vfs.py
+++ b/pyslet/pyslet/vfs.py
@@ -1,6 +1,6 @@
 #! /usr/bin/env python
 
-import sys, os, tempfile, shutil, __builtin__
+import sys, os, tempfile, shutil, threading, __builtin__
 from types import StringTypes, UnicodeType, StringType
 
 					
@@ -402,12 +402,14 @@ def open_hook(path,*params):
 
 class ZipHooks(object):
 	hookCount=0
+	hookLock=threading.Lock()
 	
 	def __init__(self):
-		if not ZipHooks.hookCount:
-			os.stat=stat_hook
-			__builtin__.open=open_hook
-		ZipHooks.hookCount+=1
+		with ZipHooks.hookLock:
+			if not ZipHooks.hookCount:
+				os.stat=stat_hook
+				__builtin__.open=open_hook
+			ZipHooks.hookCount+=1
 		
 	def __enter__(self):
 		return self
@@ -416,10 +418,11 @@ class ZipHooks(object):
 		self.Unhook()
 						
 	def Unhook(self):
-		ZipHooks.hookCount-=1
-		if not ZipHooks.hookCount:
-			os.stat=stat_pass
-			__builtin__.open=open_pass
+		with ZipHooks.hookLock:
+			ZipHooks.hookCount-=1
+			if not ZipHooks.hookCount:
+				os.stat=stat_pass
+				__builtin__.open=open_pass
 		
 
 fsRegister={}
-- 
2.43.0


From 322591c8e56c384304e67d84c50978273be0c775 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:59 +0000
Subject: [PATCH 102/116] fix: a relative URI whose first path segment contains
 a colon must not look like a scheme

---
 pyslet/pyslet/rfc2396.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pyslet/pyslet/rfc2396.py b/pyslet/pyslet/rfc2396.py
index 07c79ff..3bc802d 100755
--- a/pyslet/pyslet/rfc2396.py
+++ b/pyslet/pyslet/rfc2396.py
@@ -818,6 +818,9 @@ class URI(object):
 		if absPath is not None:
 			result.append(absPath)
 		elif relPath is not None:
+			if authority is None and ':' in relPath.split('/')[0]:
+				# the first segment must not be mistaken for a scheme
+				result.append('./')
 			result.append(relPath)
 		if self.query is not None:
 			result.append('?')
-- 
2.43.0


From 936d3ea3750ef2b47fd74e6fbab848323f93f5e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:00 +0000
Subject: [PATCH 103/116] fix: the manifest and files outside the package are
 not files that can be added or deleted

---
 pyslet/pyslet/imscpv1p2.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pyslet/pyslet/imscpv1p2.py b/pyslet/pyslet/imscpv1p2.py
index 19dd93b..df5a0ad 100644
--- a/pyslet/pyslet/imscpv1p2.py
+++ b/pyslet/pyslet/imscpv1p2.py
@@ -667,8 +667,8 @@ class ContentPackage:
 			if self.IgnoreFile(unicode(tail)):
 				raise CPFilePathError(fullPath)
 			relPath=PathInPath(fullPath,self.dPath)
-			if relPath is None or unicode(relPath).lower==u'imsmanifest.xml':
-				raise CPFilePathError(url.path)
+			if relPath is None or unicode(relPath).lower()==u'imsmanifest.xml':
+				raise CPFilePathError(fullPath)
 			# normalise the case ready to put in the file table
 			relPath=relPath.normcase()
 			f=resource.ChildElement(resource.FileClass)
@@ -739,7 +739,7 @@ class ContentPackage:
 		if not isinstance(fURL,uri.FileURL):
 			# We cannot delete non-file objects (though in future
 			# we should support HTTP DELETE)
-			return CPProtocolError(str(fURL))
+			raise CPProtocolError(str(fURL))
 		fullPath=fURL.GetVirtualFilePath()
 		if not fullPath.isfile():
 			raise CPFileTypeError(fullPath)
@@ -747,7 +747,7 @@ class ContentPackage:
 		if self.IgnoreFile(unicode(tail)):
 			raise CPFilePathError(fullPath)
 		relPath=PathInPath(fullPath,self.dPath)
-		if relPath is None or unicode(relPath).lower==u'imsmanifest.xml':
+		if relPath is None or unicode(relPath).lower()==u'imsmanifest.xml':
 			raise CPFilePathError(fullPath)
 		# normalise the case ready for comparisons
 		relPath=relPath.normcase()
-- 
2.43.0


From 1d34ef111daab104c62ac51d64b371452820ba24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:00 +0000
Subject: [PATCH 104/116] fix: a file copied into a package must not replace
 the manifest, a directory or an ignored file

---
 pyslet/pyslet/imscpv1p2.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyslet/pyslet/imscpv1p2.py b/pyslet/pyslet/imscpv1p2.py
index df5a0ad..2f72570 100644
--- a/pyslet/pyslet/imscpv1p2.py
+++ b/pyslet/pyslet/imscpv1p2.py
@@ -629,7 +629,7 @@ class ContentPackage:
 		# Now we can try and make it unique
 		pathStr=fPath
 		pathExtra=0
-		while pathStr in self.fileTable:
+		while pathStr in self.fileTable or self.dPath.join(pathStr).exists():
 			if not pathExtra:
 				pathExtra=random.randint(0,0xFFFF)
 			fName,fExt=fPath.splitext()
-- 
2.43.0


From 5b308447f06ab9541f8f78c5f1e39e1dc1f3a342 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:00 +0000
Subject: [PATCH 105/116] fix: a new manifest that cannot be written must not
 be left in the package half-written

---
 pyslet/pyslet/imscpv1p2.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/pyslet/pyslet/imscpv1p2.py b/pyslet/pyslet/imscpv1p2.py
index 2f72570..e69fa95 100644
--- a/pyslet/pyslet/imscpv1p2.py
+++ b/pyslet/pyslet/imscpv1p2.py
@@ -370,7 +370,12 @@ class ContentPackage:
 				md=self.manifest.root.ChildElement(self.manifest.root.MetadataClass)
 				md.ChildElement(md.SchemaClass).SetValue("IMS Content")
 				md.ChildElement(md.SchemaVersionClass).SetValue("1.2")
-				self.manifest.Create()
+				try:
+					self.manifest.Create()
+				except:
+					if mPath.exists():
+						mPath.remove()
+					raise
 			self.SetIgnoreFiles(IGNOREFILES_RE)
 			self.fileTable={}
 			"""The fileTable is a dictionary that maps package relative file
-- 
2.43.0


From 8987762ca054ae2c509fa30cb27747d54129f0fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:58 +0000
Subject: [PATCH 106/116] fix: a UTF-8 byte order mark is a NameError

---
 pyslet/pyslet/xml20081126/structures.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyslet/pyslet/xml20081126/structures.py b/pyslet/pyslet/xml20081126/structures.py
index 5cf8839..2d81525 100644
--- a/pyslet/pyslet/xml20081126/structures.py
+++ b/pyslet/pyslet/xml20081126/structures.py
@@ -2856,7 +2856,7 @@ class XMLEntity(object):
 			if magic[2:]!='\x00\x00':
 				magic=magic[:2]
 		elif magic[:3]=='\xef\xbb\xbf':
-			magic=mage[:3]
+			magic=magic[:3]
 		self.encoding,seekPos,self.bom=self.MagicTable.get(magic,('utf-8',0,False))
 		srcFile.seek(seekPos)
 	
-- 
2.43.0


From 3824836554588014b57418188386b4788a498e97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:58 +0000
Subject: [PATCH 107/116] fix: the encoding of a stream is detected from as
 many bytes as its first read returns

---
 pyslet/pyslet/xml20081126/structures.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pyslet/pyslet/xml20081126/structures.py b/pyslet/pyslet/xml20081126/structures.py
index 2d81525..2e24408 100644
--- a/pyslet/pyslet/xml20081126/structures.py
+++ b/pyslet/pyslet/xml20081126/structures.py
@@ -2850,6 +2850,12 @@ class XMLEntity(object):
 		Should only be called for seek-able streams opened in binary mode."""
 		srcFile.seek(0)
 		magic=srcFile.read(4)
+		while len(magic)<4:
+			# a read may be short, the file only ends when it is empty
+			data=srcFile.read(4-len(magic))
+			if not data:
+				break
+			magic=magic+data
 		while len(magic)<4:
 			magic=magic+'Q'
 		if magic[:2]=='\xff\xfe' or magic[:2]=='\xfe\xff':
-- 
2.43.0


From d8e5d36b82ec94f85e40565aba762b55242cc954 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:58 +0000
Subject: [PATCH 108/116] fix: the EBCDIC magic bytes are not the ones of an
 EBCDIC document

---
 pyslet/pyslet/xml20081126/structures.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyslet/pyslet/xml20081126/structures.py b/pyslet/pyslet/xml20081126/structures.py
index 2e24408..79c12bd 100644
--- a/pyslet/pyslet/xml20081126/structures.py
+++ b/pyslet/pyslet/xml20081126/structures.py
@@ -2841,7 +2841,7 @@ class XMLEntity(object):
 		'\x00\x3c\x00\x3f':('utf_16_be',0,False),		# UTF-16BE or big-endian ISO-10646-UCS-2 or other encoding with a 16-bit code unit
 		'\x3c\x00\x3f\x00':('utf_16_le',0,False),		# UTF-16LE or little-endian ISO-10646-UCS-2 or other encoding with a 16-bit code unit
 		'\3c\x3f\x78\x6D':('utf_8',0,False),			# UTF-8, ISO 646, ASCII or similar
-		'\4c\x6f\xa7\x94':('cp500',0,False)				# EBCDIC (in some flavor)
+		'\x4c\x6f\xa7\x94':('cp500',0,False)				# EBCDIC (in some flavor)
 		}
 					
 	def AutoDetectEncoding(self,srcFile):
-- 
2.43.0


From 8cdfd043e5791045bef92dffb04b4f02339c2a4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:59 +0000
Subject: [PATCH 109/116] fix: the error for entities that cannot be opened is
 undefined

---
 pyslet/pyslet/xml20081126/structures.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pyslet/pyslet/xml20081126/structures.py b/pyslet/pyslet/xml20081126/structures.py
index 79c12bd..0e7e8c1 100644
--- a/pyslet/pyslet/xml20081126/structures.py
+++ b/pyslet/pyslet/xml20081126/structures.py
@@ -2635,7 +2635,7 @@ class XMLEntity(object):
 		if self.location:
 			self.OpenURI(self.location)
 		else:
-			raise UnimplementedError
+			raise XMLUnimplementedError
 	
 	def IsOpen(self):
 		"""Returns True if the entity is open for reading."""
@@ -2721,7 +2721,7 @@ class XMLEntity(object):
 				if mtype is None:
 					# We'll attempt to do this with xml and utf8
 					charset='utf8'
-					raise UnimplementedError
+					raise XMLUnimplementedError
 				else:
 					self.mimetype=mtype.type.lower()+'/'+mtype.subtype.lower()
 					respEncoding=mtype.parameters.get('charset',None)
@@ -2756,7 +2756,7 @@ class XMLEntity(object):
 		if mtype is None:
 			# We'll attempt to do this with xml and utf8
 			charset='utf8'
-			raise UnimplementedError
+			raise XMLUnimplementedError
 		else:
 			self.mimetype=mtype.type.lower()+'/'+mtype.subtype.lower()
 			respEncoding=mtype.parameters.get('charset',None)
@@ -2973,7 +2973,7 @@ class XMLDeclaredEntity(XMLEntity):
 		elif type(self.definition) is UnicodeType:
 			self.OpenUnicode(self.definition)
 		elif isinstance(self.definition,XMLExternalID):
-			XMLEntity.Open(self)	# open from location or raise UnimplementedError
+			XMLEntity.Open(self)	# open from location or raise XMLUnimplementedError
 			# Now to handle the text declaration
 			from pyslet.xml20081126.parser import XMLParser
 			p=XMLParser(self)
-- 
2.43.0


From 0512d0ab6cb684767fdb80163b7e7015109ac626 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:59 +0000
Subject: [PATCH 110/116] fix: a comment or processing instruction cut short by
 the end of the document is not an error

---
 pyslet/pyslet/xml20081126/parser.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/pyslet/pyslet/xml20081126/parser.py b/pyslet/pyslet/xml20081126/parser.py
index 78a68d0..5f3fa62 100755
--- a/pyslet/pyslet/xml20081126/parser.py
+++ b/pyslet/pyslet/xml20081126/parser.py
@@ -854,6 +854,9 @@ class XMLParser:
 					nHyphens=0
 				data.append(self.theChar)
 				self.NextChar()
+		else:
+			if not self.dontCheckWellFormedness:
+				self.WellFormednessError(production+": Expected -->")
 		return string.join(data,'')
 				
 	def ParsePI(self,gotLiteral=False):
@@ -881,8 +884,12 @@ class XMLParser:
 					else:
 						# just a single '?'
 						data.append('?')
+						continue
 				data.append(self.theChar)
 				self.NextChar()
+			else:
+				if not self.dontCheckWellFormedness:
+					self.WellFormednessError(production+": Expected ?>")
 		else:
 			self.CheckPEBetweenDeclarations(dEntity)
 			self.ParseRequiredLiteral('?>',production)
-- 
2.43.0


From 0a6125b64e57c03a5f5b2b3057d04cac0ca11b28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:10 +0000
Subject: [PATCH 111/116] fix: ']]>' in character data hangs the parser

---
 pyslet/pyslet/xml20081126/parser.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pyslet/pyslet/xml20081126/parser.py b/pyslet/pyslet/xml20081126/parser.py
index 5f3fa62..d0418ce 100755
--- a/pyslet/pyslet/xml20081126/parser.py
+++ b/pyslet/pyslet/xml20081126/parser.py
@@ -1683,6 +1683,11 @@ class XMLParser:
 				else:
 					# leave the absence of an end tag for ParseElement to worry about
 					return True
+			elif self.theChar==']' and self.ParseLiteral(']]>'):
+				# ParseCharData stops in front of this literal
+				if not self.dontCheckWellFormedness:
+					self.WellFormednessError("]]> in character data")
+				self.HandleData(']]>')
 			else:
 				pcdata=self.ParseCharData()
 				if pcdata and not self.UnhandledData(pcdata):
-- 
2.43.0


From a946ea9aab6b4da1d2c0f20b8f0db737699af5bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:41:25 +0000
Subject: [PATCH 112/116] fix: an entity with nothing in it stays open, a
 second reference to it is recursion

---
 pyslet/pyslet/xml20081126/parser.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pyslet/pyslet/xml20081126/parser.py b/pyslet/pyslet/xml20081126/parser.py
index d0418ce..01ae0c0 100755
--- a/pyslet/pyslet/xml20081126/parser.py
+++ b/pyslet/pyslet/xml20081126/parser.py
@@ -186,6 +186,9 @@ class XMLParser:
 			# Harsh but fair, if we had reason to believe that this entity used UTF-16 but it
 			# was completely empty (not even a BOM) then that is an error.
 			self.CheckEncoding(entity,None)
+			if not entity.buffText:
+				# nothing will be read from it, so nothing will close it
+				entity.Close()
 		if entity.buffText:
 			self.BuffText(entity.buffText)
 	
-- 
2.43.0


From 502ba6fe4f5b440a05340b9560eddb8a6655bffb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:47 +0000
Subject: [PATCH 113/116] fix: an XML document from a server is opened twice,
 the second time at its byte order mark

---
 pyslet/pyslet/xml20081126/structures.py | 18 ------------------
 1 file changed, 18 deletions(-)

diff --git a/pyslet/pyslet/xml20081126/structures.py b/pyslet/pyslet/xml20081126/structures.py
index 0e7e8c1..16676e3 100644
--- a/pyslet/pyslet/xml20081126/structures.py
+++ b/pyslet/pyslet/xml20081126/structures.py
@@ -2717,24 +2717,6 @@ class XMLEntity(object):
 			reqManager.ProcessRequest(req)
 			if req.status==200:
 				self.OpenHTTPResponse(req.response,encoding)
-				mtype=req.response.GetContentType()
-				if mtype is None:
-					# We'll attempt to do this with xml and utf8
-					charset='utf8'
-					raise XMLUnimplementedError
-				else:
-					self.mimetype=mtype.type.lower()+'/'+mtype.subtype.lower()
-					respEncoding=mtype.parameters.get('charset',None)
-					if respEncoding is None and mtype.type.lower()=='text':
-						# Text types default to iso-8859-1
-						respEncoding=('text-default',"iso-8859-1")
-					if respEncoding is not None:
-						self.encoding=respEncoding[1].lower()
-				#print "...reading %s stream with charset=%s"%(self.mimetype,self.encoding)
-				srcFile=StringIO(req.resBody)
-				if self.encoding is None:
-					self.AutoDetectEncoding(srcFile)
-				self.OpenFile(srcFile,self.encoding)
 			elif req.status==404:
 				raise XMLMissingResourceError(str(req.status)+" "+str(req.response.reason))
 			else:	
-- 
2.43.0


From e2620d264a2bee88bb33dbf62bac3bdd536fc30a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:47 +0000
Subject: [PATCH 114/116] fix: a document that ends with its XML declaration is
 an IndexError

---
 pyslet/pyslet/xml20081126/structures.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pyslet/pyslet/xml20081126/structures.py b/pyslet/pyslet/xml20081126/structures.py
index 16676e3..235c56d 100644
--- a/pyslet/pyslet/xml20081126/structures.py
+++ b/pyslet/pyslet/xml20081126/structures.py
@@ -2889,7 +2889,10 @@ class XMLEntity(object):
 				self.charSource=codecs.getreader(self.encoding)(self.dataSource)
 				self.chars=self.charSource.read(len(self.chars))
 				# We assume that charPos will still point to the correct next character
-				self.theChar=self.chars[self.charPos]
+				if self.charPos<len(self.chars):
+					self.theChar=self.chars[self.charPos]
+				else:
+					self.theChar=None
 		self.KeepEncoding()
 	
 	def KeepEncoding(self):
-- 
2.43.0


From f9403dd365d527d655a5234f539d81c7c08779da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:49:22 +0000
Subject: [PATCH 115/116] fix: an external entity without a text declaration
 loses what the test for the declaration has read

---
 pyslet/pyslet/xml20081126/parser.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/pyslet/pyslet/xml20081126/parser.py b/pyslet/pyslet/xml20081126/parser.py
index 01ae0c0..681cf46 100755
--- a/pyslet/pyslet/xml20081126/parser.py
+++ b/pyslet/pyslet/xml20081126/parser.py
@@ -162,10 +162,11 @@ class XMLParser:
 			self.theChar=self.buff[0]
 	
 	def GetBuff(self):
-		if len(self.buff)>1:
-			return string.join(self.buff[1:],'')
+		if self.entity.theChar is None:
+			return string.join(self.buff,'')
 		else:
-			return ''
+			# the last character is the entity's current one, see BuffText
+			return string.join(self.buff[:-1],'')
 
 	def PushEntity(self,entity):
 		"""Starts parsing *entity*
-- 
2.43.0


From 70ac0f67597963e5154b2fe2899db18286e2c22d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:49:54 +0000
Subject: [PATCH 116/116] fix: a processing instruction without a target is an
 AttributeError

---
 pyslet/pyslet/xml20081126/parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyslet/pyslet/xml20081126/parser.py b/pyslet/pyslet/xml20081126/parser.py
index 681cf46..ee989f7 100755
--- a/pyslet/pyslet/xml20081126/parser.py
+++ b/pyslet/pyslet/xml20081126/parser.py
@@ -904,7 +904,7 @@ class XMLParser:
 
 	def ParsePITarget(self):
 		"""[17] PITarget: parses a processing instruction target name"""
-		name=self.ParseName()
+		name=self.ParseRequiredName("[17] PITarget")
 		if name.lower()=='xml':
 			self.BuffText(name)
 			self.WellFormednessError("[17] PITarget: Illegal target: %s"%name)
-- 
2.43.0

