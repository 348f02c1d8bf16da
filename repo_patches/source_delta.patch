From deafbf4b0f9265a24828e41343e96f39287eb377 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:08:09 +0000
Subject: [PATCH 01/60] fix: never choose a route identifier which is already
 bound

Router.createRouteIdentifier promises an identifier which is not yet
associated with a route, but ignored explicitly named routes.
---
 epsilon/amprouter.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/epsilon/amprouter.py b/epsilon/amprouter.py
index dbb9f18..2c54ec7 100644
--- a/epsilon/amprouter.py
+++ b/epsilon/amprouter.py
@@ -138,7 +138,13 @@ class Router:
 
         @rtype: C{unicode}
         """
-        return six.text_type(next(self._routeCounter))
+        mapping = self._routes
+        if mapping is None:
+            mapping = self._unstarted
+        identifier = six.text_type(next(self._routeCounter))
+        while identifier in mapping:
+            identifier = six.text_type(next(self._routeCounter))
+        return identifier
 
 
     def bindRoute(self, receiver, routeName=_unspecified):
-- 
2.43.0


From 0c960b2a8d238adb5b07d82261e54b6d4ff072d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:08:09 +0000
Subject: [PATCH 02/60] fix: allow a route to be unbound before its router is
 started

---
 epsilon/amprouter.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/epsilon/amprouter.py b/epsilon/amprouter.py
index 2c54ec7..d122adf 100644
--- a/epsilon/amprouter.py
+++ b/epsilon/amprouter.py
@@ -65,7 +65,11 @@ class Route(record('router receiver localRouteName remoteRouteName',
         """
         Remove the association between this route and its router.
         """
-        del self.router._routes[self.localRouteName]
+        mapping = self.router._routes
+        if mapping is None:
+            # The router has not been started yet.
+            mapping = self.router._unstarted
+        del mapping[self.localRouteName]
 
 
     def start(self):
-- 
2.43.0


From e1b60c754018f1e6e8fbdffd940c050314b6d740 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:08:09 +0000
Subject: [PATCH 03/60] fix: let receivers bind, connect and unbind routes
 while the router starts or stops

Doing so changed the size of the dict being iterated over, and a route
connected by another receiver during startup was started twice.
---
 epsilon/amprouter.py | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/epsilon/amprouter.py b/epsilon/amprouter.py
index d122adf..6664815 100644
--- a/epsilon/amprouter.py
+++ b/epsilon/amprouter.py
@@ -180,14 +180,16 @@ class Router:
         Initialize route tracking objects.
         """
         self._sender = sender
-        for routeName, route in six.viewitems(self._unstarted):
-            # Any route which has been bound but which does not yet have a
-            # remote route name should not yet be started.  These will be
-            # started in Route.connectTo.
-            if route.remoteRouteName is not _unspecified:
-                route.start()
         self._routes = self._unstarted
         self._unstarted = None
+        # Any route which has been bound but which does not yet have a remote
+        # route name should not yet be started.  These will be started in
+        # Route.connectTo.  Decide which these are before starting any: a
+        # receiver may bind, connect or unbind routes as it is started.
+        ready = [route for route in six.itervalues(self._routes)
+                 if route.remoteRouteName is not _unspecified]
+        for route in ready:
+            route.start()
 
 
     def ampBoxReceived(self, box):
@@ -203,7 +205,8 @@ class Router:
         """
         Stop all the L{IBoxReceiver}s which have been added to this router.
         """
-        for routeName, route in six.viewitems(self._routes):
+        # A receiver may unbind its route as it is stopped.
+        for route in list(six.itervalues(self._routes)):
             route.stop(reason)
         self._routes = None
 
-- 
2.43.0


From 34243a044fe3bad794ff24f2018f53b2e8970e34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:14:34 +0000
Subject: [PATCH 04/60] fix: close the connection after an error declared fatal

The Failure itself, not its type, was looked up in the command's
fatalErrors, so no error was ever fatal.
---
 epsilon/juice.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/epsilon/juice.py b/epsilon/juice.py
index 6a58863..5dad654 100644
--- a/epsilon/juice.py
+++ b/epsilon/juice.py
@@ -225,7 +225,7 @@ class DispatchMixin:
                 code = command.allErrors[key]
                 desc = str(error.value)
                 return Failure(RemoteJuiceError(
-                        code, desc, error in command.fatalErrors))
+                        code, desc, key in command.fatalErrors))
             return maybeDeferred(aCallable, **kw).addCallback(
                 command.makeResponse, proto).addErrback(
                 checkKnownErrors)
-- 
2.43.0


From 15965726f1d13a5ad7390024a2fac0ba9fb3ab53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:14:34 +0000
Subject: [PATCH 05/60] fix: count the length of a box's body in bytes

The body is sent encoded: with the length in characters, a body with
non-ASCII text was cut short and the rest of it parsed as another box.
---
 epsilon/juice.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/epsilon/juice.py b/epsilon/juice.py
index 5dad654..310c68e 100644
--- a/epsilon/juice.py
+++ b/epsilon/juice.py
@@ -65,7 +65,7 @@ class JuiceBox(dict):
         for (k, v) in six.viewitems(self):
             if k == BODY:
                 k = LENGTH
-                v = str(len(self[BODY]))
+                v = str(len(six.ensure_binary(self[BODY])))
             L.append(six.ensure_binary(k).replace(b'_', b'-').title())
             L.append(b': ')
             L.append(six.ensure_binary(v).replace(delimiter, escaped))
-- 
2.43.0


From 1bcada5b9fef36bf1085565d140674a6618d7a65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:14:34 +0000
Subject: [PATCH 06/60] fix: do not drop an empty body from a received box

For example, an empty JuiceList in a response's body made the request
fail with KeyError.
---
 epsilon/juice.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/epsilon/juice.py b/epsilon/juice.py
index 310c68e..5db23ac 100644
--- a/epsilon/juice.py
+++ b/epsilon/juice.py
@@ -297,7 +297,13 @@ def parseJuiceHeaders(lines):
         key, value = parts
         key = normalizeKey(key)
         b[key] = six.ensure_str(value)
-    return int(b.pop(LENGTH, 0)), b
+    length = b.pop(LENGTH, None)
+    if length is None:
+        return 0, b
+    length = int(length)
+    if not length:
+        b[BODY] = ''
+    return length, b
 
 class JuiceParserBase(DispatchMixin):
 
-- 
2.43.0


From e2a2737b7906cd73a22663de5f9c57fb413eb048 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:14:34 +0000
Subject: [PATCH 07/60] fix: connect the protocol switched to only once

_switchTo already connects it; when the box which caused the switch had a
body it was connected again.
---
 epsilon/juice.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/epsilon/juice.py b/epsilon/juice.py
index 5db23ac..b2b7f8a 100644
--- a/epsilon/juice.py
+++ b/epsilon/juice.py
@@ -915,7 +915,6 @@ class Juice(LineReceiver, JuiceParserBase, object):
             b, self._pendingBox = self._pendingBox, None
             self.juiceBoxReceived(b)
             if self.innerProtocol is not None:
-                self.innerProtocol.makeConnection(self.transport)
                 if extraData:
                     self.innerProtocol.dataReceived(extraData)
             else:
-- 
2.43.0


From b1b3b000f38a6c7a1c3af045e738df87c006aa01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:14:35 +0000
Subject: [PATCH 08/60] fix: make Unicode, Path, EncodedString and Base64Binary
 usable on Python 3

Values arrive as native strings, which have no decode method there, and
there is no 'base64' text codec.
---
 epsilon/juice.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/epsilon/juice.py b/epsilon/juice.py
index b2b7f8a..fc5d2ec 100644
--- a/epsilon/juice.py
+++ b/epsilon/juice.py
@@ -1,6 +1,7 @@
 # -*- test-case-name: epsilon.test.test_juice -*-
 # Copyright 2005 Divmod, Inc.  See LICENSE file for details
 
+import base64
 import warnings, pprint
 import keyword
 import io
@@ -510,7 +511,7 @@ class EncodedString(Argument):
         return inObject.encode(self.encoding)
 
     def fromString(self, inString):
-        return inString.decode(self.encoding)
+        return six.ensure_binary(inString).decode(self.encoding)
 
 # Temporary backwards compatibility for Exponent
 
@@ -519,11 +520,11 @@ Body = String
 class Unicode(String):
     def toString(self, inObject):
         # assert isinstance(inObject, unicode)
-        return String.toString(self, inObject.encode('utf-8'))
+        return String.toString(self, six.ensure_str(inObject))
 
     def fromString(self, inString):
         # assert isinstance(inString, str)
-        return String.fromString(self, inString).decode('utf-8')
+        return six.ensure_text(String.fromString(self, inString))
 
 class Path(Unicode):
     def fromString(self, inString):
@@ -539,9 +540,9 @@ class Float(Argument):
 
 class Base64Binary(Argument):
     def toString(self, inObject):
-        return inObject.encode('base64').replace('\n', '')
+        return six.ensure_str(base64.b64encode(six.ensure_binary(inObject)))
     def fromString(self, inString):
-        return inString.decode('base64')
+        return base64.b64decode(inString)
 
 class Time(Argument):
     def toString(self, inObject):
-- 
2.43.0


From 68f7fcf722b9db313487dae5c05d62af96885dea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:15:09 +0000
Subject: [PATCH 09/60] fix: do not recurse for each switch between raw and
 line mode in one chunk

A few hundred boxes with bodies arriving together exceeded the recursion
limit.
---
 epsilon/liner.py | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/epsilon/liner.py b/epsilon/liner.py
index a28352a..c12df85 100644
--- a/epsilon/liner.py
+++ b/epsilon/liner.py
@@ -33,7 +33,22 @@ class LineReceiver(Protocol):
     def setRawMode(self):
         self.lineMode = False
 
+    # While data is being processed, a list of the data to process after it:
+    # what rawDataReceived passes back to setLineMode.
+    _pending = None
+
     def dataReceived(self, data):
+        if self._pending is not None:
+            self._pending.append(data)
+            return
+        self._pending = [data]
+        try:
+            while self._pending:
+                self._processData(self._pending.pop(0))
+        finally:
+            self._pending = None
+
+    def _processData(self, data):
         buffer = self.buffer
         buffer += data
         delimiter = self.delimiter
-- 
2.43.0


From c7edcb2fd269e6383044f92cb8ac5b38f405ce6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:27:47 +0000
Subject: [PATCH 10/60] fix: do not answer a request after the connection is
 lost

In particular, do not connect the protocol of a switch agreed to too late:
it would never be told that the connection is lost.
---
 epsilon/juice.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/epsilon/juice.py b/epsilon/juice.py
index fc5d2ec..60d709a 100644
--- a/epsilon/juice.py
+++ b/epsilon/juice.py
@@ -352,8 +352,8 @@ class JuiceParserBase(DispatchMixin):
             def sendAnswer(answerBox):
                 if ASK not in box:
                     return
-                if self.transport is None:
-                    return
+                if self.transport is None or self._outstandingRequests is None:
+                    return # not connected, or not any more
                 answerBox[ANSWER] = box[ASK]
                 answerBox.sendTo(self)
             def sendError(error):
@@ -375,7 +375,7 @@ class JuiceParserBase(DispatchMixin):
                 errorBox[ERROR] = box[ASK]
                 errorBox[ERROR_DESCRIPTION] = desc
                 errorBox[ERROR_CODE] = code
-                if self.transport is not None:
+                if self.transport is not None and self._outstandingRequests is not None:
                     errorBox.sendTo(self)
                 return None # intentionally stop the error here: don't log the
                             # traceback if it's handled, do log it (earlier) if
-- 
2.43.0


From 5cef904653a2b90f5652ca5a5ac15d211238a90b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:33:43 +0000
Subject: [PATCH 11/60] fix: format fractions of a second given with fewer than
 six digits

They were dropped for instances with a resolution coarser than one
microsecond, so that 12:00:00.5 was formatted as 12:00:00.
---
 epsilon/extime.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/epsilon/extime.py b/epsilon/extime.py
index 33b7103..cf5a28e 100644
--- a/epsilon/extime.py
+++ b/epsilon/extime.py
@@ -786,7 +786,7 @@ class Time(object):
             ('%02i' % (dtime.hour,), datetime.timedelta(hours=1)),
             ('%s%02i' % (timeSep, dtime.minute), datetime.timedelta(minutes=1)),
             ('%s%02i' % (timeSep, dtime.second), datetime.timedelta(seconds=1)),
-            (microsecond, datetime.timedelta(microseconds=1)),
+            (microsecond, datetime.timedelta(milliseconds=100)),
             (timezone, datetime.timedelta(hours=1))
         ]
 
-- 
2.43.0


From be7e19a1f42b13f2ad91173409f6957b6880c4e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:33:43 +0000
Subject: [PATCH 12/60] fix: format an instance addressing a week as that week

It was formatted as the month in which the week starts.
---
 epsilon/extime.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/epsilon/extime.py b/epsilon/extime.py
index cf5a28e..dc120d7 100644
--- a/epsilon/extime.py
+++ b/epsilon/extime.py
@@ -778,6 +778,10 @@ class Time(object):
         if microsecond:
             microsecond = '.' + microsecond
 
+        if self.resolution == datetime.timedelta(weeks=1):
+            return '%04i%sW%02i' % (
+                dtime.isocalendar()[0], dateSep, dtime.isocalendar()[1])
+
         parts = [
             ('%04i' % (dtime.year,), datetime.timedelta(days=366)),
             ('%s%02i' % (dateSep, dtime.month), datetime.timedelta(days=31)),
-- 
2.43.0


From c23e972f9a38e6f751735f19aa7caba6ac1950ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:33:43 +0000
Subject: [PATCH 13/60] fix: parse fractions of a second which round up to a
 whole second

12:00:00.9999999 raised ValueError.
---
 epsilon/extime.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/epsilon/extime.py b/epsilon/extime.py
index dc120d7..79b4f8b 100644
--- a/epsilon/extime.py
+++ b/epsilon/extime.py
@@ -431,11 +431,12 @@ class Time(object):
             for key in defaultTo1:
                 if groups[key] is None:
                     groups[key] = 1
-            groups['fractionalsec'] = float('.'+groups['fractionalsec'])
+            groups['fractionalsec'] = min(
+                float('.'+groups['fractionalsec']), 0.999999)
             for key in defaultTo0 + defaultTo1 + ['year']:
                 groups[key] = int(groups[key])
 
-            for group, min, max in [
+            for group, low, high in [
                 # some years have only 52 weeks
                 ('week', 1, 53),
                 ('weekday', 1, 7),
@@ -459,8 +460,8 @@ class Time(object):
                 ('second', 0, 61),
                 # don't forget leap years
                 ('dayofyear', 1, 366)]:
-                if not min <= groups[group] <= max:
-                    raise ValueError('%s must be in %i..%i' % (group, min, max))
+                if not low <= groups[group] <= high:
+                    raise ValueError('%s must be in %i..%i' % (group, low, high))
 
         def determineResolution():
             if match.group('fractionalsec') is not None:
-- 
2.43.0


From b7fb68a7164200345561499cd7e4be9149fbf8aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:33:43 +0000
Subject: [PATCH 14/60] fix: apply the sign of a timezone to its minutes

-05:30 was taken as -04:30, and -00:30 as +00:30.
---
 epsilon/extime.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/epsilon/extime.py b/epsilon/extime.py
index 79b4f8b..1ebecb7 100644
--- a/epsilon/extime.py
+++ b/epsilon/extime.py
@@ -414,7 +414,10 @@ class Time(object):
                 tzhour = groups.pop('tzhour')
                 tzmin = groups.pop('tzmin')
                 if tzhour is not None:
-                    return FixedOffset(int(tzhour), int(tzmin or 0))
+                    tzmin = int(tzmin or 0)
+                    if tzhour.startswith('-'):
+                        tzmin = -tzmin
+                    return FixedOffset(int(tzhour), tzmin)
             return tzinfo or FixedOffset(0, 0)
 
         def coerceGroups():
-- 
2.43.0


From 055bfd5e44d56d97a784e16deb4dd2a2befdf671 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:33:43 +0000
Subject: [PATCH 15/60] fix: parse times from 12:00 pm to 12:59 pm

They were rejected as being in hour 24.
---
 epsilon/extime.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/epsilon/extime.py b/epsilon/extime.py
index 1ebecb7..c9851c2 100644
--- a/epsilon/extime.py
+++ b/epsilon/extime.py
@@ -230,7 +230,7 @@ class Time(object):
                 raise ValueError('hour %i is not in 1..12' % (hour,))
             if hour == 12 and ampm == 'am':
                 hour = 0
-            elif ampm == 'pm':
+            elif hour != 12 and ampm == 'pm':
                 hour += 12
         if not 0 <= hour <= 23:
             raise ValueError('hour %i is not in 0..23' % (hour,))
-- 
2.43.0


From 8c63f1e8085fb24aaea8d9af70466d84fa72871d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:33:43 +0000
Subject: [PATCH 16/60] fix: take noon and midnight as the next one

Within the hour after it, the one just past was returned, unlike for
12:00 and 0:00.
---
 epsilon/extime.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/epsilon/extime.py b/epsilon/extime.py
index c9851c2..549912b 100644
--- a/epsilon/extime.py
+++ b/epsilon/extime.py
@@ -252,9 +252,8 @@ class Time(object):
         else:
             assert when == 'midnight'
             hour = 0
-        dtnow = now.asDatetime(tzinfo).replace(
-            minute=0, second=0, microsecond=0)
-        dtthen = dtnow.replace(hour=hour)
+        dtnow = now.asDatetime(tzinfo).replace(second=0, microsecond=0)
+        dtthen = dtnow.replace(hour=hour, minute=0)
         if dtthen < dtnow:
             dtthen += datetime.timedelta(days=1)
 
-- 
2.43.0


From 466460a43566e702050a36a6570acd5709bb4002 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:33:43 +0000
Subject: [PATCH 17/60] fix: order Time instances on Python 3

__cmp__ is not used there, so they could not be sorted and getBounds
raised TypeError.
---
 epsilon/extime.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/epsilon/extime.py b/epsilon/extime.py
index 549912b..4a756ac 100644
--- a/epsilon/extime.py
+++ b/epsilon/extime.py
@@ -945,6 +945,18 @@ class Time(object):
             raise TypeError("Cannot meaningfully compare %r with %r" % (self, other))
         return cmp(self._time, other._time)
 
+    def __lt__(self, other):
+        return self.__cmp__(other) < 0
+
+    def __le__(self, other):
+        return self.__cmp__(other) <= 0
+
+    def __gt__(self, other):
+        return self.__cmp__(other) > 0
+
+    def __ge__(self, other):
+        return self.__cmp__(other) >= 0
+
     def __eq__(self, other):
         if isinstance(other, Time):
             return cmp(self._time, other._time) == 0
-- 
2.43.0


From 087778959c3196d07a54d731a7464268966d6726 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:35:12 +0000
Subject: [PATCH 18/60] fix: log out an avatar obtained after its connection
 was lost

If the connection was lost while the portal was still working on a
login, the avatar was started on the dead connection and its logout
function was never called.
---
 epsilon/ampauth.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/epsilon/ampauth.py b/epsilon/ampauth.py
index ad0a3bb..9163f3d 100644
--- a/epsilon/ampauth.py
+++ b/epsilon/ampauth.py
@@ -175,6 +175,7 @@ class CredReceiver(AMP):
     """
     portal = None
     logout = None
+    _connectionLost = False
 
     @PasswordLogin.responder
     def passwordLogin(self, username):
@@ -193,6 +194,9 @@ class CredReceiver(AMP):
         d = self.portal.login(credentials, None, IBoxReceiver)
         def cbLoggedIn(result):
             interface, avatar, logout = result
+            if self._connectionLost:
+                logout()
+                return {}
             self.logout = logout
             self.boxReceiver = avatar
             self.boxReceiver.startReceivingBoxes(self.boxSender)
@@ -222,6 +226,7 @@ class CredReceiver(AMP):
         """
         If a login has happened, perform a logout.
         """
+        self._connectionLost = True
         AMP.connectionLost(self, reason)
         if self.logout is not None:
             self.logout()
-- 
2.43.0


From f32b834a05453d32323b849b34a77647b14cfa02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:35:12 +0000
Subject: [PATCH 19/60] fix: log out an avatar replaced by a later login

Of two logins in progress at once on a connection, the one which
finished first was never logged out.
---
 epsilon/ampauth.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/epsilon/ampauth.py b/epsilon/ampauth.py
index 9163f3d..1d6a421 100644
--- a/epsilon/ampauth.py
+++ b/epsilon/ampauth.py
@@ -197,6 +197,8 @@ class CredReceiver(AMP):
             if self._connectionLost:
                 logout()
                 return {}
+            if self.logout is not None:
+                self.logout()
             self.logout = logout
             self.boxReceiver = avatar
             self.boxReceiver.startReceivingBoxes(self.boxSender)
-- 
2.43.0


From cd3ba55e0b9e0c8c79d143aa976f977bfa84e4ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:48:05 +0000
Subject: [PATCH 20/60] fix: honour modeAttribute in the initial mode and in
 transitionTo

The current mode was always bound to the attribute 'mode', so that no
modal method of a class with another modeAttribute could be used.
---
 epsilon/modal.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/epsilon/modal.py b/epsilon/modal.py
index bfc4cb2..84b38c5 100644
--- a/epsilon/modal.py
+++ b/epsilon/modal.py
@@ -101,7 +101,7 @@ class ModalType(type):
         # for that mode.
         implementations = {}
 
-        keepAttrs = {'mode': initialMode}
+        keepAttrs = {modeAttribute: initialMode}
         for (k, v) in six.iteritems(attrs):
             if isinstance(v, type) and issubclass(v, mode):
                 for (methName, methDef) in six.iteritems(v.__dict__):
@@ -130,6 +130,6 @@ class Modal(object):
 
     def transitionTo(self, stateName):
         self.__exit__()
-        self.mode = stateName
+        setattr(self, self.modeAttribute, stateName)
         self.__enter__()
 
-- 
2.43.0


From 8478590025b3d7f40ba912cc50766c6134bc6571 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:48:05 +0000
Subject: [PATCH 21/60] fix: remember None

An attribute whose value is None was created again on every access.
---
 epsilon/remember.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/epsilon/remember.py b/epsilon/remember.py
index 148c670..dde2acc 100644
--- a/epsilon/remember.py
+++ b/epsilon/remember.py
@@ -27,9 +27,8 @@ class remembered(record('creationFunction')):
         C{creationFunction} to create it.
         """
         remembername = "_remembered_" + self.creationFunction.__name__
-        rememberedval = oself.__dict__.get(remembername, None)
-        if rememberedval is not None:
-            return rememberedval
+        if remembername in oself.__dict__:
+            return oself.__dict__[remembername]
         rememberme = self.creationFunction(oself)
         oself.__dict__[remembername] = rememberme
         return rememberme
-- 
2.43.0


From 6c7b860b84e2edfd79a182885495179bb995bb6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:43:59 +0000
Subject: [PATCH 22/60] fix: do not stop a reactor which someone else already
 stopped

The reactor begins to shut down at the end of the turn in which it is
stopped.  A main function which finished in between had the reactor
stopped again, which was reported as an unhandled ReactorNotRunning.
---
 epsilon/react.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/epsilon/react.py b/epsilon/react.py
index e6bfed3..aa4a9ee 100644
--- a/epsilon/react.py
+++ b/epsilon/react.py
@@ -5,6 +5,7 @@
 Utilities for running the reactor for a while.
 """
 
+from twisted.internet.error import ReactorNotRunning
 from twisted.python.log import err
 
 
@@ -26,9 +27,16 @@ def react(reactor, main, argv):
     reactor.addSystemEventTrigger('before', 'shutdown', stopping.append, True)
     finished = main(reactor, *argv)
     finished.addErrback(err, "main function encountered error")
+    def stop():
+        try:
+            reactor.stop()
+        except ReactorNotRunning:
+            # Someone else stopped it already, and it did not begin to shut
+            # down yet.
+            pass
     def cbFinish(ignored):
         if not stopping:
-            reactor.callWhenRunning(reactor.stop)
+            reactor.callWhenRunning(stop)
     finished.addCallback(cbFinish)
     reactor.run()
 
-- 
2.43.0


From 02f86ddae56b4c6a78648fd37d7f5c4e1298796c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:01:42 +0000
Subject: [PATCH 23/60] fix: have SchedulingService tell whether it is running

startService and stopService did not call those of Service, so a started
SchedulingService had a false "running" attribute.
---
 epsilon/cooperator.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/epsilon/cooperator.py b/epsilon/cooperator.py
index a6b6113..8b3f2e0 100644
--- a/epsilon/cooperator.py
+++ b/epsilon/cooperator.py
@@ -22,9 +22,11 @@ class SchedulingService(Service):
         return self.coop.coiterate(iterator)
 
     def startService(self):
+        Service.startService(self)
         self.coop.start()
 
     def stopService(self):
+        Service.stopService(self)
         self.coop.stop()
 
 __all__ = [
-- 
2.43.0


From a96cb35b490b5ab528f9862213e20ae3dbd01e3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:05:09 +0000
Subject: [PATCH 24/60] fix: understand the start and stop of timing on Python
 3

The messages were text and compared with integers, so a benchmark could
not say them, and its process was told to quit if it did.
---
 epsilon/scripts/benchmark.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/epsilon/scripts/benchmark.py b/epsilon/scripts/benchmark.py
index 1b28212..c3a15a4 100644
--- a/epsilon/scripts/benchmark.py
+++ b/epsilon/scripts/benchmark.py
@@ -230,8 +230,8 @@ class Change(object):
 
 class BenchmarkProcess(BasicProcess):
 
-    START = '\0'
-    STOP = '\1'
+    START = b'\0'
+    STOP = b'\1'
 
 
     def __init__(self, *a, **kw):
@@ -266,7 +266,7 @@ class BenchmarkProcess(BasicProcess):
     def childDataReceived(self, childFD, data):
         if childFD == self.BACKCHANNEL_OUT:
             self.resetTimeout()
-            for byte in data:
+            for byte in map(six.int2byte, six.iterbytes(data)):
                 if byte == self.START:
                     self.startTiming()
                 elif byte == self.STOP:
-- 
2.43.0


From 9a7a80cb9ab9ab8830f8d0ae416cc47b92c5e8c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:07:25 +0000
Subject: [PATCH 25/60] fix: report results for a device which appeared while
 benchmarking

Statistics missing before but not after raised AttributeError, and
nothing was reported.
---
 epsilon/scripts/benchmark.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/epsilon/scripts/benchmark.py b/epsilon/scripts/benchmark.py
index c3a15a4..2e90933 100644
--- a/epsilon/scripts/benchmark.py
+++ b/epsilon/scripts/benchmark.py
@@ -362,7 +362,7 @@ def formatResults(name, sectorSize, before, after, error, timeout):
         tt = utils.FileWrapper(output)
         jj.makeConnection(tt)
 
-        if after.partition is not None:
+        if before.partition is not None and after.partition is not None:
             read_count = after.partition.readCount - before.partition.readCount
             read_sectors = after.partition.readSectorCount - before.partition.readSectorCount
             write_count = after.partition.writeCount - before.partition.writeCount
@@ -373,7 +373,7 @@ def formatResults(name, sectorSize, before, after, error, timeout):
             write_count = None
             write_sectors = None
 
-        if after.disk is not None:
+        if before.disk is not None and after.disk is not None:
             read_ms = after.disk.readMilliseconds - before.disk.readMilliseconds
             write_ms = after.disk.writeMilliseconds - before.disk.writeMilliseconds
         else:
-- 
2.43.0


From 23fea9676a89cf8520403aabec30135fa5b334f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:07:25 +0000
Subject: [PATCH 26/60] fix: find the device of the working directory among
 similar mounts

A device mounted at /home was taken for that of /home2, of two devices
mounted in one place the first could be taken, and mount points with
spaces were not recognized.
---
 epsilon/scripts/benchmark.py | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/epsilon/scripts/benchmark.py b/epsilon/scripts/benchmark.py
index 2e90933..96168aa 100644
--- a/epsilon/scripts/benchmark.py
+++ b/epsilon/scripts/benchmark.py
@@ -6,7 +6,7 @@ usage information and other statistics about it.
 """
 from __future__ import print_function
 
-import os, time, sys, socket, io, pprint, errno
+import os, time, sys, socket, io, pprint, errno, re
 
 import six
 import twisted
@@ -414,6 +414,15 @@ def reportResults(results):
 
 
 
+def _unescapeMount(path):
+    """
+    Undo the escaping of spaces and the like in a path from a table of mounts.
+    """
+    return re.sub(
+        r'\\([0-7]{3})', lambda match: chr(int(match.group(1), 8)), path)
+
+
+
 def discoverCurrentWorkingDevice(procMounts='/proc/self/mounts'):
     """
     Return a short string naming the device which backs the current working
@@ -424,9 +433,11 @@ def discoverCurrentWorkingDevice(procMounts='/proc/self/mounts'):
     with io.open(procMounts, 'r') as f:
         for L in f:
             parts = L.split()
-            if cwd.startswith(parts[1]):
-                possibilities.append((len(parts[1]), parts[0]))
-    possibilities.sort()
+            mountPoint = _unescapeMount(parts[1])
+            if (cwd + '/').startswith(mountPoint.rstrip('/') + '/'):
+                possibilities.append((len(mountPoint), parts[0]))
+    # Of several devices mounted in the same place, the last one is in use.
+    possibilities.sort(key=lambda possibility: possibility[0])
     try:
         return possibilities[-1][-1]
     except IndexError:
-- 
2.43.0


From d300c22b095c6330bed51272c4ac47d4326435da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:12:08 +0000
Subject: [PATCH 27/60] fix: uninstall a tracer from new threads

A misspelt name made Tracer.uninstall raise AttributeError, and threads
started later were still traced.
---
 epsilon/spewer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/epsilon/spewer.py b/epsilon/spewer.py
index f11d032..9979848 100644
--- a/epsilon/spewer.py
+++ b/epsilon/spewer.py
@@ -22,7 +22,7 @@ class Tracer(object):
     def uninstall(self):
         self.installed = False
         sys.settrace(None)
-        threading.setttrace(None)
+        threading.settrace(None)
 
     def toggle(self):
         if self.installed:
-- 
2.43.0


From 732b48ec61b11c6de28f3d1913d948cc285f3431 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:12:08 +0000
Subject: [PATCH 28/60] fix: format the arguments of a traced call on Python 3

---
 epsilon/spewer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/epsilon/spewer.py b/epsilon/spewer.py
index 9979848..f569c77 100644
--- a/epsilon/spewer.py
+++ b/epsilon/spewer.py
@@ -66,7 +66,7 @@ def extractArgs(frame):
 
 
 def formatArgs(args):
-    return ', '.join(['='.join((k, reflect.safe_repr(v))) for (k, v) in args.iteritems()])
+    return ', '.join(['='.join((k, reflect.safe_repr(v))) for (k, v) in args.items()])
 
 
 class Spewer(Tracer):
-- 
2.43.0


From b5ac5e74d7e375e9e94cebbbf10ab4f83e3b4e89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:12:08 +0000
Subject: [PATCH 29/60] fix: show all arguments of functions with keyword-only
 ones

The names of keyword-only arguments come before those of * and **, so
the latter were left out.
---
 epsilon/spewer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/epsilon/spewer.py b/epsilon/spewer.py
index f569c77..829a799 100644
--- a/epsilon/spewer.py
+++ b/epsilon/spewer.py
@@ -55,7 +55,7 @@ class Tracer(object):
 def extractArgs(frame):
     co = frame.f_code
     dict = frame.f_locals
-    n = co.co_argcount
+    n = co.co_argcount + getattr(co, 'co_kwonlyargcount', 0)
     if co.co_flags & 4: n = n+1
     if co.co_flags & 8: n = n+1
     result = {}
-- 
2.43.0


From ec0176a1e05f80a0621dbd966954fec31e2ca94a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:12:08 +0000
Subject: [PATCH 30/60] fix: keep the depth of traced calls through exceptions

An exception does not end a call: either it is handled and the call goes
on, or the call ends, and that is reported as its return.
---
 epsilon/spewer.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/epsilon/spewer.py b/epsilon/spewer.py
index 829a799..41caffa 100644
--- a/epsilon/spewer.py
+++ b/epsilon/spewer.py
@@ -105,7 +105,6 @@ class Spewer(Tracer):
             id(threading.currentThread()),
             self.callDepth * ' ',
             reflect.safe_repr(arg),))
-        self.callDepth = max(0, self.callDepth - 1)
 
 
 class SignalService(service.Service):
-- 
2.43.0


From 32c51ceda67879626b6ed3ce25aa28e5a2f593a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:15:08 +0000
Subject: [PATCH 31/60] fix: do not distribute caches of compiled modules as
 data files

Python 3 keeps them in directories named __pycache__, whose files were
all taken for data of the package.
---
 epsilon/setuphelper.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/epsilon/setuphelper.py b/epsilon/setuphelper.py
index 479e503..90f9b78 100644
--- a/epsilon/setuphelper.py
+++ b/epsilon/setuphelper.py
@@ -33,13 +33,16 @@ def regeneratePluginCache(dist, pluginPackages):
         sys.path.insert(0, os.path.abspath(dist.command_obj['install'].install_lib))
         _regeneratePluginCache(pluginPackages)
 
+def _ignoredDirectory(name):
+    return name.startswith('.') or name == '__pycache__'
+
 def autosetup(**kw):
     packages = []
     datafiles = {}
     pluginPackages = []
 
     for (dirpath, dirnames, filenames) in os.walk(os.curdir):
-        dirnames[:] = [p for p in dirnames if not p.startswith('.')]
+        dirnames[:] = [p for p in dirnames if not _ignoredDirectory(p)]
         pkgName = dirpath[2:].replace('/', '.')
         if '__init__.py' in filenames:
             # The current directory is a Python package
@@ -56,7 +59,7 @@ def autosetup(**kw):
         print('Files in package %r:' % (package,))
         pprint.pprint(os.listdir(package))
         for (dirpath, dirnames, filenames) in os.walk(package):
-            dirnames[:] = [p for p in dirnames if not p.startswith('.')]
+            dirnames[:] = [p for p in dirnames if not _ignoredDirectory(p)]
             for filename in filenames:
                 if filename == 'dropin.cache':
                     continue
-- 
2.43.0


From dda977fb3d583c2e909df57565cfe8a277081c7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:18:36 +0000
Subject: [PATCH 32/60] fix: create the files of a project on Python 3

The file builtin is gone, and lines of the template are text.
---
 epsilon/asplode.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/epsilon/asplode.py b/epsilon/asplode.py
index f04e56a..4a27211 100644
--- a/epsilon/asplode.py
+++ b/epsilon/asplode.py
@@ -21,7 +21,7 @@ def splode(linerator, proj, capproj):
                 os.makedirs(os.path.dirname(fname))
             except:
                 pass
-            current = file(fname, 'wb')
+            current = open(fname, 'w')
             status('Created: ' + fname)
         else:
             current.write(line)
-- 
2.43.0


From f148f50a99863f0767de83dc18182abd7d64f2a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:46:35 +0000
Subject: [PATCH 33/60] fix: deliver no line which arrives after the connection
 was closed

A line was delivered before it was noticed that the connection had been
closed, by the protocol itself in raw data or in an earlier chunk (with TLS
data may still arrive then).
---
 epsilon/liner.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/epsilon/liner.py b/epsilon/liner.py
index c12df85..78eaeb2 100644
--- a/epsilon/liner.py
+++ b/epsilon/liner.py
@@ -55,14 +55,14 @@ class LineReceiver(Protocol):
         begin = 0
         raw = False
         while self.lineMode:
+            if self.isDisconnecting():
+                self.buffer = b''
+                return
             end = buffer.find(delimiter, begin)
             if end == -1:
                 break
             line = buffer[begin:end]
             self.lineReceived(line)
-            if self.isDisconnecting():
-                self.buffer = b''
-                return
             begin = end + len(delimiter)
         else:
             raw = True
-- 
2.43.0


From 666f9f01b978f3ee62232e0387f747ecb9f437f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:58:42 +0000
Subject: [PATCH 34/60] fix: refuse a box with a negative length

It was taken for a box with an empty body, delivered with the next data.
---
 epsilon/juice.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/epsilon/juice.py b/epsilon/juice.py
index 60d709a..dc7c68e 100644
--- a/epsilon/juice.py
+++ b/epsilon/juice.py
@@ -302,6 +302,8 @@ def parseJuiceHeaders(lines):
     if length is None:
         return 0, b
     length = int(length)
+    if length < 0:
+        raise MalformedJuiceBox("Negative length: %r" % (length,))
     if not length:
         b[BODY] = ''
     return length, b
-- 
2.43.0


From c62385be747bcf91d9290b06faf1f47a1211c72d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:03:38 +0000
Subject: [PATCH 35/60] fix: allow requiring deferredgenerator_tfailure of a
 Twisted without it

Twisted has long had no deferredGenerator, hence none to repair; requiring
the hotfix raised AttributeError.
---
 epsilon/hotfix.py | 23 ++++++++++++-----------
 1 file changed, 12 insertions(+), 11 deletions(-)

diff --git a/epsilon/hotfix.py b/epsilon/hotfix.py
index d8ad39d..ba6f272 100644
--- a/epsilon/hotfix.py
+++ b/epsilon/hotfix.py
@@ -30,17 +30,18 @@ def require(packageName, fixName):
             delayedcall_seconds.install()
     elif (packageName, fixName) == ('twisted', 'deferredgenerator_tfailure'):
         from twisted.internet import defer
-        result = []
-        def test():
-            d = defer.waitForDeferred(defer.succeed(1))
-            yield d
-            result.append(d.getResult())
-        defer.deferredGenerator(test)()
-        if result == [1]:
-            from epsilon.hotfixes import deferredgenerator_tfailure
-            deferredgenerator_tfailure.install()
-        else:
-            assert result == [None]
+        if hasattr(defer, 'deferredGenerator'):
+            result = []
+            def test():
+                d = defer.waitForDeferred(defer.succeed(1))
+                yield d
+                result.append(d.getResult())
+            defer.deferredGenerator(test)()
+            if result == [1]:
+                from epsilon.hotfixes import deferredgenerator_tfailure
+                deferredgenerator_tfailure.install()
+            else:
+                assert result == [None]
     elif (packageName, fixName) == ("twisted", "proto_helpers_stringtransport"):
         from twisted.test.proto_helpers import StringTransport
         st = StringTransport()
-- 
2.43.0


From 1051c3934f2ddb8dd8a260567f3cbb7f64400a33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:25:50 +0000
Subject: [PATCH 36/60] fix: ask for a protocol switch in the namespace given

ProtocolSwitchCommand.do dropped its namespace argument, so the peer was
asked to switch by the command of that name in no namespace.
---
 epsilon/juice.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/epsilon/juice.py b/epsilon/juice.py
index dc7c68e..6c0c1c5 100644
--- a/epsilon/juice.py
+++ b/epsilon/juice.py
@@ -708,7 +708,7 @@ class ProtocolSwitchCommand(Command):
     makeResponse = classmethod(makeResponse)
 
     def do(self, proto, namespace=None):
-        d = super(ProtocolSwitchCommand, self).do(proto)
+        d = super(ProtocolSwitchCommand, self).do(proto, namespace)
         proto._lock()
         def switchNow(ign):
             innerProto = self.protoToSwitchToFactory.buildProtocol(proto.transport.getPeer())
-- 
2.43.0


From f553c9a0a7ef01189483d70c05fd05d8c1914722 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:25:50 +0000
Subject: [PATCH 37/60] fix: let a command inherit the errors its base class
 declares

A subclass of a Command has its errors and fatalErrors, but these were
left out of what is translated to and from the wire, so they arrived as
an UnhandledRemoteJuiceError and the connection was closed.
---
 epsilon/juice.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/epsilon/juice.py b/epsilon/juice.py
index 6c0c1c5..1edac7a 100644
--- a/epsilon/juice.py
+++ b/epsilon/juice.py
@@ -602,13 +602,14 @@ class _CommandMeta(type):
         def __new__(cls, name, bases, attrs):
             re = attrs['reverseErrors'] = {}
             er = attrs['allErrors'] = {}
-            for v, k in six.viewitems(attrs.get('errors',{})):
+            newtype = type.__new__(cls, name, bases, attrs)
+            for v, k in six.viewitems(getattr(newtype, 'errors', {})):
                 re[k] = v
                 er[v] = k
-            for v, k in six.viewitems(attrs.get('fatalErrors',{})):
+            for v, k in six.viewitems(getattr(newtype, 'fatalErrors', {})):
                 re[k] = v
                 er[v] = k
-            return type.__new__(cls, name, bases, attrs)
+            return newtype
 
 
 @six.add_metaclass(_CommandMeta)
-- 
2.43.0


From b104793abccfff6ddf9ac8e3afa211495c86549a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:44:56 +0000
Subject: [PATCH 38/60] fix: let unbinding a replaced route leave the later
 route of its name alone

---
 epsilon/amprouter.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/epsilon/amprouter.py b/epsilon/amprouter.py
index 6664815..b2ca81b 100644
--- a/epsilon/amprouter.py
+++ b/epsilon/amprouter.py
@@ -69,7 +69,9 @@ class Route(record('router receiver localRouteName remoteRouteName',
         if mapping is None:
             # The router has not been started yet.
             mapping = self.router._unstarted
-        del mapping[self.localRouteName]
+        if mapping[self.localRouteName] is self:
+            # Otherwise the name belongs to a route bound later.
+            del mapping[self.localRouteName]
 
 
     def start(self):
-- 
2.43.0


From c217aadbd0f9af8900d84616ea5bb7d9071f180f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:44:56 +0000
Subject: [PATCH 39/60] fix: log out an avatar though stopping it or an earlier
 logout fails

---
 epsilon/ampauth.py | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/epsilon/ampauth.py b/epsilon/ampauth.py
index 1d6a421..5f9deed 100644
--- a/epsilon/ampauth.py
+++ b/epsilon/ampauth.py
@@ -197,10 +197,10 @@ class CredReceiver(AMP):
             if self._connectionLost:
                 logout()
                 return {}
-            if self.logout is not None:
-                self.logout()
-            self.logout = logout
+            replacedLogout, self.logout = self.logout, logout
             self.boxReceiver = avatar
+            if replacedLogout is not None:
+                replacedLogout()
             self.boxReceiver.startReceivingBoxes(self.boxSender)
             return {}
         d.addCallback(cbLoggedIn)
@@ -229,10 +229,12 @@ class CredReceiver(AMP):
         If a login has happened, perform a logout.
         """
         self._connectionLost = True
-        AMP.connectionLost(self, reason)
-        if self.logout is not None:
-            self.logout()
-            self.boxReceiver = self.logout = None
+        try:
+            AMP.connectionLost(self, reason)
+        finally:
+            if self.logout is not None:
+                self.logout()
+                self.boxReceiver = self.logout = None
 
 
 
-- 
2.43.0


From 7fbf54139750ebe02edbd41306d8bb51a72dd379 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:44:56 +0000
Subject: [PATCH 40/60] fix: keep the boxes held for TLS when it is prepared
 again

---
 epsilon/juice.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/epsilon/juice.py b/epsilon/juice.py
index 1edac7a..ac6fb1f 100644
--- a/epsilon/juice.py
+++ b/epsilon/juice.py
@@ -848,7 +848,8 @@ class Juice(LineReceiver, JuiceParserBase, object):
     _startingTLSBuffer = None
 
     def prepareTLS(self):
-        self._startingTLSBuffer = []
+        if self._startingTLSBuffer is None:
+            self._startingTLSBuffer = []
 
     def startTLS(self, certificate, *verifyAuthorities):
         if self.hostCertificate is None:
-- 
2.43.0


From ee50c7ef2a960cdb8e82ad9d7a2e13bf62703d2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:44:56 +0000
Subject: [PATCH 41/60] fix: report the most specific of the errors a command
 declares

---
 epsilon/juice.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/epsilon/juice.py b/epsilon/juice.py
index ac6fb1f..80adae8 100644
--- a/epsilon/juice.py
+++ b/epsilon/juice.py
@@ -2,6 +2,7 @@
 # Copyright 2005 Divmod, Inc.  See LICENSE file for details
 
 import base64
+import inspect
 import warnings, pprint
 import keyword
 import io
@@ -223,6 +224,11 @@ class DispatchMixin:
 #                 return result
             def checkKnownErrors(error):
                 key = error.trap(*command.allErrors)
+                # of several declared errors, the one closest to what was raised
+                for cls in inspect.getmro(error.type):
+                    if cls in command.allErrors:
+                        key = cls
+                        break
                 code = command.allErrors[key]
                 desc = str(error.value)
                 return Failure(RemoteJuiceError(
-- 
2.43.0


From 9f0505f3c66d5faa0f77188e0aa585ac72bc6678 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:47:36 +0000
Subject: [PATCH 42/60] fix: deliver nothing after a body to a protocol which
 closed the connection

---
 epsilon/juice.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/epsilon/juice.py b/epsilon/juice.py
index 80adae8..42cbafe 100644
--- a/epsilon/juice.py
+++ b/epsilon/juice.py
@@ -926,7 +926,7 @@ class Juice(LineReceiver, JuiceParserBase, object):
             b, self._pendingBox = self._pendingBox, None
             self.juiceBoxReceived(b)
             if self.innerProtocol is not None:
-                if extraData:
+                if extraData and not self.isDisconnecting():
                     self.innerProtocol.dataReceived(extraData)
             else:
                 self.setLineMode(extraData)
-- 
2.43.0


From ce83206a2c965c85bd846b510821ddcb19aad257 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:03:37 +0000
Subject: [PATCH 43/60] fix: make epsilon.process importable again

It needed the imp module and zope.interface.implements (which it did not
use), neither of which exists any more.
---
 epsilon/process.py | 24 +++++++++++++++++++-----
 1 file changed, 19 insertions(+), 5 deletions(-)

diff --git a/epsilon/process.py b/epsilon/process.py
index 3a4c2c7..63d0df2 100644
--- a/epsilon/process.py
+++ b/epsilon/process.py
@@ -5,17 +5,31 @@
 Process and stdio related functionality.
 """
 
-import os, sys, imp
-
-from zope.interface import implements
+import os, sys
+from importlib.machinery import PathFinder
 
 from twisted.internet import reactor
-from twisted.application.service import IService, Service
+from twisted.application.service import Service
 from twisted.internet.stdio import StandardIO
 
 from epsilon.structlike import record
 
 
+def _findPackage(name):
+    """
+    Return the directory which has to be searched for the top-level package or
+    module with the given name to be found, as it is found by this process.
+    """
+    spec = PathFinder.find_spec(name)
+    if '.' in name or spec is None or not spec.has_location:
+        raise ImportError("No module named %s" % (name,))
+    location = spec.origin
+    if spec.submodule_search_locations is not None:
+        location = os.path.dirname(location)
+    return os.path.dirname(location)
+
+
+
 def spawnProcess(processProtocol, executable, args=(), env={},
                  path=None, uid=None, gid=None, usePTY=0,
                  packages=()):
@@ -31,7 +45,7 @@ def spawnProcess(processProtocol, executable, args=(), env={},
 
     pythonpath = []
     for pkg in packages:
-        p = os.path.split(imp.find_module(pkg)[1])[0]
+        p = _findPackage(pkg)
         if p.startswith(os.path.join(sys.prefix, 'lib')):
             continue
         pythonpath.append(p)
-- 
2.43.0


From 01dc1c0f5a72332e0c51ce391f29c7f96f37d756 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:03:37 +0000
Subject: [PATCH 44/60] fix: do not add the working directory to a subprocess'
 PYTHONPATH

Where the environment given had no PYTHONPATH, an empty entry was added after
the directories of the packages, which stands for the working directory: it
was then searched before the standard library.
---
 epsilon/process.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/epsilon/process.py b/epsilon/process.py
index 63d0df2..5e9cad1 100644
--- a/epsilon/process.py
+++ b/epsilon/process.py
@@ -50,7 +50,8 @@ def spawnProcess(processProtocol, executable, args=(), env={},
             continue
         pythonpath.append(p)
     pythonpath = list(set(pythonpath))
-    pythonpath.extend(env.get('PYTHONPATH', '').split(os.pathsep))
+    if env.get('PYTHONPATH'):
+        pythonpath.extend(env['PYTHONPATH'].split(os.pathsep))
     env['PYTHONPATH'] = os.pathsep.join(pythonpath)
 
     return reactor.spawnProcess(processProtocol, executable, args,
-- 
2.43.0


From f781a47cc1d9a01f8191a8591f41e7075495ea32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:03:37 +0000
Subject: [PATCH 45/60] fix: let a subprocess import packages beside the
 library directory

A package in a directory whose name merely starts as that of the library
directory does, such as libexec, was taken for one in the library.
---
 epsilon/process.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/epsilon/process.py b/epsilon/process.py
index 5e9cad1..4777024 100644
--- a/epsilon/process.py
+++ b/epsilon/process.py
@@ -46,7 +46,7 @@ def spawnProcess(processProtocol, executable, args=(), env={},
     pythonpath = []
     for pkg in packages:
         p = _findPackage(pkg)
-        if p.startswith(os.path.join(sys.prefix, 'lib')):
+        if p.startswith(os.path.join(sys.prefix, 'lib', '')):
             continue
         pythonpath.append(p)
     pythonpath = list(set(pythonpath))
-- 
2.43.0


From 3074908d46b6b4894e2d3f3bbc42f9275513dced Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:03:37 +0000
Subject: [PATCH 46/60] fix: let spawnProcess pass on the environment of this
 process

All arguments are to be as those of reactor.spawnProcess, for which an
environment of None stands for that of the calling process.
---
 epsilon/process.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/epsilon/process.py b/epsilon/process.py
index 4777024..b0b010c 100644
--- a/epsilon/process.py
+++ b/epsilon/process.py
@@ -41,6 +41,8 @@ def spawnProcess(processProtocol, executable, args=(), env={},
     import.
     """
 
+    if env is None:
+        env = os.environ
     env = env.copy()
 
     pythonpath = []
-- 
2.43.0


From 321a2229023c722d117067a37b99935ad827c11c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:03:37 +0000
Subject: [PATCH 47/60] fix: let a StandardIOService which was started be
 running

The running attribute of IService was never set.
---
 epsilon/process.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/epsilon/process.py b/epsilon/process.py
index b0b010c..59b7e6a 100644
--- a/epsilon/process.py
+++ b/epsilon/process.py
@@ -81,4 +81,5 @@ class StandardIOService(record('protocol'), Service):
         """
         Connect C{self.protocol} to standard io.
         """
+        Service.startService(self)
         StandardIO(self.protocol)
-- 
2.43.0


From 6720569f3dee626efc82be23337892b4b6762b65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:05:49 +0000
Subject: [PATCH 48/60] fix: tell a benchmark process to quit when it breaks
 the protocol

Twisted knows no signal by the name of QUIT: instead of being told to
quit, the process was left alone and an error was logged.
---
 epsilon/scripts/benchmark.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/epsilon/scripts/benchmark.py b/epsilon/scripts/benchmark.py
index 96168aa..f903b63 100644
--- a/epsilon/scripts/benchmark.py
+++ b/epsilon/scripts/benchmark.py
@@ -6,7 +6,7 @@ usage information and other statistics about it.
 """
 from __future__ import print_function
 
-import os, time, sys, socket, io, pprint, errno, re
+import os, time, sys, socket, io, pprint, errno, re, signal
 
 import six
 import twisted
@@ -272,7 +272,7 @@ class BenchmarkProcess(BasicProcess):
                 elif byte == self.STOP:
                     self.stopTiming()
                 else:
-                    self.transport.signalProcess('QUIT')
+                    self.transport.signalProcess(signal.SIGQUIT)
         else:
             return BasicProcess.childDataReceived(self, childFD, data)
 
-- 
2.43.0


From ff86a728f0df94030bd80b7a4be8426ab8f7c5a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:05:49 +0000
Subject: [PATCH 49/60] fix: find a benchmark script given by a relative
 filename

The script runs in a directory of its own, in which a filename relative
to the working directory of the command meant nothing.
---
 epsilon/scripts/benchmark.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/epsilon/scripts/benchmark.py b/epsilon/scripts/benchmark.py
index f903b63..257ecf9 100644
--- a/epsilon/scripts/benchmark.py
+++ b/epsilon/scripts/benchmark.py
@@ -582,7 +582,8 @@ def main():
     name = sys.argv[1]
     path = filepath.FilePath('.stat').temporarySibling()
     path.makedirs()
-    func = makeBenchmarkRunner(path, sys.argv[1:])
+    # The script is run in another directory than this one.
+    func = makeBenchmarkRunner(path, [os.path.abspath(name)] + sys.argv[2:])
     try:
         bench(name, path, func)
     finally:
-- 
2.43.0


From bf42544fe5e2ca0ed9419310dfbac0894a03f4c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:23:19 +0000
Subject: [PATCH 50/60] fix: use a changed delimiter from the next line on

The delimiter was looked up once for each chunk of data, so that when
a protocol changed it, where its lines ended depended on how the bytes
were cut into chunks.
---
 epsilon/liner.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/epsilon/liner.py b/epsilon/liner.py
index 78eaeb2..07f0529 100644
--- a/epsilon/liner.py
+++ b/epsilon/liner.py
@@ -51,13 +51,13 @@ class LineReceiver(Protocol):
     def _processData(self, data):
         buffer = self.buffer
         buffer += data
-        delimiter = self.delimiter
         begin = 0
         raw = False
         while self.lineMode:
             if self.isDisconnecting():
                 self.buffer = b''
                 return
+            delimiter = self.delimiter
             end = buffer.find(delimiter, begin)
             if end == -1:
                 break
-- 
2.43.0


From af48e28cc0a581d2350869324c348a2a667cafba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:34:12 +0000
Subject: [PATCH 51/60] fix: report the end of a benchmark which cannot be
 measured any more

When the final statistics could not be gathered, for example because
the benchmark had removed its working directory, whoever spawned the
process never heard of its end and the benchmark command hung.
---
 epsilon/scripts/benchmark.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/epsilon/scripts/benchmark.py b/epsilon/scripts/benchmark.py
index 257ecf9..0a0aad6 100644
--- a/epsilon/scripts/benchmark.py
+++ b/epsilon/scripts/benchmark.py
@@ -278,7 +278,12 @@ class BenchmarkProcess(BasicProcess):
 
 
     def processEnded(self, reason):
-        self.overallChange.stop(self.path, self.disk, self.partition)
+        try:
+            self.overallChange.stop(self.path, self.disk, self.partition)
+        except Exception:
+            if reason.check(error.ProcessDone):
+                # It ended well, but there is nothing to report of it.
+                reason = failure.Failure()
         return BasicProcess.processEnded(self, reason)
 
 
-- 
2.43.0


From 5c010349415c09ba08612b4ad3ff287e667c4ac7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:35:29 +0000
Subject: [PATCH 52/60] fix: keep remembered attributes with functions of the
 same name apart

The value was remembered under the name of the creation function, so
that two attributes created by lambdas, or one which overrides that of
a base class and uses it, were taken for one another.
---
 epsilon/remember.py | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/epsilon/remember.py b/epsilon/remember.py
index dde2acc..cf5197f 100644
--- a/epsilon/remember.py
+++ b/epsilon/remember.py
@@ -21,12 +21,23 @@ class remembered(record('creationFunction')):
 
     value = None
 
+    # Which of the attributes of an instance this is, once that is known.
+    _key = None
+
+    def __set_name__(self, owner, name):
+        """
+        Note the class and name this attribute is defined with.
+        """
+        self._key = '%s.%s.%s' % (owner.__module__, owner.__name__, name)
+
+
     def __get__(self, oself, type):
         """
         Retrieve the value if already cached, otherwise, call the
         C{creationFunction} to create it.
         """
-        remembername = "_remembered_" + self.creationFunction.__name__
+        remembername = "_remembered_" + (
+            self._key or self.creationFunction.__name__)
         if remembername in oself.__dict__:
             return oself.__dict__[remembername]
         rememberme = self.creationFunction(oself)
-- 
2.43.0


From 0dc54ed367ea18062176c88aefd9ebe8807f28b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:49:05 +0000
Subject: [PATCH 53/60] fix: find methods by the mode attribute of the object's
 own class

Methods inherited by a class with a modeAttribute of its own followed
the base's attribute, which no transition changed any more; so did the
methods of a class whose bases disagree about the attribute.
---
 epsilon/modal.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/epsilon/modal.py b/epsilon/modal.py
index 84b38c5..0215a6f 100644
--- a/epsilon/modal.py
+++ b/epsilon/modal.py
@@ -26,12 +26,14 @@ class ModalMethod(object):
     def __get__(self, instance, owner):
         if instance is None:
             raise AttributeError(self.name)
+        # A subclass may keep its mode elsewhere.
+        modeAttribute = getattr(owner, 'modeAttribute', self.modeAttribute)
         try:
-            mode = getattr(instance, self.modeAttribute)
+            mode = getattr(instance, modeAttribute)
         except AttributeError:
             raise AttributeError(
                 "Mode attribute %r missing from %r, "
-                "cannot get %r" % (self.modeAttribute, instance, self.name))
+                "cannot get %r" % (modeAttribute, instance, self.name))
 
         try:
             func = self.methods[mode]
@@ -93,7 +95,7 @@ class ModalType(type):
     @ivar initialMode: The mode in which instances will start.
     """
     def __new__(cls, name, bases, attrs):
-        modeAttribute = _getInheritedAttribute(name, 'modeAttribute', bases, attrs)
+        modeAttribute = attrs['modeAttribute'] = _getInheritedAttribute(name, 'modeAttribute', bases, attrs)
         initialMode = attrs['initialMode'] = _getInheritedAttribute(name, 'initialMode', bases, attrs)
 
         # Dict mapping names of methods to another dict.  The inner
-- 
2.43.0


From 4386d611a0949f6f5fd3c673c41b39b38b361267 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:49:05 +0000
Subject: [PATCH 54/60] fix: keep a method of the modes a base defines when a
 subclass adds a mode

Once a subclass defined a method in a mode of its own, the method was
missing from all the modes of its bases.
---
 epsilon/modal.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/epsilon/modal.py b/epsilon/modal.py
index 0215a6f..b2d9aa0 100644
--- a/epsilon/modal.py
+++ b/epsilon/modal.py
@@ -114,7 +114,15 @@ class ModalType(type):
         for (methName, methDefs) in six.viewitems(implementations):
             keepAttrs[methName] = ModalMethod(methName, methDefs, modeAttribute)
 
-        return super(ModalType, cls).__new__(cls, name, bases, keepAttrs)
+        self = super(ModalType, cls).__new__(cls, name, bases, keepAttrs)
+        # Modes which only a base defines keep their implementations.
+        for (methName, methDefs) in six.iteritems(implementations):
+            for base in self.__mro__[1:]:
+                inherited = base.__dict__.get(methName)
+                if isinstance(inherited, ModalMethod):
+                    for (modeName, methDef) in six.iteritems(inherited.methods):
+                        methDefs.setdefault(modeName, methDef)
+        return self
 
 
 @six.add_metaclass(ModalType)
-- 
2.43.0


From d3341ff178a5e2389190207f980f155068c1a11e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:10:40 +0000
Subject: [PATCH 55/60] fix: let a record have an attribute called self

Its value could not be given by keyword.
---
 epsilon/structlike.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/epsilon/structlike.py b/epsilon/structlike.py
index a9cbbf8..9729bff 100644
--- a/epsilon/structlike.py
+++ b/epsilon/structlike.py
@@ -67,7 +67,9 @@ class StructBehavior(object):
     __names__ = []
     __defaults__ = []
 
-    def __init__(self, *args, **kw):
+    def __init__(*args, **kw):
+        # Not an argument with a name, which an attribute may have as well.
+        self, args = args[0], args[1:]
         super(StructBehavior, self).__init__()
 
         # Turn all the args into kwargs
-- 
2.43.0


From 2203928ac1a4f1e87175903bb9030ee683591c17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:10:40 +0000
Subject: [PATCH 56/60] fix: hold boxes sent while TLS is prepared as they were
 sent

A box changed or sent again before TLS was started, such as one used for
several requests, went out as it was then: some requests or answers
twice and others never.
---
 epsilon/juice.py | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/epsilon/juice.py b/epsilon/juice.py
index 42cbafe..1ba655d 100644
--- a/epsilon/juice.py
+++ b/epsilon/juice.py
@@ -822,15 +822,16 @@ class Juice(LineReceiver, JuiceParserBase, object):
         """
         Send a juice.Box to my peer.
 
-        Note: transport.write is never called outside of this method.
+        Note: transport.write is never called outside of this method and
+        L{startTLS}, which writes what this method held back.
         """
         assert not self.__locked, "You cannot send juice packets when a connection is locked"
+        if debug:
+            log.msg("Juice send: %s" % pprint.pformat(dict(six.viewitems(completeBox))))
+        result = completeBox.serialize()
         if self._startingTLSBuffer is not None:
-            self._startingTLSBuffer.append(completeBox)
+            self._startingTLSBuffer.append(result)
         else:
-            if debug:
-                log.msg("Juice send: %s" % pprint.pformat(dict(six.viewitems(completeBox))))
-            result = completeBox.serialize()
             self.transport.write(result)
 
     def sendCommand(self, command, __content='', __answer=True, **kw):
@@ -865,8 +866,8 @@ class Juice(LineReceiver, JuiceParserBase, object):
             stlsb = self._startingTLSBuffer
             if stlsb is not None:
                 self._startingTLSBuffer = None
-                for box in stlsb:
-                    self.sendPacket(box)
+                for result in stlsb:
+                    self.transport.write(result)
         else:
             raise RuntimeError(
                 "Previously authenticated connection between %s and %s "
-- 
2.43.0


From b5df79b74d0fc496c32bd4ab2111c373d6612df7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:45 +0000
Subject: [PATCH 57/60] fix: remembered attributes added to a class after it
 was created are kept apart

---
 epsilon/remember.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/epsilon/remember.py b/epsilon/remember.py
index cf5197f..3b8c8e0 100644
--- a/epsilon/remember.py
+++ b/epsilon/remember.py
@@ -5,6 +5,8 @@ This module implements a utility for managing the lifecycle of attributes
 related to a particular object.
 """
 
+import inspect
+
 from epsilon.structlike import record
 
 class remembered(record('creationFunction')):
@@ -36,6 +38,12 @@ class remembered(record('creationFunction')):
         Retrieve the value if already cached, otherwise, call the
         C{creationFunction} to create it.
         """
+        if self._key is None:
+            # It was added to its class after that was created.
+            for cls in inspect.getmro(oself.__class__):
+                for name, value in vars(cls).items():
+                    if value is self:
+                        self.__set_name__(cls, name)
         remembername = "_remembered_" + (
             self._key or self.creationFunction.__name__)
         if remembername in oself.__dict__:
-- 
2.43.0


From 6d24f9d6fcc375a3fe9a4bc8dd41a3641b94a205 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:03:17 +0000
Subject: [PATCH 58/60] fix: do not answer requests on a connection which was
 switched to another protocol

---
 epsilon/juice.py | 25 ++++++++++++++++++++++---
 1 file changed, 22 insertions(+), 3 deletions(-)

diff --git a/epsilon/juice.py b/epsilon/juice.py
index 1ba655d..00d3825 100644
--- a/epsilon/juice.py
+++ b/epsilon/juice.py
@@ -341,6 +341,14 @@ class JuiceParserBase(DispatchMixin):
         for key, value in OR:
             value.errback(reason)
 
+    def _canAnswer(self):
+        """
+        Return whether there still is a connection on which requests can be
+        answered.
+        """
+        return self.transport is not None and self._outstandingRequests is not None
+
+
     def juiceBoxReceived(self, box):
         if debug:
             log.msg("Juice receive: %s" % pprint.pformat(dict(six.viewitems(box))))
@@ -360,8 +368,8 @@ class JuiceParserBase(DispatchMixin):
             def sendAnswer(answerBox):
                 if ASK not in box:
                     return
-                if self.transport is None or self._outstandingRequests is None:
-                    return # not connected, or not any more
+                if not self._canAnswer():
+                    return
                 answerBox[ANSWER] = box[ASK]
                 answerBox.sendTo(self)
             def sendError(error):
@@ -383,7 +391,7 @@ class JuiceParserBase(DispatchMixin):
                 errorBox[ERROR] = box[ASK]
                 errorBox[ERROR_DESCRIPTION] = desc
                 errorBox[ERROR_CODE] = code
-                if self.transport is not None and self._outstandingRequests is not None:
+                if self._canAnswer():
                     errorBox.sendTo(self)
                 return None # intentionally stop the error here: don't log the
                             # traceback if it's handled, do log it (earlier) if
@@ -818,6 +826,16 @@ class Juice(LineReceiver, JuiceParserBase, object):
             return
         return super(Juice, self).juiceBoxReceived(box)
 
+
+    def _canAnswer(self):
+        """
+        Once another protocol was switched to, or was asked for, the connection
+        is not for answers any more.
+        """
+        return (super(Juice, self)._canAnswer() and not self.__locked
+                and self.innerProtocol is None)
+
+
     def sendPacket(self, completeBox):
         """
         Send a juice.Box to my peer.
@@ -826,6 +844,7 @@ class Juice(LineReceiver, JuiceParserBase, object):
         L{startTLS}, which writes what this method held back.
         """
         assert not self.__locked, "You cannot send juice packets when a connection is locked"
+        assert self.innerProtocol is None, "You cannot send juice packets to another protocol"
         if debug:
             log.msg("Juice send: %s" % pprint.pformat(dict(six.viewitems(completeBox))))
         result = completeBox.serialize()
-- 
2.43.0


From 8db54236d711a4f217ce32860f4365eeff686048 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:09:40 +0000
Subject: [PATCH 59/60] fix: leave the documentation of a modal class alone
 when a mode has some

---
 epsilon/modal.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/epsilon/modal.py b/epsilon/modal.py
index b2d9aa0..57547c2 100644
--- a/epsilon/modal.py
+++ b/epsilon/modal.py
@@ -107,7 +107,8 @@ class ModalType(type):
         for (k, v) in six.iteritems(attrs):
             if isinstance(v, type) and issubclass(v, mode):
                 for (methName, methDef) in six.iteritems(v.__dict__):
-                    if methName not in ('__module__', '__file__', '__name__'):
+                    if methName not in ('__module__', '__file__', '__name__',
+                                        '__doc__'):
                         implementations.setdefault(methName, {})[k] = methDef
             keepAttrs[k] = v
 
-- 
2.43.0


From eb7f66cf7dac72de65274e7022d2d263f7fe8a19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:10:53 +0000
Subject: [PATCH 60/60] fix: every mode can be entered and left, and keeps the
 methods it inherits

---
 epsilon/modal.py | 32 ++++++++++++++++++++++++--------
 1 file changed, 24 insertions(+), 8 deletions(-)

diff --git a/epsilon/modal.py b/epsilon/modal.py
index 57547c2..8b33aff 100644
--- a/epsilon/modal.py
+++ b/epsilon/modal.py
@@ -51,10 +51,6 @@ class mode(object):
     subclass should have the same name as the mode it is defining.
     """
 
-    # XXX fix the simple, but wrong, __dict__ magic in ModalType.__new__ so
-    # that this __enter__ and __exit__ are actually called, maybe we can even
-    # do some logging or something.
-
     def __exit__(self):
         """
         The mode has just been exited.
@@ -82,6 +78,19 @@ def _getInheritedAttribute(classname, attrname, bases, attrs):
                              attrname))
 
 
+def _modeMethods(aMode):
+    """
+    Return a list of two-tuples of the names and the implementations of the
+    methods the given mode defines or inherits, but for those which all modes
+    have.
+    """
+    return [(methName, methDef)
+            for base in aMode.__mro__ if base not in (mode, object)
+            for (methName, methDef) in six.iteritems(base.__dict__)
+            if methName not in ('__module__', '__file__', '__name__',
+                                '__doc__', '__dict__', '__weakref__')]
+
+
 
 class ModalType(type):
     """Metaclass for defining modal classes.
@@ -104,12 +113,14 @@ class ModalType(type):
         implementations = {}
 
         keepAttrs = {modeAttribute: initialMode}
+        modeNames = []
         for (k, v) in six.iteritems(attrs):
             if isinstance(v, type) and issubclass(v, mode):
-                for (methName, methDef) in six.iteritems(v.__dict__):
-                    if methName not in ('__module__', '__file__', '__name__',
-                                        '__doc__'):
-                        implementations.setdefault(methName, {})[k] = methDef
+                modeNames.append(k)
+                implementations.setdefault('__enter__', {})
+                implementations.setdefault('__exit__', {})
+                for (methName, methDef) in _modeMethods(v):
+                    implementations.setdefault(methName, {}).setdefault(k, methDef)
             keepAttrs[k] = v
 
         for (methName, methDefs) in six.viewitems(implementations):
@@ -123,6 +134,11 @@ class ModalType(type):
                 if isinstance(inherited, ModalMethod):
                     for (modeName, methDef) in six.iteritems(inherited.methods):
                         methDefs.setdefault(modeName, methDef)
+        # Every mode can be entered and left.
+        for modeName in modeNames:
+            for methName in ('__enter__', '__exit__'):
+                implementations[methName].setdefault(
+                    modeName, mode.__dict__[methName])
         return self
 
 
-- 
2.43.0

