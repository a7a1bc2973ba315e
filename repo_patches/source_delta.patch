From e47fbe63bb194c6416213baa06c086b7fbf2c8f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:28 +0000
Subject: [PATCH 01/19] fix: decode DTL (ddmmyyyy) attributes, e.g. in LR2

---
 src/pynmeagps/nmeamessage.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pynmeagps/nmeamessage.py b/src/pynmeagps/nmeamessage.py
index 6532411..52e8233 100644
--- a/src/pynmeagps/nmeamessage.py
+++ b/src/pynmeagps/nmeamessage.py
@@ -730,7 +730,7 @@ class NMEAMessage:
         elif att == nmt.DE:  # decimal
             if vals != "":
                 val = float(vals)
-        elif att in (nmt.DT, nmt.DM):  # date
+        elif att in (nmt.DT, nmt.DTL, nmt.DM):  # date
             val = date2utc(vals, att)
         elif att == nmt.IN:  # integer
             if vals != "":
-- 
2.43.0


From b59d8135165a2fe1e8dc652b1543713c4c87a3b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:30 +0000
Subject: [PATCH 02/19] fix: report truncated proprietary payloads as
 NMEATypeError, not IndexError

---
 src/pynmeagps/nmeamessage.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/pynmeagps/nmeamessage.py b/src/pynmeagps/nmeamessage.py
index 52e8233..6c4db64 100644
--- a/src/pynmeagps/nmeamessage.py
+++ b/src/pynmeagps/nmeamessage.py
@@ -141,6 +141,7 @@ class NMEAMessage:
 
         except (
             AttributeError,
+            IndexError,
             OverflowError,
             struct.error,
             TypeError,
-- 
2.43.0


From 6449bcb9c95b01971a93680d92a36b4b87435d13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:31 +0000
Subject: [PATCH 03/19] fix: generate checksum for new messages which have no
 payload definition

---
 src/pynmeagps/nmeamessage.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pynmeagps/nmeamessage.py b/src/pynmeagps/nmeamessage.py
index 6c4db64..9fb701c 100644
--- a/src/pynmeagps/nmeamessage.py
+++ b/src/pynmeagps/nmeamessage.py
@@ -128,7 +128,7 @@ class NMEAMessage:
             if pdict is None:  # definition not yet implemented
                 if "payload" in kwargs:
                     self._set_attribute_nominal(kwargs["payload"])
-                return
+                pdict = {}
             for key in pdict.keys():  # process each attribute in dict
                 pindex, gindex = self._set_attribute(
                     pindex, pdict, key, gindex, **kwargs
-- 
2.43.0


From c5b79153d326723da92d751f715b028ec8e2bbfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:33 +0000
Subject: [PATCH 04/19] fix: leave payload of PSSNSNC message as received when
 parsing

---
 src/pynmeagps/nmeamessage.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/pynmeagps/nmeamessage.py b/src/pynmeagps/nmeamessage.py
index 9fb701c..b8161d1 100644
--- a/src/pynmeagps/nmeamessage.py
+++ b/src/pynmeagps/nmeamessage.py
@@ -240,12 +240,10 @@ class NMEAMessage:
         try:
             # all attribute values have been provided
             if self._streaming:
+                val = self._payload[pindex]
                 # remove group delimiters in proprietary PSSNSNC message
                 if self.identity == "PSSNSNC":
-                    self._payload[pindex] = (
-                        self._payload[pindex].replace("[", "").replace("]", "")
-                    )
-                val = self._payload[pindex]
+                    val = val.replace("[", "").replace("]", "")
                 val = self.str2val(val, att)
             # some attribute values have been provided,
             # the rest will be set to a nominal value
-- 
2.43.0


From 76a411e3bc554574b48fc7ff78ecf83f4e41ad1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:34 +0000
Subject: [PATCH 05/19] fix: find definitions whose msgID is not all upper case
 (TNLGGKx, user-defined)

---
 src/pynmeagps/nmeamessage.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/pynmeagps/nmeamessage.py b/src/pynmeagps/nmeamessage.py
index b8161d1..3c30067 100644
--- a/src/pynmeagps/nmeamessage.py
+++ b/src/pynmeagps/nmeamessage.py
@@ -316,7 +316,8 @@ class NMEAMessage:
                         f"P{key} message definitions must "
                         "include payload or msgId keyword arguments."
                     )
-            key = key.upper()
+            if key not in nmt.NMEA_MSGIDS_PROP and key not in self._userdefined:
+                key = key.upper()
 
             if self._defsource == nmt.DEF_PROP:  # proprietary
                 dic = self._get_dict_prop(key, **kwargs)
-- 
2.43.0


From a00b2612bce8069c233278b6f5fa754f6eb48b22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:36 +0000
Subject: [PATCH 06/19] fix: find proprietary POLL definitions held in
 NMEA_PAYLOADS_POLL

---
 src/pynmeagps/nmeamessage.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/pynmeagps/nmeamessage.py b/src/pynmeagps/nmeamessage.py
index 3c30067..3007527 100644
--- a/src/pynmeagps/nmeamessage.py
+++ b/src/pynmeagps/nmeamessage.py
@@ -364,6 +364,8 @@ class NMEAMessage:
             key = self._get_dict_qtmacknak(key, self._mode)
 
         if self._mode == nmt.POLL:
+            if key in nmp.NMEA_PAYLOADS_POLL:
+                return nmp.NMEA_PAYLOADS_POLL[key]
             return nmpp.NMEA_PAYLOADS_POLL_PROP[key]
         if self._mode == nmt.SET:
             return nmsp.NMEA_PAYLOADS_SET_PROP[key]
-- 
2.43.0


From fa5e5cf218bb21371fe3e7fe77d6cf4ee2a6027d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:37 +0000
Subject: [PATCH 07/19] fix: refuse deletion of attributes of an initialised
 NMEAMessage

---
 src/pynmeagps/nmeamessage.py | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/src/pynmeagps/nmeamessage.py b/src/pynmeagps/nmeamessage.py
index 3007527..893356b 100644
--- a/src/pynmeagps/nmeamessage.py
+++ b/src/pynmeagps/nmeamessage.py
@@ -623,6 +623,21 @@ class NMEAMessage:
 
         super().__setattr__(name, value)
 
+    def __delattr__(self, name):
+        """
+        Override delattr to make object immutable after instantiation.
+
+        :param str name: attribute name
+        :raises: NMEAMessageError
+        """
+
+        if self._immutable:
+            raise nme.NMEAMessageError(
+                f"Object is immutable. Deletion of {name} not permitted after initialisation."
+            )
+
+        super().__delattr__(name)
+
     def serialize(self) -> bytes:
         """
         Serialize message.
-- 
2.43.0


From ca9d44139b40f1fc2c5152e42ea0c00a203a7603 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:39 +0000
Subject: [PATCH 08/19] fix: do not lose a sentence directly preceded by a
 stray $

---
 src/pynmeagps/nmeareader.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/pynmeagps/nmeareader.py b/src/pynmeagps/nmeareader.py
index 8721277..a4df37f 100644
--- a/src/pynmeagps/nmeareader.py
+++ b/src/pynmeagps/nmeareader.py
@@ -137,6 +137,8 @@ class NMEAReader:
                 if byte1 != b"\x24":  # not NMEA, discard and continue
                     continue
                 byte2 = self._read_bytes(1)  # read 2nd byte to confirm protocol
+                while byte2 == byte1 and not self._nmea_only:  # stray $, discard
+                    byte2 = self._read_bytes(1)
                 bytehdr = byte1 + byte2
                 if bytehdr in NMEA_HDR:  # it's a NMEA message
                     byten = self._read_line()  # NMEA protocol is CRLF terminated
-- 
2.43.0


From caf579f17b120d500b671630c82fffe3bdc4f294 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:40 +0000
Subject: [PATCH 09/19] fix: keep chunk whose CRLF terminator is in the next
 segment

---
 src/pynmeagps/socketwrapper.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/pynmeagps/socketwrapper.py b/src/pynmeagps/socketwrapper.py
index 18358ed..37da819 100644
--- a/src/pynmeagps/socketwrapper.py
+++ b/src/pynmeagps/socketwrapper.py
@@ -168,9 +168,10 @@ class SocketWrapper:
                 break
             if chunk_length != 0:
                 chunk = instream.read(chunk_length)
-                if len(chunk) != chunk_length:
-                    # premature end of chunk bytes
-                    partial = length_bytes + chunk
+                crlf = instream.read(2)
+                if len(crlf) != 2:
+                    # premature end of chunk bytes or of their CRLF terminator
+                    partial = length_bytes + chunk + crlf
                     break
                 try:  # pragma: no cover
                     if self._encoding & ENCODE_GZIP:
@@ -184,7 +185,6 @@ class SocketWrapper:
                     # parser will discard data
                 chunks += chunk
 
-            instream.readline()
             if chunk_length == 0:
                 # final chunk
                 break
-- 
2.43.0


From 55f179024dfa0a45c32b213fafb3fb736145f33f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:42 +0000
Subject: [PATCH 10/19] fix: carry minutes or seconds which round to 60

---
 src/pynmeagps/nmeahelpers.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/pynmeagps/nmeahelpers.py b/src/pynmeagps/nmeahelpers.py
index 8abfaf5..aaf86db 100644
--- a/src/pynmeagps/nmeahelpers.py
+++ b/src/pynmeagps/nmeahelpers.py
@@ -202,7 +202,8 @@ def ddd2dmm(degrees: float, att: Literal["LA", "LN"], hpmode: bool = False) -> s
 
     try:
         degrees = abs(degrees)
-        degrees, minutes = divmod(degrees * 60, 60)
+        # round first, so that minutes which round to 60 carry to degrees
+        degrees, minutes = divmod(round(degrees * 60, 7 if hpmode else 5), 60)
         degrees = int(degrees * 100)
         if hpmode:
             if att == LA:
@@ -234,7 +235,7 @@ def deg2dmm(degrees: float, att: Literal["LA", "LN"]) -> str:
     try:
         negative = degrees < 0
         degrees = abs(degrees)
-        degrees, minutes = divmod(degrees * 60, 60)
+        degrees, minutes = divmod(round(degrees * 60, 7), 60)
         if negative:
             sfx = "S" if att == LA else "W"
         else:
@@ -259,7 +260,7 @@ def deg2dms(degrees: float, att: Literal["LA", "LN"]) -> str:
     try:
         negative = degrees < 0
         degrees = abs(degrees)
-        minutes, seconds = divmod(degrees * 3600, 60)
+        minutes, seconds = divmod(round(degrees * 3600, 5), 60)
         degrees, minutes = divmod(minutes, 60)
         if negative:
             sfx = "S" if att == LA else "W"
-- 
2.43.0


From 638686b729a07e5fe853d83791efbad6f71070cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:43 +0000
Subject: [PATCH 11/19] fix: week number and exact time of week either side of
 week rollover

---
 src/pynmeagps/nmeahelpers.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/pynmeagps/nmeahelpers.py b/src/pynmeagps/nmeahelpers.py
index aaf86db..f46511e 100644
--- a/src/pynmeagps/nmeahelpers.py
+++ b/src/pynmeagps/nmeahelpers.py
@@ -13,7 +13,7 @@ Created on 04 Mar 2021
 
 import re
 from datetime import datetime, timedelta, timezone
-from math import acos, asin, atan2, cos, floor, pi, sin, sqrt
+from math import acos, asin, atan2, cos, pi, sin, sqrt
 from types import NoneType
 from typing import Literal
 
@@ -774,10 +774,9 @@ def utc2wnotow(
         rollover = 1024
 
     ls = 0 if gnss == GLO else leapsecond(utc, gnss)
-    ts = ((utc - ep0).total_seconds() + ls) * 1000
-    wno = floor((utc - ep0).days / 7)
+    wno, tow = divmod(utc - ep0 + timedelta(seconds=ls), timedelta(days=7))
     wnom = wno % rollover
-    tow = int(ts - wno * 604800000)
+    tow //= timedelta(milliseconds=1)
     return wnom if modwno else wno, tow, ls
 
 
-- 
2.43.0


From a0638d3c4700847c438d9293a8ac6ee81526cbe4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:45 +0000
Subject: [PATCH 12/19] fix: leapsecond offset of epochs just before a
 leapsecond

---
 src/pynmeagps/nmeahelpers.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/pynmeagps/nmeahelpers.py b/src/pynmeagps/nmeahelpers.py
index f46511e..5acdc86 100644
--- a/src/pynmeagps/nmeahelpers.py
+++ b/src/pynmeagps/nmeahelpers.py
@@ -843,7 +843,9 @@ def wnotow2utc(
     while True:
         utc = ep0 + timedelta(days=(wno + (i * rollover)) * 7, milliseconds=tow)
         if gnss != GLO:  # apply leapsecond offset
-            lps = leapsecond(utc, gnss) if ls is None else ls
+            lps = ls
+            if ls is None:  # leapsecond is a function of UTC rather than GNSS time
+                lps = leapsecond(utc - timedelta(seconds=leapsecond(utc, gnss)), gnss)
             utc -= timedelta(seconds=lps)
         if not autoroll:
             break
-- 
2.43.0


From c45fd6af51534ef02a663bbc7dbb10ecb0ab0338 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:46 +0000
Subject: [PATCH 13/19] fix: haversine distance of (nearly) antipodal or
 coincident points

---
 src/pynmeagps/nmeahelpers.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/pynmeagps/nmeahelpers.py b/src/pynmeagps/nmeahelpers.py
index 5acdc86..50206ca 100644
--- a/src/pynmeagps/nmeahelpers.py
+++ b/src/pynmeagps/nmeahelpers.py
@@ -487,9 +487,8 @@ def haversine(
     """
 
     phi1, lambda1, phi2, lambda2 = [c * pi / 180 for c in (lat1, lon1, lat2, lon2)]
-    dist = radius * acos(
-        cos(phi2 - phi1) - cos(phi1) * cos(phi2) * (1 - cos(lambda2 - lambda1))
-    )
+    cosd = cos(phi2 - phi1) - cos(phi1) * cos(phi2) * (1 - cos(lambda2 - lambda1))
+    dist = radius * acos(max(-1.0, min(1.0, cosd)))
 
     return dist
 
-- 
2.43.0


From befdcfafefa5605e3b65722f90a78ca7bea241d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:47 +0000
Subject: [PATCH 14/19] fix: ISO6709 format of negative altitude

---
 src/pynmeagps/nmeahelpers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pynmeagps/nmeahelpers.py b/src/pynmeagps/nmeahelpers.py
index 50206ca..14589e8 100644
--- a/src/pynmeagps/nmeahelpers.py
+++ b/src/pynmeagps/nmeahelpers.py
@@ -646,7 +646,7 @@ def llh2iso6709(lat: float, lon: float, alt: float, crs: str = WGS84) -> str:
     """
 
     lati, loni, alti = ["-" if c < 0 else "+" for c in (lat, lon, alt)]
-    return f"{lati}{abs(lat)}{loni}{abs(lon)}{alti}{alt}CRS{crs}/"
+    return f"{lati}{abs(lat)}{loni}{abs(lon)}{alti}{abs(alt)}CRS{crs}/"
 
 
 def msgdesc(msgID: str) -> str:
-- 
2.43.0


From 1996e617469408568b4e65955ee12873e0650e61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:37 +0000
Subject: [PATCH 15/19] fix: autoroll to latest rollover when leapsecond offset
 differs between rollovers

---
 src/pynmeagps/nmeahelpers.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/pynmeagps/nmeahelpers.py b/src/pynmeagps/nmeahelpers.py
index 14589e8..6437286 100644
--- a/src/pynmeagps/nmeahelpers.py
+++ b/src/pynmeagps/nmeahelpers.py
@@ -839,6 +839,7 @@ def wnotow2utc(
     tow %= 604800000
     current = datetime.now(timezone.utc)
     i = 0
+    latest = None
     while True:
         utc = ep0 + timedelta(days=(wno + (i * rollover)) * 7, milliseconds=tow)
         if gnss != GLO:  # apply leapsecond offset
@@ -848,7 +849,9 @@ def wnotow2utc(
             utc -= timedelta(seconds=lps)
         if not autoroll:
             break
-        if utc + timedelta(days=rollover * 7) > current:
+        if i > 0 and utc > current:  # previous rollover was the latest to date
+            utc = latest
             break
+        latest = utc
         i += 1
     return utc
-- 
2.43.0


From d6bbaa5b5023bab37e4f948aefe45343300b7fc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:25 +0000
Subject: [PATCH 16/19] fix: hex2str pads with zeros, not spaces, beyond 9
 digits

---
 src/pynmeagps/nmeahelpers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pynmeagps/nmeahelpers.py b/src/pynmeagps/nmeahelpers.py
index 6437286..ed3ca05 100644
--- a/src/pynmeagps/nmeahelpers.py
+++ b/src/pynmeagps/nmeahelpers.py
@@ -504,7 +504,7 @@ def hex2str(num: int, padding: int = 0) -> str:
     :rtype: str
     """
 
-    pad = f"{padding:02d}" if padding else ""
+    pad = f"0{padding}" if padding else ""
     return f"{num:{pad}x}".upper()
 
 
-- 
2.43.0


From 8b4d78f7f82acea284b75d48beeb511c3c4fa8e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:36 +0000
Subject: [PATCH 17/19] fix: dechunk reads chunks whose size line has an
 extension

---
 src/pynmeagps/socketwrapper.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/pynmeagps/socketwrapper.py b/src/pynmeagps/socketwrapper.py
index 37da819..68e905c 100644
--- a/src/pynmeagps/socketwrapper.py
+++ b/src/pynmeagps/socketwrapper.py
@@ -162,7 +162,8 @@ class SocketWrapper:
                 partial = length_bytes
                 break
             try:
-                chunk_length = int(length_bytes.strip(), 16)
+                # ignore any chunk extension
+                chunk_length = int(length_bytes.partition(b";")[0].strip(), 16)
             except ValueError:
                 # residual bytes at beginning of stream
                 break
-- 
2.43.0


From f58520b66611a4edb9a43beebbf7862bbe21d5e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:54:21 +0000
Subject: [PATCH 18/19] fix: decode ERROR acknowledgement of every Quectel
 command

---
 src/pynmeagps/nmeamessage.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pynmeagps/nmeamessage.py b/src/pynmeagps/nmeamessage.py
index 893356b..e0be6d7 100644
--- a/src/pynmeagps/nmeamessage.py
+++ b/src/pynmeagps/nmeamessage.py
@@ -360,7 +360,7 @@ class NMEAMessage:
             key = self._get_dict_qtmsn(key, self._mode, **kwargs)
         elif key == "STMDRSENMSG":
             key = self._get_dict_stmdrsenmsg(key, self._mode, **kwargs)
-        elif key[0:3] == "QTM":
+        if key[0:3] == "QTM":
             key = self._get_dict_qtmacknak(key, self._mode)
 
         if self._mode == nmt.POLL:
-- 
2.43.0


From fa675466b7610e14c8fffaec81efba3141636449 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:47:32 +0000
Subject: [PATCH 19/19] fix: attribute keywords named like an internal
 parameter are accepted

---
 src/pynmeagps/nmeamessage.py | 26 +++++++++++++-------------
 1 file changed, 13 insertions(+), 13 deletions(-)

diff --git a/src/pynmeagps/nmeamessage.py b/src/pynmeagps/nmeamessage.py
index e0be6d7..9d1c7ec 100644
--- a/src/pynmeagps/nmeamessage.py
+++ b/src/pynmeagps/nmeamessage.py
@@ -108,7 +108,7 @@ class NMEAMessage:
         self._do_attributes(**kwargs)
         self._immutable = True  # once initialised, object is immutable
 
-    def _do_attributes(self, **kwargs):
+    def _do_attributes(self, /, **kwargs):
         """
         Populate NMEAMessage from named attribute keywords.
         Where a named attribute is absent, set to a nominal value (zeros or blanks).
@@ -152,7 +152,7 @@ class NMEAMessage:
             ) from err
 
     def _set_attribute(
-        self, pindex: int, pdict: dict, key: str, gindex: list, **kwargs
+        self, pindex: int, pdict: dict, key: str, gindex: list, /, **kwargs
     ) -> tuple:
         """
         Recursive routine to set individual or grouped payload attributes.
@@ -175,7 +175,7 @@ class NMEAMessage:
         return (pindex, gindex)
 
     def _set_attribute_group(
-        self, att: tuple[int, dict], pindex: int, gindex: list, **kwargs
+        self, att: tuple[int, dict], pindex: int, gindex: list, /, **kwargs
     ) -> tuple:
         """
         Process (nested) group of attributes.
@@ -216,7 +216,7 @@ class NMEAMessage:
         return (pindex, gindex)
 
     def _set_attribute_single(
-        self, att: str, pindex: int, key: str, gindex: list, **kwargs
+        self, att: str, pindex: int, key: str, gindex: list, /, **kwargs
     ) -> int:
         """
         Set individual attribute value.
@@ -291,7 +291,7 @@ class NMEAMessage:
         for i, fld in enumerate(payload):
             setattr(self, f"field_{i+1:02d}", fld)
 
-    def _get_dict(self, **kwargs) -> dict | NoneType:
+    def _get_dict(self, /, **kwargs) -> dict | NoneType:
         """
         Get payload dictionary.
 
@@ -337,7 +337,7 @@ class NMEAMessage:
 
         return dic
 
-    def _get_dict_prop(self, key: str, **kwargs) -> dict:
+    def _get_dict_prop(self, key: str, /, **kwargs) -> dict:
         """
         Get payload dictionary for proprietary message types.
 
@@ -371,7 +371,7 @@ class NMEAMessage:
             return nmsp.NMEA_PAYLOADS_SET_PROP[key]
         return nmgp.NMEA_PAYLOADS_GET_PROP[key]
 
-    def _get_dict_qtmcfguart(self, key: str, mode: int, **kwargs) -> str:
+    def _get_dict_qtmcfguart(self, key: str, mode: int, /, **kwargs) -> str:
         """
         Get payload dictionary for proprietary Quectel QTMCFGUART
         command and query variants.
@@ -399,7 +399,7 @@ class NMEAMessage:
                 key += "_CURR"
         return key
 
-    def _get_dict_qtmcfgmsgrate(self, key: str, mode: int, **kwargs) -> str:
+    def _get_dict_qtmcfgmsgrate(self, key: str, mode: int, /, **kwargs) -> str:
         """
         Get payload dictionary for proprietary Quectel QTMCFGMSGRATE
         command and query variants.
@@ -430,7 +430,7 @@ class NMEAMessage:
                 key += "_INTF"
         return key
 
-    def _get_dict_qtmcfgpps(self, key: str, mode: int, **kwargs) -> str:
+    def _get_dict_qtmcfgpps(self, key: str, mode: int, /, **kwargs) -> str:
         """
         Get payload dictionary for proprietary Quectel QTMCFGPPS
         command and query variants.
@@ -448,7 +448,7 @@ class NMEAMessage:
                 key += "_DIS"
         return key
 
-    def _get_dict_qtmcfgsat(self, key: str, mode: int, **kwargs) -> str:
+    def _get_dict_qtmcfgsat(self, key: str, mode: int, /, **kwargs) -> str:
         """
         Get payload dictionary for proprietary Quectel QTMCFGSAT
         command and query variants.
@@ -472,7 +472,7 @@ class NMEAMessage:
                 key = self._get_dict_qtmacknak(key, mode)
         return key
 
-    def _get_dict_qtmcfggeofence(self, key: str, mode: int, **kwargs) -> str:
+    def _get_dict_qtmcfggeofence(self, key: str, mode: int, /, **kwargs) -> str:
         """
         Get payload dictionary for proprietary Quectel QTMCFGGEOFENCE
         command and query variants.
@@ -498,7 +498,7 @@ class NMEAMessage:
                 key = self._get_dict_qtmacknak(key, mode)
         return key
 
-    def _get_dict_qtmsn(self, key: str, mode: int, **kwargs) -> str:
+    def _get_dict_qtmsn(self, key: str, mode: int, /, **kwargs) -> str:
         """
         Get payload dictionary for proprietary Quectel QTMSN.
         (bug in LG580P firmware - seems to transpose status field?)
@@ -516,7 +516,7 @@ class NMEAMessage:
         return key
 
     def _get_dict_stmdrsenmsg(
-        self, key: str, mode: int, **kwargs
+        self, key: str, mode: int, /, **kwargs
     ) -> str:  # pylint: disable=unused-argument
         """
         Get payload dictionary for proprietary Quectel PSTMDRSENMSG variants.
-- 
2.43.0

