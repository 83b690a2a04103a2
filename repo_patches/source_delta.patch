From 20a0deb5e9e0bc0d8acab6c4706d5695a8fc2645 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:11 +0000
Subject: [PATCH 01/43] fix: treat proprietary sentences lacking their msgId
 field as unknown

An empty payload (or, for PASHR, a first field of fewer than 2 characters)
raised an uncaught IndexError out of NMEAReader.parse() and read().
---
 src/pynmeagps/nmeamessage.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pynmeagps/nmeamessage.py b/src/pynmeagps/nmeamessage.py
index 6532411..3d7993d 100644
--- a/src/pynmeagps/nmeamessage.py
+++ b/src/pynmeagps/nmeamessage.py
@@ -330,7 +330,7 @@ class NMEAMessage:
                     dic = nms.NMEA_PAYLOADS_SET[key]
                 else:
                     dic = nmg.NMEA_PAYLOADS_GET[key]
-        except KeyError as err:  # unknown msgid
+        except (KeyError, IndexError) as err:  # unknown or missing msgid
             erm = f"Unknown msgID {key} msgmode {('GET', 'SET', 'POLL')[self._mode]}."
             if self._validate & nmt.VALMSGID:
                 raise nme.NMEAMessageError(erm) from err
-- 
2.43.0


From e3cad94153183ac00e362014ef291d8f38b2beed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:12 +0000
Subject: [PATCH 02/43] fix: stop processing a repeating group once the payload
 is exhausted

A short sentence declaring a huge number of repeats, e.g. PUBX,03 with
numSv=999999999, made the parser loop over every declared repeat.
---
 src/pynmeagps/nmeamessage.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/pynmeagps/nmeamessage.py b/src/pynmeagps/nmeamessage.py
index 3d7993d..ec63e55 100644
--- a/src/pynmeagps/nmeamessage.py
+++ b/src/pynmeagps/nmeamessage.py
@@ -204,6 +204,9 @@ class NMEAMessage:
         # recursively process each group attribute,
         # incrementing the payload index and group index as we go
         for i in range(rng):
+            # payload exhausted, so any remaining repeats have no attributes
+            if self._streaming and pindex >= len(self._payload):
+                break
             gindex[-1] = i + 1
             for key1 in attd.keys():
                 pindex, gindex = self._set_attribute(
-- 
2.43.0


From 64b85eff3fba0db29183c2dd0695dc5914228ffb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:14 +0000
Subject: [PATCH 03/43] fix: parse DTL (ddmmyyyy) date attributes

str2val() had no case for DTL, so every AIS LR2 sentence failed to parse.
---
 src/pynmeagps/nmeamessage.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pynmeagps/nmeamessage.py b/src/pynmeagps/nmeamessage.py
index ec63e55..b30f5dc 100644
--- a/src/pynmeagps/nmeamessage.py
+++ b/src/pynmeagps/nmeamessage.py
@@ -733,7 +733,7 @@ class NMEAMessage:
         elif att == nmt.DE:  # decimal
             if vals != "":
                 val = float(vals)
-        elif att in (nmt.DT, nmt.DM):  # date
+        elif att in (nmt.DT, nmt.DTL, nmt.DM):  # date
             val = date2utc(vals, att)
         elif att == nmt.IN:  # integer
             if vals != "":
-- 
2.43.0


From c753cfddada59350d16fa862a8d41fe80a7bdc44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:15 +0000
Subject: [PATCH 04/43] fix: make the PTNL,GGKx definitions reachable

Payload definitions are looked up by upper case key (as FECGPATT for GPatt),
so the mixed case TNLGGKx entries could never be found.
---
 src/pynmeagps/nmeatypes_get_prop.py | 2 +-
 src/pynmeagps/nmeatypes_poll.py     | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pynmeagps/nmeatypes_get_prop.py b/src/pynmeagps/nmeatypes_get_prop.py
index b9f76e1..326f299 100644
--- a/src/pynmeagps/nmeatypes_get_prop.py
+++ b/src/pynmeagps/nmeatypes_get_prop.py
@@ -815,7 +815,7 @@ NMEA_PAYLOADS_GET_PROP = {
         "height": ST,  # starts with "EHT-"
         "hunit": CH,  # 'M'
     },
-    "TNLGGKx": {
+    "TNLGGKX": {
         "msgId": ST,  # "GGK"
         "utctime": TM,
         "utcdate": DT,
diff --git a/src/pynmeagps/nmeatypes_poll.py b/src/pynmeagps/nmeatypes_poll.py
index fdca516..b24431a 100644
--- a/src/pynmeagps/nmeatypes_poll.py
+++ b/src/pynmeagps/nmeatypes_poll.py
@@ -197,7 +197,7 @@ NMEA_PAYLOADS_POLL = {
     "TNLGGK": {
         "msgId": ST,  # 'GGK'
     },
-    "TNLGGKx": {
+    "TNLGGKX": {
         "msgId": ST,  # 'GGKx'
     },
     "TNLPJK": {
-- 
2.43.0


From 1a8a0facf00d07f7f00eadb29a5124ef45e64be9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:16 +0000
Subject: [PATCH 05/43] fix: find user-defined definitions whose msgID is not
 upper case

The message was recognised by its msgID as given, but its definition was
then looked up by the upper case form and reported as unknown.
---
 src/pynmeagps/nmeamessage.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pynmeagps/nmeamessage.py b/src/pynmeagps/nmeamessage.py
index b30f5dc..2bd6535 100644
--- a/src/pynmeagps/nmeamessage.py
+++ b/src/pynmeagps/nmeamessage.py
@@ -325,7 +325,7 @@ class NMEAMessage:
             if self._defsource == nmt.DEF_PROP:  # proprietary
                 dic = self._get_dict_prop(key, **kwargs)
             elif self._defsource == nmt.DEF_USER:  # user defined
-                dic = self._userdefined[key]
+                dic = self._userdefined[self._msgID]
             else:  # standard
                 if self._mode == nmt.POLL:
                     dic = nmp.NMEA_PAYLOADS_POLL[key]
-- 
2.43.0


From 87dcf43121689fe95bab3afde0f4e7a64f0fdffa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:17 +0000
Subject: [PATCH 06/43] fix: generate a checksum for newly created messages of
 unknown type

Messages without a payload definition returned before the checksum was
generated, so they serialized with the literal checksum 'None'.
---
 src/pynmeagps/nmeamessage.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/pynmeagps/nmeamessage.py b/src/pynmeagps/nmeamessage.py
index 2bd6535..6da2cc3 100644
--- a/src/pynmeagps/nmeamessage.py
+++ b/src/pynmeagps/nmeamessage.py
@@ -128,11 +128,11 @@ class NMEAMessage:
             if pdict is None:  # definition not yet implemented
                 if "payload" in kwargs:
                     self._set_attribute_nominal(kwargs["payload"])
-                return
-            for key in pdict.keys():  # process each attribute in dict
-                pindex, gindex = self._set_attribute(
-                    pindex, pdict, key, gindex, **kwargs
-                )
+            else:
+                for key in pdict.keys():  # process each attribute in dict
+                    pindex, gindex = self._set_attribute(
+                        pindex, pdict, key, gindex, **kwargs
+                    )
             # generate checksum for newly-created message
             if self._checksum is None:
                 self._checksum = generate_checksum(
-- 
2.43.0


From 96db69a39ca06a3aaed176d77f25ab86aff19766 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:32 +0000
Subject: [PATCH 07/43] fix: keep the PSSNSNC payload as received

The group delimiters were removed from the payload itself, so the message
no longer serialized to the sentence it was parsed from, nor matched its
own checksum.
---
 src/pynmeagps/nmeamessage.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/pynmeagps/nmeamessage.py b/src/pynmeagps/nmeamessage.py
index 6da2cc3..d586413 100644
--- a/src/pynmeagps/nmeamessage.py
+++ b/src/pynmeagps/nmeamessage.py
@@ -242,12 +242,10 @@ class NMEAMessage:
         try:
             # all attribute values have been provided
             if self._streaming:
+                val = self._payload[pindex]
                 # remove group delimiters in proprietary PSSNSNC message
                 if self.identity == "PSSNSNC":
-                    self._payload[pindex] = (
-                        self._payload[pindex].replace("[", "").replace("]", "")
-                    )
-                val = self._payload[pindex]
+                    val = val.replace("[", "").replace("]", "")
                 val = self.str2val(val, att)
             # some attribute values have been provided,
             # the rest will be set to a nominal value
-- 
2.43.0


From 778d198ef95e64f85cfa44fa6d6845a2ff27b69c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:33 +0000
Subject: [PATCH 08/43] fix: make NMEAMessage immutable in respect of its
 payload and deletions

The message shared its payload list with the caller of the constructor and
of the payload getter, and 'del msg.attr' was permitted.
---
 src/pynmeagps/nmeamessage.py | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/src/pynmeagps/nmeamessage.py b/src/pynmeagps/nmeamessage.py
index d586413..b0fd2c6 100644
--- a/src/pynmeagps/nmeamessage.py
+++ b/src/pynmeagps/nmeamessage.py
@@ -122,7 +122,7 @@ class NMEAMessage:
         key = ""
 
         try:
-            self._payload = kwargs.get("payload", [])
+            self._payload = list(kwargs.get("payload", []))
             # self._checksum = kwargs.get("checksum", None)
             pdict = self._get_dict(**kwargs)  # get payload definition dict
             if pdict is None:  # definition not yet implemented
@@ -622,6 +622,21 @@ class NMEAMessage:
 
         super().__setattr__(name, value)
 
+    def __delattr__(self, name):
+        """
+        Override delattr to make object immutable after instantiation.
+
+        :param str name: attribute name
+        :raises: NMEAMessageError
+        """
+
+        if self._immutable:
+            raise nme.NMEAMessageError(
+                f"Object is immutable. Deletion of {name} not permitted after initialisation."
+            )
+
+        super().__delattr__(name)
+
     def serialize(self) -> bytes:
         """
         Serialize message.
@@ -697,7 +712,7 @@ class NMEAMessage:
         :rtype: list
         """
 
-        return self._payload
+        return list(self._payload)  # copy, as object is immutable
 
     @property
     def checksum(self) -> str | NoneType:
-- 
2.43.0


From 6786248f5bea6dcf50abb58231eec0f86760a287 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:09 +0000
Subject: [PATCH 09/43] fix: apply N/S and E/W to latitudes and longitudes of
 any name

Only attributes named exactly lat and lon were signed on parsing, and only
those determined the direction on generation; targetlat, wptlat, latne etc.
lost their hemisphere.
---
 src/pynmeagps/nmeamessage.py | 34 ++++++++++++++++++++--------------
 1 file changed, 20 insertions(+), 14 deletions(-)

diff --git a/src/pynmeagps/nmeamessage.py b/src/pynmeagps/nmeamessage.py
index b0fd2c6..4d87435 100644
--- a/src/pynmeagps/nmeamessage.py
+++ b/src/pynmeagps/nmeamessage.py
@@ -120,6 +120,7 @@ class NMEAMessage:
         pindex = 0  # payload index
         gindex = []  # (nested) grouped attribute indices
         key = ""
+        self._latlon = {}  # lat/lon attribute awaiting its LAD/LND direction
 
         try:
             self._payload = list(kwargs.get("payload", []))
@@ -250,14 +251,16 @@ class NMEAMessage:
             # some attribute values have been provided,
             # the rest will be set to a nominal value
             else:
-                if att == nmt.LND and hasattr(self, "lon"):
-                    if isinstance(self.lon, (int, float)):
-                        val = "W" if self.lon < 0 else "E"
+                if att == nmt.LND and att in self._latlon:
+                    lon = getattr(self, self._latlon[att])
+                    if isinstance(lon, (int, float)):
+                        val = "W" if lon < 0 else "E"
                     else:  # pragma: no cover
                         val = "E"
-                elif att == nmt.LAD and hasattr(self, "lat"):
-                    if isinstance(self.lat, (int, float)):
-                        val = "S" if self.lat < 0 else "N"
+                elif att == nmt.LAD and att in self._latlon:
+                    lat = getattr(self, self._latlon[att])
+                    if isinstance(lat, (int, float)):
+                        val = "S" if lat < 0 else "N"
                     else:  # pragma: no cover
                         val = "N"
                 else:
@@ -271,14 +274,17 @@ class NMEAMessage:
             return pindex
 
         setattr(self, keyr, val)  # add attribute to NMEAMessage object
-        if self._streaming:
-            # override sign of lat/lon according to NS and EW values
-            if att == nmt.LND and hasattr(self, "lon"):
-                if isinstance(self.lon, (int, float)):
-                    self.lon = -abs(self.lon) if val == "W" else abs(self.lon)
-            elif att == nmt.LAD and hasattr(self, "lat"):
-                if isinstance(self.lat, (int, float)):
-                    self.lat = -abs(self.lat) if val == "S" else abs(self.lat)
+        if att == nmt.LA or key == "lat":
+            self._latlon[nmt.LAD] = keyr
+        elif att == nmt.LN or key == "lon":
+            self._latlon[nmt.LND] = keyr
+        elif att in self._latlon:
+            pos = self._latlon.pop(att)
+            posval = getattr(self, pos)
+            if self._streaming and isinstance(posval, (int, float)):
+                # override sign of lat/lon according to NS and EW values
+                negative = val == ("S" if att == nmt.LAD else "W")
+                setattr(self, pos, -abs(posval) if negative else abs(posval))
         pindex += 1  # move on to next attribute in payload definition
 
         return pindex
-- 
2.43.0


From eb87442100ab25b206dffbc4cb94bf81d3823d42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:23 +0000
Subject: [PATCH 10/43] fix: never format 60 minutes in ddd2dmm

Minutes were rounded after being split from the degrees, so for example
53.99999999 was formatted as 5360.00000 rather than 5400.00000.
---
 src/pynmeagps/nmeahelpers.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/pynmeagps/nmeahelpers.py b/src/pynmeagps/nmeahelpers.py
index 8abfaf5..3c61900 100644
--- a/src/pynmeagps/nmeahelpers.py
+++ b/src/pynmeagps/nmeahelpers.py
@@ -201,8 +201,9 @@ def ddd2dmm(degrees: float, att: Literal["LA", "LN"], hpmode: bool = False) -> s
     """
 
     try:
-        degrees = abs(degrees)
-        degrees, minutes = divmod(degrees * 60, 60)
+        # round before splitting, so that minutes never round up to 60
+        minutes = round(abs(degrees) * 60, 7 if hpmode else 5)
+        degrees, minutes = divmod(minutes, 60)
         degrees = int(degrees * 100)
         if hpmode:
             if att == LA:
-- 
2.43.0


From 3b014d1b8cfc375ba8e778274fdf65b8f82e5994 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:48 +0000
Subject: [PATCH 11/43] fix: deg2dmm/deg2dms never show 60 minutes or seconds,
 or an exponent
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

e.g. 51.99999999999 gave 51°59′60.0″N, and 1e-8 gave 0°0′4e-05″N, which
dms2deg rejects.
---
 src/pynmeagps/nmeahelpers.py | 26 ++++++++++++++++++++------
 1 file changed, 20 insertions(+), 6 deletions(-)

diff --git a/src/pynmeagps/nmeahelpers.py b/src/pynmeagps/nmeahelpers.py
index 3c61900..2624714 100644
--- a/src/pynmeagps/nmeahelpers.py
+++ b/src/pynmeagps/nmeahelpers.py
@@ -220,6 +220,20 @@ def ddd2dmm(degrees: float, att: Literal["LA", "LN"], hpmode: bool = False) -> s
         return ""
 
 
+def _dec2str(val: float, decs: int) -> str:
+    """
+    Format decimal without exponent or superfluous trailing zeros.
+
+    :param float val: value
+    :param int decs: max decimal places
+    :return: formatted decimal e.g. "45.6" or "0.0"
+    :rtype: str
+    """
+
+    vals = f"{val:.{decs}f}".rstrip("0")
+    return f"{vals}0" if vals[-1] == "." else vals
+
+
 def deg2dmm(degrees: float, att: Literal["LA", "LN"]) -> str:
     """
     Convert decimal degrees to degrees decimal minutes string
@@ -234,13 +248,13 @@ def deg2dmm(degrees: float, att: Literal["LA", "LN"]) -> str:
 
     try:
         negative = degrees < 0
-        degrees = abs(degrees)
-        degrees, minutes = divmod(degrees * 60, 60)
+        # round before splitting, so that minutes never round up to 60
+        degrees, minutes = divmod(round(abs(degrees) * 60, 7), 60)
         if negative:
             sfx = "S" if att == LA else "W"
         else:
             sfx = "N" if att == LA else "E"
-        return f"{int(degrees)}\u00b0{round(minutes,7)}\u2032{sfx}"
+        return f"{int(degrees)}\u00b0{_dec2str(minutes,7)}\u2032{sfx}"
     except (TypeError, ValueError):
         return ""
 
@@ -259,14 +273,14 @@ def deg2dms(degrees: float, att: Literal["LA", "LN"]) -> str:
 
     try:
         negative = degrees < 0
-        degrees = abs(degrees)
-        minutes, seconds = divmod(degrees * 3600, 60)
+        # round before splitting, so that seconds never round up to 60
+        minutes, seconds = divmod(round(abs(degrees) * 3600, 5), 60)
         degrees, minutes = divmod(minutes, 60)
         if negative:
             sfx = "S" if att == LA else "W"
         else:
             sfx = "N" if att == LA else "E"
-        return f"{int(degrees)}\u00b0{int(minutes)}\u2032{round(seconds,5)}\u2033{sfx}"
+        return f"{int(degrees)}\u00b0{int(minutes)}\u2032{_dec2str(seconds,5)}\u2033{sfx}"
     except (TypeError, ValueError):
         return ""
 
-- 
2.43.0


From e68f19809bd0db1cb66e2253a241e1b7b6c368a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:50 +0000
Subject: [PATCH 12/43] fix: groupsize of attributes whose names contain
 underscores

e.g. sensor_info_01 raised ValueError, so that PQTMSENMSG, PQTMVEHMOT and
PQTMVEHMSG could not be created from keyword arguments.
---
 src/pynmeagps/nmeahelpers.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pynmeagps/nmeahelpers.py b/src/pynmeagps/nmeahelpers.py
index 2624714..cadcd30 100644
--- a/src/pynmeagps/nmeahelpers.py
+++ b/src/pynmeagps/nmeahelpers.py
@@ -472,8 +472,8 @@ def groupsize(**kwargs) -> int:
 
     idx = 0
     for a in kwargs:
-        ai = a.split("_", 1)
-        if len(ai) > 1:
+        ai = a.rsplit("_", 1)
+        if len(ai) > 1 and ai[1].isdigit():
             idx = max(idx, int(ai[1]))
     return idx
 
-- 
2.43.0


From 56f7a6e63652c9ae77c9061b2546639b2c972ed6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:06 +0000
Subject: [PATCH 13/43] fix: haversine domain error for antipodal coordinates

Floating point rounding could take the acos argument outside [-1, 1].
---
 src/pynmeagps/nmeahelpers.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/pynmeagps/nmeahelpers.py b/src/pynmeagps/nmeahelpers.py
index cadcd30..1516f24 100644
--- a/src/pynmeagps/nmeahelpers.py
+++ b/src/pynmeagps/nmeahelpers.py
@@ -501,9 +501,9 @@ def haversine(
     """
 
     phi1, lambda1, phi2, lambda2 = [c * pi / 180 for c in (lat1, lon1, lat2, lon2)]
-    dist = radius * acos(
-        cos(phi2 - phi1) - cos(phi1) * cos(phi2) * (1 - cos(lambda2 - lambda1))
-    )
+    cosd = cos(phi2 - phi1) - cos(phi1) * cos(phi2) * (1 - cos(lambda2 - lambda1))
+    # rounding can take cosd of (near) antipodal coordinates just outside [-1, 1]
+    dist = radius * acos(max(-1.0, min(1.0, cosd)))
 
     return dist
 
-- 
2.43.0


From b4e49fd4b77ff205bc1df6b2e13babb8c29582ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:07 +0000
Subject: [PATCH 14/43] fix: negative altitude in llh2iso6709

An altitude of -5 was formatted as '--5'.
---
 src/pynmeagps/nmeahelpers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pynmeagps/nmeahelpers.py b/src/pynmeagps/nmeahelpers.py
index 1516f24..9a740fd 100644
--- a/src/pynmeagps/nmeahelpers.py
+++ b/src/pynmeagps/nmeahelpers.py
@@ -661,7 +661,7 @@ def llh2iso6709(lat: float, lon: float, alt: float, crs: str = WGS84) -> str:
     """
 
     lati, loni, alti = ["-" if c < 0 else "+" for c in (lat, lon, alt)]
-    return f"{lati}{abs(lat)}{loni}{abs(lon)}{alti}{alt}CRS{crs}/"
+    return f"{lati}{abs(lat)}{loni}{abs(lon)}{alti}{abs(alt)}CRS{crs}/"
 
 
 def msgdesc(msgID: str) -> str:
-- 
2.43.0


From a53df296fee47d86d5e3c0f388a70df177f1a0db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:09 +0000
Subject: [PATCH 15/43] fix: calculate checksum from the encoded bytes of the
 sentence

Sentences are transmitted as UTF-8, but the checksum was calculated from
code points, giving an incorrect (or even four digit) checksum for
non-ASCII text.
---
 src/pynmeagps/nmeahelpers.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pynmeagps/nmeahelpers.py b/src/pynmeagps/nmeahelpers.py
index 9a740fd..e069746 100644
--- a/src/pynmeagps/nmeahelpers.py
+++ b/src/pynmeagps/nmeahelpers.py
@@ -133,8 +133,8 @@ def calc_checksum(content: str) -> str:
     """
 
     cksum = 0
-    for sub in content:
-        cksum ^= ord(sub)
+    for sub in content.encode("utf-8", "surrogatepass"):
+        cksum ^= sub
     return f"{cksum:02X}"
 
 
-- 
2.43.0


From e28bc57ff88525788d14a9e5d30bb493940123a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:10 +0000
Subject: [PATCH 16/43] fix: week number and time of week in the last
 leapseconds of a week

utc2wnotow took the week number from UTC but the time of week from GNSS
time, so the two disagreed (tow of 604800000 or more) until UTC caught up,
and float arithmetic could lose a millisecond.
---
 src/pynmeagps/nmeahelpers.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/pynmeagps/nmeahelpers.py b/src/pynmeagps/nmeahelpers.py
index e069746..97f5441 100644
--- a/src/pynmeagps/nmeahelpers.py
+++ b/src/pynmeagps/nmeahelpers.py
@@ -13,7 +13,7 @@ Created on 04 Mar 2021
 
 import re
 from datetime import datetime, timedelta, timezone
-from math import acos, asin, atan2, cos, floor, pi, sin, sqrt
+from math import acos, asin, atan2, cos, pi, sin, sqrt
 from types import NoneType
 from typing import Literal
 
@@ -788,10 +788,9 @@ def utc2wnotow(
         rollover = 1024
 
     ls = 0 if gnss == GLO else leapsecond(utc, gnss)
-    ts = ((utc - ep0).total_seconds() + ls) * 1000
-    wno = floor((utc - ep0).days / 7)
+    wno, tow = divmod(utc - ep0 + timedelta(seconds=ls), timedelta(days=7))
     wnom = wno % rollover
-    tow = int(ts - wno * 604800000)
+    tow //= timedelta(milliseconds=1)
     return wnom if modwno else wno, tow, ls
 
 
-- 
2.43.0


From d5874f99f9f6c666e0ebb4e2f84eabe0f2c29c0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:27 +0000
Subject: [PATCH 17/43] fix: leapsecond offset of epochs just before a
 leapsecond in wnotow2utc

The reference table is in UTC but was looked up by GNSS time, which is up
to 18 seconds ahead, so the new offset was applied too early.
---
 src/pynmeagps/nmeahelpers.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/pynmeagps/nmeahelpers.py b/src/pynmeagps/nmeahelpers.py
index 97f5441..63ed7b5 100644
--- a/src/pynmeagps/nmeahelpers.py
+++ b/src/pynmeagps/nmeahelpers.py
@@ -857,7 +857,12 @@ def wnotow2utc(
     while True:
         utc = ep0 + timedelta(days=(wno + (i * rollover)) * 7, milliseconds=tow)
         if gnss != GLO:  # apply leapsecond offset
-            lps = leapsecond(utc, gnss) if ls is None else ls
+            if ls is None:
+                # offset depends on UTC, which is behind GNSS time by that offset
+                lps = leapsecond(utc, gnss)
+                lps = leapsecond(utc - timedelta(seconds=lps), gnss)
+            else:
+                lps = ls
             utc -= timedelta(seconds=lps)
         if not autoroll:
             break
-- 
2.43.0


From bcc102feecef591f3dca367fc1f876a5b9399e45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:43 +0000
Subject: [PATCH 18/43] fix: cater for LF terminated NMEA streams read from a
 socket

As for other streams since 1.0.32; SocketWrapper.readline() only stopped at
CRLF, so the sentences of an LF terminated stream ran into each other.
---
 src/pynmeagps/socketwrapper.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/pynmeagps/socketwrapper.py b/src/pynmeagps/socketwrapper.py
index 18358ed..4055b46 100644
--- a/src/pynmeagps/socketwrapper.py
+++ b/src/pynmeagps/socketwrapper.py
@@ -98,8 +98,8 @@ class SocketWrapper:
 
     def readline(self) -> bytes:
         """
-        Read bytes from buffer until CRLF reached.
-        NB: always check that return data terminator is CRLF.
+        Read bytes from buffer until LF (0x0a) reached.
+        NB: always check that return data terminator is LF.
 
         :returns: bytes
         :rtype: bytes
@@ -110,7 +110,7 @@ class SocketWrapper:
             data = self.read(1)
             if len(data) == 1:
                 line += data
-                if line[-2:] == b"\r\n":
+                if line[-1:] == b"\n":
                     break
             else:
                 break
-- 
2.43.0


From e284d3a222aba207931613581daacc9922a4b833 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:45 +0000
Subject: [PATCH 19/43] fix: chunked data lost when a recv ends between a chunk
 and its CRLF

The chunk was accepted without its terminator, which then arrived at the
start of the next segment and caused all of that segment to be discarded.
---
 src/pynmeagps/socketwrapper.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/pynmeagps/socketwrapper.py b/src/pynmeagps/socketwrapper.py
index 4055b46..0e9f0f9 100644
--- a/src/pynmeagps/socketwrapper.py
+++ b/src/pynmeagps/socketwrapper.py
@@ -172,6 +172,11 @@ class SocketWrapper:
                     # premature end of chunk bytes
                     partial = length_bytes + chunk
                     break
+                terminator = instream.readline()
+                if terminator[-1:] != b"\n":
+                    # premature end of chunk terminator
+                    partial = length_bytes + chunk + terminator
+                    break
                 try:  # pragma: no cover
                     if self._encoding & ENCODE_GZIP:
                         chunk = decompress(chunk, wbits=MAX_WBITS | 16)
@@ -184,9 +189,9 @@ class SocketWrapper:
                     # parser will discard data
                 chunks += chunk
 
-            instream.readline()
-            if chunk_length == 0:
+            else:
                 # final chunk
+                instream.readline()
                 break
 
         return chunks, partial
-- 
2.43.0


From afc01d76f8c12e802bd5761a3d87faa17344f561 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:58 +0000
Subject: [PATCH 20/43] fix: recognise a sentence immediately preceded by a
 stray $ byte

If non-NMEA data (e.g. the last byte of a UBX message) ended in 0x24, the
$ of the following sentence was taken for its second byte and the whole
sentence was lost.
---
 src/pynmeagps/nmeareader.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/pynmeagps/nmeareader.py b/src/pynmeagps/nmeareader.py
index 8721277..b5c1914 100644
--- a/src/pynmeagps/nmeareader.py
+++ b/src/pynmeagps/nmeareader.py
@@ -137,6 +137,8 @@ class NMEAReader:
                 if byte1 != b"\x24":  # not NMEA, discard and continue
                     continue
                 byte2 = self._read_bytes(1)  # read 2nd byte to confirm protocol
+                while byte2 == byte1 and not self._nmea_only:
+                    byte2 = self._read_bytes(1)  # 1st "$" was non-NMEA data
                 bytehdr = byte1 + byte2
                 if bytehdr in NMEA_HDR:  # it's a NMEA message
                     byten = self._read_line()  # NMEA protocol is CRLF terminated
-- 
2.43.0


From aa46ee73f32a47649b700147248d9af9be62d7da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:20 +0000
Subject: [PATCH 21/43] fix: recognise Quectel error responses of all QTM
 commands

Those to QTMCFGMSGRATE, QTMCFGPPS, QTMCFGUART and QTMSN were decoded as if
they were query responses e.g. with the error code as message name.
---
 src/pynmeagps/nmeamessage.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/pynmeagps/nmeamessage.py b/src/pynmeagps/nmeamessage.py
index 4d87435..45225b4 100644
--- a/src/pynmeagps/nmeamessage.py
+++ b/src/pynmeagps/nmeamessage.py
@@ -353,6 +353,9 @@ class NMEAMessage:
         :rtype: dict
         """
 
+        if key[0:3] == "QTM":  # check for command response
+            key = self._get_dict_qtmacknak(key, self._mode)
+
         if key == "QTMCFGGEOFENCE":
             key = self._get_dict_qtmcfggeofence(key, self._mode, **kwargs)
         elif key == "QTMCFGMSGRATE":
@@ -367,8 +370,6 @@ class NMEAMessage:
             key = self._get_dict_qtmsn(key, self._mode, **kwargs)
         elif key == "STMDRSENMSG":
             key = self._get_dict_stmdrsenmsg(key, self._mode, **kwargs)
-        elif key[0:3] == "QTM":
-            key = self._get_dict_qtmacknak(key, self._mode)
 
         if self._mode == nmt.POLL:
             return nmpp.NMEA_PAYLOADS_POLL_PROP[key]
-- 
2.43.0


From b804396479cf3cd5d79a4127580fe91fb34a6b73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:21 +0000
Subject: [PATCH 22/43] fix: escape talker and msgID in the machine readable
 representation

A quote in the header of a (VALNONE or unknown) sentence made repr()
something which could not be evaluated, or evaluated to something else.
---
 src/pynmeagps/nmeamessage.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pynmeagps/nmeamessage.py b/src/pynmeagps/nmeamessage.py
index 45225b4..34b50ef 100644
--- a/src/pynmeagps/nmeamessage.py
+++ b/src/pynmeagps/nmeamessage.py
@@ -609,7 +609,7 @@ class NMEAMessage:
         """
 
         return (
-            f"NMEAMessage('{self._talker}','{self._msgID}', "
+            f"NMEAMessage({self._talker!r},{self._msgID!r}, "
             f"{self._mode}, payload={self._payload})"
         )
 
-- 
2.43.0


From 5f14a427b977fa7c6e7747f401543d64fe33f007 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:48 +0000
Subject: [PATCH 23/43] fix: find the POLL definitions of u-blox, Garmin and
 Trimble messages

These are in NMEA_PAYLOADS_POLL, but only NMEA_PAYLOADS_POLL_PROP was
searched for proprietary messages, so that for example
NMEAMessage('P', 'UBX', POLL, msgId='00') had no payload.
---
 src/pynmeagps/nmeamessage.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/pynmeagps/nmeamessage.py b/src/pynmeagps/nmeamessage.py
index 34b50ef..9be0ce2 100644
--- a/src/pynmeagps/nmeamessage.py
+++ b/src/pynmeagps/nmeamessage.py
@@ -372,7 +372,9 @@ class NMEAMessage:
             key = self._get_dict_stmdrsenmsg(key, self._mode, **kwargs)
 
         if self._mode == nmt.POLL:
-            return nmpp.NMEA_PAYLOADS_POLL_PROP[key]
+            if key in nmpp.NMEA_PAYLOADS_POLL_PROP:
+                return nmpp.NMEA_PAYLOADS_POLL_PROP[key]
+            return nmp.NMEA_PAYLOADS_POLL[key]  # u-blox, Garmin, Trimble
         if self._mode == nmt.SET:
             return nmsp.NMEA_PAYLOADS_SET_PROP[key]
         return nmgp.NMEA_PAYLOADS_GET_PROP[key]
-- 
2.43.0


From fe300730e28e224099daaed39ea3a735c96aa44a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:46 +0000
Subject: [PATCH 24/43] fix: repeating group whose count field is missing or
 empty

---
 src/pynmeagps/nmeamessage.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pynmeagps/nmeamessage.py b/src/pynmeagps/nmeamessage.py
index 9be0ce2..96fd0e2 100644
--- a/src/pynmeagps/nmeamessage.py
+++ b/src/pynmeagps/nmeamessage.py
@@ -201,7 +201,7 @@ class NMEAMessage:
             else:
                 rng = groupsize(**kwargs)
         else:  # number of repeats is defined in named attribute
-            rng = getattr(self, numr)
+            rng = getattr(self, numr, 0) or 0  # none if missing or empty
         # recursively process each group attribute,
         # incrementing the payload index and group index as we go
         for i in range(rng):
-- 
2.43.0


From fa0a3d5c9c8699a4397d13304bbb0ff7d0d2c910 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:46 +0000
Subject: [PATCH 25/43] fix: planar distance across the antimeridian

---
 src/pynmeagps/nmeahelpers.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/pynmeagps/nmeahelpers.py b/src/pynmeagps/nmeahelpers.py
index 63ed7b5..6b01c09 100644
--- a/src/pynmeagps/nmeahelpers.py
+++ b/src/pynmeagps/nmeahelpers.py
@@ -706,7 +706,10 @@ def planar(
     """
 
     phi1, lambda1, phi2, lambda2 = [c * pi / 180 for c in (lat1, lon1, lat2, lon2)]
-    dlambda = (lambda2 - lambda1) * cos(phi1)
+    dlambda = lambda2 - lambda1
+    if abs(dlambda) > pi:  # either side of the antimeridian
+        dlambda = 2 * pi - abs(dlambda)
+    dlambda *= cos(phi1)
     dphi = phi2 - phi1
     dist = radius * sqrt(dlambda * dlambda + dphi * dphi)
 
-- 
2.43.0


From 2a862d811cd7979540506608c8fe3888e0199b18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:48 +0000
Subject: [PATCH 26/43] fix: zero pad hex strings of ten or more digits

---
 src/pynmeagps/nmeahelpers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pynmeagps/nmeahelpers.py b/src/pynmeagps/nmeahelpers.py
index 6b01c09..c8ac4c1 100644
--- a/src/pynmeagps/nmeahelpers.py
+++ b/src/pynmeagps/nmeahelpers.py
@@ -519,7 +519,7 @@ def hex2str(num: int, padding: int = 0) -> str:
     :rtype: str
     """
 
-    pad = f"{padding:02d}" if padding else ""
+    pad = f"0{padding}" if padding else ""
     return f"{num:{pad}x}".upper()
 
 
-- 
2.43.0


From f8004f5623d0a8204f6759d3ea74b6240e0837fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:00 +0000
Subject: [PATCH 27/43] fix: date fields with missing digits are invalid, not
 some other date

---
 src/pynmeagps/nmeahelpers.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/pynmeagps/nmeahelpers.py b/src/pynmeagps/nmeahelpers.py
index c8ac4c1..204e995 100644
--- a/src/pynmeagps/nmeahelpers.py
+++ b/src/pynmeagps/nmeahelpers.py
@@ -179,6 +179,9 @@ def date2utc(dates: str, form: Literal["DT", "DTL", "DM"] = DT) -> datetime.date
             dform = "%d%m%Y"
         else:
             dform = "%d%m%y"
+        # strptime alone would accept omitted or blank leading zeros
+        if not re.fullmatch("[0-9]{8}" if form == "DTL" else "[0-9]{6}", dates):
+            raise ValueError()
         utc = datetime.strptime(dates, dform)
         return utc.date()
     except (TypeError, ValueError):
-- 
2.43.0


From 486deee65c4da5b36f37a271141d31689af41703 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:03 +0000
Subject: [PATCH 28/43] fix: time fields with missing digits are invalid, not
 some other time

---
 src/pynmeagps/nmeahelpers.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/pynmeagps/nmeahelpers.py b/src/pynmeagps/nmeahelpers.py
index 204e995..1836cdb 100644
--- a/src/pynmeagps/nmeahelpers.py
+++ b/src/pynmeagps/nmeahelpers.py
@@ -746,6 +746,9 @@ def time2utc(times: str) -> datetime | str:
     try:
         if len(times) == 6:  # decimal seconds is omitted
             times = times + ".00"
+        # strptime alone would accept omitted or blank leading zeros
+        if not re.fullmatch("[0-9]{6}[.][0-9]+", times):
+            raise ValueError()
         utc = datetime.strptime(times, "%H%M%S.%f")
         return utc.time()
     except (TypeError, ValueError):
-- 
2.43.0


From 03330b0147bdb65b374a225e93b7d0c9f22f6bc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:34 +0000
Subject: [PATCH 29/43] fix: zero pad the year of ddmmyyyy dates

---
 src/pynmeagps/nmeahelpers.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/pynmeagps/nmeahelpers.py b/src/pynmeagps/nmeahelpers.py
index 1836cdb..0946d05 100644
--- a/src/pynmeagps/nmeahelpers.py
+++ b/src/pynmeagps/nmeahelpers.py
@@ -153,7 +153,8 @@ def date2str(dat: datetime.date, form: Literal["DT", "DTL", "DM"] = DT) -> str:
         if form == DM:
             dform = "%m%d%y"
         elif form == DTL:
-            dform = "%d%m%Y"
+            # platform strftime may not zero pad %Y
+            dform = f"%d%m{dat.year:04d}"
         else:
             dform = "%d%m%y"
         return dat.strftime(dform)
-- 
2.43.0


From 51c0838f88a2801933f04a14b8ab6953fde98822 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:52 +0000
Subject: [PATCH 30/43] fix: do not copy the whole socket buffer for every byte
 read

---
 src/pynmeagps/socketwrapper.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pynmeagps/socketwrapper.py b/src/pynmeagps/socketwrapper.py
index 0e9f0f9..19aed90 100644
--- a/src/pynmeagps/socketwrapper.py
+++ b/src/pynmeagps/socketwrapper.py
@@ -93,7 +93,7 @@ class SocketWrapper:
             if not self._recv():
                 return b""
         data = self._buffer[:num]
-        self._buffer = self._buffer[num:]
+        del self._buffer[:num]
         return bytes(data)
 
     def readline(self) -> bytes:
-- 
2.43.0


From 29718d24fe11016139e99a6cc4f23192545e0d02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:52 +0000
Subject: [PATCH 31/43] fix: reading a line from a socket copies it once, not
 for every byte

---
 src/pynmeagps/socketwrapper.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pynmeagps/socketwrapper.py b/src/pynmeagps/socketwrapper.py
index 19aed90..f1cd14c 100644
--- a/src/pynmeagps/socketwrapper.py
+++ b/src/pynmeagps/socketwrapper.py
@@ -105,7 +105,7 @@ class SocketWrapper:
         :rtype: bytes
         """
 
-        line = b""
+        line = bytearray()
         while True:
             data = self.read(1)
             if len(data) == 1:
@@ -115,7 +115,7 @@ class SocketWrapper:
             else:
                 break
 
-        return line
+        return bytes(line)
 
     def write(self, data: bytes, **kwargs):
         """
-- 
2.43.0


From 57172b15fde6171edd225164dfcfd8b317969a86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:09:06 +0000
Subject: [PATCH 32/43] fix: do not strip $ from the checksum end of a sentence

get_parts stripped any mix of $, CR and LF from both ends, so that a
sentence with a lengthened checksum (e.g. *5D$) passed checksum validation.
---
 src/pynmeagps/nmeahelpers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pynmeagps/nmeahelpers.py b/src/pynmeagps/nmeahelpers.py
index 0946d05..ea2c68c 100644
--- a/src/pynmeagps/nmeahelpers.py
+++ b/src/pynmeagps/nmeahelpers.py
@@ -455,7 +455,7 @@ def get_parts(message: object) -> tuple:
     try:
         if isinstance(message, bytes):
             message = message.decode("utf-8")
-        content, cksum = message.strip("$\r\n").split("*", 1)
+        content, cksum = message.lstrip("$\r\n").rstrip("\r\n").split("*", 1)
         hdr, *payload = content.split(",")
         s = 1 if hdr[:1] == "P" else 2
         talker, msgid = hdr[:s], hdr[s:]
-- 
2.43.0


From 0cded246cde4200480cd3a7287bcee7a6f093265 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:10:04 +0000
Subject: [PATCH 33/43] fix: reject a checksum with non-ASCII characters

The upper case of some ligatures is ASCII (U+FB00 -> FF), so that they were
accepted in place of a hexadecimal checksum.
---
 src/pynmeagps/nmeareader.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/pynmeagps/nmeareader.py b/src/pynmeagps/nmeareader.py
index b5c1914..f7f4dc1 100644
--- a/src/pynmeagps/nmeareader.py
+++ b/src/pynmeagps/nmeareader.py
@@ -265,6 +265,10 @@ class NMEAReader:
             content, talker, msgid, payload, checksum = get_parts(message)
             if validate & VALCKSUM:
                 ccksum = calc_checksum(content)
+                if not checksum.isascii():  # e.g. ligature with upper case "FF"
+                    raise nme.NMEAParseError(
+                        f"Message {talker}{msgid} invalid checksum {checksum}."
+                    )
                 if checksum.upper() != ccksum:
                     raise nme.NMEAParseError(
                         f"Message {talker}{msgid} invalid checksum {checksum}"
-- 
2.43.0


From 9b6c64c857141e08745683f3f01355600c2a9491 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:42 +0000
Subject: [PATCH 34/43] fix: automatic rollover to the present week

wnotow2utc compared the next candidate date with the present using this
rollover's leapsecond offset; for times of week within the last seconds
(e.g. a message just received) it stopped one rollover (19 years) early.
---
 src/pynmeagps/nmeahelpers.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/pynmeagps/nmeahelpers.py b/src/pynmeagps/nmeahelpers.py
index ea2c68c..7726f13 100644
--- a/src/pynmeagps/nmeahelpers.py
+++ b/src/pynmeagps/nmeahelpers.py
@@ -864,7 +864,9 @@ def wnotow2utc(
     tow %= 604800000
     current = datetime.now(timezone.utc)
     i = 0
+    utc = None
     while True:
+        last = utc
         utc = ep0 + timedelta(days=(wno + (i * rollover)) * 7, milliseconds=tow)
         if gnss != GLO:  # apply leapsecond offset
             if ls is None:
@@ -876,7 +878,8 @@ def wnotow2utc(
             utc -= timedelta(seconds=lps)
         if not autoroll:
             break
-        if utc + timedelta(days=rollover * 7) > current:
+        if utc > current:  # leapsecond offset can differ between rollovers
+            utc = last or utc
             break
         i += 1
     return utc
-- 
2.43.0


From 811fe056de72d4ccb19cf8e40620079b646faaef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:29 +0000
Subject: [PATCH 35/43] fix: no exponents in ISO6709 position strings

Coordinates or heights smaller than 0.0001 were shown as e.g. +5e-05.
---
 src/pynmeagps/nmeahelpers.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/pynmeagps/nmeahelpers.py b/src/pynmeagps/nmeahelpers.py
index 7726f13..57a83be 100644
--- a/src/pynmeagps/nmeahelpers.py
+++ b/src/pynmeagps/nmeahelpers.py
@@ -13,6 +13,7 @@ Created on 04 Mar 2021
 
 import re
 from datetime import datetime, timedelta, timezone
+from decimal import Decimal
 from math import acos, asin, atan2, cos, pi, sin, sqrt
 from types import NoneType
 from typing import Literal
@@ -665,7 +666,9 @@ def llh2iso6709(lat: float, lon: float, alt: float, crs: str = WGS84) -> str:
     """
 
     lati, loni, alti = ["-" if c < 0 else "+" for c in (lat, lon, alt)]
-    return f"{lati}{abs(lat)}{loni}{abs(lon)}{alti}{abs(alt)}CRS{crs}/"
+    # plain decimal notation, as ISO6709 has no exponents
+    lat, lon, alt = [f"{Decimal(str(abs(c))):f}" for c in (lat, lon, alt)]
+    return f"{lati}{lat}{loni}{lon}{alti}{alt}CRS{crs}/"
 
 
 def msgdesc(msgID: str) -> str:
-- 
2.43.0


From 3c7aea2fbbbe23cf3417007018fe77b7ef499265 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:09 +0000
Subject: [PATCH 36/43] fix: data of chunks whose size line has chunk
 extensions was lost

---
 src/pynmeagps/socketwrapper.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/pynmeagps/socketwrapper.py b/src/pynmeagps/socketwrapper.py
index f1cd14c..a653200 100644
--- a/src/pynmeagps/socketwrapper.py
+++ b/src/pynmeagps/socketwrapper.py
@@ -162,7 +162,8 @@ class SocketWrapper:
                 partial = length_bytes
                 break
             try:
-                chunk_length = int(length_bytes.strip(), 16)
+                # any chunk extensions (";name=value") are ignored
+                chunk_length = int(length_bytes.split(b";", 1)[0].strip(), 16)
             except ValueError:
                 # residual bytes at beginning of stream
                 break
-- 
2.43.0


From 127848771b5496983dbd9fca6c9a5e2a3fe370c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:57 +0000
Subject: [PATCH 37/43] fix: OverflowError on a chunk size too large for the
 platform

---
 src/pynmeagps/socketwrapper.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/pynmeagps/socketwrapper.py b/src/pynmeagps/socketwrapper.py
index a653200..88add1e 100644
--- a/src/pynmeagps/socketwrapper.py
+++ b/src/pynmeagps/socketwrapper.py
@@ -15,6 +15,7 @@ Created on 12 Feb 2023
 import socket
 from io import BytesIO
 from logging import getLogger
+from sys import maxsize
 from zlib import MAX_WBITS, decompress
 from zlib import error as zlibError
 
@@ -164,6 +165,8 @@ class SocketWrapper:
             try:
                 # any chunk extensions (";name=value") are ignored
                 chunk_length = int(length_bytes.split(b";", 1)[0].strip(), 16)
+                if not 0 <= chunk_length <= maxsize:
+                    raise ValueError("invalid chunk length")
             except ValueError:
                 # residual bytes at beginning of stream
                 break
-- 
2.43.0


From 2513ca386fce9b9f5eaf80c348c6fbcad01d473e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:16 +0000
Subject: [PATCH 38/43] fix: a chunk received in many segments was reassembled
 in quadratic time

---
 src/pynmeagps/socketwrapper.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/pynmeagps/socketwrapper.py b/src/pynmeagps/socketwrapper.py
index 88add1e..b2b3409 100644
--- a/src/pynmeagps/socketwrapper.py
+++ b/src/pynmeagps/socketwrapper.py
@@ -54,7 +54,8 @@ class SocketWrapper:
         self._bufsize = bufsize
         self._encoding = encoding
         self._buffer = bytearray()
-        self._partial = b""  # partial chunk
+        self._partial = bytearray()  # partial chunk
+        self._needed = 0  # bytes up to the end of a partial chunk's data
         self._recv()  # populate initial buffer
 
     def _recv(self) -> bool:
@@ -70,9 +71,12 @@ class SocketWrapper:
             if len(data) == 0:
                 return False
             if self._encoding & ENCODE_CHUNKED:
-                data = self._partial + data
-                chunks, self._partial = self.dechunk(data)
-                self._buffer += chunks
+                self._partial += data
+                # nothing is completed without a line end
+                if b"\n" in data and len(self._partial) >= self._needed:
+                    chunks, partial = self.dechunk(self._partial)
+                    self._partial = bytearray(partial)
+                    self._buffer += chunks
             else:
                 self._buffer += data
         except (OSError, TimeoutError):
@@ -155,6 +159,7 @@ class SocketWrapper:
         instream = BytesIO(segment)
         chunks = b""
         partial = b""
+        self._needed = 0
 
         while True:
             length_bytes = instream.readline()
@@ -175,6 +180,7 @@ class SocketWrapper:
                 if len(chunk) != chunk_length:
                     # premature end of chunk bytes
                     partial = length_bytes + chunk
+                    self._needed = len(length_bytes) + chunk_length
                     break
                 terminator = instream.readline()
                 if terminator[-1:] != b"\n":
-- 
2.43.0


From 0d8c97bfbf50bb3e2c739d91de4a56b117fa5e76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:08:24 +0000
Subject: [PATCH 39/43] fix: user-defined attributes named key, att, pindex,
 pdict or gindex can be supplied as keywords

---
 src/pynmeagps/nmeamessage.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/pynmeagps/nmeamessage.py b/src/pynmeagps/nmeamessage.py
index 96fd0e2..0bd75c9 100644
--- a/src/pynmeagps/nmeamessage.py
+++ b/src/pynmeagps/nmeamessage.py
@@ -152,7 +152,7 @@ class NMEAMessage:
             ) from err
 
     def _set_attribute(
-        self, pindex: int, pdict: dict, key: str, gindex: list, **kwargs
+        self, pindex: int, pdict: dict, key: str, gindex: list, /, **kwargs
     ) -> tuple:
         """
         Recursive routine to set individual or grouped payload attributes.
@@ -175,7 +175,7 @@ class NMEAMessage:
         return (pindex, gindex)
 
     def _set_attribute_group(
-        self, att: tuple[int, dict], pindex: int, gindex: list, **kwargs
+        self, att: tuple[int, dict], pindex: int, gindex: list, /, **kwargs
     ) -> tuple:
         """
         Process (nested) group of attributes.
@@ -219,7 +219,7 @@ class NMEAMessage:
         return (pindex, gindex)
 
     def _set_attribute_single(
-        self, att: str, pindex: int, key: str, gindex: list, **kwargs
+        self, att: str, pindex: int, key: str, gindex: list, /, **kwargs
     ) -> int:
         """
         Set individual attribute value.
-- 
2.43.0


From 34f1332b93ee54c75a32da199cb7a3d0249ace5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:53:46 +0000
Subject: [PATCH 40/43] fix: decimals below 0.0001 or above 1e16 were generated
 with an exponent

---
 src/pynmeagps/nmeamessage.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/pynmeagps/nmeamessage.py b/src/pynmeagps/nmeamessage.py
index 0bd75c9..34b43ac 100644
--- a/src/pynmeagps/nmeamessage.py
+++ b/src/pynmeagps/nmeamessage.py
@@ -12,6 +12,7 @@ Created on 04 Mar 2021
 
 import struct
 from datetime import datetime, timezone
+from decimal import Decimal
 from logging import getLogger
 from types import NoneType
 from typing import Any, Literal
@@ -789,6 +790,8 @@ class NMEAMessage:
             vals = str(val)
         elif att == nmt.DE:
             vals = str(val)
+            if isinstance(val, float) and "e" in vals:
+                vals = f"{Decimal(vals):f}"  # NMEA decimals have no exponent
         elif att == nmt.IN:
             vals = str(val)
         elif att in (nmt.LA, nmt.LN):
-- 
2.43.0


From 5355fabe4023a91e212aa126625164316a7ce4a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:43:22 +0000
Subject: [PATCH 41/43] fix: C08 malformed position fields with exponents,
 blanks or nan were decoded to numbers

---
 src/pynmeagps/nmeahelpers.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/pynmeagps/nmeahelpers.py b/src/pynmeagps/nmeahelpers.py
index 57a83be..0ac15e9 100644
--- a/src/pynmeagps/nmeahelpers.py
+++ b/src/pynmeagps/nmeahelpers.py
@@ -301,9 +301,10 @@ def dmm2ddd(pos: str) -> float | str:
     """
 
     try:
-        dp = pos.find(".")
-        if dp < 4:
+        # float alone would accept exponents, blanks, "nan", etc.
+        if not re.fullmatch(r"[+-]?[0-9]{4,}\.[0-9]*", pos):
             raise ValueError()
+        dp = pos.find(".")
         posdeg = abs(float(pos[0 : dp - 2]))
         posmin = float(pos[dp - 2 :])
         return round((posdeg + posmin / 60), 10)
-- 
2.43.0


From 82358b296fdb67efe42290ec01fd61c30ad12d2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:44:33 +0000
Subject: [PATCH 42/43] fix: C07 sign of Decimal latitudes and longitudes was
 lost in generated messages

---
 src/pynmeagps/nmeamessage.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/pynmeagps/nmeamessage.py b/src/pynmeagps/nmeamessage.py
index 34b43ac..319bc7c 100644
--- a/src/pynmeagps/nmeamessage.py
+++ b/src/pynmeagps/nmeamessage.py
@@ -14,6 +14,7 @@ import struct
 from datetime import datetime, timezone
 from decimal import Decimal
 from logging import getLogger
+from numbers import Number
 from types import NoneType
 from typing import Any, Literal
 
@@ -143,7 +144,7 @@ class NMEAMessage:
 
         except (
             AttributeError,
-            OverflowError,
+            ArithmeticError,
             struct.error,
             TypeError,
             ValueError,
@@ -254,13 +255,13 @@ class NMEAMessage:
             else:
                 if att == nmt.LND and att in self._latlon:
                     lon = getattr(self, self._latlon[att])
-                    if isinstance(lon, (int, float)):
+                    if isinstance(lon, Number):
                         val = "W" if lon < 0 else "E"
                     else:  # pragma: no cover
                         val = "E"
                 elif att == nmt.LAD and att in self._latlon:
                     lat = getattr(self, self._latlon[att])
-                    if isinstance(lat, (int, float)):
+                    if isinstance(lat, Number):
                         val = "S" if lat < 0 else "N"
                     else:  # pragma: no cover
                         val = "N"
-- 
2.43.0


From 6b176cc0828d9e1b9dc2b66df1f216b44cd6388a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:44:33 +0000
Subject: [PATCH 43/43] fix: C06 Decimal values below 1e-6 were generated with
 exponent

---
 src/pynmeagps/nmeamessage.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pynmeagps/nmeamessage.py b/src/pynmeagps/nmeamessage.py
index 319bc7c..8b8fb30 100644
--- a/src/pynmeagps/nmeamessage.py
+++ b/src/pynmeagps/nmeamessage.py
@@ -791,7 +791,7 @@ class NMEAMessage:
             vals = str(val)
         elif att == nmt.DE:
             vals = str(val)
-            if isinstance(val, float) and "e" in vals:
+            if isinstance(val, (float, Decimal)) and "e" in vals.lower():
                 vals = f"{Decimal(vals):f}"  # NMEA decimals have no exponent
         elif att == nmt.IN:
             vals = str(val)
-- 
2.43.0

