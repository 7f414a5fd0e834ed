From 3c212a4884e17fa5c90d1d35b09acf2e7223f170 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:51 +0000
Subject: [PATCH 01/13] fix: get_element_at() returns None for the index one
 past the last element

---
 F15_Parser/ExtractedRouteSequence.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/F15_Parser/ExtractedRouteSequence.py b/F15_Parser/ExtractedRouteSequence.py
index e6a8ad2..a81e737 100644
--- a/F15_Parser/ExtractedRouteSequence.py
+++ b/F15_Parser/ExtractedRouteSequence.py
@@ -147,7 +147,7 @@ class ExtractedRouteSequence:
 
         :param index: The index of the extracted route record to be retrieved;
         :return: An instance of ExtractedRouteRecord located at index provided or None if index is out of range;"""
-        if index < 0 or index > self.get_number_of_elements():
+        if index < 0 or index >= self.get_number_of_elements():
             return None
         return self.extracted_route_records[index]
 
-- 
2.43.0


From a506bbeb708bdb345eef6be596ba0b2e24a29b77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:53 +0000
Subject: [PATCH 02/13] fix: cruise climb target level keeps its level type
 letter for every speed/level form

---
 F15_Parser/F15Parse.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/F15_Parser/F15Parse.py b/F15_Parser/F15Parse.py
index 1e7c25d..44899f5 100644
--- a/F15_Parser/F15Parse.py
+++ b/F15_Parser/F15Parse.py
@@ -548,21 +548,21 @@ class ParseF15:
                     TokenSubType.F15_SB_SPEED_ALTITUDE_NMF | TokenSubType.F15_SB_SPEED_ALTITUDE_NMS | \
                     TokenSubType.F15_SB_SPEED_ALTITUDE_NMA | TokenSubType.F15_SB_SPEED_ALTITUDE_NMM:
                 self.assign_altitude(ers, token, ex_route_rec, token_string[5:10], False)
-                self.assign_altitude(ers, token, ex_route_rec, token_string[11:], True)
+                self.assign_altitude(ers, token, ex_route_rec, token_string[10:], True)
                 self.assign_speed(ex_route_rec, token_string[0:5])
             case TokenSubType.F15_SB_SPEED_ALTITUDE_MFF | TokenSubType.F15_SB_SPEED_ALTITUDE_MFS | \
                     TokenSubType.F15_SB_SPEED_ALTITUDE_MFA | TokenSubType.F15_SB_SPEED_ALTITUDE_MFM | \
                     TokenSubType.F15_SB_SPEED_ALTITUDE_MAF | TokenSubType.F15_SB_SPEED_ALTITUDE_MAS | \
                     TokenSubType.F15_SB_SPEED_ALTITUDE_MAA | TokenSubType.F15_SB_SPEED_ALTITUDE_MAM:
                 self.assign_altitude(ers, token, ex_route_rec, token_string[4:8], False)
-                self.assign_altitude(ers, token, ex_route_rec, token_string[9:], True)
+                self.assign_altitude(ers, token, ex_route_rec, token_string[8:], True)
                 self.assign_speed(ex_route_rec, token_string[0:4])
             case TokenSubType.F15_SB_SPEED_ALTITUDE_MSF | TokenSubType.F15_SB_SPEED_ALTITUDE_MSS | \
                     TokenSubType.F15_SB_SPEED_ALTITUDE_MSA | TokenSubType.F15_SB_SPEED_ALTITUDE_MSM | \
                     TokenSubType.F15_SB_SPEED_ALTITUDE_MMF | TokenSubType.F15_SB_SPEED_ALTITUDE_MMS | \
                     TokenSubType.F15_SB_SPEED_ALTITUDE_MMA | TokenSubType.F15_SB_SPEED_ALTITUDE_MMM:
                 self.assign_altitude(ers, token, ex_route_rec, token_string[4:9], False)
-                self.assign_altitude(ers, token, ex_route_rec, token_string[10:], True)
+                self.assign_altitude(ers, token, ex_route_rec, token_string[9:], True)
                 self.assign_speed(ex_route_rec, token_string[0:4])
             case _:
                 self.assign_altitude(ers, token, ex_route_rec, "X000", False)
-- 
2.43.0


From deb8ec5b17080c8abf1281173da3bcc4fd46d9eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:55 +0000
Subject: [PATCH 03/13] fix: cruise climb syntax of N...A...S, N...A...M and
 subtype of K...F...A elements

---
 F15_Parser/F15TokenSyntaxDescriptions.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/F15_Parser/F15TokenSyntaxDescriptions.py b/F15_Parser/F15TokenSyntaxDescriptions.py
index ebb3cfb..c3e634d 100644
--- a/F15_Parser/F15TokenSyntaxDescriptions.py
+++ b/F15_Parser/F15TokenSyntaxDescriptions.py
@@ -319,11 +319,11 @@ class F15TokenSyntaxDefinition:
          TokenSubType.F15_SB_SPEED_ALTITUDE_NSM],
         ["N[0-9]{4}A[0-9]{3}F[0-9]{3}", TokenBaseType.F15_SPEED_ALTITUDE_ALTITUDE,
          TokenSubType.F15_SB_SPEED_ALTITUDE_NAF],
-        ["N[0-9]{4}A[0-9]{4}S[0-9]{4}", TokenBaseType.F15_SPEED_ALTITUDE_ALTITUDE,
+        ["N[0-9]{4}A[0-9]{3}S[0-9]{4}", TokenBaseType.F15_SPEED_ALTITUDE_ALTITUDE,
          TokenSubType.F15_SB_SPEED_ALTITUDE_NAS],
         ["N[0-9]{4}A[0-9]{3}A[0-9]{3}", TokenBaseType.F15_SPEED_ALTITUDE_ALTITUDE,
          TokenSubType.F15_SB_SPEED_ALTITUDE_NAA],
-        ["N[0-9]{4}A[0-9]{4}M[0-9]{4}", TokenBaseType.F15_SPEED_ALTITUDE_ALTITUDE,
+        ["N[0-9]{4}A[0-9]{3}M[0-9]{4}", TokenBaseType.F15_SPEED_ALTITUDE_ALTITUDE,
          TokenSubType.F15_SB_SPEED_ALTITUDE_NAM],
         ["N[0-9]{4}M[0-9]{4}F[0-9]{3}", TokenBaseType.F15_SPEED_ALTITUDE_ALTITUDE,
          TokenSubType.F15_SB_SPEED_ALTITUDE_NMF],
@@ -338,7 +338,7 @@ class F15TokenSyntaxDefinition:
         ["K[0-9]{4}F[0-9]{3}S[0-9]{4}", TokenBaseType.F15_SPEED_ALTITUDE_ALTITUDE,
          TokenSubType.F15_SB_SPEED_ALTITUDE_KFS],
         ["K[0-9]{4}F[0-9]{3}A[0-9]{3}", TokenBaseType.F15_SPEED_ALTITUDE_ALTITUDE,
-         TokenSubType.F15_SB_SPEED_ALTITUDE_KFS],
+         TokenSubType.F15_SB_SPEED_ALTITUDE_KFA],
         ["K[0-9]{4}F[0-9]{3}M[0-9]{4}", TokenBaseType.F15_SPEED_ALTITUDE_ALTITUDE,
          TokenSubType.F15_SB_SPEED_ALTITUDE_KFM],
         ["K[0-9]{4}S[0-9]{4}F[0-9]{3}", TokenBaseType.F15_SPEED_ALTITUDE_ALTITUDE,
-- 
2.43.0


From 6fa908f30540608da1cb09b1be2577cbc576ccd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:56 +0000
Subject: [PATCH 04/13] fix: re-synchronising on a break end no longer drops
 the rest of field 15

---
 F15_Parser/F15Parse.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/F15_Parser/F15Parse.py b/F15_Parser/F15Parse.py
index 44899f5..d91b2f5 100644
--- a/F15_Parser/F15Parse.py
+++ b/F15_Parser/F15Parse.py
@@ -1304,6 +1304,9 @@ class ParseF15:
                 self.assign_speed_vfr(ers, tokens, token)
             case TokenBaseType.F15_BREAK_END:
                 self.break_end(ers, tokens, token)
+                # If no rule change took place, break_end() returns without consuming the
+                # tokens following the break end; continue with whatever is left over.
+                self.re_sync_parser_after_error(ers, tokens)
             case TokenBaseType.F15_DCT:
                 self.dct(ers, tokens, token)
             case TokenBaseType.F15_STAY:
-- 
2.43.0


From 712ef6f847631749de195c0828efb93e925b4211 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:22 +0000
Subject: [PATCH 05/13] fix: an over-long break text element is saved on its
 own break section

---
 F15_Parser/F15Parse.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/F15_Parser/F15Parse.py b/F15_Parser/F15Parse.py
index d91b2f5..d82b5b9 100644
--- a/F15_Parser/F15Parse.py
+++ b/F15_Parser/F15Parse.py
@@ -834,14 +834,15 @@ class ParseF15:
         :param token: The 'break' text token being saved to the 'break' start token;
         :return: None
         """
-        base_type = token.get_token_base_type()
-        if base_type is TokenBaseType.F15_TOO_LONG:
-            self.add_error_and_re_sync(ers, tokens, token, 4)
-
         # Save the token as break text
         last_ers = ers.get_last_element()
         last_ers.append_break_text(token.get_token_string())
 
+        base_type = token.get_token_base_type()
+        if base_type is TokenBaseType.F15_TOO_LONG:
+            self.add_error_and_re_sync(ers, tokens, token, 4)
+            return
+
         sub_type = token.get_token_sub_type()
         cur_break_type = ers.get_last_element().get_flight_rules()
 
-- 
2.43.0


From a6b5c07435d444e5cf1213a2f8c9ff825fff34f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:24 +0000
Subject: [PATCH 06/13] fix: a lat/long point reported for following an ATS
 route keeps its place in the ERS

---
 F15_Parser/F15Parse.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/F15_Parser/F15Parse.py b/F15_Parser/F15Parse.py
index d82b5b9..0bd65f4 100644
--- a/F15_Parser/F15Parse.py
+++ b/F15_Parser/F15Parse.py
@@ -1384,7 +1384,7 @@ class ParseF15:
                 if sub_type == TokenSubType.F15_SB_PRP_BD or sub_type == TokenSubType.F15_SB_LL_DEG or \
                     sub_type == TokenSubType.F15_SB_LL_MIN or sub_type == TokenSubType.F15_SB_LLBD_DEG or \
                         sub_type == TokenSubType.F15_SB_LLBD_MIN:
-                    self.add_error_and_re_sync(ers, tokens, next_token, 48)
+                    self.add_error_no_re_sync(ers, next_token, 48)
                 self.point(ers, tokens, next_token)
             case TokenBaseType.F15_ROUTE:
                 self.add_error_and_re_sync(ers, tokens, next_token, 53)
-- 
2.43.0


From 9a6705f92b5d56369c8dbf81f22956ec18a1a33d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:25 +0000
Subject: [PATCH 07/13] fix: a cruise climb point without a '/' no longer
 reports a second, spurious error

---
 F15_Parser/F15Parse.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/F15_Parser/F15Parse.py b/F15_Parser/F15Parse.py
index 0bd65f4..126c5bb 100644
--- a/F15_Parser/F15Parse.py
+++ b/F15_Parser/F15Parse.py
@@ -989,6 +989,7 @@ class ParseF15:
         base_type = next_token.get_token_base_type()
         if base_type is not TokenBaseType.F15_SLASH:
             self.add_error_and_re_sync(ers, tokens, next_token, 26)
+            return
 
         # Skip the forward slash and get the SPEED/ALTITUDE/ALTITUDE or
         # SPEED / ALTITUDE / PLUS token
-- 
2.43.0


From 662146b208c12e441a43c81afb639fa3d33c9c9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:33 +0000
Subject: [PATCH 08/13] fix: a cruise climb 'C/' must be followed by a point

---
 F15_Parser/F15Parse.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/F15_Parser/F15Parse.py b/F15_Parser/F15Parse.py
index 126c5bb..05b7f99 100644
--- a/F15_Parser/F15Parse.py
+++ b/F15_Parser/F15Parse.py
@@ -921,7 +921,15 @@ class ParseF15:
                     self.add_error_and_re_sync(ers, tokens, slash_token, 52)
                     return
                 # Process the cruise climb point
-                self.cruise_climb_point(ers, tokens, next_token)
+                match next_token.get_token_base_type():
+                    case TokenBaseType.F15_POINT | TokenBaseType.F15_C:
+                        self.cruise_climb_point(ers, tokens, next_token)
+                    case TokenBaseType.F15_UNKNOWN:
+                        self.add_error_and_re_sync(ers, tokens, next_token, 3)
+                    case TokenBaseType.F15_TOO_LONG:
+                        self.add_error_and_re_sync(ers, tokens, next_token, 4)
+                    case _:
+                        self.add_error_and_re_sync(ers, tokens, next_token, 18)
             case TokenBaseType.F15_BREAK_START:
                 self.add_record(ers, token)
                 self.break_start(ers, tokens, next_token)
-- 
2.43.0


From 42aad346937ed26918d790fc3caf26b0663db9d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:35 +0000
Subject: [PATCH 09/13] fix: lat/long of the point of a VFR to IFR to VFR rule
 change is decoded and checked

---
 F15_Parser/F15Parse.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/F15_Parser/F15Parse.py b/F15_Parser/F15Parse.py
index 05b7f99..d3e8826 100644
--- a/F15_Parser/F15Parse.py
+++ b/F15_Parser/F15Parse.py
@@ -1688,6 +1688,11 @@ class ParseF15:
         token = tokens.get_next_token()
         ex_route_rec = self.add_record(ers, token)
 
+        # Check lat/long and bearing distance semantics
+        if token.get_token_sub_type() != TokenSubType.F15_SB_PRP and \
+                token.get_token_sub_type() != TokenSubType.F15_SB_PRP_AERO:
+            self.assign_lat_long_bearing_distance(ers, token)
+
         # As this rule change is VFR to IFR and this is a speed altitude element,
         # the rules must be IFR
         ex_route_rec.set_flight_rules(self.RULES["I"])
-- 
2.43.0


From 095e8f589cd8fa447110d058ba8bdda2970323ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:37 +0000
Subject: [PATCH 10/13] fix: azimuth and distance do not skip over an
 intermediate point without coordinates

---
 F15_Parser/F15Parse.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/F15_Parser/F15Parse.py b/F15_Parser/F15Parse.py
index d3e8826..77f14e5 100644
--- a/F15_Parser/F15Parse.py
+++ b/F15_Parser/F15Parse.py
@@ -249,7 +249,7 @@ class ParseF15:
                 # Set azimuth and distance between the two points at the previous
                 # point.
                 self.set_azimuth_and_distance(last_but_one_ers, last_ers)
-            else:
+            elif last_but_one_ers.get_base_type() not in (TokenBaseType.F15_POINT, TokenBaseType.F15_C):
                 # Go back one more ERS element and check if this is a point
                 last_minus_two_ers = ers.get_element_at(ers.get_number_of_elements()-3)
                 if last_minus_two_ers is None:
-- 
2.43.0


From c4fa607af04d22b041536303d988284bb8178326 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:38 +0000
Subject: [PATCH 11/13] fix: a point with out of range angles is not flagged as
 a valid lat/long nor used for azimuth and distance

---
 F15_Parser/F15Parse.py | 30 ++++++++++++++++++++----------
 1 file changed, 20 insertions(+), 10 deletions(-)

diff --git a/F15_Parser/F15Parse.py b/F15_Parser/F15Parse.py
index 77f14e5..27e0fd3 100644
--- a/F15_Parser/F15Parse.py
+++ b/F15_Parser/F15Parse.py
@@ -311,28 +311,34 @@ class ParseF15:
             case TokenSubType.F15_SB_LL_DEG:
                 # Lat/Long in Degrees
                 self.assign_ll_deg(ers, token, ex_route_rec, token_string)
+                self.assign_azimuth_distance_between_points(ers)
             case TokenSubType.F15_SB_LL_MIN:
                 # Lat/Long in Degrees and Minutes
                 self.assign_ll_deg_min(ers, token, ex_route_rec, token_string)
+                self.assign_azimuth_distance_between_points(ers)
             case TokenSubType.F15_SB_LLBD_DEG:
                 # Lat/Long in Degrees followed Bearing Distance
                 self.assign_ll_deg(ers, token, ex_route_rec, token_string)
                 # Process the bearing component
                 if not Utils.is_degree_semantics(token_string[-6:-3], 360):
                     self.add_error_no_re_sync(ers, token, 46)
+                    ex_route_rec.set_lat_long_valid(False)
                 # Calculate the 'real' point from the given lat/long and the
-                # bearing / distance.
-                self.resolve_real_bd_point(
-                     ers, ex_route_rec, float(token_string[-6:-3]), float(token_string[-3:]))
+                # bearing / distance, only possible if all the angles are valid.
+                if ex_route_rec.is_lat_long_valid():
+                    self.resolve_real_bd_point(
+                         ers, ex_route_rec, float(token_string[-6:-3]), float(token_string[-3:]))
             case TokenSubType.F15_SB_LLBD_MIN:
                 # Lat/Long in Degrees and Minutes followed by Bearing Distance
                 self.assign_ll_deg_min(ers, token, ex_route_rec, token_string)
                 if not Utils.is_degree_semantics(token_string[-6:-3], 360):
                     self.add_error_no_re_sync(ers, token, 46)
+                    ex_route_rec.set_lat_long_valid(False)
                 # Calculate the 'real' point from the given lat/long and the
-                # bearing / distance.
-                self.resolve_real_bd_point(
-                     ers, ex_route_rec, float(token_string[-6:-3]), float(token_string[-3:]))
+                # bearing / distance, only possible if all the angles are valid.
+                if ex_route_rec.is_lat_long_valid():
+                    self.resolve_real_bd_point(
+                         ers, ex_route_rec, float(token_string[-6:-3]), float(token_string[-3:]))
 
     def assign_ll_deg(self, ers, token, ex_route_rec, token_string):
         # type: (ExtractedRouteSequence, Token, ExtractedRouteRecord, str) -> None
@@ -355,12 +361,14 @@ class ParseF15:
         """
         self.assign_latitude(ex_route_rec, token_string[0:3])
         self.assign_longitude(ex_route_rec, token_string[3:7])
+        valid = True
         if not Utils.is_degree_semantics(token_string[0:2], 90):
             self.add_error_no_re_sync(ers, token, 42)
+            valid = False
         if not Utils.is_degree_semantics(token_string[3:6], 180):
             self.add_error_no_re_sync(ers, token, 44)
-        ex_route_rec.set_lat_long_valid(True)
-        self.assign_azimuth_distance_between_points(ers)
+            valid = False
+        ex_route_rec.set_lat_long_valid(valid)
 
     def assign_ll_deg_min(self, ers, token, ex_route_rec, token_string):
         # type: (ExtractedRouteSequence, Token, ExtractedRouteRecord, str) -> None
@@ -384,12 +392,14 @@ class ParseF15:
         """
         self.assign_latitude(ex_route_rec, token_string[0:5])
         self.assign_longitude(ex_route_rec, token_string[5:11])
+        valid = True
         if not Utils.is_degree_minute_semantics(token_string[0:4], 90, 2):
             self.add_error_no_re_sync(ers, token, 43)
+            valid = False
         if not Utils.is_degree_minute_semantics(token_string[5:10], 180, 3):
             self.add_error_no_re_sync(ers, token, 45)
-        ex_route_rec.set_lat_long_valid(True)
-        self.assign_azimuth_distance_between_points(ers)
+            valid = False
+        ex_route_rec.set_lat_long_valid(valid)
 
     @staticmethod
     def assign_longitude(ex_route_rec, longitude):
-- 
2.43.0


From 92094aa80ef384c501643ad4eedc5b7922751391 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:06 +0000
Subject: [PATCH 12/13] fix: as_xml() escapes element, break and error text so
 that the XML is well formed

---
 F15_Parser/ExtractedRouteRecord.py | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/F15_Parser/ExtractedRouteRecord.py b/F15_Parser/ExtractedRouteRecord.py
index 1fb9f8a..7a44897 100644
--- a/F15_Parser/ExtractedRouteRecord.py
+++ b/F15_Parser/ExtractedRouteRecord.py
@@ -1,3 +1,5 @@
+from xml.sax.saxutils import escape
+
 from F15_Parser.F15TokenSyntaxDescriptions import TokenBaseType, TokenSubType
 
 
@@ -566,5 +568,15 @@ class ExtractedRouteRecord:
                " altitude_cruise_to_si=\"" + "{0:.2f}".format(self.get_altitude_cruise_to_si()) + "\"" + \
                " latitude=\"" + "{0:>.2f}".format(self.get_latitude()) + "\"" + \
                " longitude=\"" + "{0:>.2f}".format(self.get_longitude()) + "\"" + \
-               " " + attr_name + "=\"" + error_or_break + "\"" + \
-               ">" + self.get_name() + "</" + rec_type + ">"
+               " " + attr_name + "=\"" + self.__escape_xml(error_or_break) + "\"" + \
+               ">" + self.__escape_xml(self.get_name()) + "</" + rec_type + ">"
+
+    @staticmethod
+    def __escape_xml(text):
+        # type: (str) -> str
+        """This method escapes characters having a special meaning in XML; field 15 elements, break text
+        and error text contain text as entered by a user that can contain any character.
+
+        :param text: The text to be included in an XML attribute or element;
+        :return: The text with all XML special characters escaped."""
+        return escape(text, {"\"": "&quot;", "\n": "&#10;", "\r": "&#13;", "\t": "&#9;"})
-- 
2.43.0


From 59872424cada1fe7a198f6fecea6c474824b81cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:36 +0000
Subject: [PATCH 13/13] fix: a cruise climb to PLUS clears the SI level of an
 earlier cruise climb target

---
 F15_Parser/F15Parse.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/F15_Parser/F15Parse.py b/F15_Parser/F15Parse.py
index 27e0fd3..78960a6 100644
--- a/F15_Parser/F15Parse.py
+++ b/F15_Parser/F15Parse.py
@@ -632,6 +632,9 @@ class ParseF15:
                 self.assign_speed(ex_route_rec, "X000")
                 return
 
+        # 'PLUS' is not a level, hence a level cruised to that was given before no longer applies
+        ex_route_rec.set_altitude_cruise_to_si(0.0)
+
         # As this is a speed altitude element, the rules must be IFR
         ex_route_rec.set_flight_rules(self.RULES["I"])
 
-- 
2.43.0

