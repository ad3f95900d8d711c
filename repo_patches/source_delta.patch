From a57a52e831923293f9533abbc8de122c8a9aa728 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:50 +0000
Subject: [PATCH 01/13] fix: import is_slinkuhi in jvozba so get_lujvo does not
 raise NameError

---
 py/latkerlo_jvotci/jvozba.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/py/latkerlo_jvotci/jvozba.py b/py/latkerlo_jvotci/jvozba.py
index 69b4add..42c358e 100644
--- a/py/latkerlo_jvotci/jvozba.py
+++ b/py/latkerlo_jvotci/jvozba.py
@@ -6,7 +6,7 @@ Modified by latkerlo (https://github.com/latkerlo), Copyright (c) 2023-2024
 """
 
 from latkerlo_jvotci.tarmi import *
-from latkerlo_jvotci.tools import analyse_brivla, check_zihevla_or_rafsi, normalise
+from latkerlo_jvotci.tools import analyse_brivla, check_zihevla_or_rafsi, is_slinkuhi, normalise
 from latkerlo_jvotci.rafsi import RAFSI_LIST
 from latkerlo_jvotci.data import BANNED_TRIPLES
 from latkerlo_jvotci.exceptions import NoLujvoFoundError, InvalidClusterError, NonLojbanCharacterError, NotZihevlaError, NotBrivlaError
-- 
2.43.0


From 9a5eff5f5d765b8cbad5848fd67fa13d98d13f44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:37 +0000
Subject: [PATCH 02/13] fix: normalise no longer raises IndexError on an empty
 string

---
 py/latkerlo_jvotci/tools.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/py/latkerlo_jvotci/tools.py b/py/latkerlo_jvotci/tools.py
index 42b498c..d0857ad 100644
--- a/py/latkerlo_jvotci/tools.py
+++ b/py/latkerlo_jvotci/tools.py
@@ -19,7 +19,7 @@ def normalise(word: str) -> str:
     :param word: A lojban word.
     :return: The normalised form.
     """
-    if word[0] == ".":
+    if word.startswith("."):
         word = word[1:]
     word = word.lower()
     word = word.replace("h", "'")
-- 
2.43.0


From b9cda96cb8430ae67f9441d47bc1a9dbadeb3c9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:37 +0000
Subject: [PATCH 03/13] fix: an empty tanru component raises
 NonLojbanCharacterError, not IndexError

---
 py/latkerlo_jvotci/jvozba.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/py/latkerlo_jvotci/jvozba.py b/py/latkerlo_jvotci/jvozba.py
index 42c358e..2f0b01a 100644
--- a/py/latkerlo_jvotci/jvozba.py
+++ b/py/latkerlo_jvotci/jvozba.py
@@ -167,7 +167,7 @@ def get_rafsi_list_list(
         rafsi_list: list[tuple[str, int]] = []
         is_first = i == 0
         is_last = i == len(valsi_list) - 1
-        if valsi[-1] == "-":
+        if valsi.endswith("-"):
             is_short_brivla = valsi[0] != "-"
             valsi = valsi.strip('-')
             if not is_only_lojban_characters(valsi):
-- 
2.43.0


From 32ffced3c846df0edf078279b46d553ecc1d7bb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:37 +0000
Subject: [PATCH 04/13] fix: a tanru of less than two words raises
 NoLujvoFoundError, not IndexError

---
 py/latkerlo_jvotci/jvozba.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/py/latkerlo_jvotci/jvozba.py b/py/latkerlo_jvotci/jvozba.py
index 2f0b01a..d560580 100644
--- a/py/latkerlo_jvotci/jvozba.py
+++ b/py/latkerlo_jvotci/jvozba.py
@@ -442,6 +442,8 @@ def get_lujvo_from_list(
     :return: The best lujvo, its score, and list of rafsi start/end indices.
     """
     rafsi_list_list = get_rafsi_list_list(valsi_list, y_hyphens, exp_rafsi_shapes, consonants, glides, allow_mz)
+    if len(rafsi_list_list) < 2:
+        raise NoLujvoFoundError(f"Less than two words in {{{' '.join(valsi_list)}}}")
     current_best = [[{}, {}, {}], [{}, {}, {}], [{}, {}, {}]]
     for rafsi0, num_consonants_0 in rafsi_list_list[0]:
         for rafsi1, num_consonants_1 in rafsi_list_list[1]:
-- 
2.43.0


From 37ec16723f64c149b088c6a46d27c5bc851af137 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:37 +0000
Subject: [PATCH 05/13] fix: a bad vowel sequence after y' raises
 NotBrivlaError, not DecompositionError

---
 py/latkerlo_jvotci/tools.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/py/latkerlo_jvotci/tools.py b/py/latkerlo_jvotci/tools.py
index d0857ad..3c4167d 100644
--- a/py/latkerlo_jvotci/tools.py
+++ b/py/latkerlo_jvotci/tools.py
@@ -324,7 +324,11 @@ def analyse_brivla(
                 raise NotBrivlaError("that was only a '")
             first_cons = next((i for i, c in enumerate(part) if not is_vowel(c)), -1)
             vchunk = part if first_cons == -1 else part[:first_cons]
-            if not is_vowel(part[0]) or split_vowel_cluster(vchunk)[0] in FOLLOW_VOWEL_CLUSTERS:
+            try:
+                starts_badly = not is_vowel(part[0]) or split_vowel_cluster(vchunk)[0] in FOLLOW_VOWEL_CLUSTERS
+            except DecompositionError:
+                raise NotBrivlaError(f"bad vowel sequence after ': {{{part}}}")
+            if starts_badly:
                 raise NotBrivlaError(f"consonant or glide after ': {{{part}}}")
         elif i > 0 and is_vowel(part[0]) and not is_glide(part):
             raise NotBrivlaError(f"non-glide vowel after y: {{{part}}}")
-- 
2.43.0


From 512e5b50f6f6ab97ae03531c833dd70daf231b69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:37 +0000
Subject: [PATCH 06/13] fix: analyse_brivla no longer raises IndexError when
 'yy follows a rafsi

---
 py/latkerlo_jvotci/tools.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/py/latkerlo_jvotci/tools.py b/py/latkerlo_jvotci/tools.py
index 3c4167d..12e4805 100644
--- a/py/latkerlo_jvotci/tools.py
+++ b/py/latkerlo_jvotci/tools.py
@@ -352,7 +352,7 @@ def analyse_brivla(
         did_add_a = False
         part_a = part + "a"
         if part[-1] == "'":
-            if y_hyphens == STANDARD and not has_cluster and i < len(y_parts) - 1 and y_parts[i+1][0] != "'":
+            if y_hyphens == STANDARD and not has_cluster and i < len(y_parts) - 1 and not y_parts[i+1].startswith("'"):
                 require_cluster = True
             part = part[:-1]
             part_copy = part
-- 
2.43.0


From 3bdc90db725e0972693d4a6c351642bc4a4c6f6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:37 +0000
Subject: [PATCH 07/13] fix: jvokaha_2 raises DecompositionError, not
 IndexError, on a trailing r

---
 py/latkerlo_jvotci/katna.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/py/latkerlo_jvotci/katna.py b/py/latkerlo_jvotci/katna.py
index 619e954..26f7bef 100644
--- a/py/latkerlo_jvotci/katna.py
+++ b/py/latkerlo_jvotci/katna.py
@@ -179,7 +179,7 @@ def jvokaha_2(
                 continue
             elif y_hyphens != FORCE_Y and (
                 lujvo[:2] == "nr"  # n-hyphen is only allowed before r
-                or lujvo[0] == "r" and is_consonant(lujvo[1]) and lujvo[1] != "r"  # r followed by a consonant
+                or lujvo[0] == "r" and len(lujvo) > 1 and is_consonant(lujvo[1]) and lujvo[1] != "r"  # r followed by a consonant
             ) and rafsi_tarmi(res[-1]) in [CVV, CVhV]:
                 res.append(lujvo[0])
                 lujvo = lujvo[1:]
-- 
2.43.0


From 650864862d68711cacec1f9ef415349544fe8e44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:37 +0000
Subject: [PATCH 08/13] fix: is_gismu_or_lujvo returns False for words starting
 with CCV'y

---
 py/latkerlo_jvotci/tools.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/py/latkerlo_jvotci/tools.py b/py/latkerlo_jvotci/tools.py
index 12e4805..5e6b7b9 100644
--- a/py/latkerlo_jvotci/tools.py
+++ b/py/latkerlo_jvotci/tools.py
@@ -48,7 +48,7 @@ def is_gismu_or_lujvo(a_string: str, y_hyphens: str = STANDARD, allow_mz: bool =
 
     try:
         jvokaha(a_string, y_hyphens=y_hyphens, allow_mz=allow_mz)  # TODO more settings?
-    except (DecompositionError, InvalidClusterError):
+    except (DecompositionError, InvalidClusterError, NotBrivlaError):
         return False
 
     return True
-- 
2.43.0


From d904efeab7eba39718a98ca8d0f72151cdedc811 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:38 +0000
Subject: [PATCH 09/13] fix: score_lujvo charges a y hyphen the same as
 get_lujvo_with_analytics

---
 py/latkerlo_jvotci/katna.py | 7 +------
 1 file changed, 1 insertion(+), 6 deletions(-)

diff --git a/py/latkerlo_jvotci/katna.py b/py/latkerlo_jvotci/katna.py
index 26f7bef..c2101ac 100644
--- a/py/latkerlo_jvotci/katna.py
+++ b/py/latkerlo_jvotci/katna.py
@@ -257,12 +257,7 @@ def score_lujvo(
         allow_mz: bool = False) -> int:
     get_veljvo(lujvo, y_hyphens, exp_rafsi_shapes, consonants, glides, allow_mz)
     decomp = analyse_brivla(lujvo, y_hyphens, exp_rafsi_shapes, consonants, glides, allow_mz)[1]
-    return sum(
-        1000 * len(r)
-        if r in ["y", "n", "r", ""]
-        else score(r)
-        for r in decomp
-    ) - tiebreak(lujvo)
+    return sum(score(r) for r in decomp) - tiebreak(lujvo)
 
 
 def get_veljvo(
-- 
2.43.0


From 8f1f6f490f8b842b378ec8925e938187f5a6405c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:38 +0000
Subject: [PATCH 10/13] fix: score_lujvo applies the tiebreak to the normalised
 word

---
 py/latkerlo_jvotci/katna.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/py/latkerlo_jvotci/katna.py b/py/latkerlo_jvotci/katna.py
index c2101ac..fdbaba8 100644
--- a/py/latkerlo_jvotci/katna.py
+++ b/py/latkerlo_jvotci/katna.py
@@ -257,7 +257,7 @@ def score_lujvo(
         allow_mz: bool = False) -> int:
     get_veljvo(lujvo, y_hyphens, exp_rafsi_shapes, consonants, glides, allow_mz)
     decomp = analyse_brivla(lujvo, y_hyphens, exp_rafsi_shapes, consonants, glides, allow_mz)[1]
-    return sum(score(r) for r in decomp) - tiebreak(lujvo)
+    return sum(score(r) for r in decomp) - tiebreak("".join(decomp))
 
 
 def get_veljvo(
-- 
2.43.0


From c841e8cf0e0272f9cbc587080d7131b376ffbf6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:38 +0000
Subject: [PATCH 11/13] fix: combine checks the previous rafsi before a
 vowel-only one, as in JS and Rust

---
 py/latkerlo_jvotci/jvozba.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/py/latkerlo_jvotci/jvozba.py b/py/latkerlo_jvotci/jvozba.py
index d560580..7fd6226 100644
--- a/py/latkerlo_jvotci/jvozba.py
+++ b/py/latkerlo_jvotci/jvozba.py
@@ -326,8 +326,8 @@ def combine(
     raftai_1 = tarmi_ignoring_hyphen(rafsi)
     if lujvo[-1] not in "y'" and raftai_1 == OTHER_RAFSI:
         return
-    prulamrafsi = lujvo[index_list[-1][0]:index_list[-1][0]];
-    if rafsi_tarmi(prulamrafsi) in [CVV, CVC] and bool(re.match(r"^[aeiou']+$", prulamrafsi) and (rafsi[0] == "'" or is_glide(rafsi) and not glides and consonants == CLUSTER)):
+    prulamrafsi = lujvo[index_list[-1][0]:index_list[-1][1]]
+    if rafsi_tarmi(prulamrafsi) in [CVV, CVC] and bool(re.match(r"^[aeiou']+$", rafsi) and (rafsi[0] == "'" or is_glide(rafsi) and not glides and consonants == CLUSTER)):
         return
     hyphen = ""
     if lujvo[-1] == "'":
-- 
2.43.0


From db682202b3de1d8c40006b1d5fb4f46c7e1076f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:18 +0000
Subject: [PATCH 12/13] fix: the tiebreak is applied only to complete two-part
 lujvo, as score_lujvo does

---
 py/latkerlo_jvotci/jvozba.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/py/latkerlo_jvotci/jvozba.py b/py/latkerlo_jvotci/jvozba.py
index 7fd6226..e55af3d 100644
--- a/py/latkerlo_jvotci/jvozba.py
+++ b/py/latkerlo_jvotci/jvozba.py
@@ -395,7 +395,7 @@ def combine(
     return (
         tosmabru_type,
         total_consonants,
-        lujvo_score + score(hyphen) + score(rafsi) - tiebreak(res),
+        lujvo_score + score(hyphen) + score(rafsi) - (tiebreak(res) if tanru_len == 2 else 0),
         res,
         index_list
     )
-- 
2.43.0


From d08927bb12af5270dbd9822013b5113ce23d1b9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:18 +0000
Subject: [PATCH 13/13] fix: js/docs rafsi list matches js/src for fizbu and
 jicfo

---
 js/docs/rafsi.js | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/js/docs/rafsi.js b/js/docs/rafsi.js
index 43d1c9d..b115d2d 100644
--- a/js/docs/rafsi.js
+++ b/js/docs/rafsi.js
@@ -503,7 +503,7 @@ const RAFSI_LIST = new Map([
     ["finti", ['fin', "fi'i"]],
     ["firca", []],
     ["fisli", []],
-    ["fizbu", []],
+    ["fizbu", ['zbu']],
     ["fizde", ['fiz']],
     ["flaci", []],
     ["flalu", ['fla']],
@@ -679,7 +679,7 @@ const RAFSI_LIST = new Map([
     ["jguvi", []],
     ["jibni", ['jbi']],
     ["jibri", ['jib']],
-    ["jicfo", []],
+    ["jicfo", ['cfo']],
     ["jicla", []],
     ["jicmu", ['cmu']],
     ["jidge", ['jid']],
-- 
2.43.0

