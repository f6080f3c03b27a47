From a40b7459bf80621d99e2c0160a25fe28b65151c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:00:36 +0000
Subject: [PATCH 01/11] fix: hash per-file digests so the source fingerprint
 framing is unambiguous

---
 tn/cache.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/tn/cache.py b/tn/cache.py
index 62f6c96..2320e08 100644
--- a/tn/cache.py
+++ b/tn/cache.py
@@ -118,9 +118,12 @@ def production_source_fingerprint(project_root=None):
         relative_path = source.relative_to(project_root).as_posix().encode("utf-8")
         digest.update(len(relative_path).to_bytes(8, "big"))
         digest.update(relative_path)
+        content_digest = hashlib.sha256()
         with open(source, "rb") as source_file:
             for chunk in iter(lambda: source_file.read(1024 * 1024), b""):
-                digest.update(chunk)
+                content_digest.update(chunk)
+        # A fixed-size content digest keeps the path/content framing unambiguous.
+        digest.update(content_digest.digest())
     return digest.hexdigest()
 
 
-- 
2.43.0


From 060c4f2490cef5bb0fc31593ddac6fb754428ee6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:00:36 +0000
Subject: [PATCH 02/11] fix: accept quotes, backslashes and any surrounding
 whitespace in English ITN

---
 itn/english/inverse_normalizer.py | 2 +-
 itn/english/rules/word.py         | 7 +------
 2 files changed, 2 insertions(+), 7 deletions(-)

diff --git a/itn/english/inverse_normalizer.py b/itn/english/inverse_normalizer.py
index a617d6b..22559ca 100644
--- a/itn/english/inverse_normalizer.py
+++ b/itn/english/inverse_normalizer.py
@@ -81,7 +81,7 @@ class InverseNormalizer(Processor):
         punct = add_weight(punctuation.tagger, 1.1)
         token = closure(punct + delete(" ").ques) + classify + closure(delete(" ").ques + punct)
         graph = token + closure(self.DELETE_EXTRA_SPACE + token)
-        self.tagger = delete(" ").star + graph + delete(" ").star
+        self.tagger = self.DELETE_SPACE + graph + self.DELETE_SPACE
 
         verbalizer_rules = list(rules)
         verbalizer_rules.append(RuleSpec(punctuation))
diff --git a/itn/english/rules/word.py b/itn/english/rules/word.py
index 46c82bc..31f8f20 100644
--- a/itn/english/rules/word.py
+++ b/itn/english/rules/word.py
@@ -12,9 +12,6 @@
 # See the License for the specific language governing permissions and
 # limitations under the License.
 
-from pynini import difference, union
-from pynini.lib.pynutil import insert
-
 from tn.processor import Processor
 
 
@@ -26,6 +23,4 @@ class Word(Processor):
         self.build_verbalizer()
 
     def build_tagger(self):
-        valid_char = difference(self.NOT_SPACE, union('"', "\\"))
-        tagger = insert('value: "') + valid_char.plus + insert('"')
-        self.tagger = self.add_tokens(tagger)
+        self.tagger = self.add_tokens(self.tag_field("value", self.NOT_SPACE.plus))
-- 
2.43.0


From 133a144aef242b48cced405aaa13319cb8507648 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:00:36 +0000
Subject: [PATCH 03/11] fix: escape quotes and backslashes inside English
 emphasis tags

---
 tn/english/rules/punctuation.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/tn/english/rules/punctuation.py b/tn/english/rules/punctuation.py
index 5ab4488..b30e572 100644
--- a/tn/english/rules/punctuation.py
+++ b/tn/english/rules/punctuation.py
@@ -59,7 +59,7 @@ class Punctuation(Processor):
         self.emphasis = (
             accep("<") + (((self.NOT_SPACE - union("<", ">")).plus + closure(accep("/"), 0, 1))  # noqa
                           | (accep("/") + (self.NOT_SPACE - union("<", ">")).plus)) + accep(">"))  # noqa
-        punct = plurals._priority_union(self.emphasis, punct, self.VCHAR.star)
+        punct = plurals._priority_union(self.emphasis @ self.CHAR.star, punct, self.VCHAR.star)
 
         self.graph = punct
         # Adjacent punctuation is one lexical unit. Keep that classification
@@ -72,7 +72,8 @@ class Punctuation(Processor):
         self.tagger = self.add_tokens(final_graph)
 
     def build_verbalizer(self):
-        punct = closure(self.punct | self.emphasis | cross("\\\\\\", "\\") | cross('\\"', '"'), 1)
+        emphasis = self.SIGMA @ self.emphasis
+        punct = closure(self.punct | emphasis | cross("\\\\\\", "\\") | cross('\\"', '"'), 1)
         verbalizer = (delete('v: "') + add_weight(accep(" "), -1.0).star + punct + add_weight(accep(" "), -1.0).star +
                       delete('"'))
         self.verbalizer = self.delete_tokens(verbalizer)
-- 
2.43.0


From 91aa0e18a4371d3894e2094eb64625be3b8b77e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:00:36 +0000
Subject: [PATCH 04/11] fix: give every English TN input a tag path (whitespace
 runs, blank text, digit+symbol)

---
 tn/english/normalizer.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/tn/english/normalizer.py b/tn/english/normalizer.py
index 0d1933f..5844a3b 100644
--- a/tn/english/normalizer.py
+++ b/tn/english/normalizer.py
@@ -81,13 +81,19 @@ class Normalizer(Processor):
         classify = self.tagger_union(rules)
 
         punct = pynutil.add_weight(punctuation.tagger, 2.00)
-        token = pynini.closure(punct) + classify + pynini.closure(punct)
         separator = pynutil.delete(self.SPACE) | punct
-        graph = (self.DELETE_SPACE + token + pynini.closure(separator + token) + self.DELETE_SPACE) | punct
+        # Text such as "5€" has no separator to split on, so adjacent classes are
+        # allowed as a last resort that never outranks a separated reading.
+        boundary = separator.plus | pynutil.insert("", weight=10000)
+        tokens = classify + pynini.closure(boundary + classify)
+        graph = separator.star + (tokens | punct) + separator.star
+        # Whitespace-only text has no word or punctuation to tag.
+        graph |= punctuation.add_tokens(punctuation.tag_field("v", self.SPACE.plus))
         self.tagger = graph.optimize() @ self.build_rule(pynutil.delete(" "), r="[EOS]")
 
         classify = self.verbalizer_union(rules)
-        punct = punctuation.verbalizer.optimize()
+        blank = punctuation.delete_tokens(punctuation.verbalize_field("v", pynutil.delete(self.SPACE.plus)))
+        punct = (punctuation.verbalizer | blank).optimize()
         # Punct tokens carry surrounding spacing in their values (the tagger's
         # add_weight(accep(" "), -1.0).star absorbs spaces around punctuation).
         # So punct tokens handle their own spacing and don't need INSERT_SPACE.
-- 
2.43.0


From 21a71b028215b9597c997ae6e4746fc71d6cc130 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:02:24 +0000
Subject: [PATCH 05/11] fix: keep quotes and backslashes out of English month
 tags

---
 tn/english/rules/date.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/tn/english/rules/date.py b/tn/english/rules/date.py
index 96b2f48..b75a67d 100644
--- a/tn/english/rules/date.py
+++ b/tn/english/rules/date.py
@@ -167,7 +167,8 @@ class Date(Processor):
         # jan, Jan, JAN
         month_abbr_graph = pynini.string_file(get_abs_path("english/data/date/month_abbr.tsv"))
         month_graph |= month_abbr_graph
-        month_graph += pynutil.delete(self.PUNCT).ques
+        # A quote or backslash would be escaped in the tag, which the verbalizer does not decode.
+        month_graph += pynutil.delete(pynini.difference(self.PUNCT, pynini.union("\\", '"'))).ques
 
         month_numbers_labels = pynini.string_file(get_abs_path("english/data/date/month_number.tsv"))
         cardinal_graph = cardinal.graph_hundred_component_at_least_one_none_zero_digit
-- 
2.43.0


From 6134a3068ab2212cf5f3990cef6b29acb6849ea6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:02:24 +0000
Subject: [PATCH 06/11] fix: verbalize English amounts with a zero fraction and
 a quantity ($1.0 billion)

---
 tn/english/rules/money.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tn/english/rules/money.py b/tn/english/rules/money.py
index d46eeb0..d07001e 100644
--- a/tn/english/rules/money.py
+++ b/tn/english/rules/money.py
@@ -108,7 +108,7 @@ class Money(Processor):
                       trimmed_fraction + pynutil.delete('"'))
         optional_integer = (decimal.integer + self.DELETE_SPACE + self.INSERT_SPACE).ques
         money_decimal = (decimal.integer
-                         | decimal.integer + decimal.quantity
+                         | decimal.integer + zero_fraction.ques + decimal.quantity
                          | optional_integer + fractional + decimal.optional_quantity)
         graph_decimal = money_decimal + keep_space + maj_plural
 
-- 
2.43.0


From ad6cb311029e4c1f9d6e223c7762513672ac15a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:18:28 +0000
Subject: [PATCH 07/11] fix: verbalize bare English domains that end in a
 symbol (A.br!)

---
 tn/english/rules/electronic.py | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/tn/english/rules/electronic.py b/tn/english/rules/electronic.py
index 917c65e..c22e2d7 100644
--- a/tn/english/rules/electronic.py
+++ b/tn/english/rules/electronic.py
@@ -102,13 +102,11 @@ class Electronic(Processor):
 
         # abc.com, abc.com/123-sm
         # when only domain, make sure it starts and end with self.ALPHA
-        graph |= (self.tag_field(
-            "domain",
-            pynini.compose(
-                self.ALPHA + self.NOT_SPACE.star + accepted_common_domains + self.NOT_SPACE.star,
-                domain_graph,
-            ).optimize(),
-        ))
+        self.bare_domain_graph = pynini.compose(
+            self.ALPHA + self.NOT_SPACE.star + accepted_common_domains + self.NOT_SPACE.star,
+            domain_graph,
+        ).optimize()
+        graph |= self.tag_field("domain", self.bare_domain_graph)
         # www.abc.com/sdafsdf, or https://www.abc.com/asdfad or www.abc.abc/asdfad
         graph |= protocol + pynutil.insert(" ") + domain_graph_with_class_tags
 
@@ -168,7 +166,8 @@ class Electronic(Processor):
             self.VCHAR.star,
         ) + (self.INSERT_SPACE + default_chars_symbols).ques)
 
-        domain_value = self.domain_graph @ (domain | pynutil.add_weight(domain_all, weight=100)).optimize()
+        domain_source = (self.domain_graph | self.bare_domain_graph).optimize()
+        domain_value = domain_source @ (domain | pynutil.add_weight(domain_all, weight=100)).optimize()
         domain = (pynutil.delete("domain:") + self.DELETE_SPACE + pynutil.delete('"') + domain_value + self.DELETE_SPACE +
                   pynutil.delete('"')).optimize()
 
-- 
2.43.0


From 8d5e6150f6f0893f1c7e7517421efff78dc89338 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:18:28 +0000
Subject: [PATCH 08/11] fix: verbalize English amounts with a grouped or
 integer-less zero fraction and a quantity

---
 tn/english/rules/money.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/tn/english/rules/money.py b/tn/english/rules/money.py
index d07001e..09ec1c9 100644
--- a/tn/english/rules/money.py
+++ b/tn/english/rules/money.py
@@ -106,10 +106,17 @@ class Money(Processor):
         trimmed_fraction = (self.DIGIT.star + (self.DIGIT - "0") + pynutil.delete("0").star) @ decimal.graph
         fractional = (pynutil.insert("point ") + pynutil.delete("fractional_part:") + self.DELETE_SPACE + pynutil.delete('"') +
                       trimmed_fraction + pynutil.delete('"'))
+        # With a quantity the fraction may also be grouped, or all zeros without an integer.
+        untrimmed_fraction = (self.DIGIT.plus + "," + (self.DIGIT | ",").plus) @ decimal.graph
+        grouped = (pynutil.insert("point ") + pynutil.delete('fractional_part: "') + untrimmed_fraction + pynutil.delete('"'))
+        only_zeros = (pynutil.insert("point ") + pynutil.delete('fractional_part: "') + pynini.accep("0").plus @ decimal.graph +
+                      pynutil.delete('"'))
         optional_integer = (decimal.integer + self.DELETE_SPACE + self.INSERT_SPACE).ques
         money_decimal = (decimal.integer
                          | decimal.integer + zero_fraction.ques + decimal.quantity
-                         | optional_integer + fractional + decimal.optional_quantity)
+                         | optional_integer + fractional + decimal.optional_quantity
+                         | optional_integer + grouped + decimal.quantity
+                         | only_zeros + decimal.quantity)
         graph_decimal = money_decimal + keep_space + maj_plural
 
         graph = graph_integer | graph_decimal
-- 
2.43.0


From 9c14616dcf726b16db0ee53fa8d4ccd376945e94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:19:05 +0000
Subject: [PATCH 09/11] fix: treat an unparsable manifest or graph as a cache
 miss instead of failing

---
 tn/cache.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tn/cache.py b/tn/cache.py
index 2320e08..698b108 100644
--- a/tn/cache.py
+++ b/tn/cache.py
@@ -552,7 +552,7 @@ class CacheBundle:
                 manifest = json.loads(manifest_bytes.decode("utf-8"))
             except FileNotFoundError:
                 return None
-            except (OSError, UnicodeError, ValueError):
+            except (OSError, RecursionError, UnicodeError, ValueError):
                 return None
             if not isinstance(manifest, dict):
                 return None
@@ -591,7 +591,7 @@ class CacheBundle:
                     if metadata.get("sha256") != hashlib.sha256(fst_bytes).hexdigest():
                         return None
                     graphs.append(Fst.read_from_string(fst_bytes).optimize())
-                except (RuntimeError, TypeError, ValueError):
+                except (OSError, RuntimeError, TypeError, ValueError):
                     return None
             return tuple(graphs)
         except FileNotFoundError:
-- 
2.43.0


From 29818a7383d19d3aef7b3eb1359341516b7ff225 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:07:23 +0000
Subject: [PATCH 10/11] fix: refuse a FIFO in a cache bundle instead of
 blocking on it

---
 tn/cache.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/tn/cache.py b/tn/cache.py
index 698b108..f2a79bf 100644
--- a/tn/cache.py
+++ b/tn/cache.py
@@ -292,6 +292,8 @@ def _read_regular_file(path, expected_size=None, max_size=None):
 
 def _read_regular_at(directory_fd, basename, expected_size=None, max_size=None):
     flags = os.O_RDONLY | getattr(os, "O_CLOEXEC", 0) | getattr(os, "O_NOFOLLOW", 0)
+    # Opening a FIFO must reach the regular-file check instead of blocking.
+    flags |= getattr(os, "O_NONBLOCK", 0)
     try:
         descriptor = os.open(basename, flags, dir_fd=directory_fd)
     except OSError as error:
-- 
2.43.0


From 98f233d7ee9d84c1fba1480fdcb3b12f80d1f614 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:59:27 +0000
Subject: [PATCH 11/11] fix: report a lock timeout when the owner payload is
 nested too deeply

---
 tn/cache.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tn/cache.py b/tn/cache.py
index f2a79bf..65cbd55 100644
--- a/tn/cache.py
+++ b/tn/cache.py
@@ -649,7 +649,7 @@ class CacheBundle:
             if not isinstance(payload, dict):
                 return "non-dict owner payload"
             return repr(payload)
-        except (OSError, UnicodeError, ValueError, TypeError) as error:
+        except (OSError, RecursionError, UnicodeError, ValueError, TypeError) as error:
             return "unreadable owner payload {!r}".format(error)
 
     @staticmethod
-- 
2.43.0

