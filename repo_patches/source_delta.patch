From bec51efaff9b59d95d2f5ddb25112411dedc4808 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:47 +0000
Subject: [PATCH 01/16] fix: ignore whitespace around property names in a
 property list

---
 utg/templates.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/utg/templates.py b/utg/templates.py
index 82a5c90..4184906 100644
--- a/utg/templates.py
+++ b/utg/templates.py
@@ -61,7 +61,7 @@ class Substitution(object):
     def parse_properties(cls, text):
         properties = []
         for slug in text.split(','):
-            slug.strip()
+            slug = slug.strip()
 
             if not slug:
                 continue
-- 
2.43.0


From 2675f50a54a7a7ef82e53c739894937ae74c130a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:47 +0000
Subject: [PATCH 02/16] fix: report a blank marker id as a wrong dependency
 format

---
 utg/templates.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/utg/templates.py b/utg/templates.py
index 4184906..359c8b4 100644
--- a/utg/templates.py
+++ b/utg/templates.py
@@ -35,7 +35,7 @@ class Substitution(object):
     def parse(cls, variable, externals):
         slugs = variable[1:-1].split('|')
 
-        if not slugs[0]:
+        if not slugs[0].strip():
             raise exceptions.WrongDependencyFormatError(dependency=variable)
 
         s = cls()
-- 
2.43.0


From 307f8512ed873048656bebafb46ddfe4d9705644 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:48 +0000
Subject: [PATCH 03/16] fix: do not double percent signs inside markers

---
 utg/templates.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/utg/templates.py b/utg/templates.py
index 359c8b4..27324e9 100644
--- a/utg/templates.py
+++ b/utg/templates.py
@@ -156,15 +156,12 @@ class Template(object):
 
     def parse(self, text, externals):
 
-        text = text.replace('%', '%%')
-
         variables = _VARIABLE_REGEX.findall(text)
 
         for i, variable in enumerate(variables):
             self._substitutions.append(Substitution.parse(variable, externals=externals))
-            text = text.replace(variable, '%s', 1)
 
-        self.template = text
+        self.template = '%s'.join(literal.replace('%', '%%') for literal in _VARIABLE_REGEX.split(text))
 
     def substitute(self, externals, dictionary):
         substitutions = tuple(substitution.get_text(externals=externals, dictionary=dictionary)
-- 
2.43.0


From aa18dd1602ac7be65b8848f1b61e7b467f87885c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:05 +0000
Subject: [PATCH 04/16] fix: parsing a template again replaces its previous
 markers

---
 utg/templates.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/utg/templates.py b/utg/templates.py
index 27324e9..0e7ca3d 100644
--- a/utg/templates.py
+++ b/utg/templates.py
@@ -158,9 +158,12 @@ class Template(object):
 
         variables = _VARIABLE_REGEX.findall(text)
 
+        substitutions = []
+
         for i, variable in enumerate(variables):
-            self._substitutions.append(Substitution.parse(variable, externals=externals))
+            substitutions.append(Substitution.parse(variable, externals=externals))
 
+        self._substitutions = substitutions
         self.template = '%s'.join(literal.replace('%', '%%') for literal in _VARIABLE_REGEX.split(text))
 
     def substitute(self, externals, dictionary):
-- 
2.43.0


From 1354356e7f77f3d34d616903c5fceddcf57e8869 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:06 +0000
Subject: [PATCH 05/16] fix: str() of properties returns text instead of
 raising TypeError

---
 utg/words.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/utg/words.py b/utg/words.py
index 058143c..f71d7cb 100644
--- a/utg/words.py
+++ b/utg/words.py
@@ -58,7 +58,7 @@ class Properties(object):
                                   if property.relation in self._data))
 
     def __str__(self):
-        return self.__unicode__().encode('utf-8')
+        return self.__unicode__()
 
     def __eq__(self, other):
         return (isinstance(other, Properties) and
-- 
2.43.0


From 6ad34dbf690c47db321c3561cbdaab41720da342 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:07 +0000
Subject: [PATCH 06/16] fix: unspecified (empty) forms do not break
 capitalisation and prepositions

---
 utg/transformators.py | 6 +++---
 utg/words.py          | 4 ++--
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/utg/transformators.py b/utg/transformators.py
index cde463a..1539c86 100644
--- a/utg/transformators.py
+++ b/utg/transformators.py
@@ -23,7 +23,7 @@ def _preposition_any(properties, slave_word, master_form):
 
     slave = slave_word.normal_form()
 
-    if slave[-1] in data.CONSONANTS:
+    if slave[-1:] in data.CONSONANTS:
         return _consonant_preposition_any(slave, properties, slave_word, master_form)
 
     return _vowels_preposition_any(slave, properties, slave_word, master_form)
@@ -43,7 +43,7 @@ def _consonant_preposition_any(slave, properties, slave_word, master_form):
 
     # 2) часто после предлогов в и с, если с этих же согласных начинается последующее стечение согласных, например: во власти, во внушении, со слезами, со словами, со страху;
     if (slave in ('в', 'с') and
-        slave == master[0] and
+        slave == master[:1] and
         master_form.starts_with_consonant_cluster):
         return properties.clone(r.PREPOSITION_FORM.ALTERNATIVE)
 
@@ -72,7 +72,7 @@ def _vowels_preposition_any(slave, properties, slave_word, master_form):
         return properties.clone(r.PREPOSITION_FORM.SPECIAL)
 
     # Если существительное начинается на гласную (кроме йотированных), то пишем ОБ: сообщить об отъезде, удариться об асфальт. Это фонетический принцип.
-    if master[0] in data.NOT_J_VOWELS:
+    if master[:1] in data.NOT_J_VOWELS:
         return properties.clone(r.PREPOSITION_FORM.ALTERNATIVE)
 
     # Прелоги участвуют в управлении В.п. или П.п. Для В.п. характерен предлог ОБ: удариться об дерево, об стену,
diff --git a/utg/words.py b/utg/words.py
index f71d7cb..02e1bca 100644
--- a/utg/words.py
+++ b/utg/words.py
@@ -220,7 +220,7 @@ class WordForm(object):
         form = word._form(properties)
 
         if properties.get(r.WORD_CASE).is_UPPER:
-            form = form[0].upper() + form[1:]
+            form = form[:1].upper() + form[1:]
 
         return form
 
@@ -231,7 +231,7 @@ class WordForm(object):
     @utils.lazy_property
     def starts_with_consonant_cluster(self):
         form = self.form
-        return (form[0] in data.CONSONANTS) and (len(form) == 1 or form[1] in data.CONSONANTS)
+        return (form[:1] in data.CONSONANTS) and (len(form) == 1 or form[1] in data.CONSONANTS)
 
 
     def __eq__(self, other):
-- 
2.43.0


From 1b95264ef135014e2a22ed3c9071acb20bbef014 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:07 +0000
Subject: [PATCH 07/16] fix: equal word forms have equal hashes

---
 utg/words.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/utg/words.py b/utg/words.py
index 02e1bca..238dfa8 100644
--- a/utg/words.py
+++ b/utg/words.py
@@ -242,7 +242,7 @@ class WordForm(object):
         return not self.__eq__(other)
 
     def __hash__(self):
-        return hash((self.word, self.form_properties))
+        return hash((self.word, self.properties))
 
 
 _INVERTED_WORDS_CACHES__PROPERTIES = {}
-- 
2.43.0


From 64009b9ee406ca0c5bb2e40c781a03acf835e7a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:08 +0000
Subject: [PATCH 08/16] fix: comparing forms, markers and templates with other
 objects is not an error

---
 utg/templates.py | 6 ++++--
 utg/words.py     | 3 ++-
 2 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/utg/templates.py b/utg/templates.py
index 0e7ca3d..d575aa2 100644
--- a/utg/templates.py
+++ b/utg/templates.py
@@ -116,7 +116,8 @@ class Substitution(object):
         return words.WordForm.get_form(base_form.word, form_properties)
 
     def __eq__(self, other):
-        return (self.id == other.id and
+        return (isinstance(other, Substitution) and
+                self.id == other.id and
                 self.dependencies == other.dependencies)
 
 
@@ -172,5 +173,6 @@ class Template(object):
         return self.template % substitutions
 
     def __eq__(self, other):
-        return (self._substitutions == other._substitutions and
+        return (isinstance(other, Template) and
+                self._substitutions == other._substitutions and
                 self.template == other.template)
diff --git a/utg/words.py b/utg/words.py
index 238dfa8..72868d2 100644
--- a/utg/words.py
+++ b/utg/words.py
@@ -235,7 +235,8 @@ class WordForm(object):
 
 
     def __eq__(self, other):
-        return (self.word == other.word and
+        return (isinstance(other, WordForm) and
+                self.word == other.word and
                 self.properties == other.properties)
 
     def __ne__(self, other):
-- 
2.43.0


From 5c7ddc4b008f2d0e6466862326fd11b534bdd297 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:20 +0000
Subject: [PATCH 09/16] fix: preposition variant does not depend on
 capitalisation of the governed word

---
 utg/transformators.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/utg/transformators.py b/utg/transformators.py
index 1539c86..202e82b 100644
--- a/utg/transformators.py
+++ b/utg/transformators.py
@@ -32,7 +32,7 @@ def _preposition_any(properties, slave_word, master_form):
 def _consonant_preposition_any(slave, properties, slave_word, master_form):
     # http://newforum.gramota.ru/viewtopic.php?f=3&t=1045
 
-    master = master_form.form
+    master = master_form.form.lower()
 
     # 1) перед односложным словом, начинающимся со стечения согласных, с беглым гласным в корне,
     #    например: во сне (ср.: в сновидениях), во рту (ср.: в ртутных испарениях), во льну (ср.: в льнотеребилках), ко мне (ср.: к мнимой величине);
@@ -62,7 +62,7 @@ def _consonant_preposition_any(slave, properties, slave_word, master_form):
 def _vowels_preposition_any(slave, properties, slave_word, master_form):
     # http://russ.hashcode.ru/questions/33493/правописание-предлог-об-и-обо
 
-    master = master_form.form
+    master = master_form.form.lower()
 
     # Прелоги ОБО используется в особых случаях,
     # а именно с некоторыми местоимениями: обо мне, обо всех, обо всём (П.п.), обо что (В.п.), но: о тебе, о других, о чём.
-- 
2.43.0


From 80c3939d3f1890483b28a784c19f1bb5db7bb7ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:20 +0000
Subject: [PATCH 10/16] fix: serialized word does not share its list of forms
 with the word

---
 utg/words.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/utg/words.py b/utg/words.py
index 72868d2..ba1b8b0 100644
--- a/utg/words.py
+++ b/utg/words.py
@@ -92,13 +92,13 @@ class Word(object):
 
     def serialize(self):
         return {'type': self.type.value,
-                'forms': self.forms,
+                'forms': list(self.forms),
                 'properties': self.properties.serialize()}
 
     @classmethod
     def deserialize(cls, data):
         return cls(type=r.WORD_TYPE(data['type']),
-                   forms=data['forms'],
+                   forms=list(data['forms']),
                    properties=Properties.deserialize(data['properties']))
 
     def form(self, properties):
-- 
2.43.0


From bd1b736ed7e8aeb310da949b2bc65e481fd46c48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:44 +0000
Subject: [PATCH 11/16] fix: migration 7 takes full comparative form from a
 full comparative form

---
 utg/migrations/m_0007_reduce_words_forms.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/utg/migrations/m_0007_reduce_words_forms.py b/utg/migrations/m_0007_reduce_words_forms.py
index c8075f0..f1ea1db 100644
--- a/utg/migrations/m_0007_reduce_words_forms.py
+++ b/utg/migrations/m_0007_reduce_words_forms.py
@@ -22,7 +22,10 @@ def migrate_forms(word_data, old_cache, new_cache):
 
 
 def get_nearest_old_index(new_key, old_cache):
-    old_key = logic.get_nearest_key(new_key, list(old_cache.keys()))
+    # a form of another meaning must not be taken while there is a suitable one
+    suitable_keys = [key for key in old_cache
+                     if all(new is None or old is None or old == new for old, new in zip(key, new_key))]
+    old_key = logic.get_nearest_key(new_key, suitable_keys or list(old_cache.keys()))
     return old_cache[old_key]
 
 
-- 
2.43.0


From cf92b97edfb865cd0301bf0ff8fa62824fc13afb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:11 +0000
Subject: [PATCH 12/16] fix: listing dictionary words does not fail while
 another thread adds words

---
 utg/dictionary.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/utg/dictionary.py b/utg/dictionary.py
index 2d1121e..751ad2a 100644
--- a/utg/dictionary.py
+++ b/utg/dictionary.py
@@ -62,4 +62,4 @@ class Dictionary(object):
         return word
 
     def get_words(self):
-        return set(word_form.word for word_form in self._data.values())
+        return set(word_form.word for word_form in list(self._data.values()))
-- 
2.43.0


From ee916d531099d04924d0ae90deb429ecb0f297df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:21 +0000
Subject: [PATCH 13/16] fix: forget values calculated from word forms when
 missed forms are filled

---
 utg/words.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/utg/words.py b/utg/words.py
index ba1b8b0..c098b29 100644
--- a/utg/words.py
+++ b/utg/words.py
@@ -204,6 +204,10 @@ class Word(object):
 
             self.forms[i] = self.forms[data.WORDS_CACHES[self.type][nearest_key]]
 
+        # values below were calculated for forms before filling
+        del self.number_of_syllables
+        del self.has_fluent_vowel
+
 
 
 class WordForm(object):
-- 
2.43.0


From 397f6627055e0a2ffd0e8cfe1099d5f932a329a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:21 +0000
Subject: [PATCH 14/16] fix: text of a word form is current after missed forms
 of its word are filled

---
 utg/words.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/utg/words.py b/utg/words.py
index c098b29..823ff7c 100644
--- a/utg/words.py
+++ b/utg/words.py
@@ -211,7 +211,7 @@ class Word(object):
 
 
 class WordForm(object):
-    __slots__ = ('word', 'properties', 'form_properties', '_lazy__form', '_lazy__starts_with_consonant_cluster')
+    __slots__ = ('word', 'properties', 'form_properties')
 
     def __init__(self, word, properties=None, form_properties=None):
         self.word = word
@@ -228,11 +228,12 @@ class WordForm(object):
 
         return form
 
-    @utils.lazy_property
+    # not lazy, since forms of the word can be changed (see Word.autofill_missed_forms)
+    @property
     def form(self):
         return self.get_form(self.word, self.form_properties)
 
-    @utils.lazy_property
+    @property
     def starts_with_consonant_cluster(self):
         form = self.form
         return (form[:1] in data.CONSONANTS) and (len(form) == 1 or form[1] in data.CONSONANTS)
-- 
2.43.0


From 6c69db2370746092a44635fe3d24bfb9bd42f3d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:37 +0000
Subject: [PATCH 15/16] fix: parsing a text with many unclosed brackets took
 quadratic time

---
 utg/templates.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/utg/templates.py b/utg/templates.py
index d575aa2..e9db9d8 100644
--- a/utg/templates.py
+++ b/utg/templates.py
@@ -157,7 +157,10 @@ class Template(object):
 
     def parse(self, text, externals):
 
-        variables = _VARIABLE_REGEX.findall(text)
+        # no marker begins after the last closing bracket, and searching there for its end takes quadratic time
+        closed = text.rfind(']') + 1
+
+        variables = _VARIABLE_REGEX.findall(text[:closed])
 
         substitutions = []
 
@@ -165,7 +168,9 @@ class Template(object):
             substitutions.append(Substitution.parse(variable, externals=externals))
 
         self._substitutions = substitutions
-        self.template = '%s'.join(literal.replace('%', '%%') for literal in _VARIABLE_REGEX.split(text))
+        literals = _VARIABLE_REGEX.split(text[:closed])
+        literals[-1] += text[closed:]
+        self.template = '%s'.join(literal.replace('%', '%%') for literal in literals)
 
     def substitute(self, externals, dictionary):
         substitutions = tuple(substitution.get_text(externals=externals, dictionary=dictionary)
-- 
2.43.0


From 04aae703c0948b9f5d49f1fa065676f373269def Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:20:00 +0000
Subject: [PATCH 16/16] fix: listing dictionary words: say why the values are
 copied

---
 utg/dictionary.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/utg/dictionary.py b/utg/dictionary.py
index 751ad2a..5ee5ae4 100644
--- a/utg/dictionary.py
+++ b/utg/dictionary.py
@@ -62,4 +62,5 @@ class Dictionary(object):
         return word
 
     def get_words(self):
+        # values are copied at once, since other thread can add words while we iterate
         return set(word_form.word for word_form in list(self._data.values()))
-- 
2.43.0

